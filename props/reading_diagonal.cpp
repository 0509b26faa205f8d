// the obligations of diagonal.cpp, for objects of which everything has been read before
#include "reading.h"
#include "diagonal.cpp"
