// the obligations of vector.cpp, for objects of which everything has been read before
#include "reading.h"
#include "vector.cpp"
