// the obligations of periodic.cpp, for objects of which everything has been read before
#include "reading.h"
#include "periodic.cpp"
