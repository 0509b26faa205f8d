// the obligations of matrix.cpp, for objects of which everything has been read before
#include "reading.h"
#include "matrix.cpp"
