// the obligations of diagonalpartitioned.cpp, for objects of which everything has been read before
#include "reading.h"
#include "diagonalpartitioned.cpp"
