// the obligations of matrixpartitioned.cpp, for objects of which everything has been read before
#include "reading.h"
#include "matrixpartitioned.cpp"
