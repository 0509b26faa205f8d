// the obligations of matrixtyings.cpp, for objects of which everything has been read before
#include "reading.h"
#include "matrixtyings.cpp"
