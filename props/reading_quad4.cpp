// the obligations of quad4.cpp, for objects of which everything has been read before
#include "reading.h"
#include "quad4.cpp"
