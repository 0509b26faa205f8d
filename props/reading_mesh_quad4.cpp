// the obligations of mesh_quad4.cpp, for objects of which everything has been read before
#include "reading.h"
#include "mesh_quad4.cpp"
