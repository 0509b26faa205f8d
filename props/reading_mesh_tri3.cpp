// the obligations of mesh_tri3.cpp, for objects of which everything has been read before
#include "reading.h"
#include "mesh_tri3.cpp"
