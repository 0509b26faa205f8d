// the obligations of mesh_hex8.cpp, for objects of which everything has been read before
#include "reading.h"
#include "mesh_hex8.cpp"
