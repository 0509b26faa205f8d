// the obligations of matrixtyings.cpp, for objects that are made of data that is overwritten afterwards
#include "owning.h"
#define READ(object) reading_overwrite(conn); reading_overwrite(dofs); reading_overwrite(Cdu); reading_overwrite(Cdp); reading_overwrite(elemmat)
#include "matrixtyings.cpp"
