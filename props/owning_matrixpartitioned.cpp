// the obligations of matrixpartitioned.cpp, for objects that are made of data that is overwritten afterwards
#include "owning.h"
#define READ(object) reading_overwrite(conn); reading_overwrite(dofs); reading_overwrite(iip); reading_overwrite(elemmat)
#include "matrixpartitioned.cpp"
