// the obligations of periodic.cpp, for objects that are made of data that is overwritten afterwards
#include "owning.h"
#define READ(object) reading_overwrite(coor); reading_overwrite(dofs); reading_overwrite(control); reading_overwrite(ties); reading_overwrite(iip)
#include "periodic.cpp"
