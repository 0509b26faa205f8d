// the obligations of quad4.cpp, for objects that are made of data that is overwritten afterwards
#include "owning.h"
#define READ(object) reading_overwrite(x); reading_overwrite(xi); reading_overwrite(w)
#include "quad4.cpp"
