// the obligations of planar.cpp, for objects that are made of data that is overwritten afterwards
#include "owning.h"
#define READ(object) reading_overwrite(x); reading_overwrite(xi); reading_overwrite(w)
#include "planar.cpp"
