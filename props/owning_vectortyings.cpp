// the obligations of vectortyings.cpp, for objects that are made of data that is overwritten afterwards
#include "owning.h"
#define READ(object) reading_overwrite(conn); reading_overwrite(dofs); reading_overwrite(Cdu); reading_overwrite(Cdp); reading_overwrite(Cdi)
#include "vectortyings.cpp"
