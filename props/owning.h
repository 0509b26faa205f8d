// Overwriting data that an object has been made of: the object has its own.
#pragma once
#include "common.h"
#undef READ

namespace entry {

template <class T>
void reading_overwrite(const T& a)
{
    const_cast<T&>(a).fill(0);
}

void reading_overwrite(const Eigen::SparseMatrix<double>& a)
{
    Eigen::SparseMatrix<double> b(a.rows(), a.cols());
    const_cast<Eigen::SparseMatrix<double>&>(a) = b;
}

} // namespace entry
