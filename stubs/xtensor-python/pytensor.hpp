// For type checking only: arrays shared with Python are plain arrays.
#pragma once
#include <xtensor/xtensor.hpp>
#include <xtensor/xarray.hpp>
namespace xt {
template <class T, size_t N> using pytensor = xt::xtensor<T, N>;
template <class T> using pyarray = xt::xarray<T>;
void import_numpy();
} // namespace xt
