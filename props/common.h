// Shared by the drivers. A driver holds, per obligation, up to three functions of the same name:
//   pre::f    the documented preconditions (shapes of the inputs),
//   entry::f  a client of the public API of GooseFEM,
//   spec::f   the reference semantics, written as plain loops.
// The drivers are parsed and analysed, never compiled to code nor run.
#pragma once
#include <GooseFEM/GooseFEM.h>
#include <GooseFEM/Matrix.h>
#include <GooseFEM/MatrixPartitioned.h>
#include <GooseFEM/MatrixPartitionedTyings.h>
#include <GooseFEM/TyingsPeriodic.h>
#include <GooseFEM/VectorPartitionedTyings.h>

template <class T, size_t N>
using AT = GooseFEM::array_type::tensor<T, N>;
using A1 = AT<double, 1>;
using A2 = AT<double, 2>;
using A3 = AT<double, 3>;
using A4 = AT<double, 4>;
using A5 = AT<double, 5>;
using A6 = AT<double, 6>;
using I1 = AT<size_t, 1>;
using I2 = AT<size_t, 2>;
using I3 = AT<size_t, 3>;
using B1 = AT<bool, 1>;
using B2 = AT<bool, 2>;
using XD = xt::xarray<double>;

// intrinsics of the analysis (declared only)
namespace vf {
template <class T, class... S>
void shape(const T& a, S... n); // pre: `a` has this shape; spec: (re)shape `a`, content undefined
template <class T>
void assume(const T& c); // pre: this holds
template <class T>
void require(const T& c); // spec: the code has to check this
} // namespace vf

// after an object is made: nothing, or reading operations (see reading.h)
#ifndef READ
#define READ(x)
#endif
