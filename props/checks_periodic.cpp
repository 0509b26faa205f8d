#include "checks.h"
#include <GooseFEM/TyingsPeriodic.h>
#define ARGS const A2 &coor, const I2 &dofs, const I2 &control, const I2 &ties, const I1 &iip
#define MADE GooseFEM::Tyings::Periodic t(coor, dofs, control, ties, iip)
#define GIVEN \
    NODE(coor) SHAPE(control, dofs.shape(1), dofs.shape(1)) vf::require(ties.shape(1) == 2); \
    vf::require(xt::amax(control)() <= xt::amax(dofs)()); vf::require(xt::amin(control)() >= xt::amin(dofs)()); \
    vf::require(xt::amax(iip)() <= xt::amax(dofs)()); vf::require(xt::amin(iip)() >= xt::amin(dofs)()); \
    vf::require(xt::amax(ties)() < coor.shape(0)); \
    vf::require(GooseFEM::is_unique(iip)); \
    I2 dep; vf::shape(dep, ties.shape(0), dofs.shape(1)); \
    for (size_t k = 0; k < ties.shape(0); ++k) for (size_t i = 0; i < dofs.shape(1); ++i) dep(k, i) = dofs(ties(k, 1), i); \
    I1 iid = xt::flatten(dep); \
    vf::require(GooseFEM::is_unique(iid))
MAKE(make)
#undef ARGS
#undef MADE
#undef GIVEN
#define ARGS const A2 &coor, const I2 &dofs
#define MADE GooseFEM::Tyings::Control t(coor, dofs)
#define GIVEN NODE(coor)
MAKE(control)
