#include "checks.h"
#include <GooseFEM/VectorPartitionedTyings.h>
using Sp = Eigen::SparseMatrix<double>;
#define ARGS const I2 &conn, const I2 &dofs, const Sp& Cdu, const Sp& Cdp, const Sp& Cdi
#define MADE GooseFEM::VectorPartitionedTyings v(conn, dofs, Cdu, Cdp, Cdi)
#define NNU size_t(Cdu.cols())
#define NNP size_t(Cdp.cols())
#define NND size_t(Cdp.rows())
#define NNI (NNU + NNP)
#define GIVEN RANGE vf::require(Cdu.rows() == Cdp.rows()); vf::require(Cdi.rows() == Cdp.rows()); vf::require(size_t(Cdi.cols()) == NNI); vf::require(NNI + NND == NDOF);
#define DOF_I(a) vf::require(a.shape(0) == NDOF || a.shape(0) == NNI);
MAKE(make)
CHECK(copy_p, v.copy_p(a, b), DOF_I(a) DOF_I(b), const A1& a, A1& b)
CHECK(asDofs_i, v.asDofs_i(n, d), NODE(n) SIZE(d, NNI), const A2& n, A1& d)
CHECK(AsDofs_i, v.AsDofs_i(n), NODE(n), const A2& n)
