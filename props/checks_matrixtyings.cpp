#include "checks.h"
#include <GooseFEM/MatrixPartitionedTyings.h>
using Sp = Eigen::SparseMatrix<double>;
#define ARGS const I2 &conn, const I2 &dofs, const Sp& Cdu, const Sp& Cdp
#define MADE GooseFEM::MatrixPartitionedTyings A(conn, dofs, Cdu, Cdp)
#define SOLVER GooseFEM::MatrixPartitionedTyingsSolver<> s
#define NNU size_t(Cdu.cols())
#define NNP size_t(Cdp.cols())
#define NND size_t(Cdp.rows())
#define GIVEN RANGE vf::require(Cdu.rows() == Cdp.rows()); vf::require(NNU + NNP + NND == NDOF);
MAKE(make)
CHECK(assemble, A.assemble(e), EMAT(e), const A3& e)
CHECK(todense, A.todense(d), DENSE(d), A2& d)
CHECK(solve_node, SOLVER; s.solve(A, b, x), NODE(x) NODE(b), const A2& b, A2& x)
CHECK(solve_dof, SOLVER; s.solve(A, b, x), DOF(x) DOF(b), const A1& b, A1& x)
CHECK(Solve_node, SOLVER; s.Solve(A, b, x), NODE(b) NODE(x), const A2& b, const A2& x)
CHECK(Solve_dof, SOLVER; s.Solve(A, b, x), DOF(b) DOF(x), const A1& b, const A1& x)
CHECK(solve_u, SOLVER; s.solve_u(A, b, d, p, u), SIZE(b, NNU) SIZE(d, NND) SIZE(p, NNP) SIZE(u, NNU), const A1& b, const A1& d, const A1& p, A1& u)
CHECK(Solve_u, SOLVER; s.Solve_u(A, b, d, p), SIZE(b, NNU) SIZE(d, NND) SIZE(p, NNP), const A1& b, const A1& d, const A1& p)
