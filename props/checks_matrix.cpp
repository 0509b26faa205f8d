#include "checks.h"
#define ARGS const I2 &conn, const I2 &dofs
#define MADE GooseFEM::Matrix A(conn, dofs)
#define SOLVER GooseFEM::MatrixSolver<> s
#define GIVEN RANGE
#define BLOCK vf::require(rows.shape(0) == m.shape(0)); vf::require(cols.shape(0) == m.shape(1)); \
    vf::require(xt::amax(rows)() < NDOF); vf::require(xt::amax(cols)() < NDOF);
MAKE(make)
CHECK(assemble, A.assemble(e), EMAT(e), const A3& e)
CHECK(todense, A.todense(d), DENSE(d), A2& d)
CHECK(set, A.set(rows, cols, m), BLOCK, const I1& rows, const I1& cols, const A2& m)
CHECK(add, A.add(rows, cols, m), BLOCK, const I1& rows, const I1& cols, const A2& m)
CHECK(dot_node, A.dot(x, b), NODE(x) NODE(b), const A2& x, A2& b)
CHECK(dot_dof, A.dot(x, b), DOF(x) DOF(b), const A1& x, A1& b)
CHECK(Dot_node, A.Dot(x), NODE(x), const A2& x)
CHECK(Dot_dof, A.Dot(x), DOF(x), const A1& x)
CHECK(solve_node, SOLVER; s.solve(A, b, x), NODE(x) NODE(b), const A2& b, A2& x)
CHECK(solve_dof, SOLVER; s.solve(A, b, x), DOF(x) DOF(b), const A1& b, A1& x)
CHECK(Solve_node, SOLVER; s.Solve(A, b), NODE(b), const A2& b)
CHECK(Solve_dof, SOLVER; s.Solve(A, b), DOF(b), const A1& b)
