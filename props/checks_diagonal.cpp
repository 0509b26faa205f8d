#include "checks.h"
#include <GooseFEM/MatrixDiagonal.h>
#define ARGS const I2 &conn, const I2 &dofs
#define MADE GooseFEM::MatrixDiagonal A(conn, dofs)
#define GIVEN RANGE
MAKE(make)
CHECK(assemble, A.assemble(e), EMAT(e) vf::require(GooseFEM::Element::isDiagonal(e)), const A3& e)
CHECK(set, A.set(d), DOF(d), const A1& d)
CHECK(todense, A.todense(d), DENSE(d), A2& d)
CHECK(dot_node, A.dot(x, b), NODE(x) NODE(b), const A2& x, A2& b)
CHECK(dot_dof, A.dot(x, b), DOF(x) DOF(b), const A1& x, A1& b)
CHECK(Dot_node, A.Dot(x), NODE(x), const A2& x)
CHECK(Dot_dof, A.Dot(x), DOF(x), const A1& x)
CHECK(solve_node, A.solve(b, x), NODE(b) NODE(x), const A2& b, A2& x)
CHECK(solve_dof, A.solve(b, x), DOF(b) DOF(x), const A1& b, A1& x)
CHECK(Solve_node, A.Solve(b), NODE(b), const A2& b)
CHECK(Solve_dof, A.Solve(b), DOF(b), const A1& b)
