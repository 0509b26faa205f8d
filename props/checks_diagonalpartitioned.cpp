#include "checks.h"
#include <GooseFEM/MatrixDiagonalPartitioned.h>
#define ARGS const I2 &conn, const I2 &dofs, const I1& iip
#define MADE GooseFEM::MatrixDiagonalPartitioned A(conn, dofs, iip)
#define GIVEN PARTITION
MAKE(make)
CHECK(assemble, A.assemble(e), EMAT(e) vf::require(GooseFEM::Element::isDiagonal(e)), const A3& e)
CHECK(set, A.set(d), DOF(d), const A1& d)
CHECK(todense, A.todense(d), DENSE(d), A2& d)
CHECK(dot_node, A.dot(x, b), NODE(x) NODE(b), const A2& x, A2& b)
CHECK(dot_dof, A.dot(x, b), DOF(x) DOF(b), const A1& x, A1& b)
CHECK(Dot_node, A.Dot(x), NODE(x), const A2& x)
CHECK(Dot_dof, A.Dot(x), DOF(x), const A1& x)
CHECK(dot_u, A.dot_u(u, p, b), DOF_U(u) DOF_P(p) DOF_U(b), const A1& u, const A1& p, A1& b)
CHECK(dot_p, A.dot_p(u, p, b), DOF_U(u) DOF_P(p) DOF_P(b), const A1& u, const A1& p, A1& b)
CHECK(Dot_u, A.Dot_u(u, p), DOF_U(u) DOF_P(p), const A1& u, const A1& p)
CHECK(Dot_p, A.Dot_p(u, p), DOF_U(u) DOF_P(p), const A1& u, const A1& p)
CHECK(solve_node, A.solve(b, x), NODE(b) NODE(x), const A2& b, A2& x)
CHECK(solve_dof, A.solve(b, x), DOF(b) DOF(x), const A1& b, A1& x)
CHECK(Solve_node, A.Solve(b), NODE(b), const A2& b)
CHECK(Solve_dof, A.Solve(b), DOF(b), const A1& b)
CHECK(solve_u, A.solve_u(b, p, u), DOF_U(b) DOF_P(p) DOF_U(u), const A1& b, const A1& p, A1& u)
CHECK(Solve_u, A.Solve_u(b, p), DOF_U(b) DOF_P(p), const A1& b, const A1& p)
CHECK(reac_node, A.reaction(x, b), NODE(x) NODE(b), const A2& x, A2& b)
CHECK(reac_dof, A.reaction(x, b), DOF(x) DOF(b), const A1& x, A1& b)
CHECK(Reac_node, A.Reaction(x, b), NODE(x) NODE(b), const A2& x, const A2& b)
CHECK(Reac_dof, A.Reaction(x, b), DOF(x) DOF(b), const A1& x, const A1& b)
CHECK(reac_p, A.reaction_p(u, p, b), DOF_U(u) DOF_P(p) DOF_P(b), const A1& u, const A1& p, A1& b)
CHECK(Reac_p, A.Reaction_p(u, p), DOF_U(u) DOF_P(p), const A1& u, const A1& p)
