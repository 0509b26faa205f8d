#include "checks.h"
#define ARGS const I2 &conn, const I2 &dofs, const I1& iip
#define MADE GooseFEM::MatrixPartitioned A(conn, dofs, iip)
#define SOLVER GooseFEM::MatrixPartitionedSolver<> s
#define GIVEN PARTITION
#define BLOCK vf::require(rows.shape(0) == m.shape(0)); vf::require(cols.shape(0) == m.shape(1)); \
    vf::require(xt::amax(rows)() < NDOF); vf::require(xt::amax(cols)() < NDOF);
MAKE(make)
CHECK(assemble, A.assemble(e), EMAT(e), const A3& e)
CHECK(todense, A.todense(d), DENSE(d), A2& d)
CHECK(set, A.set(rows, cols, m), BLOCK, const I1& rows, const I1& cols, const A2& m)
CHECK(add, A.add(rows, cols, m), BLOCK, const I1& rows, const I1& cols, const A2& m)
CHECK(dot_node, A.dot(x, b), NODE(x) NODE(b), const A2& x, A2& b)
CHECK(dot_dof, A.dot(x, b), DOF(x) DOF(b), const A1& x, A1& b)
CHECK(Dot_node, A.Dot(x), NODE(x), const A2& x)
CHECK(Dot_dof, A.Dot(x), DOF(x), const A1& x)
CHECK(reac_node, A.reaction(x, b), NODE(x) NODE(b), const A2& x, A2& b)
CHECK(reac_dof, A.reaction(x, b), DOF(x) DOF(b), const A1& x, A1& b)
CHECK(Reac_node, A.Reaction(x, b), NODE(x) NODE(b), const A2& x, const A2& b)
CHECK(Reac_dof, A.Reaction(x, b), DOF(x) DOF(b), const A1& x, const A1& b)
CHECK(reac_p, A.reaction_p(u, p, b), DOF_U(u) DOF_P(p) DOF_P(b), const A1& u, const A1& p, A1& b)
CHECK(Reac_p, A.Reaction_p(u, p), DOF_U(u) DOF_P(p), const A1& u, const A1& p)
CHECK(solve_node, SOLVER; s.solve(A, b, x), NODE(x) NODE(b), const A2& b, A2& x)
CHECK(solve_dof, SOLVER; s.solve(A, b, x), DOF(x) DOF(b), const A1& b, A1& x)
CHECK(Solve_node, SOLVER; s.Solve(A, b, x), NODE(b) NODE(x), const A2& b, const A2& x)
CHECK(Solve_dof, SOLVER; s.Solve(A, b, x), DOF(b) DOF(x), const A1& b, const A1& x)
CHECK(solve_u, SOLVER; s.solve_u(A, b, p, u), DOF_U(b) DOF_P(p) DOF_U(u), const A1& b, const A1& p, A1& u)
CHECK(Solve_u, SOLVER; s.Solve_u(A, b, p), DOF_U(b) DOF_P(p), const A1& b, const A1& p)
