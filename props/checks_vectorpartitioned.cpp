#include "checks.h"
#define ARGS const I2 &conn, const I2 &dofs, const I1& iip
#define MADE GooseFEM::VectorPartitioned v(conn, dofs, iip)
#define GIVEN PARTITION
MAKE(make)
CHECK(copy_u, v.copy_u(a, b), NODE(a) NODE(b), const A2& a, A2& b)
CHECK(copy_p, v.copy_p(a, b), NODE(a) NODE(b), const A2& a, A2& b)
CHECK(dofs_up, v.dofsFromParitioned(u, p, d), DOF_U(u) DOF_P(p) DOF(d), const A1& u, const A1& p, A1& d)
CHECK(node_up, v.nodeFromPartitioned(u, p, n), DOF_U(u) DOF_P(p) NODE(n), const A1& u, const A1& p, A2& n)
CHECK(elem_up, v.elementFromPartitioned(u, p, e), DOF_U(u) DOF_P(p) ELEM(e), const A1& u, const A1& p, A3& e)
CHECK(u_dof, v.asDofs_u(d, u), DOF(d) DOF_U(u), const A1& d, A1& u)
CHECK(u_node, v.asDofs_u(n, u), NODE(n) DOF_U(u), const A2& n, A1& u)
CHECK(u_elem, v.asDofs_u(e, u), ELEM(e) DOF_U(u), const A3& e, A1& u)
CHECK(p_dof, v.asDofs_p(d, p), DOF(d) DOF_P(p), const A1& d, A1& p)
CHECK(p_node, v.asDofs_p(n, p), NODE(n) DOF_P(p), const A2& n, A1& p)
CHECK(p_elem, v.asDofs_p(e, p), ELEM(e) DOF_P(p), const A3& e, A1& p)
CHECK(Copy_u, v.Copy_u(a, b), NODE(a) NODE(b), const A2& a, const A2& b)
CHECK(Copy_p, v.Copy_p(a, b), NODE(a) NODE(b), const A2& a, const A2& b)
CHECK(Dofs_up, v.DofsFromParitioned(u, p), DOF_U(u) DOF_P(p), const A1& u, const A1& p)
CHECK(Node_up, v.NodeFromPartitioned(u, p), DOF_U(u) DOF_P(p), const A1& u, const A1& p)
CHECK(Elem_up, v.ElementFromPartitioned(u, p), DOF_U(u) DOF_P(p), const A1& u, const A1& p)
CHECK(U_dof, v.AsDofs_u(d), DOF(d), const A1& d)
CHECK(U_node, v.AsDofs_u(n), NODE(n), const A2& n)
CHECK(U_elem, v.AsDofs_u(e), ELEM(e), const A3& e)
CHECK(P_dof, v.AsDofs_p(d), DOF(d), const A1& d)
CHECK(P_node, v.AsDofs_p(n), NODE(n), const A2& n)
CHECK(P_elem, v.AsDofs_p(e), ELEM(e), const A3& e)
