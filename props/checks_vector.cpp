#include "checks.h"
#define ARGS const I2 &conn, const I2 &dofs
#define MADE GooseFEM::Vector v(conn, dofs)
#define GIVEN RANGE
MAKE(make)
CHECK(asDofs_node, v.asDofs(n, d), NODE(n) DOF(d), const A2& n, A1& d)
CHECK(asDofs_elem, v.asDofs(e, d), ELEM(e) DOF(d), const A3& e, A1& d)
CHECK(asNode_dof, v.asNode(d, n), DOF(d) NODE(n), const A1& d, A2& n)
CHECK(asNode_elem, v.asNode(e, n), ELEM(e) NODE(n), const A3& e, A2& n)
CHECK(asElement_dof, v.asElement(d, e), DOF(d) ELEM(e), const A1& d, A3& e)
CHECK(asElement_node, v.asElement(n, e), NODE(n) ELEM(e), const A2& n, A3& e)
CHECK(assembleDofs_node, v.assembleDofs(n, d), NODE(n) DOF(d), const A2& n, A1& d)
CHECK(assembleDofs_elem, v.assembleDofs(e, d), ELEM(e) DOF(d), const A3& e, A1& d)
CHECK(assembleNode_elem, v.assembleNode(e, n), ELEM(e) NODE(n), const A3& e, A2& n)
CHECK(copy, v.copy(a, b), NODE(a) NODE(b), const A2& a, A2& b)
CHECK(AsDofs_node, v.AsDofs(n), NODE(n), const A2& n)
CHECK(AsDofs_elem, v.AsDofs(e), ELEM(e), const A3& e)
CHECK(AsNode_dof, v.AsNode(d), DOF(d), const A1& d)
CHECK(AsNode_elem, v.AsNode(e), ELEM(e), const A3& e)
CHECK(AsElement_dof, v.AsElement(d), DOF(d), const A1& d)
CHECK(AsElement_node, v.AsElement(n), NODE(n), const A2& n)
CHECK(AssembleDofs_node, v.AssembleDofs(n), NODE(n), const A2& n)
CHECK(AssembleDofs_elem, v.AssembleDofs(e), ELEM(e), const A3& e)
CHECK(AssembleNode_elem, v.AssembleNode(e), ELEM(e), const A3& e)
CHECK(Copy, v.Copy(a, b), NODE(a) NODE(b), const A2& a, const A2& b)
