// Sizes, shapes and allocation.
#include "common.h"
#include <GooseFEM/ElementHex8.h>
#include <GooseFEM/ElementQuad4.h>
#include <GooseFEM/ElementQuad4Axisymmetric.h>
#include <GooseFEM/ElementQuad4Planar.h>
namespace Q4 = GooseFEM::Element::Quad4;
namespace H8 = GooseFEM::Element::Hex8;
using S1 = std::array<size_t, 1>;
using S2 = std::array<size_t, 2>;
using S3 = std::array<size_t, 3>;
using S4 = std::array<size_t, 4>;

#define MESH const I2 &conn, const I2 &dofs
#define GEOM const A3 &x, const A2 &xi, const A1 &w
#define SIZES size_t E = conn.shape(0), M = conn.shape(1), D = dofs.shape(1), N = xt::amax(dofs)() + 1, P = dofs.shape(0);

namespace pre {
void common(MESH, const A2& qscalar, const A1& a1, const A2& a2, const A3& a3)
{
    vf::shape(conn, conn.shape(0), conn.shape(1));
    vf::shape(dofs, dofs.shape(0), dofs.shape(1));
    vf::shape(a1, a1.shape(0));
    vf::shape(a2, a2.shape(0), a2.shape(1));
    vf::shape(a3, a3.shape(0), a3.shape(1), a3.shape(2));
}
#define G4 \
    vf::shape(x, x.shape(0), 4, 2); \
    vf::shape(xi, w.size(), 2);
#define G8 \
    vf::shape(x, x.shape(0), 8, 3); \
    vf::shape(xi, w.size(), 3);
#define EACH(c, G) \
    void c##_elemvec(GEOM) { G } \
    void c##_elemvec_n(GEOM, size_t n) { G } \
    void c##_elemmat(GEOM) { G } \
    void c##_q0(GEOM) { G } \
    void c##_q1(GEOM) { G } \
    void c##_q2(GEOM) { G } \
    void c##_q2__dyn(GEOM) { G } \
    void c##_q2_n(GEOM, size_t n) { G } \
    void c##_qvector_n(GEOM, size_t n) { G } \
    void c##_a_elemvec(GEOM, double val) { G } \
    void c##_a_elemmat(GEOM, double val) { G } \
    void c##_a_q0(GEOM, double val) { G } \
    void c##_a_q2(GEOM, double val) { G } \
    void c##_sizes(GEOM) { G } \
    void c##_as2(GEOM, const A2& qscalar) { G vf::shape(qscalar, x.shape(0), w.size()); }
EACH(quad4, G4)
EACH(planar, G4)
EACH(axisym, G4)
EACH(hex8, G8)
} // namespace pre

namespace entry {
#define V GooseFEM::Vector v(conn, dofs)
S1 v_shape_dofval(MESH) { V; return v.shape_dofval(); }
S2 v_shape_nodevec(MESH) { V; return v.shape_nodevec(); }
S3 v_shape_elemvec(MESH) { V; return v.shape_elemvec(); }
S3 v_shape_elemmat(MESH) { V; return v.shape_elemmat(); }
S1 v_dofval(MESH) { V; auto r = v.allocate_dofval(); return {r.shape(0)}; }
S2 v_nodevec(MESH) { V; auto r = v.allocate_nodevec(); return {r.shape(0), r.shape(1)}; }
S3 v_elemvec(MESH) { V; auto r = v.allocate_elemvec(); return {r.shape(0), r.shape(1), r.shape(2)}; }
S3 v_elemmat(MESH) { V; auto r = v.allocate_elemmat(); return {r.shape(0), r.shape(1), r.shape(2)}; }
A1 v_dofval_val(MESH, double val) { V; return v.allocate_dofval(val); }
A2 v_nodevec_val(MESH, double val) { V; return v.allocate_nodevec(val); }
A3 v_elemvec_val(MESH, double val) { V; return v.allocate_elemvec(val); }
A3 v_elemmat_val(MESH, double val) { V; return v.allocate_elemmat(val); }
size_t v_nelem(MESH) { V; return v.nelem(); }
size_t v_nne(MESH) { V; return v.nne(); }
size_t v_nnode(MESH) { V; return v.nnode(); }
size_t v_ndim(MESH) { V; return v.ndim(); }
size_t v_ndof(MESH) { V; return v.ndof(); }

#define EL(Q) Q el(x, xi, w)
#define EACH_E(c, Q, T) \
    S3 c##_elemvec(GEOM) { EL(Q); return el.shape_elemvec(); } \
    S3 c##_elemvec_n(GEOM, size_t n) { EL(Q); return el.shape_elemvec(n); } \
    S3 c##_elemmat(GEOM) { EL(Q); return el.shape_elemmat(); } \
    S2 c##_q0(GEOM) { EL(Q); return el.shape_qscalar(); } \
    S3 c##_q1(GEOM) { EL(Q); return el.shape_qvector(); } \
    S4 c##_q2(GEOM) { EL(Q); return el.shape_qtensor<2>(); } \
    S4 c##_q2__dyn(GEOM) { EL(Q); auto r = el.shape_qtensor(2); return {r[0], r[1], r[2], r[3]}; } \
    S4 c##_q2_n(GEOM, size_t n) { EL(Q); return el.shape_qtensor<2>(2, n); } \
    S3 c##_qvector_n(GEOM, size_t n) { EL(Q); return el.shape_qvector(n); } \
    A3 c##_a_elemvec(GEOM, double val) { EL(Q); return el.allocate_elemvec<double>(val); } \
    A3 c##_a_elemmat(GEOM, double val) { EL(Q); return el.allocate_elemmat<double>(val); } \
    A2 c##_a_q0(GEOM, double val) { EL(Q); return el.allocate_qscalar<double>(val); } \
    A4 c##_a_q2(GEOM, double val) { EL(Q); return el.allocate_qtensor<2, double>(val); } \
    A4 c##_as2(GEOM, const A2& qscalar) { EL(Q); return el.AsTensor<2>(qscalar); }
EACH_E(quad4, Q4::Quadrature, 2)
EACH_E(planar, Q4::QuadraturePlanar, 3)
EACH_E(axisym, Q4::QuadratureAxisymmetric, 3)
EACH_E(hex8, H8::Quadrature, 3)

A3 tensor_1_2(const A1& a1, size_t n) { return GooseFEM::AsTensor<2>(a1, n); }
A4 tensor_2_2(const A2& a2, size_t n) { return GooseFEM::AsTensor<2>(a2, n); }
A4 tensor_2_2__dyn(const A2& a2, size_t n) { return GooseFEM::AsTensor(2, a2, n); }
A3 tensor_2_1(const A2& a2, size_t n) { std::array<size_t, 1> s = {n}; return GooseFEM::AsTensor(a2, s); }
A5 tensor_3_2(const A3& a3, size_t n) { return GooseFEM::AsTensor<2>(a3, n); }
A2 as3d_1(const A2& a2) { return GooseFEM::as3d(a2); }
A2 as3d_2(const A2& a2) { return GooseFEM::as3d(a2); }
A2 as3d_3(const A2& a2) { return GooseFEM::as3d(a2); }
} // namespace entry
namespace pre {
void as3d_1(const A2& a2) { vf::shape(a2, a2.shape(0), 1); }
void as3d_2(const A2& a2) { vf::shape(a2, a2.shape(0), 2); }
void as3d_3(const A2& a2) { vf::shape(a2, a2.shape(0), 3); }
} // namespace pre

namespace spec {
S1 v_shape_dofval(MESH) { SIZES; return {N}; }
S2 v_shape_nodevec(MESH) { SIZES; return {P, D}; }
S3 v_shape_elemvec(MESH) { SIZES; return {E, M, D}; }
S3 v_shape_elemmat(MESH) { SIZES; return {E, M * D, M * D}; }
S1 v_dofval(MESH) { SIZES; return {N}; }
S2 v_nodevec(MESH) { SIZES; return {P, D}; }
S3 v_elemvec(MESH) { SIZES; return {E, M, D}; }
S3 v_elemmat(MESH) { SIZES; return {E, M * D, M * D}; }
A1 v_dofval_val(MESH, double val) { SIZES; A1 r; vf::shape(r, N); r.fill(val); return r; }
A2 v_nodevec_val(MESH, double val) { SIZES; A2 r; vf::shape(r, P, D); r.fill(val); return r; }
A3 v_elemvec_val(MESH, double val) { SIZES; A3 r; vf::shape(r, E, M, D); r.fill(val); return r; }
A3 v_elemmat_val(MESH, double val) { SIZES; A3 r; vf::shape(r, E, M * D, M * D); r.fill(val); return r; }
size_t v_nelem(MESH) { return conn.shape(0); }
size_t v_nne(MESH) { return conn.shape(1); }
size_t v_nnode(MESH) { return dofs.shape(0); }
size_t v_ndim(MESH) { return dofs.shape(1); }
size_t v_ndof(MESH) { return xt::amax(dofs)() + 1; }
#define NE x.shape(0)
#define NQ w.size()
#define EACH_S(c, M, D, T) \
    S3 c##_elemvec(GEOM) { return {NE, M, D}; } \
    S3 c##_elemvec_n(GEOM, size_t n) { return {NE, M, n}; } \
    S3 c##_elemmat(GEOM) { return {NE, M * D, M * D}; } \
    S2 c##_q0(GEOM) { return {NE, NQ}; } \
    S3 c##_q1(GEOM) { return {NE, NQ, T}; } \
    S4 c##_q2(GEOM) { return {NE, NQ, T, T}; } \
    S4 c##_q2_n(GEOM, size_t n) { return {NE, NQ, n, n}; } \
    S3 c##_qvector_n(GEOM, size_t n) { return {NE, NQ, n}; } \
    A3 c##_a_elemvec(GEOM, double val) { A3 r; vf::shape(r, NE, M, D); r.fill(val); return r; } \
    A3 c##_a_elemmat(GEOM, double val) { A3 r; vf::shape(r, NE, M * D, M * D); r.fill(val); return r; } \
    A2 c##_a_q0(GEOM, double val) { A2 r; vf::shape(r, NE, NQ); r.fill(val); return r; } \
    A4 c##_a_q2(GEOM, double val) { A4 r; vf::shape(r, NE, NQ, T, T); r.fill(val); return r; } \
    A4 c##_as2(GEOM, const A2& qscalar) { A4 r; vf::shape(r, NE, NQ, T, T); for (size_t e = 0; e < NE; ++e) for (size_t q = 0; q < NQ; ++q) for (size_t i = 0; i < T; ++i) for (size_t j = 0; j < T; ++j) r(e, q, i, j) = qscalar(e, q); return r; }
EACH_S(quad4, 4, 2, 2)
EACH_S(planar, 4, 2, 3)
EACH_S(axisym, 4, 2, 3)
EACH_S(hex8, 8, 3, 3)
#define FOR(i, n) for (size_t i = 0; i < n; ++i)
A3 tensor_1_2(const A1& a1, size_t n)
{
    A3 r;
    vf::shape(r, a1.shape(0), n, n);
    FOR(i, a1.shape(0)) FOR(k, n) FOR(l, n) r(i, k, l) = a1(i);
    return r;
}
A4 tensor_2_2(const A2& a2, size_t n)
{
    A4 r;
    vf::shape(r, a2.shape(0), a2.shape(1), n, n);
    FOR(i, a2.shape(0)) FOR(j, a2.shape(1)) FOR(k, n) FOR(l, n) r(i, j, k, l) = a2(i, j);
    return r;
}
A3 tensor_2_1(const A2& a2, size_t n)
{
    A3 r;
    vf::shape(r, a2.shape(0), a2.shape(1), n);
    FOR(i, a2.shape(0)) FOR(j, a2.shape(1)) FOR(k, n) r(i, j, k) = a2(i, j);
    return r;
}
A5 tensor_3_2(const A3& a3, size_t n)
{
    A5 r;
    vf::shape(r, a3.shape(0), a3.shape(1), a3.shape(2), n, n);
    FOR(i, a3.shape(0)) FOR(j, a3.shape(1)) FOR(m, a3.shape(2)) FOR(k, n) FOR(l, n) r(i, j, m, k, l) = a3(i, j, m);
    return r;
}
#define AS3(d) \
    A2 as3d_##d(const A2& a2) \
    { \
        A2 r; \
        vf::shape(r, a2.shape(0), 3); \
        FOR(i, a2.shape(0)) FOR(j, 3) r(i, j) = j < d ? a2(i, j < d ? j : 0) : 0.0; \
        return r; \
    }
AS3(1)
AS3(2)
AS3(3)
} // namespace spec
