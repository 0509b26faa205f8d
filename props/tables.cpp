// Predefined quadrature rules, and the default one of each class.
#include "common.h"
#include <GooseFEM/ElementHex8.h>
#include <GooseFEM/ElementQuad4.h>
#include <GooseFEM/ElementQuad4Axisymmetric.h>
#include <GooseFEM/ElementQuad4Planar.h>
namespace Q4 = GooseFEM::Element::Quad4;
namespace H8 = GooseFEM::Element::Hex8;

namespace pre {
void def(const A3& x) { vf::shape(x, x.shape(0), 4, 2); }
void hex(const A3& x) { vf::shape(x, x.shape(0), 8, 3); }
void quad4_dV(const A3& x) { def(x); }
void quad4_grad(const A3& x) { def(x); }
void quad4_N(const A3& x, const A3& v) { def(x); vf::shape(v, x.shape(0), 4, 2); }
void planar_dV(const A3& x, double h) { def(x); }
void planar1_dV(const A3& x) { def(x); }
void planar_grad(const A3& x, double h) { def(x); }
void planar_N(const A3& x, const A3& v) { def(x); vf::shape(v, x.shape(0), 4, 2); }
void axisym_dV(const A3& x) { def(x); }
void axisym_N(const A3& x, const A3& v) { def(x); vf::shape(v, x.shape(0), 4, 2); }
void hex8_dV(const A3& x) { hex(x); }
void hex8_grad(const A3& x) { hex(x); }
void hex8_N(const A3& x, const A3& v) { hex(x); vf::shape(v, x.shape(0), 8, 3); }
} // namespace pre

namespace entry {
#define RULE(c, R) \
    size_t nip_##c() { return R::nip(); } \
    A2 xi_##c() { return R::xi(); } \
    A1 w_##c() { return R::w(); }
RULE(quad4_gauss, Q4::Gauss)
RULE(quad4_nodal, Q4::Nodal)
RULE(quad4_mid, Q4::MidPoint)
RULE(hex8_gauss, H8::Gauss)
RULE(hex8_nodal, H8::Nodal)
A2 quad4_dV(const A3& x) { Q4::Quadrature el(x); return el.dV(); }
A4 quad4_grad(const A3& x) { Q4::Quadrature el(x); return el.GradN(); }
A3 quad4_N(const A3& x, const A3& v) { Q4::Quadrature el(x); return el.InterpQuad_vector(v); }
A2 planar_dV(const A3& x, double h) { Q4::QuadraturePlanar el(x, h); return el.dV(); }
A2 planar1_dV(const A3& x) { Q4::QuadraturePlanar el(x); return el.dV(); }
A4 planar_grad(const A3& x, double h) { Q4::QuadraturePlanar el(x, h); return el.GradN(); }
A3 planar_N(const A3& x, const A3& v) { Q4::QuadraturePlanar el(x); return el.InterpQuad_vector(v); }
A2 axisym_dV(const A3& x) { Q4::QuadratureAxisymmetric el(x); return el.dV(); }
A3 axisym_N(const A3& x, const A3& v) { Q4::QuadratureAxisymmetric el(x); return el.InterpQuad_vector(v); }
A2 hex8_dV(const A3& x) { H8::Quadrature el(x); return el.dV(); }
A4 hex8_grad(const A3& x) { H8::Quadrature el(x); return el.GradN(); }
A3 hex8_N(const A3& x, const A3& v) { H8::Quadrature el(x); return el.InterpQuad_vector(v); }
} // namespace entry

namespace spec {
inline double node(size_t m, size_t i)
{
    if (i == 0) {
        return (m % 4 == 1 || m % 4 == 2) ? 1.0 : -1.0;
    }
    if (i == 1) {
        return (m % 4 >= 2) ? 1.0 : -1.0;
    }
    return m >= 4 ? 1.0 : -1.0;
}
// points at s times the nodes of the unit cell, equal weights that add up to its volume
inline A2 points(size_t n, size_t d, double s)
{
    A2 ret;
    vf::shape(ret, n, d);
    for (size_t q = 0; q < n; ++q) {
        for (size_t i = 0; i < d; ++i) {
            ret(q, i) = s * node(q, i);
        }
    }
    return ret;
}
inline A1 weights(size_t n, double volume)
{
    A1 ret;
    vf::shape(ret, n);
    for (size_t q = 0; q < n; ++q) {
        ret(q) = volume / static_cast<double>(n);
    }
    return ret;
}
#define SPEC(c, n, d, s, v) \
    size_t nip_##c() { return n; } \
    A2 xi_##c() { return points(n, d, s); } \
    A1 w_##c() { return weights(n, v); }
SPEC(quad4_gauss, 4, 2, 1.0 / std::sqrt(3.0), 4.0)
SPEC(quad4_nodal, 4, 2, 1.0, 4.0)
SPEC(quad4_mid, 1, 2, 0.0, 4.0)
SPEC(hex8_gauss, 8, 3, 1.0 / std::sqrt(3.0), 8.0)
SPEC(hex8_nodal, 8, 3, 1.0, 8.0)
#define XW4 xi_quad4_gauss(), w_quad4_gauss()
#define XW8 xi_hex8_gauss(), w_hex8_gauss()
A2 quad4_dV(const A3& x) { Q4::Quadrature el(x, XW4); return el.dV(); }
A4 quad4_grad(const A3& x) { Q4::Quadrature el(x, XW4); return el.GradN(); }
A3 quad4_N(const A3& x, const A3& v) { Q4::Quadrature el(x, XW4); return el.InterpQuad_vector(v); }
A2 planar_dV(const A3& x, double h) { Q4::QuadraturePlanar el(x, XW4, h); return el.dV(); }
A2 planar1_dV(const A3& x) { Q4::QuadraturePlanar el(x, XW4, 1.0); return el.dV(); }
A4 planar_grad(const A3& x, double h) { Q4::QuadraturePlanar el(x, XW4, h); return el.GradN(); }
A3 planar_N(const A3& x, const A3& v) { Q4::QuadraturePlanar el(x, XW4, 1.0); return el.InterpQuad_vector(v); }
A2 axisym_dV(const A3& x) { Q4::QuadratureAxisymmetric el(x, XW4); return el.dV(); }
A3 axisym_N(const A3& x, const A3& v) { Q4::QuadratureAxisymmetric el(x, XW4); return el.InterpQuad_vector(v); }
A2 hex8_dV(const A3& x) { H8::Quadrature el(x, XW8); return el.dV(); }
A4 hex8_grad(const A3& x) { H8::Quadrature el(x, XW8); return el.GradN(); }
A3 hex8_N(const A3& x, const A3& v) { H8::Quadrature el(x, XW8); return el.InterpQuad_vector(v); }
} // namespace spec
