// Obligations shared by the element drivers. The driver defines
//   NNE, ND, TD   numbers of nodes, of dimensions, of tensor dimensions
//   Q             the class
//   THICK         the constructor takes a thickness
//   AXI           axisymmetric: tensor indices (r, t, z), x(:, 0) = z, x(:, 1) = r
//   GRADN         GradN() exists
//   FREE          interpQuad_vector takes vectors of any dimension
#pragma once
#include "common.h"

#ifdef THICK
#define GIVEN const A3 &x, const A2 &xi, const A1 &w, double thick
#define MAKE Q el(x, xi, w, thick); READ(el)
#define PASS x, xi, w, thick
#else
#define GIVEN const A3 &x, const A2 &xi, const A1 &w
#define MAKE Q el(x, xi, w); READ(el)
#define PASS x, xi, w
#endif
#ifndef FREE
#define VDIM ND
#else
#define VDIM elemvec.shape(2)
#endif

namespace pre {
void common(GIVEN, const A3& x0, const A2& qscalar, const A4& sig, const A6& C, const A3& qvector)
{
    vf::shape(x, x.shape(0), NNE, ND);
    vf::shape(x0, x.shape(0), NNE, ND);
    vf::shape(xi, w.size(), ND);
    vf::shape(qscalar, x.shape(0), w.size());
    vf::shape(sig, x.shape(0), w.size(), TD, TD);
    vf::shape(C, x.shape(0), w.size(), TD, TD, TD, TD);
    vf::shape(qvector, x.shape(0), w.size(), qvector.shape(2));
}
#define SELF(f) \
    void f(GIVEN, const A3& elemvec) \
    { \
        vf::shape(x, x.shape(0), NNE, ND); \
        vf::shape(xi, w.size(), ND); \
        vf::shape(elemvec, x.shape(0), NNE, ND); \
    }
SELF(gradN)
SELF(gradN_T)
SELF(symGradN)
void interp(GIVEN, const A3& elemvec)
{
    vf::shape(x, x.shape(0), NNE, ND);
    vf::shape(xi, w.size(), ND);
    vf::shape(elemvec, x.shape(0), NNE, VDIM);
}
void weights(const A3& x) { vf::shape(x, x.shape(0), NNE, ND); }
void gauss(const A3& x) { vf::shape(x, x.shape(0), NNE, ND); }
} // namespace pre

namespace entry {
size_t nelem(GIVEN) { MAKE; return el.nelem(); }
size_t nne(GIVEN) { MAKE; return el.nne(); }
size_t ndim(GIVEN) { MAKE; return el.ndim(); }
size_t tdim(GIVEN) { MAKE; return el.tdim(); }
size_t nip(GIVEN) { MAKE; return el.nip(); }

A2 dV(GIVEN) { MAKE; return el.dV(); }
A2 dV__update(GIVEN, const A3& x0) {
#ifdef THICK
    Q el(x0, xi, w, thick);
#else
    Q el(x0, xi, w);
#endif
    READ(el); el.update_x(x); return el.dV(); }
#ifdef GRADN
A4 gradients(GIVEN) { MAKE; return el.GradN(); }
A4 gradients__update(GIVEN, const A3& x0) {
#ifdef THICK
    Q el(x0, xi, w, thick);
#else
    Q el(x0, xi, w);
#endif
    READ(el); el.update_x(x); return el.GradN(); }
#endif
#ifdef AXI
A6 gradients(GIVEN) { MAKE; return el.B(); }
A6 gradients__update(GIVEN, const A3& x0) { Q el(x0, xi, w); READ(el); el.update_x(x); return el.B(); }
#endif

A3 interp(GIVEN, const A3& elemvec) { MAKE; return el.InterpQuad_vector(elemvec); }
A3 interp__inplace(GIVEN, const A3& elemvec) { MAKE; A3 ret; vf::shape(ret, x.shape(0), w.size(), VDIM); el.interpQuad_vector(elemvec, ret); return ret; }
#define TEN2 A4 ret; vf::shape(ret, x.shape(0), w.size(), TD, TD)
A4 gradN(GIVEN, const A3& elemvec) { MAKE; return el.GradN_vector(elemvec); }
A4 gradN__inplace(GIVEN, const A3& elemvec) { MAKE; TEN2; el.gradN_vector(elemvec, ret); return ret; }
A4 gradN_T(GIVEN, const A3& elemvec) { MAKE; return el.GradN_vector_T(elemvec); }
A4 gradN_T__inplace(GIVEN, const A3& elemvec) { MAKE; TEN2; el.gradN_vector_T(elemvec, ret); return ret; }
A4 symGradN(GIVEN, const A3& elemvec) { MAKE; return el.SymGradN_vector(elemvec); }
A4 symGradN__inplace(GIVEN, const A3& elemvec) { MAKE; TEN2; el.symGradN_vector(elemvec, ret); return ret; }

#define VEC(n) A3 ret; vf::shape(ret, x.shape(0), NNE, n)
#define MAT A3 ret; vf::shape(ret, x.shape(0), NNE * ND, NNE * ND)
A3 int_N_vector(GIVEN, const A3& qvector) { MAKE; return el.Int_N_vector_dV(qvector); }
A3 int_N_vector__inplace(GIVEN, const A3& qvector) { MAKE; VEC(qvector.shape(2)); el.int_N_vector_dV(qvector, ret); return ret; }
A3 int_N_scalar_NT(GIVEN, const A2& qscalar) { MAKE; return el.Int_N_scalar_NT_dV(qscalar); }
A3 int_N_scalar_NT__inplace(GIVEN, const A2& qscalar) { MAKE; MAT; el.int_N_scalar_NT_dV(qscalar, ret); return ret; }
A3 int_tensor2(GIVEN, const A4& sig) { MAKE; return el.Int_gradN_dot_tensor2_dV(sig); }
A3 int_tensor2__inplace(GIVEN, const A4& sig) { MAKE; VEC(ND); el.int_gradN_dot_tensor2_dV(sig, ret); return ret; }
A3 int_tensor4(GIVEN, const A6& C) { MAKE; return el.Int_gradN_dot_tensor4_dot_gradNT_dV(C); }
A3 int_tensor4__inplace(GIVEN, const A6& C) { MAKE; MAT; el.int_gradN_dot_tensor4_dot_gradNT_dV(C, ret); return ret; }
} // namespace entry

namespace spec {
// position of node m in the unit cell
inline double node(size_t m, size_t i)
{
    if (i == 0) {
        return (m % 4 == 1 || m % 4 == 2) ? 1.0 : -1.0;
    }
    if (i == 1) {
        return (m % 4 >= 2) ? 1.0 : -1.0;
    }
    return m >= 4 ? 1.0 : -1.0;
}
#ifndef SHAPE
// N(m) = prod_i (1 + X(m, i) xi(i)) / 2
#define SHAPE \
    A2 N; \
    vf::shape(N, w.size(), NNE); \
    for (size_t q = 0; q < w.size(); ++q) { \
        for (size_t m = 0; m < NNE; ++m) { \
            double v = 1.0; \
            for (size_t i = 0; i < ND; ++i) { \
                v = v * 0.5 * (1.0 + node(m, i) * xi(q, i)); \
            } \
            N(q, m) = v; \
        } \
    }
#define DSHAPE \
    A3 dN; \
    vf::shape(dN, w.size(), NNE, ND); \
    for (size_t q = 0; q < w.size(); ++q) { \
        for (size_t m = 0; m < NNE; ++m) { \
            for (size_t d = 0; d < ND; ++d) { \
                double v = 0.5 * node(m, d); \
                for (size_t i = 0; i < ND; ++i) { \
                    if (i != d) { \
                        v = v * 0.5 * (1.0 + node(m, i) * xi(q, i)); \
                    } \
                } \
                dN(q, m, d) = v; \
            } \
        } \
    }
#endif
#ifdef THICK
#define VOLUME det * w(q) * thick
#elif defined(AXI)
#define VOLUME det * w(q) * 2.0 * M_PI * r
#else
#define VOLUME det * w(q)
#endif
#if ND == 2
#define INVERSE \
    double det = J(0, 0) * J(1, 1) - J(0, 1) * J(1, 0); \
    A2 I; \
    vf::shape(I, 2, 2); \
    I(0, 0) = J(1, 1) / det; \
    I(0, 1) = -J(0, 1) / det; \
    I(1, 0) = -J(1, 0) / det; \
    I(1, 1) = J(0, 0) / det
#else
#define INVERSE \
    double det = J(0, 0) * (J(1, 1) * J(2, 2) - J(1, 2) * J(2, 1)) - J(0, 1) * (J(1, 0) * J(2, 2) - J(1, 2) * J(2, 0)) + \
                 J(0, 2) * (J(1, 0) * J(2, 1) - J(1, 1) * J(2, 0)); \
    A2 I; \
    vf::shape(I, 3, 3); \
    for (size_t i = 0; i < 3; ++i) { \
        for (size_t j = 0; j < 3; ++j) { \
            I(j, i) = (J((i + 1) % 3, (j + 1) % 3) * J((i + 2) % 3, (j + 2) % 3) - \
                       J((i + 1) % 3, (j + 2) % 3) * J((i + 2) % 3, (j + 1) % 3)) / det; \
        } \
    }
#endif
// J(i, j) = dx(j) / dxi(i);  dN/dx(i) = J^{-1}(i, j) dN/dxi(j)
#define GEOM \
    SHAPE \
    DSHAPE \
    A2 vol; \
    A4 G; \
    A2 rad; \
    vf::shape(vol, x.shape(0), w.size()); \
    vf::shape(rad, x.shape(0), w.size()); \
    vf::shape(G, x.shape(0), w.size(), NNE, ND); \
    for (size_t e = 0; e < x.shape(0); ++e) { \
        for (size_t q = 0; q < w.size(); ++q) { \
            A2 J; \
            vf::shape(J, ND, ND); \
            for (size_t i = 0; i < ND; ++i) { \
                for (size_t j = 0; j < ND; ++j) { \
                    J(i, j) = 0.0; \
                    for (size_t m = 0; m < NNE; ++m) { \
                        J(i, j) += dN(q, m, i) * x(e, m, j); \
                    } \
                } \
            } \
            INVERSE; \
            double r = 0.0; \
            for (size_t m = 0; m < NNE; ++m) { \
                r += N(q, m) * x(e, m, 1); \
            } \
            rad(e, q) = r; \
            vol(e, q) = VOLUME; \
            for (size_t m = 0; m < NNE; ++m) { \
                for (size_t i = 0; i < ND; ++i) { \
                    G(e, q, m, i) = 0.0; \
                    for (size_t j = 0; j < ND; ++j) { \
                        G(e, q, m, i) += I(i, j) * dN(q, m, j); \
                    } \
                } \
            } \
        } \
    }
#ifdef AXI
// displacement in direction k (0: r, 2: z) gives gradient (i, j) = d u(j) / d i
#define VDIR(k) ((k) == 0 ? 1 : 0)
#define STRAIN \
    A6 B; \
    vf::shape(B, x.shape(0), w.size(), NNE, 3, 3, 3); \
    for (size_t e = 0; e < x.shape(0); ++e) { \
        for (size_t q = 0; q < w.size(); ++q) { \
            for (size_t m = 0; m < NNE; ++m) { \
                for (size_t i = 0; i < 3; ++i) { \
                    for (size_t j = 0; j < 3; ++j) { \
                        for (size_t k = 0; k < 3; ++k) { \
                            B(e, q, m, i, j, k) = 0.0; \
                        } \
                    } \
                } \
                B(e, q, m, 0, 0, 0) = G(e, q, m, 1); \
                B(e, q, m, 2, 0, 0) = G(e, q, m, 0); \
                B(e, q, m, 0, 2, 2) = G(e, q, m, 1); \
                B(e, q, m, 2, 2, 2) = G(e, q, m, 0); \
                B(e, q, m, 1, 1, 0) = N(q, m) / rad(e, q); \
            } \
        } \
    }
#else
#define STRAIN
#endif
#define FORALL \
    for (size_t e = 0; e < x.shape(0); ++e) \
        for (size_t q = 0; q < w.size(); ++q)

size_t nelem(GIVEN) { return x.shape(0); }
size_t nne(GIVEN) { return NNE; }
size_t ndim(GIVEN) { return ND; }
size_t tdim(GIVEN) { return TD; }
size_t nip(GIVEN) { return w.size(); }
A2 dV(GIVEN)
{
    GEOM;
    return vol;
}
#ifdef AXI
A6 gradients(GIVEN)
{
    GEOM;
    STRAIN;
    return B;
}
#else
A4 gradients(GIVEN)
{
    GEOM;
    return G;
}
#endif
A3 interp(GIVEN, const A3& elemvec)
{
    SHAPE;
    A3 ret;
    vf::shape(ret, x.shape(0), w.size(), VDIM);
    FORALL {
        for (size_t i = 0; i < VDIM; ++i) {
            ret(e, q, i) = 0.0;
        }
        for (size_t m = 0; m < NNE; ++m) {
            for (size_t i = 0; i < VDIM; ++i) {
                ret(e, q, i) += N(q, m) * elemvec(e, m, i);
            }
        }
    }
    return ret;
}
#ifdef AXI
#define GRADU(v, i, j) \
    double v = 0.0; \
    for (size_t m = 0; m < NNE; ++m) { \
        v += B(e, q, m, i, j, 0) * elemvec(e, m, 1) + B(e, q, m, i, j, 2) * elemvec(e, m, 0); \
    }
#else
#define GRADU(v, i, j) \
    double v = 0.0; \
    if (i < ND && j < ND) { \
        for (size_t m = 0; m < NNE; ++m) { \
            v += G(e, q, m, i) * elemvec(e, m, j); \
        } \
    }
#endif
#define RANK2(f, expr) \
    A4 f(GIVEN, const A3& elemvec) \
    { \
        GEOM; \
        STRAIN; \
        A4 ret; \
        vf::shape(ret, x.shape(0), w.size(), TD, TD); \
        FORALL { \
            for (size_t i = 0; i < TD; ++i) { \
                for (size_t j = 0; j < TD; ++j) { \
                    GRADU(a, i, j) \
                    GRADU(b, j, i) \
                    ret(e, q, i, j) = expr; \
                } \
            } \
        } \
        return ret; \
    }
RANK2(gradN, a)
RANK2(gradN_T, b)
RANK2(symGradN, 0.5 * (a + b))

A3 int_N_vector(GIVEN, const A3& qvector)
{
    GEOM;
    A3 ret = xt::zeros<double>({x.shape(0), size_t(NNE), qvector.shape(2)});
    FORALL
    for (size_t m = 0; m < NNE; ++m) {
        for (size_t i = 0; i < qvector.shape(2); ++i) {
            ret(e, m, i) += N(q, m) * qvector(e, q, i) * vol(e, q);
        }
    }
    return ret;
}
A3 int_N_scalar_NT(GIVEN, const A2& qscalar)
{
    GEOM;
    A3 ret = xt::zeros<double>({x.shape(0), size_t(NNE * ND), size_t(NNE * ND)});
    FORALL
    for (size_t m = 0; m < NNE; ++m) {
        for (size_t n = 0; n < NNE; ++n) {
            for (size_t i = 0; i < ND; ++i) {
                ret(e, m * ND + i, n * ND + i) += N(q, m) * qscalar(e, q) * N(q, n) * vol(e, q);
            }
        }
    }
    return ret;
}
A3 int_tensor2(GIVEN, const A4& sig)
{
    GEOM;
    STRAIN;
    A3 ret = xt::zeros<double>({x.shape(0), size_t(NNE), size_t(ND)});
    FORALL
    for (size_t m = 0; m < NNE; ++m) {
#ifdef AXI
        for (size_t i = 0; i < 3; ++i) {
            for (size_t j = 0; j < 3; ++j) {
                ret(e, m, 1) += B(e, q, m, i, j, 0) * sig(e, q, i, j) * vol(e, q);
                ret(e, m, 0) += B(e, q, m, i, j, 2) * sig(e, q, i, j) * vol(e, q);
            }
        }
#else
        for (size_t i = 0; i < ND; ++i) {
            for (size_t j = 0; j < ND; ++j) {
                ret(e, m, j) += G(e, q, m, i) * sig(e, q, i, j) * vol(e, q);
            }
        }
#endif
    }
    return ret;
}
// K(m, j; n, k) = dN(m) / dx(i) C(i, j, k, l) dN(n) / dx(l)
A3 int_tensor4(GIVEN, const A6& C)
{
    GEOM;
    STRAIN;
    A3 ret = xt::zeros<double>({x.shape(0), size_t(NNE * ND), size_t(NNE * ND)});
    FORALL
    for (size_t m = 0; m < NNE; ++m) {
        for (size_t n = 0; n < NNE; ++n) {
#ifdef AXI
            for (size_t i = 0; i < 3; ++i) {
                for (size_t j = 0; j < 3; ++j) {
                    for (size_t k = 0; k < 3; ++k) {
                        for (size_t l = 0; l < 3; ++l) {
                            ret(e, m * 2 + 1, n * 2 + 1) += B(e, q, m, i, j, 0) * C(e, q, i, j, k, l) * B(e, q, n, l, k, 0) * vol(e, q);
                            ret(e, m * 2 + 1, n * 2 + 0) += B(e, q, m, i, j, 0) * C(e, q, i, j, k, l) * B(e, q, n, l, k, 2) * vol(e, q);
                            ret(e, m * 2 + 0, n * 2 + 1) += B(e, q, m, i, j, 2) * C(e, q, i, j, k, l) * B(e, q, n, l, k, 0) * vol(e, q);
                            ret(e, m * 2 + 0, n * 2 + 0) += B(e, q, m, i, j, 2) * C(e, q, i, j, k, l) * B(e, q, n, l, k, 2) * vol(e, q);
                        }
                    }
                }
            }
#else
            for (size_t i = 0; i < ND; ++i) {
                for (size_t j = 0; j < ND; ++j) {
                    for (size_t k = 0; k < ND; ++k) {
                        for (size_t l = 0; l < ND; ++l) {
                            ret(e, m * ND + j, n * ND + k) += G(e, q, m, i) * C(e, q, i, j, k, l) * G(e, q, n, l) * vol(e, q);
                        }
                    }
                }
            }
#endif
        }
    }
    return ret;
}
} // namespace spec
