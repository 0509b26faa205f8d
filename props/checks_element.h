// The driver defines NNE, ND, TD, Q, THICK, VDIM and GRADN as for element.h.
#pragma once
#include "checks.h"
#ifdef THICK
#define ARGS const A3 &x, const A2 &xi, const A1 &w, double thick
#define MADE Q el(x, xi, w, thick)
#else
#define ARGS const A3 &x, const A2 &xi, const A1 &w
#define MADE Q el(x, xi, w)
#endif
#define NIP w.size()
#define GIVEN vf::require(x.shape(1) == NNE); vf::require(x.shape(2) == ND); SHAPE(xi, NIP, ND)
#define VEC(a, n) SHAPE3(a, x.shape(0), NNE, n)
#define QSCALAR(a) SHAPE(a, x.shape(0), NIP)
#define QVEC(a, n) SHAPE3(a, x.shape(0), NIP, n)
#define QTEN2(a) SHAPE4(a, x.shape(0), NIP, TD, TD)
#define QTEN4(a) SHAPE6(a, x.shape(0), NIP, TD, TD, TD, TD)
#define MAT(a) SHAPE3(a, x.shape(0), NNE * ND, NNE * ND)
#ifdef FREE
#define RDIM v.shape(2)
#else
#define RDIM ND
#endif
MAKE(make)
CHECK(update, el.update_x(y), VEC(y, ND), const A3& y)
CHECK(interp, el.interpQuad_vector(v, q), VEC(v, RDIM) QVEC(q, RDIM), const A3& v, A3& q)
CHECK(Interp, el.InterpQuad_vector(v), VEC(v, RDIM), const A3& v)
CHECK(gradN, el.gradN_vector(v, q), VEC(v, ND) QTEN2(q), const A3& v, A4& q)
CHECK(GradN, el.GradN_vector(v), VEC(v, ND), const A3& v)
CHECK(gradN_T, el.gradN_vector_T(v, q), VEC(v, ND) QTEN2(q), const A3& v, A4& q)
CHECK(GradN_T, el.GradN_vector_T(v), VEC(v, ND), const A3& v)
CHECK(symGradN, el.symGradN_vector(v, q), VEC(v, ND) QTEN2(q), const A3& v, A4& q)
CHECK(SymGradN, el.SymGradN_vector(v), VEC(v, ND), const A3& v)
CHECK(int_N, el.int_N_vector_dV(q, v), QVEC(q, q.shape(2)) VEC(v, q.shape(2)), const A3& q, A3& v)
CHECK(Int_N, el.Int_N_vector_dV(q), QVEC(q, q.shape(2)), const A3& q)
CHECK(int_NT, el.int_N_scalar_NT_dV(q, m), QSCALAR(q) MAT(m), const A2& q, A3& m)
CHECK(Int_NT, el.Int_N_scalar_NT_dV(q), QSCALAR(q), const A2& q)
CHECK(int_T2, el.int_gradN_dot_tensor2_dV(q, v), QTEN2(q) VEC(v, ND), const A4& q, A3& v)
CHECK(Int_T2, el.Int_gradN_dot_tensor2_dV(q), QTEN2(q), const A4& q)
CHECK(int_T4, el.int_gradN_dot_tensor4_dot_gradNT_dV(q, m), QTEN4(q) MAT(m), const A6& q, A3& m)
CHECK(Int_T4, el.Int_gradN_dot_tensor4_dot_gradNT_dV(q), QTEN4(q), const A6& q)
CHECK(as2, el.asTensor(q, t), QSCALAR(q) vf::require(t.shape(0) == q.shape(0)); vf::require(t.shape(1) == q.shape(1)), const A2& q, A4& t)
