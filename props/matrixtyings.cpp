#include "common.h"
using GooseFEM::MatrixPartitionedTyings;
using GooseFEM::MatrixPartitionedTyingsSolver;
using Sp = Eigen::SparseMatrix<double>;
using Vx = Eigen::VectorXd;
using Tr = Eigen::Triplet<double>;
#define ARGS const I2 &conn, const I2 &dofs, const Sp &Cdu, const Sp &Cdp
#define MAT ARGS, const A3 &elemmat
#define NNU size_t(Cdu.cols())
#define NNP size_t(Cdp.cols())
#define NND size_t(Cdp.rows())
#define NNI (NNU + NNP)
#define NDOF (NNI + NND)
#define FOR_NODES for (size_t m = 0; m < dofs.shape(0); ++m) for (size_t i = 0; i < dofs.shape(1); ++i)

namespace pre {
void common(MAT, const A3& elemmat2, const A2& x2, const A2& b2, const A1& x1, const A1& b1, const A1& b_u, const A1& b_d, const A1& x_p)
{
    vf::shape(Cdu, Cdp.rows(), Cdu.cols());
    vf::shape(elemmat, conn.shape(0), conn.shape(1) * dofs.shape(1), conn.shape(1) * dofs.shape(1));
    vf::shape(elemmat2, conn.shape(0), conn.shape(1) * dofs.shape(1), conn.shape(1) * dofs.shape(1));
    vf::shape(x2, dofs.shape(0), dofs.shape(1));
    vf::shape(b2, dofs.shape(0), dofs.shape(1));
    vf::shape(x1, NDOF);
    vf::shape(b1, NDOF);
    vf::shape(b_u, NNU);
    vf::shape(b_d, NND);
    vf::shape(x_p, NNP);
    vf::assume(xt::amax(dofs)() + 1 == NDOF);
}
} // namespace pre

#define M MatrixPartitionedTyings A(conn, dofs, Cdu, Cdp); A.assemble(elemmat); READ(A)
#define SOLVER MatrixPartitionedTyingsSolver<> s

namespace entry {
I1 iiu(ARGS) { MatrixPartitionedTyings A(conn, dofs, Cdu, Cdp); return A.iiu(); }
I1 iip(ARGS) { MatrixPartitionedTyings A(conn, dofs, Cdu, Cdp); return A.iip(); }
I1 iii(ARGS) { MatrixPartitionedTyings A(conn, dofs, Cdu, Cdp); return A.iii(); }
I1 iid(ARGS) { MatrixPartitionedTyings A(conn, dofs, Cdu, Cdp); return A.iid(); }
size_t nnu(ARGS) { MatrixPartitionedTyings A(conn, dofs, Cdu, Cdp); return A.nnu(); }
size_t nnp(ARGS) { MatrixPartitionedTyings A(conn, dofs, Cdu, Cdp); return A.nnp(); }
size_t nni(ARGS) { MatrixPartitionedTyings A(conn, dofs, Cdu, Cdp); return A.nni(); }
size_t nnd(ARGS) { MatrixPartitionedTyings A(conn, dofs, Cdu, Cdp); return A.nnd(); }
size_t ndof(ARGS) { MatrixPartitionedTyings A(conn, dofs, Cdu, Cdp); return A.ndof(); }
#define BLK(xx) \
    Sp asm_##xx(MAT) { M; return A.data_##xx(); } \
    Sp asm_##xx##__twice(MAT, const A3& elemmat2) { MatrixPartitionedTyings A(conn, dofs, Cdu, Cdp); A.assemble(elemmat2); A.assemble(elemmat); return A.data_##xx(); }
BLK(uu) BLK(up) BLK(ud) BLK(pu) BLK(pp) BLK(pd) BLK(du) BLK(dp) BLK(dd)
A2 todense(MAT) { M; return A.Todense(); }
A2 todense__inplace(MAT) { M; A2 ret; vf::shape(ret, A.ndof(), A.ndof()); A.todense(ret); return ret; }
A2 solve_node(MAT, const A2& b2, const A2& x2) { M; SOLVER; return s.Solve(A, b2, x2); }
A2 solve_node__inplace(MAT, const A2& b2, const A2& x2) { M; SOLVER; A2 ret = x2; s.solve(A, b2, ret); return ret; }
A1 solve_dof(MAT, const A1& b1, const A1& x1) { M; SOLVER; return s.Solve(A, b1, x1); }
A1 solve_dof__inplace(MAT, const A1& b1, const A1& x1) { M; SOLVER; A1 ret = x1; s.solve(A, b1, ret); return ret; }
A1 solve_u(MAT, const A1& b_u, const A1& b_d, const A1& x_p) { M; SOLVER; return s.Solve_u(A, b_u, b_d, x_p); }
A1 solve_u__inplace(MAT, const A1& b_u, const A1& b_d, const A1& x_p) { M; SOLVER; A1 ret; vf::shape(ret, NNU); s.solve_u(A, b_u, b_d, x_p, ret); return ret; }
}

namespace spec {
I1 iiu(ARGS) { I1 ret; vf::shape(ret, NNU); for (size_t i = 0; i < NNU; ++i) ret(i) = i; return ret; }
I1 iip(ARGS) { I1 ret; vf::shape(ret, NNP); for (size_t i = 0; i < NNP; ++i) ret(i) = NNU + i; return ret; }
I1 iii(ARGS) { I1 ret; vf::shape(ret, NNI); for (size_t i = 0; i < NNI; ++i) ret(i) = i; return ret; }
I1 iid(ARGS) { I1 ret; vf::shape(ret, NND); for (size_t i = 0; i < NND; ++i) ret(i) = NNI + i; return ret; }
size_t nnu(ARGS) { return NNU; }
size_t nnp(ARGS) { return NNP; }
size_t nni(ARGS) { return NNI; }
size_t nnd(ARGS) { return NND; }
size_t ndof(ARGS) { return NDOF; }
#define U(d) (d < NNU)
#define P(d) (d >= NNU && d < NNI)
#define D(d) (d >= NNI)
#define OU 0
#define OP NNU
#define OD NNI
#define ASM(xx, R, C, r, c, nr, nc) \
    Sp xx(nr, nc); \
    { \
        std::vector<Tr> T; \
        for (size_t e = 0; e < conn.shape(0); ++e) \
            for (size_t a = 0; a < conn.shape(1); ++a) \
                for (size_t b = 0; b < conn.shape(1); ++b) \
                    for (size_t i = 0; i < dofs.shape(1); ++i) \
                        for (size_t j = 0; j < dofs.shape(1); ++j) \
                            if (R(dofs(conn(e, a), i)) && C(dofs(conn(e, b), j))) \
                                T.push_back(Tr(dofs(conn(e, a), i) - r, dofs(conn(e, b), j) - c, elemmat(e, a * dofs.shape(1) + i, b * dofs.shape(1) + j))); \
        xx.setFromTriplets(T.begin(), T.end()); \
    }
#define A_uu ASM(uu, U, U, OU, OU, NNU, NNU)
#define A_up ASM(up, U, P, OU, OP, NNU, NNP)
#define A_ud ASM(ud, U, D, OU, OD, NNU, NND)
#define A_pu ASM(pu, P, U, OP, OU, NNP, NNU)
#define A_pp ASM(pp, P, P, OP, OP, NNP, NNP)
#define A_pd ASM(pd, P, D, OP, OD, NNP, NND)
#define A_du ASM(du, D, U, OD, OU, NND, NNU)
#define A_dp ASM(dp, D, P, OD, OP, NND, NNP)
#define A_dd ASM(dd, D, D, OD, OD, NND, NND)
#undef BLK
#define BLK(xx) Sp asm_##xx(MAT) { A_##xx; return xx; }
BLK(uu) BLK(up) BLK(ud) BLK(pu) BLK(pp) BLK(pd) BLK(du) BLK(dp) BLK(dd)
#define DENSE(B, r, c) \
    for (int k = 0; k < B.outerSize(); ++k) \
        for (Sp::InnerIterator it(B, k); it; ++it) \
            ret(r + it.row(), c + it.col()) = it.value();
A2 todense(MAT)
{
    A_uu A_up A_ud A_pu A_pp A_pd A_du A_dp A_dd;
    A2 ret = xt::zeros<double>({NDOF, NDOF});
    DENSE(uu, OU, OU) DENSE(up, OU, OP) DENSE(pu, OP, OU) DENSE(pp, OP, OP)
    DENSE(du, OD, OU) DENSE(dp, OD, OP) DENSE(ud, OU, OD) DENSE(pd, OP, OD)
    DENSE(dd, OD, OD)
    return ret;
}
// condensed system
#define COND \
    A_uu A_up A_ud A_du A_dp A_dd; \
    Sp Cud = Cdu.transpose(); \
    Sp Kuu = uu + ud * Cdu + Cud * du + Cud * dd * Cdu; \
    Sp Kup = up + ud * Cdp + Cud * dp + Cud * dd * Cdp; \
    Eigen::SimplicialLDLT<Sp> s; \
    s.compute(Kuu)
#define NODE(x, x2, R, n, o) Vx x = Vx::Zero(n); FOR_NODES { if (R(dofs(m, i))) x(dofs(m, i) - o) = x2(m, i); }
#define DOF(x, x1, n, o) Vx x = Vx::Zero(n); for (size_t d = 0; d < n; ++d) x(d) = x1(d + o);
#define CONDENSED \
    Vx load = b_u + Cud * b_d; \
    Vx x_u = s.solve(Vx(load - Kup * x_p)); \
    Vx x_d = Cdu * x_u + Cdp * x_p
A2 solve_node(MAT, const A2& b2, const A2& x2)
{
    COND;
    NODE(b_u, b2, U, NNU, OU);
    NODE(b_d, b2, D, NND, OD);
    NODE(x_p, x2, P, NNP, OP);
    CONDENSED;
    A2 ret = x2;
    FOR_NODES {
        if (U(dofs(m, i))) ret(m, i) = x_u(dofs(m, i));
        if (D(dofs(m, i))) ret(m, i) = x_d(dofs(m, i) - NNI);
    }
    return ret;
}
#define SOLVE_DOF \
    COND; \
    DOF(b_u, b1, NNU, OU); \
    DOF(b_d, b1, NND, OD); \
    DOF(x_p, x1, NNP, OP); \
    CONDENSED; \
    A1 ret = x1; \
    for (size_t d = 0; d < NNU; ++d) ret(d) = x_u(d); \
    for (size_t d = 0; d < NND; ++d) ret(NNI + d) = x_d(d); \
    return ret
A1 solve_dof(MAT, const A1& b1, const A1& x1) { SOLVE_DOF; }
#define SOLVE_U \
    COND; \
    DOF(fu, b_u, NNU, 0); \
    DOF(fd, b_d, NND, 0); \
    DOF(xp, x_p, NNP, 0); \
    Vx x = s.solve(Vx(fu + Cud * fd - Kup * xp)); \
    A1 ret; \
    vf::shape(ret, NNU); \
    for (size_t i = 0; i < NNU; ++i) ret(i) = x(i); \
    return ret
A1 solve_u(MAT, const A1& b_u, const A1& b_d, const A1& x_p) { SOLVE_U; }
}

// histories
#define HIST MAT, const A3 &elemmat2, const A1 &b1, const A1 &x1
#define E1 A.assemble(elemmat)
#define E2 A.assemble(elemmat2)
#define SV s.Solve(A, b1, x1)
#define BEGIN MatrixPartitionedTyings A(conn, dofs, Cdu, Cdp); MatrixPartitionedTyingsSolver<> s
#define OTHER(e) MatrixPartitionedTyings B(conn, dofs, Cdu, Cdp); B.assemble(e)
namespace entry {
A1 h_asm(HIST) { BEGIN; E2; SV; E1; return SV; }
A1 h_asm__again(HIST) { BEGIN; E1; SV; SV; return SV; }
A1 h_asm__back(HIST) { BEGIN; E1; SV; E2; SV; E1; return SV; }
A1 h_asm__nosolve(HIST) { BEGIN; E2; E2; E1; return SV; }
A1 h_asm__other(HIST) { BEGIN; E1; OTHER(elemmat2); SV; s.Solve(B, b1, x1); return SV; }
A1 h_asm__other2(HIST) { BEGIN; E2; SV; OTHER(elemmat); return s.Solve(B, b1, x1); }
A1 h_asm__solver2(HIST) { BEGIN; MatrixPartitionedTyingsSolver<> t; E2; SV; t.Solve(A, b1, x1); E1; t.Solve(A, b1, x1); return SV; }
A1 h_asm__solver3(HIST) { BEGIN; MatrixPartitionedTyingsSolver<> t; E1; SV; return t.Solve(A, b1, x1); }
A1 h_asm__copy(HIST) { BEGIN; E1; SV; MatrixPartitionedTyings B = A; B.assemble(elemmat2); s.Solve(B, b1, x1); return SV; }
A1 h_asm__copy2(HIST) { BEGIN; E2; SV; MatrixPartitionedTyings B = A; B.assemble(elemmat); return s.Solve(B, b1, x1); }
A1 h_asm__copy3(HIST) { BEGIN; E1; MatrixPartitionedTyings B = A; SV; return s.Solve(B, b1, x1); }
A1 h_asm__replace(HIST) { BEGIN; E2; SV; OTHER(elemmat); A = B; return SV; }
A1 h_asm__nodevec(HIST) { BEGIN; E2; A2 x = xt::zeros<double>({dofs.shape(0), dofs.shape(1)}); s.Solve(A, x, x); E1; return SV; }
A1 h_asm__u(HIST) { BEGIN; E2; A1 u = xt::zeros<double>({A.nnu()}); A1 p = xt::zeros<double>({A.nnp()}); A1 d = xt::zeros<double>({A.nnd()}); s.Solve_u(A, u, d, p); E1; return SV; }
A1 h_u(HIST, const A1& b_u, const A1& b_d, const A1& x_p) { BEGIN; E2; s.Solve_u(A, b_u, b_d, x_p); E1; return s.Solve_u(A, b_u, b_d, x_p); }
A1 h_u__dof(HIST, const A1& b_u, const A1& b_d, const A1& x_p) { BEGIN; E2; SV; E1; return s.Solve_u(A, b_u, b_d, x_p); }
}
namespace spec {
A1 h_asm(HIST) { SOLVE_DOF; }
A1 h_u(HIST, const A1& b_u, const A1& b_d, const A1& x_p) { SOLVE_U; }
}
