#include "common.h"
#include <GooseFEM/MatrixDiagonalPartitioned.h>
using GooseFEM::MatrixDiagonalPartitioned;
#define ARGS const I2 &conn, const I2 &dofs, const I1 &iip
#define MAT ARGS, const A3 &diagmat
#define HIST ARGS, const A3 &diagmat, const A3 &diagmat2, const A1 &a1, const A1 &b1, const A1& y_u, const A1& y_p
#define NDOF (xt::amax(dofs)() + 1)

namespace pre {
void common(
    ARGS, const A3& diagmat, const A3& diagmat2, const A1& a1, const A2& x2, const A1& x1, const A2& b2, const A1& b1,
    const A1& y_u, const A1& y_p
)
{
    vf::shape(diagmat, conn.shape(0), conn.shape(1) * dofs.shape(1), conn.shape(1) * dofs.shape(1));
    vf::shape(diagmat2, conn.shape(0), conn.shape(1) * dofs.shape(1), conn.shape(1) * dofs.shape(1));
    vf::shape(a1, NDOF);
    vf::shape(x2, dofs.shape(0), dofs.shape(1));
    vf::shape(x1, NDOF);
    vf::shape(b2, dofs.shape(0), dofs.shape(1));
    vf::shape(b1, NDOF);
    auto iiu = xt::setdiff1d(dofs, iip);
    vf::shape(y_u, iiu.size());
    vf::shape(y_p, iip.size());
}
} // namespace pre

#define M MatrixDiagonalPartitioned A(conn, dofs, iip); A.assemble(diagmat); READ(A)
#define NODEVEC A2 ret; vf::shape(ret, dofs.shape(0), dofs.shape(1))
#define DOFVAL A1 ret; vf::shape(ret, NDOF)

namespace entry {
size_t ndof(ARGS) { MatrixDiagonalPartitioned A(conn, dofs, iip); return A.ndof(); }
size_t nnu(ARGS) { MatrixDiagonalPartitioned A(conn, dofs, iip); return A.nnu(); }
size_t nnp(ARGS) { MatrixDiagonalPartitioned A(conn, dofs, iip); return A.nnp(); }
I1 iiu(ARGS) { MatrixDiagonalPartitioned A(conn, dofs, iip); return A.iiu(); }
I1 get_iip(ARGS) { MatrixDiagonalPartitioned A(conn, dofs, iip); return A.iip(); }
A1 data_uu(MAT) { M; return A.data_uu(); }
A1 data_uu__twice(MAT, const A3& diagmat2) { MatrixDiagonalPartitioned A(conn, dofs, iip); A.assemble(diagmat2); A.assemble(diagmat); return A.data_uu(); }
A1 data_pp(MAT) { M; return A.data_pp(); }
A1 data_pp__set(MAT, const A1& a1) { MatrixDiagonalPartitioned A(conn, dofs, iip); A.set(a1); A.assemble(diagmat); return A.data_pp(); }
A1 data(MAT) { M; return A.data(); }
A1 data__todiagonal(MAT) { M; return A.Todiagonal(); }
A1 set(ARGS, const A1& a1) { MatrixDiagonalPartitioned A(conn, dofs, iip); A.set(a1); return A.data(); }
A1 set__asm(MAT, const A1& a1) { M; A.set(a1); return A.data(); }
A1 set_uu(ARGS, const A1& a1) { MatrixDiagonalPartitioned A(conn, dofs, iip); A.set(a1); return A.data_uu(); }
A1 set_pp(ARGS, const A1& a1) { MatrixDiagonalPartitioned A(conn, dofs, iip); A.set(a1); return A.data_pp(); }
A2 todense(MAT) { M; return A.Todense(); }
A2 todense__inplace(MAT) { M; A2 ret; vf::shape(ret, A.ndof(), A.ndof()); A.todense(ret); return ret; }
A2 dot_node(MAT, const A2& x2) { M; return A.Dot(x2); }
A2 dot_node__inplace(MAT, const A2& x2) { M; NODEVEC; A.dot(x2, ret); return ret; }
A1 dot_dof(MAT, const A1& x1) { M; return A.Dot(x1); }
A1 dot_dof__inplace(MAT, const A1& x1) { M; DOFVAL; A.dot(x1, ret); return ret; }
A1 dot_u(MAT, const A1& y_u, const A1& y_p) { M; return A.Dot_u(y_u, y_p); }
A1 dot_u__inplace(MAT, const A1& y_u, const A1& y_p) { M; A1 ret; vf::shape(ret, A.nnu()); A.dot_u(y_u, y_p, ret); return ret; }
A1 dot_p(MAT, const A1& y_u, const A1& y_p) { M; return A.Dot_p(y_u, y_p); }
A1 dot_p__inplace(MAT, const A1& y_u, const A1& y_p) { M; A1 ret; vf::shape(ret, A.nnp()); A.dot_p(y_u, y_p, ret); return ret; }
A2 solve_node(MAT, const A2& b2, const A2& x2) { M; A2 ret = x2; A.solve(b2, ret); return ret; }
A1 solve_dof(MAT, const A1& b1, const A1& x1) { M; A1 ret = x1; A.solve(b1, ret); return ret; }
A2 solve0_node(MAT, const A2& b2) { M; return A.Solve(b2); }
A1 solve0_dof(MAT, const A1& b1) { M; return A.Solve(b1); }
A1 solve_u(MAT, const A1& y_u, const A1& y_p) { M; return A.Solve_u(y_u, y_p); }
A1 solve_u__inplace(MAT, const A1& y_u, const A1& y_p) { M; A1 ret; vf::shape(ret, A.nnu()); A.solve_u(y_u, y_p, ret); return ret; }
A2 reac_node(MAT, const A2& x2, const A2& b2) { M; return A.Reaction(x2, b2); }
A2 reac_node__inplace(MAT, const A2& x2, const A2& b2) { M; A2 ret = b2; A.reaction(x2, ret); return ret; }
A1 reac_dof(MAT, const A1& x1, const A1& b1) { M; return A.Reaction(x1, b1); }
A1 reac_dof__inplace(MAT, const A1& x1, const A1& b1) { M; A1 ret = b1; A.reaction(x1, ret); return ret; }
A1 reac_p(MAT, const A1& y_u, const A1& y_p) { M; return A.Reaction_p(y_u, y_p); }
A1 reac_p__inplace(MAT, const A1& y_u, const A1& y_p) { M; A1 ret; vf::shape(ret, A.nnp()); A.reaction_p(y_u, y_p, ret); return ret; }
// histories
#define B MatrixDiagonalPartitioned A(conn, dofs, iip)
#define E1 A.assemble(diagmat)
#define E2 A.assemble(diagmat2)
#define ST A.set(a1)
#define SV A.Solve(b1)
A1 h_asm(HIST) { B; E2; SV; E1; return SV; }
A1 h_asm__again(HIST) { B; E1; SV; return SV; }
A1 h_asm__set(HIST) { B; ST; SV; E1; return SV; }
A1 h_asm__setnosolve(HIST) { B; E2; SV; ST; E1; return SV; }
A1 h_asm__copy(HIST) { B; E2; SV; MatrixDiagonalPartitioned C = A; C.assemble(diagmat); return C.Solve(b1); }
A1 h_asm__copy2(HIST) { B; E1; SV; MatrixDiagonalPartitioned C = A; C.assemble(diagmat2); return SV; }
A1 h_asm__copied(HIST) { B; E1; SV; MatrixDiagonalPartitioned C = A; return C.Solve(b1); }
A1 h_asm__replace(HIST) { B; E2; SV; MatrixDiagonalPartitioned C(conn, dofs, iip); C.assemble(diagmat); A = C; return SV; }
A1 h_asm__solve_u(HIST) { B; E2; A.Solve_u(y_u, y_p); E1; return SV; }
A1 h_set(HIST) { B; ST; return SV; }
A1 h_set__asm(HIST) { B; E1; SV; ST; return SV; }
A1 h_set__set(HIST) { B; A.set(b1); SV; ST; return SV; }
A1 h_set__asmset(HIST) { B; E1; ST; return SV; }
A1 h_u(HIST) { B; E2; SV; E1; return A.Solve_u(y_u, y_p); }
A1 h_u__u(HIST) { B; E2; A.Solve_u(y_u, y_p); E1; return A.Solve_u(y_u, y_p); }
#undef B
}
namespace spec {
// PART(d): position of DOF d in its list; ISP(d): d is prescribed
#define LISTS auto u = xt::setdiff1d(dofs, iip); size_t nu = u.size(); (void)nu; (void)u
// position of each DOF in the list [unknown, prescribed]
#define POS \
    I1 loc; \
    vf::shape(loc, NDOF); \
    for (size_t d = 0; d < u.size(); ++d) loc(u(d)) = d; \
    for (size_t d = 0; d < iip.size(); ++d) loc(iip(d)) = nu + d; \
    I2 part; \
    vf::shape(part, dofs.shape(0), dofs.shape(1)); \
    EACH part(m, i) = loc(dofs(m, i))
#define AUU \
    LISTS; POS; \
    A1 au = xt::zeros<double>({u.size()}); \
    A1 ap = xt::zeros<double>({iip.size()}); \
    for (size_t e = 0; e < conn.shape(0); ++e) \
        for (size_t m = 0; m < conn.shape(1); ++m) \
            for (size_t i = 0; i < dofs.shape(1); ++i) { \
                size_t d = part(conn(e, m), i); \
                if (d < nu) au(d) += diagmat(e, m * dofs.shape(1) + i, m * dofs.shape(1) + i); \
                else ap(d - nu) += diagmat(e, m * dofs.shape(1) + i, m * dofs.shape(1) + i); \
            }
#define UD for (size_t d = 0; d < u.size(); ++d)
#define PD for (size_t d = 0; d < iip.size(); ++d)
#define EACH for (size_t m = 0; m < dofs.shape(0); ++m) for (size_t i = 0; i < dofs.shape(1); ++i)

size_t ndof(ARGS) { return NDOF; }
size_t nnu(ARGS) { auto u = xt::setdiff1d(dofs, iip); return u.size(); }
size_t nnp(ARGS) { return iip.size(); }
I1 iiu(ARGS) { return xt::setdiff1d(dofs, iip); }
I1 get_iip(ARGS) { return iip; }
A1 data_uu(MAT) { AUU; return au; }
A1 data_pp(MAT) { AUU; return ap; }
A1 data(MAT) { AUU; A1 ret = xt::zeros<double>({NDOF}); UD ret(u(d)) = au(d); PD ret(iip(d)) = ap(d); return ret; }
A1 set(ARGS, const A1& a1) { LISTS; A1 ret = xt::zeros<double>({NDOF}); UD ret(u(d)) = a1(u(d)); PD ret(iip(d)) = a1(iip(d)); return ret; }
A1 set_uu(ARGS, const A1& a1) { LISTS; A1 ret; vf::shape(ret, u.size()); UD ret(d) = a1(u(d)); return ret; }
A1 set_pp(ARGS, const A1& a1) { LISTS; A1 ret; vf::shape(ret, iip.size()); PD ret(d) = a1(iip(d)); return ret; }
A2 todense(MAT) { AUU; A2 ret = xt::zeros<double>({NDOF, NDOF}); UD ret(u(d), u(d)) = au(d); PD ret(iip(d), iip(d)) = ap(d); return ret; }
A2 dot_node(MAT, const A2& x2) { AUU; NODEVEC; EACH { size_t d = part(m, i); if (d < nu) ret(m, i) = au(d) * x2(m, i); else ret(m, i) = ap(d - nu) * x2(m, i); } return ret; }
A1 dot_dof(MAT, const A1& x1) { AUU; DOFVAL; UD ret(u(d)) = au(d) * x1(u(d)); PD ret(iip(d)) = ap(d) * x1(iip(d)); return ret; }
A1 dot_u(MAT, const A1& y_u, const A1& y_p) { AUU; A1 ret; vf::shape(ret, u.size()); UD ret(d) = au(d) * y_u(d); return ret; }
A1 dot_p(MAT, const A1& y_u, const A1& y_p) { AUU; A1 ret; vf::shape(ret, iip.size()); PD ret(d) = ap(d) * y_p(d); return ret; }
#define SOLVE(x2, b2) EACH { size_t d = part(m, i); if (d < nu) ret(m, i) = b2(m, i) / au(d); }
#define SOLVE1(b1) UD ret(u(d)) = b1(u(d)) / au(d)
A2 solve_node(MAT, const A2& b2, const A2& x2) { AUU; A2 ret = x2; SOLVE(x2, b2); return ret; }
A1 solve_dof(MAT, const A1& b1, const A1& x1) { AUU; A1 ret = x1; SOLVE1(b1); return ret; }
A2 solve0_node(MAT, const A2& b2) { AUU; A2 ret = xt::zeros<double>({dofs.shape(0), dofs.shape(1)}); SOLVE(x2, b2); return ret; }
A1 solve0_dof(MAT, const A1& b1) { AUU; A1 ret = xt::zeros<double>({NDOF}); SOLVE1(b1); return ret; }
A1 solve_u(MAT, const A1& y_u, const A1& y_p) { AUU; A1 ret; vf::shape(ret, u.size()); UD ret(d) = y_u(d) / au(d); return ret; }
A2 reac_node(MAT, const A2& x2, const A2& b2) { AUU; A2 ret = b2; EACH { size_t d = part(m, i); if (d >= nu) ret(m, i) = ap(d - nu) * x2(m, i); } return ret; }
A1 reac_dof(MAT, const A1& x1, const A1& b1) { AUU; A1 ret = b1; PD ret(iip(d)) = ap(d) * x1(iip(d)); return ret; }
A1 reac_p(MAT, const A1& y_u, const A1& y_p) { AUU; A1 ret; vf::shape(ret, iip.size()); PD ret(d) = ap(d) * y_p(d); return ret; }
A1 h_asm(HIST) { AUU; A1 ret = xt::zeros<double>({NDOF}); SOLVE1(b1); return ret; }
A1 h_set(HIST) { LISTS; A1 ret = xt::zeros<double>({NDOF}); UD ret(u(d)) = b1(u(d)) / a1(u(d)); return ret; }
A1 h_u(HIST) { AUU; A1 ret; vf::shape(ret, u.size()); UD ret(d) = y_u(d) / au(d); return ret; }
}
