#include "common.h"
#include <GooseFEM/MatrixDiagonal.h>
using GooseFEM::MatrixDiagonal;
#define ARGS const I2 &conn, const I2 &dofs
#define MAT const I2 &conn, const I2 &dofs, const A3 &diagmat
#define MAT2 const I2 &conn, const I2 &dofs, const A3 &diagmat, const A3 &diagmat2, const A1 &a1, const A1 &b1
#define NDOF (xt::amax(dofs)() + 1)

namespace pre {
void common(
    ARGS, const A3& diagmat, const A3& diagmat2, const A1& a1, const A2& x2, const A1& x1
)
{
    vf::shape(diagmat, conn.shape(0), conn.shape(1) * dofs.shape(1), conn.shape(1) * dofs.shape(1));
    vf::shape(diagmat2, conn.shape(0), conn.shape(1) * dofs.shape(1), conn.shape(1) * dofs.shape(1));
    vf::shape(a1, NDOF);
    vf::shape(x2, dofs.shape(0), dofs.shape(1));
    vf::shape(x1, NDOF);
}
void h_asm(MAT2)
{
    vf::shape(diagmat, conn.shape(0), conn.shape(1) * dofs.shape(1), conn.shape(1) * dofs.shape(1));
    vf::shape(diagmat2, conn.shape(0), conn.shape(1) * dofs.shape(1), conn.shape(1) * dofs.shape(1));
    vf::shape(a1, NDOF);
    vf::shape(b1, NDOF);
}
void h_set(MAT2)
{
    vf::shape(diagmat, conn.shape(0), conn.shape(1) * dofs.shape(1), conn.shape(1) * dofs.shape(1));
    vf::shape(diagmat2, conn.shape(0), conn.shape(1) * dofs.shape(1), conn.shape(1) * dofs.shape(1));
    vf::shape(a1, NDOF);
    vf::shape(b1, NDOF);
}
void is_diagonal(const A3& elemmat) { vf::shape(elemmat, elemmat.shape(0), elemmat.shape(1), elemmat.shape(1)); }
} // namespace pre

#define M MatrixDiagonal A(conn, dofs); A.assemble(diagmat); READ(A)
#define NODEVEC A2 ret; vf::shape(ret, dofs.shape(0), dofs.shape(1))
#define DOFVAL A1 ret; vf::shape(ret, NDOF)

namespace entry {
bool is_diagonal(const A3& elemmat) { return GooseFEM::Element::isDiagonal(elemmat); }
size_t ndof(ARGS) { MatrixDiagonal A(conn, dofs); return A.ndof(); }
size_t nelem(ARGS) { MatrixDiagonal A(conn, dofs); return A.nelem(); }
size_t nne(ARGS) { MatrixDiagonal A(conn, dofs); return A.nne(); }
size_t nnode(ARGS) { MatrixDiagonal A(conn, dofs); return A.nnode(); }
size_t ndim(ARGS) { MatrixDiagonal A(conn, dofs); return A.ndim(); }
A1 assemble(MAT) { M; return A.data(); }
A1 assemble__twice(MAT, const A3& diagmat2) { MatrixDiagonal A(conn, dofs); A.assemble(diagmat2); A.assemble(diagmat); return A.data(); }
A1 assemble__set(MAT, const A1& a1) { MatrixDiagonal A(conn, dofs); A.set(a1); A.assemble(diagmat); return A.data(); }
A1 set(ARGS, const A1& a1) { MatrixDiagonal A(conn, dofs); A.set(a1); return A.data(); }
A1 set__asm(MAT, const A1& a1) { M; A.set(a1); return A.data(); }
A1 set__diag(MAT, const A1& a1) { M; A.set(a1); return A.Todiagonal(); }
A2 todense(MAT) { M; return A.Todense(); }
A2 todense__inplace(MAT) { M; A2 ret; vf::shape(ret, A.ndof(), A.ndof()); A.todense(ret); return ret; }
A2 dot_node(MAT, const A2& x2) { M; return A.Dot(x2); }
A2 dot_node__inplace(MAT, const A2& x2) { M; NODEVEC; A.dot(x2, ret); return ret; }
A1 dot_dof(MAT, const A1& x1) { M; return A.Dot(x1); }
A1 dot_dof__inplace(MAT, const A1& x1) { M; DOFVAL; A.dot(x1, ret); return ret; }
A2 solve_node(MAT, const A2& x2) { M; return A.Solve(x2); }
A2 solve_node__inplace(MAT, const A2& x2) { M; NODEVEC; A.solve(x2, ret); return ret; }
A1 solve_dof(MAT, const A1& x1) { M; return A.Solve(x1); }
A1 solve_dof__inplace(MAT, const A1& x1) { M; DOFVAL; A.solve(x1, ret); return ret; }
// histories
#define B MatrixDiagonal A(conn, dofs)
#define E1 A.assemble(diagmat)
#define E2 A.assemble(diagmat2)
#define ST A.set(a1)
#define SV A.Solve(b1)
A1 h_asm(MAT2) { B; E2; SV; E1; return SV; }
A1 h_asm__again(MAT2) { B; E1; SV; return SV; }
A1 h_asm__set(MAT2) { B; ST; SV; E1; return SV; }
A1 h_asm__setnosolve(MAT2) { B; E2; SV; ST; E1; return SV; }
A1 h_asm__copy(MAT2) { B; E2; SV; MatrixDiagonal C = A; C.assemble(diagmat); return C.Solve(b1); }
A1 h_asm__copy2(MAT2) { B; E1; SV; MatrixDiagonal C = A; C.assemble(diagmat2); return SV; }
A1 h_asm__copied(MAT2) { B; E1; SV; MatrixDiagonal C = A; return C.Solve(b1); }
A1 h_asm__replace(MAT2) { B; E2; SV; MatrixDiagonal C(conn, dofs); C.assemble(diagmat); A = C; return SV; }
A1 h_asm__dot(MAT2) { B; E2; SV; E1; A.Dot(b1); A.data(); return SV; }
A1 h_set(MAT2) { B; ST; return SV; }
A1 h_set__asm(MAT2) { B; E1; SV; ST; return SV; }
A1 h_set__set(MAT2) { B; A.set(b1); SV; ST; return SV; }
A1 h_set__asmset(MAT2) { B; E1; ST; return SV; }
#undef B
}
namespace spec {
bool is_diagonal(const A3& elemmat)
{
    bool r = true;
    for (size_t e = 0; e < elemmat.shape(0); ++e)
        for (size_t i = 0; i < elemmat.shape(1); ++i)
            for (size_t j = 0; j < elemmat.shape(2); ++j)
                if (i != j && std::abs(elemmat(e, i, j)) > std::numeric_limits<double>::epsilon())
                    r = false;
    return r;
}
size_t ndof(ARGS) { return NDOF; }
size_t nelem(ARGS) { return conn.shape(0); }
size_t nne(ARGS) { return conn.shape(1); }
size_t nnode(ARGS) { return dofs.shape(0); }
size_t ndim(ARGS) { return dofs.shape(1); }
#define ASM \
    A1 a = xt::zeros<double>({NDOF}); \
    for (size_t e = 0; e < conn.shape(0); ++e) \
        for (size_t m = 0; m < conn.shape(1); ++m) \
            for (size_t i = 0; i < dofs.shape(1); ++i) \
                a(dofs(conn(e, m), i)) += diagmat(e, m * dofs.shape(1) + i, m * dofs.shape(1) + i)
#define NODE(expr) NODEVEC; for (size_t m = 0; m < dofs.shape(0); ++m) for (size_t i = 0; i < dofs.shape(1); ++i) { size_t d = dofs(m, i); ret(m, i) = expr; } return ret
#define DOF(expr) DOFVAL; for (size_t d = 0; d < NDOF; ++d) ret(d) = expr; return ret
A1 assemble(MAT) { ASM; return a; }
A1 set(ARGS, const A1& a1) { return a1; }
A2 todense(MAT) { ASM; A2 ret = xt::zeros<double>({NDOF, NDOF}); for (size_t d = 0; d < NDOF; ++d) ret(d, d) = a(d); return ret; }
A2 dot_node(MAT, const A2& x2) { ASM; NODE(a(d) * x2(m, i)); }
A1 dot_dof(MAT, const A1& x1) { ASM; DOF(a(d) * x1(d)); }
A2 solve_node(MAT, const A2& x2) { ASM; NODE(x2(m, i) / a(d)); }
A1 solve_dof(MAT, const A1& x1) { ASM; DOF(x1(d) / a(d)); }
A1 h_asm(MAT2) { ASM; DOF(b1(d) / a(d)); }
A1 h_set(MAT2) { DOF(b1(d) / a1(d)); }
}
