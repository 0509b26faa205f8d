#include "common.h"
using GooseFEM::Matrix;
using GooseFEM::MatrixSolver;
using Sp = Eigen::SparseMatrix<double>;
using Vx = Eigen::VectorXd;
using Tr = Eigen::Triplet<double>;
#define ARGS const I2 &conn, const I2 &dofs
#define MAT const I2 &conn, const I2 &dofs, const A3 &elemmat

namespace pre {
void common(
    ARGS,
    const A3& elemmat,
    const A3& elemmat2,
    const I1& rows,
    const I1& cols,
    const A2& matrix,
    const A2& x2,
    const A1& x1,
    const A2& b2,
    const A1& b1
)
{
    vf::shape(elemmat, conn.shape(0), conn.shape(1) * dofs.shape(1), conn.shape(1) * dofs.shape(1));
    vf::shape(elemmat2, conn.shape(0), conn.shape(1) * dofs.shape(1), conn.shape(1) * dofs.shape(1));
    vf::shape(matrix, rows.size(), cols.size());
    vf::shape(x2, dofs.shape(0), dofs.shape(1));
    vf::shape(b2, dofs.shape(0), dofs.shape(1));
    vf::shape(x1, xt::amax(dofs)() + 1);
    vf::shape(b1, xt::amax(dofs)() + 1);
}
} // namespace pre

#define M Matrix A(conn, dofs); A.assemble(elemmat); READ(A)
#define NODEVEC A2 ret; vf::shape(ret, dofs.shape(0), dofs.shape(1))
#define DOFVAL A1 ret; vf::shape(ret, xt::amax(dofs)() + 1)

namespace entry {
size_t nelem(ARGS) { Matrix A(conn, dofs); return A.nelem(); }
size_t nne(ARGS) { Matrix A(conn, dofs); return A.nne(); }
size_t nnode(ARGS) { Matrix A(conn, dofs); return A.nnode(); }
size_t ndim(ARGS) { Matrix A(conn, dofs); return A.ndim(); }
size_t ndof(ARGS) { Matrix A(conn, dofs); return A.ndof(); }
I2 get_conn(ARGS) { Matrix A(conn, dofs); return A.conn(); }
I2 get_dofs(ARGS) { Matrix A(conn, dofs); return A.dofs(); }
Sp fresh(ARGS) { Matrix A(conn, dofs); return A.data(); }
Sp assemble(MAT) { M; return A.data(); }
Sp assemble__twice(MAT, const A3& elemmat2) { Matrix A(conn, dofs); A.assemble(elemmat2); A.assemble(elemmat); return A.data(); }
Sp assemble__dynamic(const I2& conn, const I2& dofs, const XD& elemmat) { Matrix A(conn, dofs); A.assemble(elemmat); return A.data(); }
Sp set(MAT, const I1& rows, const I1& cols, const A2& matrix) { M; A.set(rows, cols, matrix); return A.data(); }
Sp add(MAT, const I1& rows, const I1& cols, const A2& matrix) { M; A.add(rows, cols, matrix); return A.data(); }
A2 todense(MAT) { M; return A.Todense(); }
A2 todense__inplace(MAT) { M; A2 ret; vf::shape(ret, A.ndof(), A.ndof()); A.todense(ret); return ret; }
A2 dot_node(MAT, const A2& x2) { M; return A.Dot(x2); }
A2 dot_node__inplace(MAT, const A2& x2) { M; NODEVEC; A.dot(x2, ret); return ret; }
A1 dot_dof(MAT, const A1& x1) { M; return A.Dot(x1); }
A1 dot_dof__inplace(MAT, const A1& x1) { M; DOFVAL; A.dot(x1, ret); return ret; }
A2 solve_node(MAT, const A2& b2) { M; MatrixSolver<> s; return s.Solve(A, b2); }
A2 solve_node__inplace(MAT, const A2& b2) { M; MatrixSolver<> s; NODEVEC; s.solve(A, b2, ret); return ret; }
A1 solve_dof(MAT, const A1& b1) { M; MatrixSolver<> s; return s.Solve(A, b1); }
A1 solve_dof__inplace(MAT, const A1& b1) { M; MatrixSolver<> s; DOFVAL; s.solve(A, b1, ret); return ret; }
}

namespace spec {
#define ASM(A, elemmat) \
    std::vector<Tr> T; \
    for (size_t e = 0; e < conn.shape(0); ++e) \
        for (size_t a = 0; a < conn.shape(1); ++a) \
            for (size_t b = 0; b < conn.shape(1); ++b) \
                for (size_t i = 0; i < dofs.shape(1); ++i) \
                    for (size_t j = 0; j < dofs.shape(1); ++j) \
                        T.push_back(Tr(dofs(conn(e, a), i), dofs(conn(e, b), j), elemmat(e, a * dofs.shape(1) + i, b * dofs.shape(1) + j))); \
    size_t n = xt::amax(dofs)() + 1; \
    Sp A(n, n); \
    A.setFromTriplets(T.begin(), T.end())
#define BLOCK(B) \
    std::vector<Tr> TB; \
    for (size_t i = 0; i < rows.size(); ++i) \
        for (size_t j = 0; j < cols.size(); ++j) \
            TB.push_back(Tr(rows(i), cols(j), matrix(i, j))); \
    Sp B(xt::amax(dofs)() + 1, xt::amax(dofs)() + 1); \
    B.setFromTriplets(TB.begin(), TB.end())
#define NODE2DOF(x, x2) \
    Vx x = Vx::Zero(xt::amax(dofs)() + 1); \
    for (size_t m = 0; m < dofs.shape(0); ++m) for (size_t i = 0; i < dofs.shape(1); ++i) x(dofs(m, i)) = x2(m, i)
#define DOF2NODE(x) \
    NODEVEC; for (size_t m = 0; m < dofs.shape(0); ++m) for (size_t i = 0; i < dofs.shape(1); ++i) ret(m, i) = x(dofs(m, i))
#define VEC(x, x1) Vx x = Vx::Zero(x1.size()); for (size_t d = 0; d < x1.size(); ++d) x(d) = x1(d)
#define RET(x) DOFVAL; for (size_t d = 0; d < ret.size(); ++d) ret(d) = x(d)

size_t nelem(ARGS) { return conn.shape(0); }
size_t nne(ARGS) { return conn.shape(1); }
size_t nnode(ARGS) { return dofs.shape(0); }
size_t ndim(ARGS) { return dofs.shape(1); }
size_t ndof(ARGS) { return xt::amax(dofs)() + 1; }
I2 get_conn(ARGS) { return conn; }
I2 get_dofs(ARGS) { return dofs; }
Sp fresh(ARGS) { return Sp(xt::amax(dofs)() + 1, xt::amax(dofs)() + 1); }
Sp assemble(MAT) { ASM(A, elemmat); return A; }
Sp set(MAT, const I1& rows, const I1& cols, const A2& matrix) { BLOCK(B); return B; }
Sp add(MAT, const I1& rows, const I1& cols, const A2& matrix) { ASM(A, elemmat); BLOCK(B); A += B; return A; }
A2 todense(MAT)
{
    ASM(A, elemmat);
    A2 ret = xt::zeros<double>({n, n});
    for (int k = 0; k < A.outerSize(); ++k)
        for (Sp::InnerIterator it(A, k); it; ++it)
            ret(it.row(), it.col()) = it.value();
    return ret;
}
A2 dot_node(MAT, const A2& x2) { ASM(A, elemmat); NODE2DOF(x, x2); Vx b = A * x; DOF2NODE(b); return ret; }
A1 dot_dof(MAT, const A1& x1) { ASM(A, elemmat); VEC(x, x1); Vx b = A * x; RET(b); return ret; }
#define FACT(A) Eigen::SimplicialLDLT<Sp> s; s.compute(A)
A2 solve_node(MAT, const A2& b2) { ASM(A, elemmat); FACT(A); NODE2DOF(b, b2); Vx x = s.solve(b); DOF2NODE(x); return ret; }
A1 solve_dof(MAT, const A1& b1) { ASM(A, elemmat); FACT(A); VEC(b, b1); Vx x = s.solve(b); RET(x); return ret; }
}

// histories: the solver has to use the factorization of the present content of the matrix it is given
#define HIST const I2 &conn, const I2 &dofs, const A3 &elemmat, const A3 &elemmat2, const I1 &rows, const I1 &cols, const A2 &matrix, const A1 &b1
#define E1 A.assemble(elemmat)
#define E2 A.assemble(elemmat2)
#define ST A.set(rows, cols, matrix)
#define AD A.add(rows, cols, matrix)
#define SV s.Solve(A, b1)
#define BEGIN Matrix A(conn, dofs); MatrixSolver<> s
namespace entry {
A1 h_asm(HIST) { BEGIN; E2; SV; E1; return SV; }
A1 h_asm__again(HIST) { BEGIN; E1; SV; SV; return SV; }
A1 h_asm__back(HIST) { BEGIN; E1; SV; E2; SV; E1; return SV; }
A1 h_asm__nosolve(HIST) { BEGIN; E2; ST; AD; E1; return SV; }
A1 h_asm__set(HIST) { BEGIN; ST; SV; E1; return SV; }
A1 h_asm__add(HIST) { BEGIN; E2; AD; SV; E1; return SV; }
A1 h_asm__other(HIST) { BEGIN; E1; Matrix B(conn, dofs); B.assemble(elemmat2); SV; s.Solve(B, b1); return SV; }
A1 h_asm__other2(HIST) { BEGIN; E2; SV; Matrix B(conn, dofs); B.assemble(elemmat); return s.Solve(B, b1); }
A1 h_asm__solver2(HIST) { BEGIN; MatrixSolver<> t; E2; SV; t.Solve(A, b1); E1; t.Solve(A, b1); return SV; }
A1 h_asm__solver3(HIST) { BEGIN; MatrixSolver<> t; E1; SV; return t.Solve(A, b1); }
A1 h_asm__copy(HIST) { BEGIN; E1; SV; Matrix B = A; B.assemble(elemmat2); s.Solve(B, b1); return SV; }
A1 h_asm__copy2(HIST) { BEGIN; E2; SV; Matrix B = A; B.assemble(elemmat); return s.Solve(B, b1); }
A1 h_asm__replace(HIST) { BEGIN; E2; SV; Matrix B(conn, dofs); B.assemble(elemmat); A = B; return SV; }
A1 h_asm__nodevec(HIST) { BEGIN; E2; A2 x = xt::zeros<double>({dofs.shape(0), dofs.shape(1)}); s.Solve(A, x); E1; return SV; }
A1 h_set(HIST) { BEGIN; E1; SV; ST; return SV; }
A1 h_set__add(HIST) { BEGIN; AD; SV; ST; return SV; }
A1 h_set__twice(HIST) { BEGIN; ST; SV; ST; return SV; }
A1 h_set__solver2(HIST) { BEGIN; MatrixSolver<> t; E1; SV; t.Solve(A, b1); ST; t.Solve(A, b1); return SV; }
A1 h_add(HIST) { BEGIN; E1; SV; AD; return SV; }
A1 h_add__nosolve(HIST) { BEGIN; E1; AD; return SV; }
A1 h_add__solver2(HIST) { BEGIN; MatrixSolver<> t; E1; SV; AD; t.Solve(A, b1); return SV; }
A1 h_addadd(HIST) { BEGIN; E1; SV; AD; SV; AD; return SV; }
Sp h_data(HIST) { BEGIN; E1; SV; AD; SV; return A.data(); }
}
namespace spec {
A1 h_asm(HIST) { ASM(A, elemmat); FACT(A); VEC(b, b1); Vx x = s.solve(b); RET(x); return ret; }
A1 h_set(HIST) { BLOCK(A); FACT(A); VEC(b, b1); Vx x = s.solve(b); RET(x); return ret; }
A1 h_add(HIST) { ASM(A, elemmat); BLOCK(B); A += B; FACT(A); VEC(b, b1); Vx x = s.solve(b); RET(x); return ret; }
A1 h_addadd(HIST) { ASM(A, elemmat); BLOCK(B); A += B; A += B; FACT(A); VEC(b, b1); Vx x = s.solve(b); RET(x); return ret; }
Sp h_data(HIST) { ASM(A, elemmat); BLOCK(B); A += B; return A; }
}
