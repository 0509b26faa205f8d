#include "common.h"
using GooseFEM::MatrixPartitioned;
using GooseFEM::MatrixPartitionedSolver;
using Sp = Eigen::SparseMatrix<double>;
using Vx = Eigen::VectorXd;
using Tr = Eigen::Triplet<double>;
#define ARGS const I2 &conn, const I2 &dofs, const I1 &iip
#define MAT const I2 &conn, const I2 &dofs, const I1 &iip, const A3 &elemmat

namespace pre {
void common(
    ARGS,
    const A3& elemmat,
    const A3& elemmat2,
    const I1& rows,
    const I1& cols,
    const A2& matrix,
    const A2& x2,
    const A1& x1,
    const A2& b2,
    const A1& b1,
    const A1& x_u,
    const A1& x_p,
    const A1& b_u
)
{
    vf::shape(elemmat, conn.shape(0), conn.shape(1) * dofs.shape(1), conn.shape(1) * dofs.shape(1));
    vf::shape(elemmat2, conn.shape(0), conn.shape(1) * dofs.shape(1), conn.shape(1) * dofs.shape(1));
    vf::shape(matrix, rows.size(), cols.size());
    vf::shape(x2, dofs.shape(0), dofs.shape(1));
    vf::shape(b2, dofs.shape(0), dofs.shape(1));
    vf::shape(x1, xt::amax(dofs)() + 1);
    vf::shape(b1, xt::amax(dofs)() + 1);
    I1 iiu = xt::setdiff1d(dofs, iip);
    vf::shape(x_u, iiu.size());
    vf::shape(b_u, iiu.size());
    vf::shape(x_p, iip.size());
}
} // namespace pre

#define M MatrixPartitioned A(conn, dofs, iip); A.assemble(elemmat); READ(A)
#define NODEVEC A2 ret; vf::shape(ret, dofs.shape(0), dofs.shape(1))
#define DOFVAL A1 ret; vf::shape(ret, xt::amax(dofs)() + 1)
#define FOR_NODES for (size_t m = 0; m < dofs.shape(0); ++m) for (size_t i = 0; i < dofs.shape(1); ++i)

namespace entry {
I1 iiu(ARGS) { MatrixPartitioned A(conn, dofs, iip); return A.iiu(); }
I1 iip(ARGS) { MatrixPartitioned A(conn, dofs, iip); return A.iip(); }
size_t nnu(ARGS) { MatrixPartitioned A(conn, dofs, iip); return A.nnu(); }
size_t nnp(ARGS) { MatrixPartitioned A(conn, dofs, iip); return A.nnp(); }
size_t ndof(ARGS) { MatrixPartitioned A(conn, dofs, iip); return A.ndof(); }
#define BLK(xx) \
    Sp asm_##xx(MAT) { M; return A.data_##xx(); } \
    Sp asm_##xx##__twice(MAT, const A3& elemmat2) { MatrixPartitioned A(conn, dofs, iip); A.assemble(elemmat2); A.assemble(elemmat); return A.data_##xx(); } \
    Sp set_##xx(MAT, const I1& rows, const I1& cols, const A2& matrix) { M; A.set(rows, cols, matrix); return A.data_##xx(); } \
    Sp add_##xx(MAT, const I1& rows, const I1& cols, const A2& matrix) { M; A.add(rows, cols, matrix); return A.data_##xx(); }
BLK(uu) BLK(up) BLK(pu) BLK(pp)
A2 todense(MAT) { M; return A.Todense(); }
A2 todense__inplace(MAT) { M; A2 ret; vf::shape(ret, A.ndof(), A.ndof()); A.todense(ret); return ret; }
A2 dot_node(MAT, const A2& x2) { M; return A.Dot(x2); }
A2 dot_node__inplace(MAT, const A2& x2) { M; NODEVEC; A.dot(x2, ret); return ret; }
A1 dot_dof(MAT, const A1& x1) { M; return A.Dot(x1); }
A1 dot_dof__inplace(MAT, const A1& x1) { M; DOFVAL; A.dot(x1, ret); return ret; }
A2 reac_node(MAT, const A2& x2, const A2& b2) { M; return A.Reaction(x2, b2); }
A2 reac_node__inplace(MAT, const A2& x2, const A2& b2) { M; A2 ret = b2; A.reaction(x2, ret); return ret; }
A1 reac_dof(MAT, const A1& x1, const A1& b1) { M; return A.Reaction(x1, b1); }
A1 reac_dof__inplace(MAT, const A1& x1, const A1& b1) { M; A1 ret = b1; A.reaction(x1, ret); return ret; }
A1 reac_p(MAT, const A1& x_u, const A1& x_p) { M; return A.Reaction_p(x_u, x_p); }
A1 reac_p__inplace(MAT, const A1& x_u, const A1& x_p) { M; A1 ret; vf::shape(ret, iip.size()); A.reaction_p(x_u, x_p, ret); return ret; }
A2 solve_node(MAT, const A2& b2, const A2& x2) { M; MatrixPartitionedSolver<> s; return s.Solve(A, b2, x2); }
A2 solve_node__inplace(MAT, const A2& b2, const A2& x2) { M; MatrixPartitionedSolver<> s; A2 ret = x2; s.solve(A, b2, ret); return ret; }
A1 solve_dof(MAT, const A1& b1, const A1& x1) { M; MatrixPartitionedSolver<> s; return s.Solve(A, b1, x1); }
A1 solve_dof__inplace(MAT, const A1& b1, const A1& x1) { M; MatrixPartitionedSolver<> s; A1 ret = x1; s.solve(A, b1, ret); return ret; }
A1 solve_u(MAT, const A1& b_u, const A1& x_p) { M; MatrixPartitionedSolver<> s; return s.Solve_u(A, b_u, x_p); }
A1 solve_u__inplace(MAT, const A1& b_u, const A1& x_p) { M; MatrixPartitionedSolver<> s; A1 ret; vf::shape(ret, b_u.size()); s.solve_u(A, b_u, x_p, ret); return ret; }
}

namespace spec {
// Partition: the unknown DOFs `iiu` are those that are not prescribed; they come first in the order [iiu, iip].
#define PART \
    I1 iiu = xt::setdiff1d(dofs, iip); \
    size_t nnu = iiu.size(); \
    size_t nnp = iip.size(); \
    I1 loc; \
    vf::shape(loc, xt::amax(dofs)() + 1); \
    for (size_t d = 0; d < nnu; ++d) loc(iiu(d)) = d; \
    for (size_t d = 0; d < nnp; ++d) loc(iip(d)) = nnu + d; \
    I2 part; \
    vf::shape(part, dofs.shape(0), dofs.shape(1)); \
    for (size_t m = 0; m < dofs.shape(0); ++m) for (size_t i = 0; i < dofs.shape(1); ++i) part(m, i) = loc(dofs(m, i))
#define PUSH(di, dj, v) \
    if (di < nnu && dj < nnu) Tuu.push_back(Tr(di, dj, v)); \
    if (di < nnu && dj >= nnu) Tup.push_back(Tr(di, dj - nnu, v)); \
    if (di >= nnu && dj < nnu) Tpu.push_back(Tr(di - nnu, dj, v)); \
    if (di >= nnu && dj >= nnu) Tpp.push_back(Tr(di - nnu, dj - nnu, v))
#define FILL \
    Sp uu(nnu, nnu), up(nnu, nnp), pu(nnp, nnu), pp(nnp, nnp); \
    uu.setFromTriplets(Tuu.begin(), Tuu.end()); up.setFromTriplets(Tup.begin(), Tup.end()); \
    pu.setFromTriplets(Tpu.begin(), Tpu.end()); pp.setFromTriplets(Tpp.begin(), Tpp.end())
#define ASM(elemmat) \
    PART; \
    std::vector<Tr> Tuu, Tup, Tpu, Tpp; \
    for (size_t e = 0; e < conn.shape(0); ++e) \
        for (size_t a = 0; a < conn.shape(1); ++a) \
            for (size_t b = 0; b < conn.shape(1); ++b) \
                for (size_t i = 0; i < dofs.shape(1); ++i) \
                    for (size_t j = 0; j < dofs.shape(1); ++j) { \
                        PUSH(part(conn(e, a), i), part(conn(e, b), j), elemmat(e, a * dofs.shape(1) + i, b * dofs.shape(1) + j)); \
                    } \
    FILL
#define BLOCK \
    PART; \
    std::vector<Tr> Tuu, Tup, Tpu, Tpp; \
    for (size_t i = 0; i < rows.size(); ++i) for (size_t j = 0; j < cols.size(); ++j) { PUSH(loc(rows(i)), loc(cols(j)), matrix(i, j)); } \
    FILL
#define PLUS { BLOCK; Auu += uu; Aup += up; Apu += pu; App += pp; }
// parts of a nodal vector / list of DOF values
#define NODE_U(x, x2) Vx x = Vx::Zero(nnu); FOR_NODES { if (part(m, i) < nnu) x(part(m, i)) = x2(m, i); }
#define NODE_P(x, x2) Vx x = Vx::Zero(nnp); FOR_NODES { if (part(m, i) >= nnu) x(part(m, i) - nnu) = x2(m, i); }
#define DOF_U(x, x1) Vx x = Vx::Zero(nnu); for (size_t d = 0; d < nnu; ++d) x(d) = x1(iiu(d));
#define DOF_P(x, x1) Vx x = Vx::Zero(nnp); for (size_t d = 0; d < nnp; ++d) x(d) = x1(iip(d));
#define LIST(x, x1) Vx x = Vx::Zero(x1.size()); for (size_t d = 0; d < x1.size(); ++d) x(d) = x1(d);

I1 iiu(ARGS) { PART; return iiu; }
I1 iip(ARGS) { return iip; }
size_t nnu(ARGS) { PART; return nnu; }
size_t nnp(ARGS) { return iip.size(); }
size_t ndof(ARGS) { return xt::amax(dofs)() + 1; }
#undef BLK
#define BLK(xx) \
    Sp asm_##xx(MAT) { ASM(elemmat); return xx; } \
    Sp set_##xx(MAT, const I1& rows, const I1& cols, const A2& matrix) { BLOCK; return xx; } \
    Sp add_##xx(MAT, const I1& rows, const I1& cols, const A2& matrix) { Sp A; { ASM(elemmat); A = xx; } { BLOCK; A += xx; } return A; }
BLK(uu) BLK(up) BLK(pu) BLK(pp)
#define DENSE(B, r, c) \
    for (int k = 0; k < B.outerSize(); ++k) \
        for (Sp::InnerIterator it(B, k); it; ++it) \
            ret(r(it.row()), c(it.col())) = it.value()
A2 todense(MAT)
{
    ASM(elemmat);
    size_t n = xt::amax(dofs)() + 1;
    A2 ret = xt::zeros<double>({n, n});
    DENSE(uu, iiu, iiu);
    DENSE(up, iiu, iip);
    DENSE(pu, iip, iiu);
    DENSE(pp, iip, iip);
    return ret;
}
A2 dot_node(MAT, const A2& x2)
{
    ASM(elemmat);
    NODE_U(x_u, x2);
    NODE_P(x_p, x2);
    Vx b_u = uu * x_u + up * x_p;
    Vx b_p = pu * x_u + pp * x_p;
    NODEVEC;
    FOR_NODES ret(m, i) = part(m, i) < nnu ? b_u(part(m, i)) : b_p(part(m, i) - nnu);
    return ret;
}
A1 dot_dof(MAT, const A1& x1)
{
    ASM(elemmat);
    DOF_U(x_u, x1);
    DOF_P(x_p, x1);
    Vx b_u = uu * x_u + up * x_p;
    Vx b_p = pu * x_u + pp * x_p;
    DOFVAL;
    for (size_t d = 0; d < nnu; ++d) ret(iiu(d)) = b_u(d);
    for (size_t d = 0; d < nnp; ++d) ret(iip(d)) = b_p(d);
    return ret;
}
A2 reac_node(MAT, const A2& x2, const A2& b2)
{
    ASM(elemmat);
    NODE_U(x_u, x2);
    NODE_P(x_p, x2);
    Vx b_p = pu * x_u + pp * x_p;
    NODEVEC;
    FOR_NODES ret(m, i) = part(m, i) < nnu ? b2(m, i) : b_p(part(m, i) - nnu);
    return ret;
}
A1 reac_dof(MAT, const A1& x1, const A1& b1)
{
    ASM(elemmat);
    DOF_U(x_u, x1);
    DOF_P(x_p, x1);
    Vx b_p = pu * x_u + pp * x_p;
    A1 ret = b1;
    for (size_t d = 0; d < nnp; ++d) ret(iip(d)) = b_p(d);
    return ret;
}
A1 reac_p(MAT, const A1& x_u, const A1& x_p)
{
    ASM(elemmat);
    LIST(u, x_u);
    LIST(p, x_p);
    Vx b_p = pu * u + pp * p;
    A1 ret;
    vf::shape(ret, nnp);
    for (size_t d = 0; d < nnp; ++d) ret(d) = b_p(d);
    return ret;
}
#define FACT(A) Eigen::SimplicialLDLT<Sp> s; s.compute(A)
A2 solve_node(MAT, const A2& b2, const A2& x2)
{
    ASM(elemmat);
    FACT(uu);
    NODE_U(b_u, b2);
    NODE_P(x_p, x2);
    Vx x_u = s.solve(Vx(b_u - up * x_p));
    NODEVEC;
    FOR_NODES ret(m, i) = part(m, i) < nnu ? x_u(part(m, i)) : x2(m, i);
    return ret;
}
A1 solve_dof(MAT, const A1& b1, const A1& x1)
{
    ASM(elemmat);
    FACT(uu);
    DOF_U(b_u, b1);
    DOF_P(x_p, x1);
    Vx x_u = s.solve(Vx(b_u - up * x_p));
    A1 ret = x1;
    for (size_t d = 0; d < nnu; ++d) ret(iiu(d)) = x_u(d);
    return ret;
}
A1 solve_u(MAT, const A1& b_u, const A1& x_p)
{
    ASM(elemmat);
    FACT(uu);
    LIST(b, b_u);
    LIST(p, x_p);
    Vx x = s.solve(Vx(b - up * p));
    A1 ret;
    vf::shape(ret, nnu);
    for (size_t d = 0; d < nnu; ++d) ret(d) = x(d);
    return ret;
}
}

// histories: the solver has to use the factorization of the present content of the matrix it is given
#define HIST ARGS, const A3 &elemmat, const A3 &elemmat2, const I1 &rows, const I1 &cols, const A2 &matrix, const A1 &b1, const A1 &x1
#define E1 A.assemble(elemmat)
#define E2 A.assemble(elemmat2)
#define ST A.set(rows, cols, matrix)
#define AD A.add(rows, cols, matrix)
#define SV s.Solve(A, b1, x1)
#define BEGIN MatrixPartitioned A(conn, dofs, iip); MatrixPartitionedSolver<> s
namespace entry {
A1 h_asm(HIST) { BEGIN; E2; SV; E1; return SV; }
A1 h_asm__again(HIST) { BEGIN; E1; SV; SV; return SV; }
A1 h_asm__back(HIST) { BEGIN; E1; SV; E2; SV; E1; return SV; }
A1 h_asm__nosolve(HIST) { BEGIN; E2; ST; AD; E1; return SV; }
A1 h_asm__set(HIST) { BEGIN; ST; SV; E1; return SV; }
A1 h_asm__add(HIST) { BEGIN; E2; AD; SV; E1; return SV; }
A1 h_asm__other(HIST) { BEGIN; E1; MatrixPartitioned B(conn, dofs, iip); B.assemble(elemmat2); SV; s.Solve(B, b1, x1); return SV; }
A1 h_asm__other2(HIST) { BEGIN; E2; SV; MatrixPartitioned B(conn, dofs, iip); B.assemble(elemmat); return s.Solve(B, b1, x1); }
A1 h_asm__solver2(HIST) { BEGIN; MatrixPartitionedSolver<> t; E2; SV; t.Solve(A, b1, x1); E1; t.Solve(A, b1, x1); return SV; }
A1 h_asm__solver3(HIST) { BEGIN; MatrixPartitionedSolver<> t; E1; SV; return t.Solve(A, b1, x1); }
A1 h_asm__copy(HIST) { BEGIN; E1; SV; MatrixPartitioned B = A; B.assemble(elemmat2); s.Solve(B, b1, x1); return SV; }
A1 h_asm__copy2(HIST) { BEGIN; E2; SV; MatrixPartitioned B = A; B.assemble(elemmat); return s.Solve(B, b1, x1); }
A1 h_asm__replace(HIST) { BEGIN; E2; SV; MatrixPartitioned B(conn, dofs, iip); B.assemble(elemmat); A = B; return SV; }
A1 h_asm__nodevec(HIST) { BEGIN; E2; A2 x = xt::zeros<double>({dofs.shape(0), dofs.shape(1)}); s.Solve(A, x, x); E1; return SV; }
A1 h_asm__u(HIST) { BEGIN; E2; A1 u = xt::zeros<double>({A.nnu()}); A1 p = xt::zeros<double>({A.nnp()}); s.Solve_u(A, u, p); E1; return SV; }
A1 h_set(HIST) { BEGIN; E1; SV; ST; return SV; }
A1 h_set__add(HIST) { BEGIN; AD; SV; ST; return SV; }
A1 h_set__twice(HIST) { BEGIN; ST; SV; ST; return SV; }
A1 h_set__solver2(HIST) { BEGIN; MatrixPartitionedSolver<> t; E1; SV; t.Solve(A, b1, x1); ST; t.Solve(A, b1, x1); return SV; }
A1 h_add(HIST) { BEGIN; E1; SV; AD; return SV; }
A1 h_add__nosolve(HIST) { BEGIN; E1; AD; return SV; }
A1 h_add__solver2(HIST) { BEGIN; MatrixPartitionedSolver<> t; E1; SV; AD; t.Solve(A, b1, x1); return SV; }
A1 h_addadd(HIST) { BEGIN; E1; SV; AD; SV; AD; return SV; }
A1 h_u(HIST, const A1& b_u, const A1& x_p) { BEGIN; E2; s.Solve_u(A, b_u, x_p); E1; return s.Solve_u(A, b_u, x_p); }
A1 h_u__dof(HIST, const A1& b_u, const A1& x_p) { BEGIN; E2; SV; E1; return s.Solve_u(A, b_u, x_p); }
}
namespace spec {
#define SOLVE \
    FACT(Auu); DOF_U(b_u, b1); DOF_P(x_p, x1); \
    Vx x_u = s.solve(Vx(b_u - Aup * x_p)); \
    A1 ret = x1; for (size_t d = 0; d < nnu; ++d) ret(iiu(d)) = x_u(d); \
    return ret
#define START PART; Sp Auu(nnu, nnu), Aup(nnu, nnp)
A1 h_asm(HIST) { START; { ASM(elemmat); Auu = uu; Aup = up; } SOLVE; }
A1 h_set(HIST) { START; { BLOCK; Auu = uu; Aup = up; } SOLVE; }
A1 h_add(HIST) { START; { ASM(elemmat); Auu = uu; Aup = up; } { BLOCK; Auu += uu; Aup += up; } SOLVE; }
A1 h_addadd(HIST) { START; { ASM(elemmat); Auu = uu; Aup = up; } { BLOCK; Auu += uu; Aup += up; Auu += uu; Aup += up; } SOLVE; }
A1 h_u(HIST, const A1& b_u, const A1& x_p)
{
    ASM(elemmat);
    FACT(uu);
    LIST(b, b_u);
    LIST(p, x_p);
    Vx x = s.solve(Vx(b - up * p));
    A1 ret;
    vf::shape(ret, nnu);
    for (size_t d = 0; d < nnu; ++d) ret(d) = x(d);
    return ret;
}
}
