// Reading operations, on inputs about which nothing is known. They change neither the object nor their arguments:
// what follows has to be the same as without them (see READ in common.h).
#pragma once
#include "common.h"
#include <GooseFEM/Iterate.h>
#include <GooseFEM/MeshHex8.h>
#include <GooseFEM/MeshQuad4.h>
#include <GooseFEM/MeshTri3.h>
#undef READ
#define READ(x) reading(x)

namespace entry {

#define READ_N A2 n; vf::shape(n, v.nnode(), v.ndim())
#define READ_E A3 e; vf::shape(e, v.nelem(), v.nne(), v.ndim())
#define READ_D A1 d; vf::shape(d, v.ndof())
#define READ_U A1 u; vf::shape(u, v.nnu())
#define READ_P A1 p; vf::shape(p, v.nnp())

template <class V>
void reading_mesh(V& v)
{
    I2 conn = v.conn();
    I2 dofs = v.dofs();
}

template <class V>
void reading_vector(V& v)
{
    READ_N;
    READ_E;
    READ_D;
    reading_mesh(v);
    A1 r1 = v.AsDofs(n);
    A1 r2 = v.AsDofs(e);
    A2 r3 = v.AsNode(d);
    A2 r4 = v.AsNode(e);
    A3 r5 = v.AsElement(d);
    A3 r6 = v.AsElement(n);
    A1 r7 = v.AssembleDofs(n);
    A1 r8 = v.AssembleDofs(e);
    A2 r9 = v.AssembleNode(e);
    A2 r10 = v.Copy(n, r9);
    A1 q1 = v.allocate_dofval();
    A2 q2 = v.allocate_nodevec();
    A3 q3 = v.allocate_elemvec();
    A3 q4 = v.allocate_elemmat();
}

template <class V>
void reading_partition(V& v)
{
    I1 iiu = v.iiu();
    I1 iip = v.iip();
}

template <class V>
void reading_tyings(V& v)
{
    reading_partition(v);
    I1 iii = v.iii();
    I1 iid = v.iid();
}

void reading(GooseFEM::Vector& v)
{
    reading_vector(v);
}

void reading(GooseFEM::VectorPartitioned& v)
{
    READ_N;
    READ_E;
    READ_D;
    READ_U;
    READ_P;
    reading_vector(v);
    reading_partition(v);
    A2 m;
    vf::shape(m, v.nnode(), v.ndim());
    B2 b1 = v.dofs_is_u();
    B2 b2 = v.dofs_is_p();
    A2 r1 = v.Copy_u(n, m);
    A2 r2 = v.Copy_p(n, m);
    A1 r3 = v.DofsFromParitioned(u, p);
    A2 r4 = v.NodeFromPartitioned(u, p);
    A3 r5 = v.ElementFromPartitioned(u, p);
    A1 r6 = v.AsDofs_u(d);
    A1 r7 = v.AsDofs_u(n);
    A1 r8 = v.AsDofs_u(e);
    A1 r9 = v.AsDofs_p(d);
    A1 r10 = v.AsDofs_p(n);
    A1 r11 = v.AsDofs_p(e);
}

void reading(GooseFEM::VectorPartitionedTyings& v)
{
    READ_N;
    READ_D;
    reading_vector(v);
    reading_tyings(v);
    A1 g;
    vf::shape(g, v.ndof());
    A1 r1 = v.AsDofs_i(n);
    v.copy_p(d, g);
}

template <class V>
void reading_product(V& v)
{
    READ_N;
    READ_D;
    A2 r1 = v.Dot(n);
    A1 r2 = v.Dot(d);
}

template <class V>
void reading_reaction(V& v)
{
    READ_N;
    READ_D;
    READ_U;
    READ_P;
    A2 m;
    vf::shape(m, v.nnode(), v.ndim());
    A1 g;
    vf::shape(g, v.ndof());
    A2 r1 = v.Reaction(n, m);
    A1 r2 = v.Reaction(d, g);
    A1 r3 = v.Reaction_p(u, p);
}

void reading(GooseFEM::Matrix& v)
{
    READ_N;
    READ_D;
    reading_mesh(v);
    Eigen::SparseMatrix<double> r1 = v.data();
    A2 r2 = v.Todense();
    reading_product(v);
    GooseFEM::MatrixSolver<> s;
    A2 r3 = s.Solve(v, n);
    A1 r4 = s.Solve(v, d);
}

template <class S, class V>
void reading_solve(V& v)
{
    READ_N;
    READ_D;
    READ_U;
    READ_P;
    A2 m;
    vf::shape(m, v.nnode(), v.ndim());
    A1 g;
    vf::shape(g, v.ndof());
    S s;
    A2 r3 = s.Solve(v, n, m);
    A1 r4 = s.Solve(v, d, g);
}

void reading(GooseFEM::MatrixPartitioned& v)
{
    READ_U;
    READ_P;
    reading_mesh(v);
    reading_partition(v);
    A2 r2 = v.Todense();
    reading_product(v);
    reading_reaction(v);
    reading_solve<GooseFEM::MatrixPartitionedSolver<>>(v);
    GooseFEM::MatrixPartitionedSolver<> s;
    A1 r3 = s.Solve_u(v, u, p);
}

void reading(GooseFEM::MatrixPartitionedTyings& v)
{
    reading_mesh(v);
    reading_tyings(v);
    A2 r2 = v.Todense();
    reading_solve<GooseFEM::MatrixPartitionedTyingsSolver<>>(v);
    READ_U;
    READ_P;
    A1 g;
    vf::shape(g, v.nnd());
    GooseFEM::MatrixPartitionedTyingsSolver<> s;
    A1 r3 = s.Solve_u(v, u, g, p);
}

void reading(GooseFEM::MatrixDiagonal& v)
{
    READ_N;
    READ_D;
    reading_mesh(v);
    A1 r1 = v.data();
    A1 r2 = v.Todiagonal();
    A2 r3 = v.Todense();
    reading_product(v);
    A2 r4 = v.Solve(n);
    A1 r5 = v.Solve(d);
}

void reading(GooseFEM::MatrixDiagonalPartitioned& v)
{
    READ_N;
    READ_D;
    READ_U;
    READ_P;
    reading_mesh(v);
    reading_partition(v);
    A1 r0 = v.data();
    A1 r1 = v.data_uu();
    A1 r2 = v.data_pp();
    A1 r3 = v.Todiagonal();
    A2 r4 = v.Todense();
    reading_product(v);
    reading_reaction(v);
    A1 r5 = v.Dot_u(u, p);
    A1 r6 = v.Dot_p(u, p);
    A2 r7 = v.Solve(n);
    A1 r8 = v.Solve(d);
    A1 r9 = v.Solve_u(u, p);
}

void reading(GooseFEM::Tyings::Periodic& t)
{
    I2 r1 = t.dofs();
    I2 r2 = t.control();
    I2 r3 = t.nodal_tyings();
    I1 r4 = t.iid();
    I1 r5 = t.iii();
    I1 r6 = t.iiu();
    I1 r7 = t.iip();
    Eigen::SparseMatrix<double> c1 = t.Cdi();
    Eigen::SparseMatrix<double> c2 = t.Cdu();
    Eigen::SparseMatrix<double> c3 = t.Cdp();
}

template <class Q>
void reading_element(Q& el)
{
    size_t td = el.tdim();
    A3 e;
    vf::shape(e, el.nelem(), el.nne(), el.ndim());
    A2 s;
    vf::shape(s, el.nelem(), el.nip());
    A3 v;
    vf::shape(v, el.nelem(), el.nip(), el.ndim());
    A4 t;
    vf::shape(t, el.nelem(), el.nip(), td, td);
    A6 c;
    vf::shape(c, el.nelem(), el.nip(), td, td, td, td);
    A2 r1 = el.dV();
    A3 r2 = el.InterpQuad_vector(e);
    A4 r3 = el.GradN_vector(e);
    A4 r4 = el.GradN_vector_T(e);
    A4 r5 = el.SymGradN_vector(e);
    A3 r6 = el.Int_N_vector_dV(v);
    A3 r7 = el.Int_N_scalar_NT_dV(s);
    A3 r8 = el.Int_gradN_dot_tensor2_dV(t);
    A3 r9 = el.Int_gradN_dot_tensor4_dot_gradNT_dV(c);
}
void reading(GooseFEM::Element::Quad4::Quadrature& el)
{
    reading_element(el);
    A4 r = el.GradN();
}
void reading(GooseFEM::Element::Quad4::QuadraturePlanar& el)
{
    reading_element(el);
    A4 r = el.GradN();
}
void reading(GooseFEM::Element::Quad4::QuadratureAxisymmetric& el)
{
    reading_element(el);
    A6 r = el.B();
}
void reading(GooseFEM::Element::Hex8::Quadrature& el)
{
    reading_element(el);
    A4 r = el.GradN();
}

template <class M>
void reading_tables(M& m)
{
    size_t n[] = {m.nelem(), m.nnode(), m.nne(), m.ndim(), m.nelx(), m.nely()};
    double h = m.h();
    auto t = m.elementType();
    A2 x = m.coor();
    I2 c = m.conn();
}

template <class M>
void reading_plane(M& m)
{
    reading_tables(m);
    I1 bottom = m.nodesBottomEdge();
    I1 bottom_ = m.nodesBottomOpenEdge();
    I1 top = m.nodesTopEdge();
    I1 top_ = m.nodesTopOpenEdge();
    I1 left = m.nodesLeftEdge();
    I1 left_ = m.nodesLeftOpenEdge();
    I1 right = m.nodesRightEdge();
    I1 right_ = m.nodesRightOpenEdge();
    size_t bottomleft = m.nodesBottomLeftCorner();
    size_t bottomright = m.nodesBottomRightCorner();
    size_t topleft = m.nodesTopLeftCorner();
    size_t topright = m.nodesTopRightCorner();
}

template <class M>
void reading_space(M& m)
{
    reading_tables(m);
    size_t nelz = m.nelz();
    I1 front = m.nodesFront();
    I1 front_ = m.nodesFrontFace();
    I1 back = m.nodesBack();
    I1 back_ = m.nodesBackFace();
    I1 left = m.nodesLeft();
    I1 left_ = m.nodesLeftFace();
    I1 right = m.nodesRight();
    I1 right_ = m.nodesRightFace();
    I1 bottom = m.nodesBottom();
    I1 bottom_ = m.nodesBottomFace();
    I1 top = m.nodesTop();
    I1 top_ = m.nodesTopFace();
    I1 frontbottom = m.nodesFrontBottomEdge();
    I1 frontbottom_ = m.nodesFrontBottomOpenEdge();
    I1 fronttop = m.nodesFrontTopEdge();
    I1 fronttop_ = m.nodesFrontTopOpenEdge();
    I1 frontleft = m.nodesFrontLeftEdge();
    I1 frontleft_ = m.nodesFrontLeftOpenEdge();
    I1 frontright = m.nodesFrontRightEdge();
    I1 frontright_ = m.nodesFrontRightOpenEdge();
    I1 backbottom = m.nodesBackBottomEdge();
    I1 backbottom_ = m.nodesBackBottomOpenEdge();
    I1 backtop = m.nodesBackTopEdge();
    I1 backtop_ = m.nodesBackTopOpenEdge();
    I1 backleft = m.nodesBackLeftEdge();
    I1 backleft_ = m.nodesBackLeftOpenEdge();
    I1 backright = m.nodesBackRightEdge();
    I1 backright_ = m.nodesBackRightOpenEdge();
    I1 bottomleft = m.nodesBottomLeftEdge();
    I1 bottomleft_ = m.nodesBottomLeftOpenEdge();
    I1 bottomright = m.nodesBottomRightEdge();
    I1 bottomright_ = m.nodesBottomRightOpenEdge();
    I1 topleft = m.nodesTopLeftEdge();
    I1 topleft_ = m.nodesTopLeftOpenEdge();
    I1 topright = m.nodesTopRightEdge();
    I1 topright_ = m.nodesTopRightOpenEdge();
    size_t frontbottomleft = m.nodesFrontBottomLeftCorner();
    size_t frontbottomright = m.nodesFrontBottomRightCorner();
    size_t fronttopleft = m.nodesFrontTopLeftCorner();
    size_t fronttopright = m.nodesFrontTopRightCorner();
    size_t backbottomleft = m.nodesBackBottomLeftCorner();
    size_t backbottomright = m.nodesBackBottomRightCorner();
    size_t backtopleft = m.nodesBackTopLeftCorner();
    size_t backtopright = m.nodesBackTopRightCorner();
}

template <class M>
void reading_regular(M& m)
{
    I2 d = m.dofs();
    I2 p = m.nodesPeriodic();
    I2 q = m.dofsPeriodic();
    size_t o = m.nodesOrigin();
}

void reading(GooseFEM::Mesh::Quad4::Regular& m)
{
    reading_plane(m);
    reading_regular(m);
    I2 g = m.elementgrid();
}

void reading(GooseFEM::Mesh::Tri3::Regular& m)
{
    reading_plane(m);
    reading_regular(m);
}

void reading(GooseFEM::Mesh::Hex8::Regular& m)
{
    reading_space(m);
    I2 d = m.dofs();
    size_t o = m.nodesOrigin();
}

void reading(const GooseFEM::Mesh::Quad4::FineLayer& m)
{
    reading_plane(m);
    I1 r1 = m.elemrow_nhx();
    I1 r2 = m.elemrow_nhy();
    AT<int, 1> r3 = m.elemrow_type();
    I1 r4 = m.elemrow_nelem();
    I1 r5 = m.elementsMiddleLayer();
    I1 r6 = m.elementsLayer(0);
}

void reading(const GooseFEM::Mesh::Hex8::FineLayer& m)
{
    reading_space(m);
    I1 r5 = m.elementsMiddleLayer();
}

void reading(GooseFEM::Mesh::Quad4::Map::RefineRegular& m)
{
    auto a = m.coarseMesh();
    auto b = m.fineMesh();
    I2 c = m.map();
    A1 coarse;
    vf::shape(coarse, a.nelem());
    A1 fine;
    vf::shape(fine, b.nelem());
    A1 w;
    vf::shape(w, b.nelem());
    A1 r1 = m.mapToFine(coarse);
    A1 r2 = m.meanToCoarse(fine);
    A1 r3 = m.averageToCoarse(fine, w);
}

void reading(const GooseFEM::Mesh::Quad4::Map::FineLayer2Regular& m)
{
    auto a = m.regularMesh();
    auto b = m.fineLayerMesh();
    auto c = m.map();
    auto d = m.mapFraction();
#ifndef NODATA
    A1 fine;
    vf::shape(fine, b.nelem());
    A1 r = m.mapToRegular(fine);
#endif
}

template <class S>
void reading_stitched(S& s)
{
    size_t n[] = {s.nmesh(), s.nelem(), s.nnode(), s.nne(), s.ndim()};
    A2 x = s.coor();
    I2 c = s.conn();
    I2 d = s.dofs();
    auto nodes = s.nodemap();
    auto elems = s.elemmap();
    I1 a = s.nodemap(1);
    I1 b = s.elemmap(1);
    I1 e = s.nodeset(a, 0);
    I1 f = s.elemset(b, 0);
}

void reading(GooseFEM::Mesh::ManualStitch& s)
{
    reading_stitched(s);
}

void reading(GooseFEM::Mesh::Stitch& s)
{
    reading_stitched(s);
}

void reading(GooseFEM::Mesh::Vstack& s)
{
    reading_stitched(s);
}

void reading(GooseFEM::Mesh::Renumber& s)
{
    I1 a = s.index();
    I1 b = s.apply(a);
}

void reading(GooseFEM::Mesh::Reorder& s)
{
    I1 a = s.index();
    I1 b = s.apply(a);
}

void reading(GooseFEM::Iterate::StopList& s)
{
    auto a = s.data();
    bool b = s.descending();
    bool c = s.all_less(1e-3);
}

} // namespace entry
