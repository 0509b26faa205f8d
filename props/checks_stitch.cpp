#include "checks.h"
#include <GooseFEM/Mesh.h>
namespace M = GooseFEM::Mesh;
using List = std::vector<I1>;
#define LIST const A2 &xa, const I2 &ca, const A2 &xb, const I2 &cb
#define LISTED M::Stitch made(1e-5, 1e-8); made.push_back(xa, ca); made.push_back(xb, cb)
// (which nodes overlap is not studied: the uninterpreted nodes exist)
#define MESHES vf::require(xa.shape(1) == xb.shape(1)); vf::require(ca.shape(1) == cb.shape(1)); \
    vf::require(xt::amax(ca)() < xa.shape(0)); vf::require(xt::amax(cb)() < xb.shape(0)); \
    I2 over = M::overlapping(xa, xb, 1e-5, 1e-8); I1 oa = xt::view(over, 0); I1 ob = xt::view(over, 1); \
    vf::require(xt::amax(oa)() < xa.shape(0)); vf::require(xt::amax(ob)() < xb.shape(0));
REJECT(elemmap, (LIST, size_t i), LISTED; made.elemmap(i), MESHES vf::require(i < 2))
REJECT(nodeset_a, (LIST, const I1& set), LISTED; made.nodeset(set, 0), MESHES vf::require(xt::amax(set)() < xa.shape(0)))
REJECT(nodeset_b, (LIST, const I1& set), LISTED; made.nodeset(set, 1), MESHES vf::require(xt::amax(set)() < xb.shape(0)))
REJECT(elemset_a, (LIST, const I1& set), LISTED; made.elemset(set, 0), MESHES vf::require(xt::amax(set)() < ca.shape(0)))
REJECT(elemset_b, (LIST, const I1& set), LISTED; made.elemset(set, 1), MESHES vf::require(xt::amax(set)() < cb.shape(0)))
REJECT(nodesets, (LIST, const I1& sa, const I1& sb), LISTED; made.nodeset(List{sa, sb}), MESHES vf::require(xt::amax(sa)() < xa.shape(0)); vf::require(xt::amax(sb)() < xb.shape(0)))
REJECT(elemsets, (LIST, const I1& sa, const I1& sb), LISTED; made.elemset(List{sa, sb}), MESHES vf::require(xt::amax(sa)() < ca.shape(0)); vf::require(xt::amax(sb)() < cb.shape(0)))
REJECT(nodesets_three, (LIST, const I1& sa, const I1& sb, const I1& sc), LISTED; made.nodeset(List{sa, sb, sc}), MESHES vf::require(false))
REJECT(elemsets_three, (LIST, const I1& sa, const I1& sb, const I1& sc), LISTED; made.elemset(List{sa, sb, sc}), MESHES vf::require(false))
REJECT(nodesets_one, (LIST, const I1& sa), LISTED; made.nodeset(List{sa}), MESHES vf::require(false))
REJECT(elemsets_one, (LIST, const I1& sa), LISTED; made.elemset(List{sa}), MESHES vf::require(false))
