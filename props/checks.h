// Inputs about which nothing is known: the code has to reject those that are inconsistent (vf::require), and no others.
#pragma once
#include "common.h"

#define CHECK(name, call, conds, ...) \
    namespace entry { \
    void name(ARGS, __VA_ARGS__) \
    { \
        MADE; \
        call; \
    } \
    } \
    namespace spec { \
    void name(ARGS, __VA_ARGS__) \
    { \
        GIVEN; \
        conds; \
    } \
    }
#define MAKE(name) \
    namespace entry { \
    void name(ARGS) { MADE; } \
    } \
    namespace spec { \
    void name(ARGS) { GIVEN; } \
    }

#define SIZE(a, n) vf::require(a.shape(0) == n);
#define SHAPE(a, n, m) vf::require(a.shape(0) == n); vf::require(a.shape(1) == m);
#define SHAPE3(a, n, m, k) SHAPE(a, n, m) vf::require(a.shape(2) == k);
#define SHAPE4(a, n, m, k, l) SHAPE3(a, n, m, k) vf::require(a.shape(3) == l);
#define SHAPE6(a, n, m, k, l, o, p) SHAPE4(a, n, m, k, l) vf::require(a.shape(4) == o); vf::require(a.shape(5) == p);

// of a mesh: connectivity "conn", degrees of freedom "dofs"
#define NDOF (xt::amax(dofs)() + 1)
#define RANGE vf::require(xt::amax(conn)() + 1 <= dofs.shape(0)); vf::require(NDOF <= dofs.shape(0) * dofs.shape(1));
#define DOF(a) SIZE(a, NDOF)
#define NODE(a) SHAPE(a, dofs.shape(0), dofs.shape(1))
#define ELEM(a) SHAPE3(a, conn.shape(0), conn.shape(1), dofs.shape(1))
#define EMAT(a) SHAPE3(a, conn.shape(0), conn.shape(1) * dofs.shape(1), conn.shape(1) * dofs.shape(1))
#define DENSE(a) SHAPE(a, NDOF, NDOF)
// partitioned: prescribed degrees of freedom "iip"
#define PARTITION RANGE vf::require(GooseFEM::is_unique(iip)); vf::require(xt::amax(iip)() <= xt::amax(dofs)());
#define DOF_U(a) SIZE(a, xt::setdiff1d(dofs, iip).size())
#define DOF_P(a) SIZE(a, iip.shape(0))

#define REJECT(name, params, call, conds) \
    namespace entry { \
    void name params \
    { \
        call; \
    } \
    } \
    namespace spec { \
    void name params \
    { \
        conds; \
    } \
    }
