"""Models of the library calls (xtensor, Eigen, std) that GooseFEM uses."""
import re
from fractions import Fraction

from terms import *
import terms as T
import engine as E
from engine import (Arr, Fn, View, Elem, Obj, Lst, Ptr, Lam, Str, Opq, It, Cell, Region, fail, freeze, isarr, points, UNROLL,
                    Unmodelled)


# ---------------------------------------------------------------- helpers
def dims(eng, x):
    """Shape given as list, std::array or another array's shape."""
    v = eng.rv(x)
    if isinstance(v, Lst):
        items = v.items
        if len(items) == 1 and isinstance(eng.rv(items[0]), Lst):
            return dims(eng, items[0])
        return tuple(eng.number(i) for i in items)
    if isinstance(v, Opq) and v.tag == "shape":
        return v.args[0]
    if isarr(v) and v.shape is not None and len(v.shape) == 1:
        n = const_int(v.shape[0])
        if n is None:
            fail("shape of unknown rank")
        return tuple(eng.elem(v, (num(k),)) for k in range(n))
    fail("shape %s" % type(v).__name__)


def shape_list(shape):
    return Lst([Cell(s) for s in shape], "shape")


def shape_of(eng, x):
    v = eng.rv(x) if not isinstance(x, View) else x
    if isarr(v):
        return v.shape
    if isinstance(v, Poly) or E.isbool(v):
        return ()
    if isinstance(v, Lst):
        if all(isinstance(eng.rv(i), Poly) for i in v.items):
            return (num(len(v.items)),)
    fail("shape of %s" % type(v).__name__)


def kind_of(eng, x):
    v = eng.rv(x) if not isinstance(x, View) else x
    if isarr(v):
        return v.kind
    if E.isbool(v):
        return "b"
    if isinstance(v, Poly):
        return "u" if v.isint else "d"
    return "d"


def operand(eng, x):
    """(shape, reader) of an array or scalar operand."""
    v = x if isinstance(x, View) else eng.rv(x)
    if isarr(v):
        return v.shape, eng.reader(x if isinstance(x, (Cell, View)) else v)
    if E.isbool(v):
        return (), lambda i: bracket(v)
    if isinstance(v, Poly):
        return (), lambda i: v
    if isinstance(v, Lst):
        a = from_list(eng, v)
        return a.shape, eng.reader(a)
    fail("operand %s" % type(v).__name__)


def broadcast(shapes):
    if any(s is None for s in shapes):
        fail("unknown rank")
    r = max(len(s) for s in shapes)
    out = []
    for k in range(r):
        d = None
        for s in shapes:
            j = k - (r - len(s))
            if j < 0:
                continue
            x = s[j]
            if x is ONE:
                d = d or ONE
            elif d is None or d is ONE:
                d = x
            # otherwise the sizes are the same, or the library throws
        out.append(d)
    return tuple(out)


def bidx(idx, shape, out):
    r = len(out)
    o = r - len(shape)
    return tuple(ZERO if shape[k] is ONE and out[o + k] is not ONE else idx[o + k] for k in range(len(shape)))


def elementwise(eng, op, args):
    vals = [eng.rv(a) if not isinstance(a, View) else a for a in args]
    if any(isinstance(v, Mat) for v in vals) or any(isarr(v) and getattr(v, "flavour", None) in ("eig", "sparse") for v in vals):
        return mat_op(eng, op, vals)
    ops = [operand(eng, a) for a in args]
    shape = broadcast([s for s, r in ops])
    kinds = [kind_of(eng, a) for a in args]
    kind = "d" if "d" in kinds else ("b" if set(kinds) == {"b"} else ("u" if "u" in kinds else "i"))

    def f(idx):
        v = [r(bidx(idx, s, shape)) for s, r in ops]
        if op == "neg":
            return neg(v[0])
        if op in ("+", "-", "*", "/", "%"):
            return eng.arith(op, v[0], v[1], kind != "d")
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return eng.compare(op, v[0], v[1])
        if op == "&&" or op == "&":
            return band(tobool(v[0]), tobool(v[1]))
        if op == "||" or op == "|":
            return bor(tobool(v[0]), tobool(v[1]))
        if op == "!":
            return bnot(tobool(v[0]))
        if op == "isclose":
            return eq_close(v[0], v[1])
        if op in ("sin", "cos", "tan", "exp", "log", "floor", "ceil", "round", "rint"):
            return scalar_fn(op, v[0])
        if op == "sqrt":
            return sqrt_(v[0])
        if op == "abs":
            return absval(v[0])
        if op == "pow":
            c = const_int(v[1])
            if c is not None and abs(c) <= 4:
                return power(v[0], c)
            return fn("pow", v[0], v[1])
        if op == "square":
            return mul(v[0], v[0])
        if op == "cast_int":
            return trunc(v[0])
        if op == "id":
            return v[0]
        fail("elementwise " + op)

    if op in ("==", "!=", "<", ">", "<=", ">=", "&&", "||", "!", "isclose", "&", "|"):
        kind = "b"
    if op in ("sqrt", "sin", "cos", "exp"):
        kind = "d"
    return Fn(shape, kind, f)


def eq_close(a, b):
    d = sub(a, b)
    if isconst(d):
        return TRUE if abs(constval(d)) < Fraction(1, 10**8) else FALSE
    # symmetric
    if d.t[T.lead(d)] < 0:
        d = neg(d)
    return bvar(term("isclose", d))


def absval(p):
    if isconst(p):
        return num(abs(constval(p)))
    if p.t[T.lead(p)] < 0:
        p = neg(p)
    return fn("abs", p, isint=p.isint, nonneg=True)


def scalar_fn(name, p):
    if name in ("floor", "round", "ceil", "rint") and p.isint:
        return p
    return fn(name, p)


def from_list(eng, l):
    """Array from (nested) initialiser list."""
    def shp(x):
        x = eng.rv(x)
        if isinstance(x, Lst):
            return (len(x.items),) + (shp(x.items[0]) if x.items else ())
        if isarr(x):
            return tuple(const_int(s) for s in x.shape)
        return ()

    sizes = shp(l)
    first = l
    while isinstance(eng.rv(first), Lst) and eng.rv(first).items:
        first = eng.rv(first).items[0]
    fv = eng.rv(first)
    kind = "u" if isinstance(fv, Poly) and fv.isint else ("b" if E.isbool(fv) else "d")
    a = Arr(tuple(num(s) for s in sizes), UNINIT, kind)
    for p in points(sizes):
        x = l
        for k in p:
            x = eng.rv(x).items[k]
        a.write(tuple(num(k) for k in p), "=", eng.number(x))
    if not sizes or 0 in sizes:
        pass
    return a


def expand(shape):
    """Split the dimensions in those written point by point (small constants) and those by a counter."""
    sizes = [const_int(s) for s in shape]
    n = 1
    exp = []
    for k, s in enumerate(sizes):
        if s is not None and 0 <= s <= 32 and n * s <= 1024:
            exp.append(k)
            n *= s
    return exp, sizes


def write_all(eng, write, shape, read, op="="):
    """Regions that assign read(idx) to all elements; write(dom, idx -> val list)."""
    exp, sizes = expand(shape)
    vs = {k: raw("w") for k in range(len(shape)) if k not in exp}
    dom = tuple((vs[k], shape[k]) for k in sorted(vs))
    pts = []
    nf = len(eng.facts)
    for v, n in dom:
        eng.facts.append(add(sub(atom(v), n), ONE))
    for p in points([sizes[k] for k in exp]):
        idx = [None] * len(shape)
        for k, c in zip(exp, p):
            idx[k] = num(c)
        for k in vs:
            idx[k] = atom(vs[k])
        v = read(tuple(idx))
        if E.isbool(v):
            v = bracket(v)
        pts.append((tuple(idx), v))
    del eng.facts[nf:]
    write(dom, pts, op)


def put_regions(a, dom, pts, op, where=None):
    """Append the effect to array a (not journalled here)."""
    groups = {}
    for idx, v in pts:
        base = tuple(sub(i, num(constval(i))) for i in idx)
        key = tuple(constval(i) for i in idx)
        groups.setdefault(base, {})[key] = (op, v)
    if not dom:
        for base, g in groups.items():
            for key, (o, v) in g.items():
                a.write(tuple(add(b, num(k)) for b, k in zip(base, key)), o, v, where)
        return
    for base, g in groups.items():
        r = Region(tuple(dom), TRUE, base, g, where)
        for t, n in dom:
            r = E.delinearise(r, t)
        a.regs.append(r)
    a.nfix = len(a.regs)


def materialise(eng, x, kind=None):
    """Array variable with the present content of expression x."""
    v = eng.rv(x) if not isinstance(x, View) else x
    if isinstance(v, Arr):
        return eng.copy(v)
    if isinstance(v, Lst):
        return from_list(eng, v)
    if not isarr(v):
        fail("array from %s" % type(v).__name__)
    if v.shape is None:
        fail("array of unknown rank")
    if isinstance(v, Fn) and v.node is not None:
        return Arr(v.shape, v.node, kind or v.kind)
    kind = kind or v.kind
    rdr = eng.reader(x if isinstance(x, (Cell, View)) else v)
    if kind in "iu" and v.kind == "d":
        r0 = rdr
        rdr = lambda i: trunc(r0(i))
    a = Arr(v.shape, UNINIT, kind)
    write_all(eng, lambda dom, pts, op: put_regions(a, dom, pts, op), v.shape, rdr)
    a.nfix = len(a.regs)
    return a


def make_array(eng, x, t):
    """Initialise a container of type t."""
    v = eng.rv(x) if not isinstance(x, View) else x
    kind = eng.elem_kind(t)
    if isinstance(v, Lst):
        a = from_list(eng, v)
        a.kind = kind
        return a
    if isinstance(v, Mat):
        fail("array from Eigen")
    a = materialise(eng, x, kind)
    a.flavour = None
    a.kind = kind
    return a


def assign_array(eng, lv, val, op):
    v = val if isinstance(val, View) else eng.rv(val)
    if isinstance(v, Mat):
        return eigen_assign(eng, lv, v, op)
    if isinstance(lv, Cell):
        a = lv.v
        if isinstance(a, View):
            return assign_array(eng, a, val, op)
        if getattr(a, "flavour", None) in ("eig", "sparse"):
            if op == "=" and isarr(v):
                eng.touch(lv)
                c = eng.copy(v) if isinstance(v, Arr) else materialise(eng, v)
                c.flavour = a.flavour
                lv.v = c
                return
            return eigen_assign(eng, lv, as_mat(eng, v), op)
        if op == "=":
            if isinstance(v, Poly):
                v = Fn(a.shape, a.kind, lambda i: v0)
                v0 = eng.number(val)
            if isinstance(v, Lst):
                v = from_list(eng, v)
            known = isinstance(a, Arr) and a.shape is not None and v.shape is not None and len(a.shape) == len(v.shape) \
                and all(p is q for p, q in zip(a.shape, v.shape))
            if known and eng.journal and a.base is not UNINIT:
                pass  # region below
            else:
                new = materialise(eng, val if isinstance(val, (Cell, View)) else v, a.kind if isinstance(a, Arr) else None)
                new.flavour = getattr(a, "flavour", None)
                eng.touch(lv)
                lv.v = new
                return
        shape = a.shape
        base = lv
        mk = lambda idx: idx
    else:
        shape = lv.shape
        base = lv.cell
        mk = lv.index
        while isinstance(base, View) or isinstance(base, Cell) and isinstance(base.v, View):
            inner = base if isinstance(base, View) else base.v
            mk = (lambda f, g: lambda idx: g(f(idx)))(mk, inner.index)
            base = inner.cell
        if not isinstance(base, Cell) or not isinstance(base.v, Arr):
            fail("assignment to a view of a temporary")
        a = base.v
    s, r = operand(eng, val)
    if op in ("*=", "/="):
        old = eng.reader(lv)
        r0 = r
        r = lambda i: eng.arith(op[0], old(i), r0(bidx(i, s, shape)), a.kind != "d")
        s = shape
        op2 = "="
    elif op == "-=":
        r1 = r
        r = lambda i: neg(r1(i))
        op2 = "+="
    elif op in ("=", "+="):
        op2 = op
    else:
        fail("array operator " + op)
    rr = lambda i: r(bidx(i, s, shape))

    def write(dom, pts, o):
        pts = [(mk(i), v) for i, v in pts]
        eng.touch(base)
        put_regions(base.v, dom, pts, o, eng.where())

    write_all(eng, write, shape, rr, op2)


# ---------------------------------------------------------------- views
ALL = Opq("all")


def make_view(eng, x, slices):
    base = x if isinstance(x, (Cell, View)) else Cell(eng.rv(x))
    if isinstance(base, Cell) and isinstance(base.v, View):
        base = base.v
    if isinstance(x, Elem):
        fail("view of element")
    v = base.v if isinstance(base, Cell) else base
    if not isarr(v):
        fail("view of %s" % type(v).__name__)
    if v.shape is None:
        fail("view of unknown rank")
    spec = []
    shape = []
    k = 0
    sl = [eng.rv(s) for s in slices]
    for s in sl:
        if isinstance(s, Opq) and s.tag == "newaxis":
            shape.append(ONE)
            continue
        if k >= len(v.shape):
            fail("too many slices")
        n = v.shape[k]
        if isinstance(s, Opq) and s.tag == "all":
            spec.append(("d", len(shape), ZERO, ONE))
            shape.append(n)
        elif isinstance(s, Opq) and s.tag == "range":
            a, b, st = s.args
            a = ZERO if a is None else a
            b = n if b is None else b
            ca, cb = const_int(a), const_int(b)
            if ca is not None and ca < 0:
                a = add(n, a)
            if cb is not None and cb < 0:
                b = add(n, b)
            c = const_int(st)
            if c is None or c <= 0:
                fail("range step")
            ln = sub(b, a)
            if c != 1:
                ln = fdiv(add(ln, num(c - 1)), num(c))
            spec.append(("d", len(shape), a, st))
            shape.append(ln)
        elif isinstance(s, Opq) and s.tag in ("keep",):
            arr = s.args[0]
            spec.append(("k", len(shape), arr))
            shape.append(arr.shape[0])
        elif isinstance(s, Poly) or E.isbool(s):
            p = eng.number(s)
            c = const_int(p)
            if c is not None and c < 0:
                p = add(n, p)
            spec.append(("i", p))
        else:
            fail("slice %s" % (s.tag if isinstance(s, Opq) else type(s).__name__))
        k += 1
    while k < len(v.shape):
        spec.append(("d", len(shape), ZERO, ONE))
        shape.append(v.shape[k])
        k += 1
    return View(base, spec, tuple(shape), v.kind)


# ---------------------------------------------------------------- reductions
def reduce_sum(eng, x, axes=None, keep=False):
    s, r = operand(eng, x)
    if s is None:
        fail("unknown rank")
    kind = kind_of(eng, x)
    if kind == "b":
        kind = "u"
    if axes is None:
        axes = list(range(len(s)))
    axes = [a % len(s) for a in axes]
    out = tuple(n for k, n in enumerate(s) if k not in axes)

    def f(idx):
        it = iter(idx)
        full = [None] * len(s)
        for k in range(len(s)):
            if k not in axes:
                full[k] = next(it)
        dom = []
        ex, sizes = [], []
        for k in axes:
            c = const_int(s[k])
            if c is not None and c <= 32:
                ex.append(k)
                sizes.append(c)
            else:
                v = raw("s")
                dom.append((v, s[k]))
                full[k] = atom(v)
        tot = ZERO
        for p in points(sizes):
            i = list(full)
            for k, c in zip(ex, p):
                i[k] = num(c)
            v = r(tuple(i))
            tot = add(tot, bracket(v) if E.isbool(v) else v)
        return psum(dom, known(tot, dom))

    return Fn(out, kind, f)


def axis_arg(eng, args):
    """Axis from the second argument, None: all."""
    if len(args) < 2:
        return None
    v = eng.rv(args[1])
    if isinstance(v, Poly):
        c = const_int(v)
        if c is None:
            fail("axis")
        return [c]
    if isinstance(v, Lst):
        if not v.items or not isinstance(eng.rv(v.items[0]), Poly):
            return None  # evaluation strategy
        r = [const_int(eng.number(i)) for i in v.items]
        if any(c is None for c in r):
            fail("axes")
        return r
    if isinstance(v, Opq):
        return None
    fail("axis")


def reduce_uf(eng, name, x, axes=None):
    """amax, amin, ...: uninterpreted, a function of the content."""
    s, r = operand(eng, x)
    kind = kind_of(eng, x)
    v = eng.rv(x) if not isinstance(x, View) else x
    if axes is None or (s is not None and sorted(a % len(s) for a in axes) == list(range(len(s)))):
        node = freeze(v)
        if node.tag == "aconst":
            p = node.args[0]
        else:
            # flattening does not matter
            p = fn(name, node, *(s or ()), isint=kind != "d", nonneg=kind in "ub")
        return Fn((), kind, lambda i: p)
    axes = [a % len(s) for a in axes]
    out = tuple(n for k, n in enumerate(s) if k not in axes)

    def f(idx):
        it = iter(idx)
        vs = [raw("f") for _ in axes]
        full = []
        jj = iter(vs)
        for k in range(len(s)):
            full.append(atom(next(jj)) if k in axes else next(it))
        body = r(tuple(full))
        return fn(name, fun(vs, body), *[s[k] for k in axes], isint=kind != "d", nonneg=kind in "ub")

    return Fn(out, kind, f)


def quantify(eng, x, forall):
    s, r = operand(eng, x)
    if s is None:
        fail("unknown rank")
    dom, ex, sizes = [], [], []
    full = [None] * len(s)
    for k, n in enumerate(s):
        c = const_int(n)
        if c is not None and c <= 32:
            ex.append(k)
            sizes.append(c)
        else:
            v = raw("q")
            dom.append((v, n))
            full[k] = atom(v)
    tot = FALSE
    for p in points(sizes):
        i = list(full)
        for k, c in zip(ex, p):
            i[k] = num(c)
        c = tobool(r(tuple(i)))
        c = eng.simplify(c, tuple(i), s)
        tot = bor(tot, exists(dom, bnot(c) if forall else c))
    return bnot(tot) if forall else tot


def has_shape(eng, x, shp):
    v = eng.rv(x) if not isinstance(x, View) else x
    want = dims(eng, shp)
    if isinstance(v, Lst):
        fail("has_shape of list")
    if v.shape is None:
        # rank not known statically
        node = v.base if isinstance(v, Arr) else freeze(v)
        r = eq0(sub(fn("rank", node, isint=True, nonneg=True), num(len(want))))
        for k, w in enumerate(want):
            r = band(r, eq0(sub(fn("dim%d" % k, node, isint=True, nonneg=True), w)))
        return r
    if len(want) != len(v.shape):
        return FALSE
    r = TRUE
    for a, b in zip(v.shape, want):
        r = band(r, eq0(sub(a, b)))
    return r


def size_of(shape):
    p = ONE
    for s in shape:
        p = mul(p, s)
    return p


def reshape(eng, x, shape):
    s, r = operand(eng, x)
    kind = kind_of(eng, x)
    shape = tuple(shape)
    free = [k for k, n in enumerate(shape) if const_int(n) == -1]
    if len(free) == 1:
        rest = size_of(n for k, n in enumerate(shape) if k != free[0])
        n = T.fdiv(size_of(s), rest)
        shape = tuple(n if k == free[0] else x for k, x in enumerate(shape))
    elif free:
        fail("reshape with -1")
    if len(shape) == len(s) and all(a is b for a, b in zip(shape, s)):
        return Fn(shape, kind, r)

    def f(idx):
        # flat position
        flat = ZERO
        for k, i in enumerate(idx):
            flat = add(mul(flat, shape[k]), i)
        return r(unflatten(eng, flat, s, idx, shape))

    return Fn(shape, kind, f)


def unflatten(eng, flat, s, idx=None, shape=None):
    if len(s) == 1:
        return (flat,)
    out = []
    for k in range(len(s) - 1, -1, -1):
        if k == 0:
            out.append(flat)
            break
        q, r = divmod_poly(flat, s[k], eng)
        out.append(r)
        flat = q
    return tuple(reversed(out))


def divmod_poly(p, n, eng=None):
    """p = q * n + r, with 0 <= r < n."""
    c = const_int(n)
    if c == 1:
        return p, ZERO
    if len(n.t) == 1:
        (m, k), = n.t.items()
        q = {}
        r = {}
        for mono, x in p.t.items():
            d = dict(mono)
            ok = x.denominator == 1 and x % k == 0
            for a, e in m:
                if d.get(a, 0) < e:
                    ok = False
                else:
                    d[a] -= e
            if ok:
                key = tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda z: z[0].id))
                q[key] = q.get(key, 0) + Fraction(x) / k
            else:
                r[mono] = x
        q = T._mkpoly(q)
        r = T._mkpoly(r)
        lo = T._lower(r)
        facts = eng.facts if eng else []
        if lo is not None and lo >= 0 and eng is not None and eng.simplify(le0(add(sub(r, n), ONE))) is TRUE:
            return q, r
        if q.t:
            return add(q, fdiv(r, n)), imod(r, n)
    return fdiv(p, n), imod(p, n)


def flatten(eng, x):
    s, r = operand(eng, x)
    kind = kind_of(eng, x)
    v = eng.rv(x) if not isinstance(x, View) else x
    if s is None:
        return Fn((fn("size", freeze(v), isint=True, nonneg=True),), kind, lambda i: rd(a_uf("flatten", freeze(v)), i))
    if len(s) == 1:
        return Fn(s, kind, r)
    n = size_of(s)
    c = const_int(n)
    node = None
    try:
        node = a_uf("flatten", freeze(v), *s, isint=kind != "d", nonneg=kind in "ub")
    except Unmodelled:
        pass
    if c is not None and c <= UNROLL or any(const_int(x) is not None for x in s[1:]):
        node = None
    return Fn((n,), kind, lambda i: r(unflatten(eng, i[0], s)), node)


# ---------------------------------------------------------------- Eigen: linear algebra
class Mat:
    """Linear combination of words of matrices: {word: coefficient}."""
    __slots__ = ("w", "shape")

    def __init__(self, w, shape):
        self.w = w
        self.shape = shape


def mat_atom(node, shape):
    return Mat({(node,): ONE}, shape)


def as_mat(eng, x):
    v = eng.rv(x) if not isinstance(x, View) else x
    if isinstance(v, Mat):
        return v
    if isarr(v):
        node = freeze(v)
        if node.tag == "linalg":
            return Mat(dict(zip(node.args[0], node.args[1])), v.shape)
        if node is T.a_const(ZERO):
            return Mat({}, v.shape)
        T.MATSHAPE.setdefault(node, v.shape)
        return mat_atom(node, v.shape)
    fail("matrix from %s" % type(v).__name__)


def mat_node(m):
    if not m.w:
        return a_const(ZERO)
    if len(m.w) == 1:
        (w, c), = m.w.items()
        if len(w) == 1 and c is ONE:
            return w[0]
    items = sorted(m.w.items(), key=lambda x: tuple(t.id for t in x[0]))
    return term("linalg", tuple(w for w, c in items), tuple(c for w, c in items))


def mat_add(a, b, s=1):
    w = dict(a.w)
    for k, c in b.w.items():
        x = add(w.get(k, ZERO), scale(c, s))
        if x.t:
            w[k] = x
        else:
            w.pop(k, None)
    return Mat(w, a.shape or b.shape)


def mat_times(a, c):
    return Mat({k: mul(c, v) for k, v in a.w.items()}, a.shape)


def mat_mul(a, b):
    w = {}
    for k1, c1 in a.w.items():
        for k2, c2 in b.w.items():
            k = cancel(k1 + k2)
            x = add(w.get(k, ZERO), mul(c1, c2))
            if x.t:
                w[k] = x
            else:
                w.pop(k, None)
    shape = None
    if a.shape is not None and b.shape is not None:
        shape = (a.shape[0],) + tuple(b.shape[1:])
    return Mat(w, shape)


def cancel(w):
    return w


def transpose(m):
    w = {}
    for k, c in m.w.items():
        w[tuple(tr(t) for t in reversed(k))] = c
    return Mat(w, tuple(reversed(m.shape)) if m.shape and len(m.shape) == 2 else m.shape)


def tr(t):
    return t.args[0] if t.tag == "mT" else term("mT", t)


def mat_op(eng, op, vals):
    if op == "neg":
        a = as_mat(eng, vals[0])
        return Mat({k: neg(c) for k, c in a.w.items()}, a.shape)
    a, b = vals
    if op in "+-":
        return mat_add(as_mat(eng, a), as_mat(eng, b), 1 if op == "+" else -1)
    if op == "*":
        if isinstance(a, Poly) or isinstance(b, Poly):
            p, m = (a, b) if isinstance(a, Poly) else (b, a)
            m = as_mat(eng, m)
            return Mat({k: mul(c, p) for k, c in m.w.items()}, m.shape)
        return mat_mul(as_mat(eng, a), as_mat(eng, b))
    if op == "/" and isinstance(b, Poly):
        m = as_mat(eng, a)
        return Mat({k: div(c, b) for k, c in m.w.items()}, m.shape)
    fail("matrix operator " + op)


def mat_array(m):
    """Arr with the content of a matrix expression."""
    return Arr(m.shape, mat_node(m), "d", flavour="eig")


def eigen_assign(eng, lv, m, op):
    if isinstance(lv, Cell) and isinstance(lv.v, View):
        lv = lv.v
    if isinstance(lv, View):
        # Map or segment of an array
        if op != "=":
            fail("operator on a map")
        node = mat_node(m)
        f = Fn(lv.shape, "d", lambda i: rd(node, i))
        return assign_array(eng, lv, f, "=")
    old = lv.v
    if op == "=":
        new = m
    elif op in ("+=", "-="):
        new = mat_add(as_mat(eng, old), m, 1 if op == "+=" else -1)
    elif op == "*=":
        new = mat_mul(as_mat(eng, old), m)
    else:
        fail("matrix operator " + op)
    eng.touch(lv)
    shape = new.shape if new.shape is not None else old.shape
    a = Arr(shape, mat_node(new), "d", flavour="eig")
    lv.v = a


def is_vec(t):
    return t.startswith("Eigen::Matrix<double, -1, 1")


def eigen_sym(eng, name, t):
    n = lambda k: atom(term("fn", "dim%d" % k, a_sym(name), isint=True, nonneg=True))
    r = 1 if is_vec(t) else 2 if "SparseMatrix" in t or "Eigen::Matrix<" in t else 0
    if r:
        shape = eng.shapes.get(name) or tuple(n(k) for k in range(r))
        eng.symshape[name] = shape
        return Arr(shape, a_sym(name), "d", flavour="eig")
    return Opq("sym", name, t)


def eigen_default(eng, t):
    if is_vec(t):
        return Arr((ZERO,), UNINIT, "d", flavour="eig")
    if t.startswith("Eigen::SparseMatrix") or t.startswith("Eigen::Matrix<"):
        return Arr((ZERO, ZERO), a_const(ZERO) if "Sparse" in t else UNINIT, "d", flavour="eig")
    if t.startswith("Eigen::Triplet"):
        fail("triplet")
    return Opq("solver", t)


def eigen_make(eng, x, t):
    v = eng.rv(x) if not isinstance(x, View) else x
    if isinstance(v, Mat):
        return mat_array(v)
    if isinstance(v, Arr):
        c = eng.copy(v)
        c.flavour = "eig"
        return c
    if isarr(v):
        c = materialise(eng, v)
        c.flavour = "eig"
        return c
    return v


# ---------------------------------------------------------------- constructors
FNOBJ = {"less": "<", "greater": ">", "less_equal": "<=", "greater_equal": ">=", "equal_to": "==", "not_equal_to": "!="}


def construct(eng, e):
    m = re.match(r"std::(less|greater|less_equal|greater_equal|equal_to|not_equal_to)(?:<(.*)>)?$", eng.ty(e).replace("const ", ""))
    if m:
        return Opq("fnobj", FNOBJ[m.group(1)], m.group(2) in (None, "", "void", "double", "float"))
    t = eng.ty(e).replace("const ", "")
    args = e["args"]
    r = eng.array_type(t)
    if r is not None:
        kind = eng.elem_kind(t)
        args = [a for a in args if not (a.get("k") == "opaque")]
        if not args:
            return eng.default(t)
        x = eng.ev(args[0])
        v = eng.rv(x) if not isinstance(x, View) else x
        if isinstance(v, Lst) or isinstance(v, Arr) and v.flavour == "vec" and len(v.shape) == 1:
            isinit = isinstance(v, Lst) and ("[" in (v.ty or "") or "initializer_list" in (v.ty or ""))
            if isinit and (r != -1 or not all(isinstance(eng.rv(i), Poly) for i in v.items)):
                # initialiser list, or a braced shape converted to one
                if e.get("list") or not _is_shape_arg(eng, args[0], t):
                    a = from_list(eng, v)
                    a.kind = kind
                    return a
            shape = dims(eng, v)
            if len(args) >= 2:
                y = eng.rv(eng.ev(args[1]))
                if isinstance(y, Poly) or E.isbool(y):
                    return Arr(shape, a_const(eng.number(y)), kind)
            return Arr(shape, UNINIT, kind)
        return make_array(eng, x, t)
    if t.startswith("Eigen::"):
        return eigen_construct(eng, e, t)
    if t.startswith("std::vector<"):
        return vector_construct(eng, e, t)
    if t.startswith("std::array<"):
        if not args:
            return eng.default(t)
        return eng.copy(eng.val(args[0]))
    if t.startswith("std::basic_string") or t.startswith("std::allocator"):
        return Str("")
    if t.startswith("std::runtime_error") or t.startswith("std::"):
        if t.startswith("std::tuple") or t.startswith("std::pair"):
            return Lst([Cell(eng.copy(eng.val(a))) for a in args], t)
        return Opq(t[:60], *[None])
    m = re.match(r"xt::fixed_shape<([\d, ]+)>", t)
    if m and not args:
        return Lst([Cell(num(int(k))) for k in m.group(1).split(",")], t)
    if t.startswith("xt::") or t.startswith("__gnu_cxx::__normal_iterator<"):
        if len(args) == 1:
            return eng.ev(args[0])
    fail("constructor of " + t[:80], e)


def _is_shape_arg(eng, a, t):
    return False


# Ragged list (std::vector of std::vector): every row is a formal sum of its elements, in which the order is not observed until
# the row is sorted.
RAG = re.compile(r"(?:const )?std::vector<std::vector<(?:unsigned long|double)")


def rag_sym(eng, name, isint):
    """Symbolic ragged list: rows of which nothing is known."""
    n = atom(T.term("fn", "size", T.a_sym(name), isint=True, nonneg=True))
    i = raw("i", isint=True, nonneg=True)
    return Arr((n,), T.fun([i], fn("rag" if isint else "ragd", T.rd(T.a_sym(name), (atom(i),)))), "d", flavour="rag")


def is_row(eng, arg, v):
    return isinstance(v, Poly) and re.match(r"std::vector<(unsigned long|double)", eng.ty(arg).replace("const ", ""))


def is_sorted_row(v):
    m = v.t if isinstance(v, Poly) else {}
    if len(m) != 1:
        return not m
    (mono, c), = m.items()
    if c != 1 or len(mono) != 1 or mono[0][1] != 1:
        return False
    n = mono[0][0]
    if n.tag == "let":
        return is_sorted_row(T.unlet(n))
    return n.tag == "fn" and n.args[0] in ("sorted", "rag", "ragd")


def row_method(eng, e, name, x, A):
    if name == "reserve":
        for a in A:
            eng.ev(a)
        return x
    if name == "size":
        return fn("card", eng.rv(x), isint=True, nonneg=True)
    if name == "empty":
        return eq0(fn("card", eng.rv(x), isint=True, nonneg=True))
    if name in ("push_back", "emplace_back"):
        n = eng.number(eng.ev(A[0]))
        eng.store(x, fn("elem", n), "+=")
        return x
    if name in ("begin", "cbegin", "end", "cend"):
        return Opq("rowit", x, name[-3:])
    if name == "clear":
        eng.store(x, ZERO)
        return x
    if name in ("front", "at"):
        return row_at(eng.rv(x), ZERO if name == "front" else eng.number(eng.ev(A[0])))
    if name == "back":
        return row_at(eng.rv(x), sub(fn("card", eng.rv(x), isint=True, nonneg=True), ONE))
    if name == "insert":
        p, q, r = [eng.rv(eng.ev(a)) for a in A]
        row = whole_row(eng, q, r)
        if row is None or not (isinstance(p, Opq) and p.tag == "rowit"):
            fail("insert", e)
        eng.store(x, row, "+=")
        return x
    fail("method %s of a row" % name, e)


def row_at(v, i):
    if not is_sorted_row(v):
        fail("element of an unsorted row")
    k = lead_tag(v)
    return fn("rowat", v, i, isint=k != "ragd", nonneg=k != "ragd")


def lead_tag(v):
    """The function that gives a single row."""
    for mono in v.t:
        n = mono[0][0]
        while n.tag == "let":
            v = T.unlet(n)
            return lead_tag(v)
        return n.args[0]
    return None


def whole_row(eng, b, e):
    """Content of the row between two iterators, if these are its ends."""
    if isinstance(b, Opq) and isinstance(e, Opq) and b.tag == e.tag == "rowit" and (b.args[1], e.args[1]) == ("gin", "end"):
        p, q = eng.rv(b.args[0]), eng.rv(e.args[0])
        if p is q:
            return p
    return None


def vector_construct(eng, e, t):
    args = [a for a in e["args"] if not eng.ty(a).startswith("std::allocator")]
    m = re.match(r"std::vector<(double|unsigned long|int|bool|long|unsigned int)\b", t)
    if t.startswith("std::vector<Eigen::Triplet<"):
        return Arr((ZERO, ZERO), a_const(ZERO), "d", flavour="bag")
    if not args:
        return eng.default(t)
    x = eng.val(args[0])
    if is_row(eng, args[0], x):
        return x
    if m:
        kind = eng.scalar_kind(m.group(1))
        if isinstance(x, Lst):
            a = from_list(eng, x)
            a.kind = kind
            a.flavour = "vec"
            return a
        if isinstance(x, Poly):
            v = ZERO
            if len(args) > 1:
                v = eng.number(eng.ev(args[1]))
            return Arr((x,), a_const(v), kind, flavour="vec")
        if isarr(x):
            a = materialise(eng, x)
            a.flavour = "vec"
            return a
        if isinstance(x, It) and len(args) > 1:
            y = eng.val(args[1])
            if isinstance(y, It) and y.base is x.base:
                a = materialise(eng, it_range(eng, x, y))
                a.flavour = "vec"
                return a
        fail("vector constructor", e)
    if isinstance(x, Lst):
        return eng.copy(Lst(x.items, t))
    if isinstance(x, Poly):
        if RAG.match(t) and len(args) == 1:
            return Arr((x,), a_const(ZERO), "d", flavour="rag")
        n = const_int(x)
        if n is not None and n <= UNROLL:
            el = re.match(r"std::vector<(.*)>$", t).group(1)
            return Lst([Cell(eng.default(el)) for _ in range(n)], t)
    fail("vector constructor", e)


def eigen_construct(eng, e, t):
    args = [eng.val(a) for a in e["args"]]
    if t.startswith("Eigen::Triplet"):
        return Lst([Cell(a) for a in args], t)
    if is_vec(t):
        if not args:
            return eigen_default(eng, t)
        if isinstance(args[0], Poly):
            return Arr((args[0],), UNINIT, "d", flavour="eig")
        return eigen_make(eng, args[0], t)
    if t.startswith("Eigen::SparseMatrix") or t.startswith("Eigen::Matrix<"):
        if len(args) == 2 and all(isinstance(a, Poly) for a in args):
            return Arr(tuple(args), a_const(ZERO) if "Sparse" in t else UNINIT, "d", flavour="eig")
        if not args:
            return eigen_default(eng, t)
        return eigen_make(eng, args[0], t)
    if t.startswith("Eigen::Map<"):
        p = args[0]
        if isinstance(p, Ptr):
            base = p.base
            a = base.v if isinstance(base, Cell) else base
            if isinstance(a, View):
                base, a = a, a
            n = args[1] if len(args) > 1 and isinstance(args[1], Poly) else None
            if isarr(a) and a.shape is not None and len(a.shape) == 1 and all(i is ZERO for i in p.idx):
                v = View(base, [("d", 0, ZERO, ONE)], (n if n is not None else a.shape[0],), a.kind)
                v.flavour = "eig"
                return v
            if isarr(a) and a.shape is not None and len(a.shape) == 2 and len(args) > 2 and all(i is ZERO for i in p.idx):
                v = View(base, [("d", 0, ZERO, ONE), ("d", 1, ZERO, ONE)], a.shape, a.kind)
                v.flavour = "eig"
                return v
        fail("map", e)
    if "InnerIterator" in t:
        return Opq("inner", args[0], args[1])
    if len(args) == 1:
        return args[0]
    return Opq("solver", t)


# ---------------------------------------------------------------- operators
def op(eng, e):
    o = e["op"]
    ar = e["args"]
    if o in ("=", "+=", "-=", "*=", "/=", "|=", "&="):
        l = eng.ev(ar[0])
        r = eng.ev(ar[1])
        if isinstance(l, Opq) and l.tag == "noalias":
            l = l.args[0]
        lv = eng.rv(l) if not isinstance(l, View) else l
        if isinstance(l, Fn):
            fail("assignment to an expression", e)
        if isinstance(lv, Opq) and lv.tag == "noalias":
            l = lv.args[0]
        if isinstance(lv, Obj) and o == "=":
            # implicit (or defaulted) copy assignment
            src = eng.rv(r)
            if not isinstance(src, Obj):
                fail("assignment of object", e)
            if not isinstance(l, Cell):
                # *this = ...: field-wise
                for k in dict.fromkeys(list(lv.fields) + list(src.fields)):
                    if k in src.fields and k in lv.fields:
                        eng.touch(lv.fields[k])
                        lv.fields[k].v = eng.copy(src.fields[k].v)
                    elif k in src.fields:
                        lv.fields[k] = Cell(eng.copy(src.fields[k].v), src.fields[k].name)
                return l
            eng.touch(l)
            l.v = eng.copy(src)
            return l
        if isinstance(lv, Lst) and o == "=":
            src = eng.rv(r)
            eng.touch(l)
            l.v = eng.copy(src if isinstance(src, Lst) else lv)
            return l
        if not isinstance(r, (Cell, View)):
            r = eng.rv(r) if not isinstance(r, View) else r
        eng.store(l, r, o)
        return l
    if o == "()":
        x = eng.ev(ar[0])
        v = eng.rv(x) if not isinstance(x, View) else x
        args = [eng.rv(eng.ev(a)) for a in ar[1:]]
        if isarr(v):
            idx = [eng.number(a) for a in args]
            if not idx and v.shape is not None and len(v.shape) == 0:
                r = eng.elem(x if isinstance(x, (Cell, View)) else v, ())
                return tobool(r) if v.kind == "b" else r
            if v.shape is not None and not idx:
                idx = [ZERO] * len(v.shape)
            return elem_ref(eng, x, v, idx)
        if isinstance(v, Mat):
            return rd(mat_node(v), tuple(eng.number(a) for a in args))
        fail("call of %s" % type(v).__name__, e)
    if o == "[]":
        x = eng.ev(ar[0])
        i = eng.val(ar[1])
        if isinstance(i, Lst):
            idx = [eng.number(k) for k in i.items]
        else:
            idx = [eng.number(i)]
        return eng.index(x, idx)
    if len(ar) == 2:
        a, b = eng.ev(ar[0]), eng.ev(ar[1])
        va = eng.rv(a) if not isinstance(a, View) else a
        vb = eng.rv(b) if not isinstance(b, View) else b
        if isarr(va) or isarr(vb) or isinstance(va, Mat) or isinstance(vb, Mat):
            if o in ("==", "!=") and isarr(va) and isarr(vb) and e.get("fn", "").startswith("xt::operator"):
                # whole-array comparison
                c = whole_equal(eng, a, b)
                return c if o == "==" else bnot(c)
            return elementwise(eng, o, [a, b])
        if isinstance(va, Str) or isinstance(vb, Str):
            return Str("")
        if isinstance(va, Lst) and isinstance(vb, Lst) and o in ("==", "!="):
            if len(va.items) != len(vb.items):
                return FALSE if o == "==" else TRUE
            c = TRUE
            for p, q in zip(va.items, vb.items):
                c = band(c, eng.compare("==", eng.rv(p), eng.rv(q)))
            return c if o == "==" else bnot(c)
        if isinstance(va, (Opq, Ptr)) or isinstance(vb, (Opq, Ptr)):
            return opaque_bin(eng, o, va, vb, e)
        if o in ("==", "!=", "<", ">", "<=", ">="):
            return eng.compare(o, va, vb)
        return eng.arith(o, eng.number(va), eng.number(vb))
    if len(ar) == 1:
        a = eng.ev(ar[0])
        va = eng.rv(a) if not isinstance(a, View) else a
        if o == "-":
            return elementwise(eng, "neg", [a])
        if o == "!":
            return elementwise(eng, "!", [a])
        if o in ("++", "--"):
            return iter_step(eng, a, va, o, e)
        if o == "*":
            return iter_deref(eng, va, e)
        if o == "->" and isinstance(va, Obj):
            return va
    fail("operator " + o, e)


def whole_equal(eng, a, b):
    sa, ra = operand(eng, a)
    sb, rb = operand(eng, b)
    if len(sa) != len(sb):
        return FALSE
    c = TRUE
    for p, q in zip(sa, sb):
        c = band(c, eq0(sub(p, q)))
    return band(c, quantify(eng, elementwise(eng, "==", [a, b]), True))


def elem_ref(eng, x, v, idx):
    if isinstance(x, Cell) and isinstance(x.v, (Arr, View)):
        return Elem(x, tuple(idx))
    if isinstance(x, View):
        return Elem(x, tuple(idx))
    r = v.read(tuple(idx), eng)[0]
    return tobool(r) if v.kind == "b" else r


def flat_shape(eng, base):
    v = base.v if isinstance(base, Cell) else base
    while isinstance(v, Cell):
        v = v.v
    if isinstance(v, Lst):
        return (num(len(v.items)),)
    if v.shape is None:
        fail("iterator over an array of unknown rank")
    return v.shape


def it_elem(eng, it, off=ZERO):
    """Lvalue at an iterator."""
    base = it.base
    v = base.v if isinstance(base, Cell) else base
    p = add(it.pos, off)
    if isinstance(v, Lst):
        c = const_int(p)
        if c is None:
            fail("iterator over a list")
        return v.items[c]
    idx = unflatten(eng, p, flat_shape(eng, base))
    if isinstance(base, (Cell, View)):
        return Elem(base, tuple(idx))
    return eng.elem(base, tuple(idx))


def same_base(eng, a, b):
    if a.base is b.base:
        return True
    x, y = [i.base.v if isinstance(i.base, Cell) else i.base for i in (a, b)]
    # two calls of shape()
    return isinstance(x, Lst) and isinstance(y, Lst) and x.ty == "shape" == y.ty and len(x.items) == len(y.items) \
        and all(eng.rv(p) is eng.rv(q) for p, q in zip(x.items, y.items))


def it_range(eng, a, b):
    """Content between two iterators, 1-D."""
    if not isinstance(a, It) or not isinstance(b, It) or not same_base(eng, a, b):
        fail("iterator range")
    s = flat_shape(eng, a.base)
    v = a.base.v if isinstance(a.base, Cell) else a.base
    n = sub(b.pos, a.pos)
    if isinstance(v, Lst):
        p, q = const_int(a.pos), const_int(b.pos)
        if p is None or q is None:
            fail("iterator range")
        return from_list(eng, Lst(v.items[p:q]))
    if len(s) == 1 and a.pos is ZERO and n is s[0]:
        return a.base if isinstance(a.base, Cell) else v
    r = eng.reader(a.base)
    p0 = a.pos
    return Fn((n,), v.kind, lambda i: r(unflatten(eng, add(p0, i[0]), s)))


def opaque_bin(eng, o, a, b, e):
    if isinstance(a, It) and isinstance(b, It) and a.base is b.base:
        if o == "-":
            return sub(a.pos, b.pos)
        if o in ("==", "!=", "<", ">", "<=", ">="):
            return eng.compare(o, a.pos, b.pos)
    if isinstance(a, It) and isinstance(b, Poly) and o in "+-":
        return It(a.base, eng.arith(o, a.pos, b))
    if isinstance(b, It) and isinstance(a, Poly) and o == "+":
        return It(b.base, add(a, b.pos))
    if isinstance(a, Opq) and isinstance(b, Opq) and o == "-" and a.tag == "find":
        return a.args[0]
    fail("operator %s on %s" % (o, type(a).__name__), e)


def iter_step(eng, lv, v, o, e):
    if isinstance(v, It):
        eng.touch(v.cell)
        v.cell.v = add(v.pos, num(1 if o == "++" else -1))
        return lv
    if isinstance(v, Poly):
        # std::atomic
        new = add(v, num(1 if o == "++" else -1))
        eng.store(lv, new)
        return v if len(e.get("args", ())) == 2 else new
    fail("step of %s" % type(v).__name__, e)


def iter_deref(eng, v, e):
    if isinstance(v, It):
        return it_elem(eng, v)
    if isinstance(v, Opq) and v.tag == "minmax":
        return v.args[0]
    fail("dereference", e)


def merge(eng, c, a, b):
    if isinstance(a, Opq) and isinstance(b, Opq) and {a.tag, b.tag} <= {"factor", "solver", "factors"}:
        # which matrix was factorized depends on a condition
        return Opq("factors", c, a, b)
    return None


def solve_with(v, b):
    if v.tag == "factor":
        return mat_mul(Mat({(term("minv", v.args[0]),): ONE}, v.args[1]), b)
    if v.tag == "factors":
        c, p, q = v.args
        return mat_add(mat_times(solve_with(p, b), bracket(c)), mat_times(solve_with(q, b), bracket(bnot(c))))
    return mat_mul(Mat({(term("minv", term("asym", "unfactorised")),): ONE}, None), b)


# ---------------------------------------------------------------- member calls
def mcall(eng, e):
    name = e.get("name")
    if name == "operator=":
        # implicit assignment: memberwise
        return op(eng, {"op": "=", "args": [e["obj"], e["args"][0]], "ty": e.get("ty"), "ln": e.get("ln")})
    x = eng.ev(e["obj"])
    A = e["args"]
    if isinstance(x, E.Elem) and eng.ty(e["obj"]).replace("const ", "").startswith("std::vector<"):
        return row_method(eng, e, name, x, A)
    v = eng.rv(x) if not isinstance(x, View) else x
    if isinstance(v, Ptr):
        x = v.base
        v = eng.rv(x)
    if isarr(v):
        return arr_method(eng, e, name, x, v, A)
    if isinstance(v, Lst):
        return lst_method(eng, e, name, x, v, A)
    if isinstance(v, Mat):
        if name == "transpose":
            return transpose(v)
        if name in ("eval", "sparseView", "noalias"):
            return v
        if name in ("size", "rows"):
            return v.shape[0]
        if name == "cols":
            return v.shape[1]
        if name == "data":
            return Ptr(Cell(mat_array(v)), (ZERO,) * len(v.shape))
    if isinstance(v, Poly) and eng.ty(e["obj"]).replace("const ", "").startswith("std::vector<"):
        return row_method(eng, e, name, x, A)
    if isinstance(v, Opq):
        return opq_method(eng, e, name, x, v, A)
    if isinstance(v, Obj):
        fail("method %s of %s without body" % (name, v.cls), e)
    if isinstance(v, Str):
        return Str("")
    fail("method %s of %s" % (name, type(v).__name__), e)


def arr_method(eng, e, name, x, v, A):
    fl = getattr(v, "flavour", None)
    if name == "strides" and fl is None and not isinstance(v, View):
        # row-major; named, as only their place matters
        if v.shape is None:
            fail("strides of an array of unknown rank", e)
        return shape_list(tuple(fn("stride", num(k), *v.shape, isint=True, nonneg=True) for k in range(len(v.shape))))
    if name == "shape":
        if A:
            k = const_int(eng.number(eng.ev(A[0])))
            if v.shape is None:
                if k is None:
                    fail("shape(k)", e)
                return fn("dim%d" % k, freeze(v), isint=True, nonneg=True)
            if k is None:
                k0 = eng.number(eng.ev(A[0]))
                fail("shape(k)", e)
            return v.shape[k]
        if v.shape is None:
            return Opq("shapeof", v)
        return shape_list(v.shape)
    if name == "dimension":
        if v.shape is None:
            return fn("rank", freeze(v), isint=True, nonneg=True)
        return num(len(v.shape))
    if name == "size":
        if v.shape is None:
            return fn("size", freeze(v), isint=True, nonneg=True)
        if fl == "eig" and len(v.shape) == 2:
            return mul(*v.shape)
        return size_of(v.shape)
    if name == "rows":
        return v.shape[0]
    if name == "cols":
        return v.shape[1]
    if name == "outerSize":
        return v.shape[1]
    if name == "fill":
        val = eng.val(A[0])
        if isinstance(x, Cell) and isinstance(v, Arr) and (not eng.journal or (eng.journal[-1].get(x) is None and False)):
            eng.touch(x)
            x.v = Arr(v.shape, a_const(eng.number(val)), v.kind, flavour=fl)
            return x
        assign_array(eng, x if isinstance(x, View) else View(x, [("d", k, ZERO, ONE) for k in range(len(v.shape))], v.shape, v.kind), eng.number(val), "=")
        return x
    if name in ("setZero", "setConstant", "setOnes"):
        val = ZERO if name == "setZero" else (ONE if name == "setOnes" else eng.number(eng.ev(A[0])))
        if isinstance(x, Cell):
            eng.touch(x)
            x.v = Arr(v.shape, a_const(val), v.kind, flavour=fl)
            return x
        return assign_array(eng, x, val, "=")
    if name == "resize":
        shape = None
        if len(A) >= 1:
            y = eng.val(A[0])
            if isinstance(y, Poly):
                if fl in ("vec", "rag"):
                    shape = (y,)
                    if not isinstance(v, Arr):
                        fail("resize", e)
                    # std::vector keeps (the common part of) the content
                    eng.touch(x)
                    if (v.base is UNINIT or fl == "rag" and v.shape[0] is ZERO) and not v.regs:
                        x.v = Arr(shape, a_const(ZERO), v.kind, flavour=fl)
                    else:
                        # new elements are zero
                        old = Arr(v.shape, freeze(v), v.kind, flavour=fl)
                        n0 = v.shape[0]
                        new = Fn(shape, v.kind, lambda i: ite(le0(add(sub(i[0], n0), ONE)), old.read(i, eng)[0], ZERO))
                        x.v = materialise(eng, new)
                        x.v.flavour = fl
                    return x
                shape = tuple(eng.number(eng.ev(a)) for a in A)
            else:
                shape = dims(eng, y)
        if not isinstance(x, Cell):
            fail("resize of view", e)
        if v.shape is not None and len(shape) == len(v.shape) and all(p is q for p, q in zip(shape, v.shape)):
            return x
        eng.touch(x)
        x.v = Arr(shape, a_const(ZERO) if fl == "eig" and len(shape) == 2 else UNINIT, v.kind, flavour=fl)
        return x
    if name == "reshape":
        shape = dims(eng, eng.ev(A[0]))
        r = reshape(eng, x, shape)
        if isinstance(x, Cell) and isinstance(v, Arr):
            new = materialise(eng, r, v.kind)
            eng.touch(x)
            x.v = new
            return x
        return r
    if name in ("begin", "cbegin"):
        return It(x if isinstance(x, (Cell, View)) else v, ZERO)
    if name in ("end", "cend"):
        b = x if isinstance(x, (Cell, View)) else v
        return It(b, size_of(flat_shape(eng, b)))
    if name == "data":
        base = x if isinstance(x, (Cell, View)) else Cell(v)
        return Ptr(base, (ZERO,) * len(v.shape))
    if name in ("at", "flat", "operator()", "coeffRef", "coeff", "element"):
        idx = [eng.number(eng.ev(a)) for a in A]
        return elem_ref(eng, x, v, idx)
    if name in ("front",):
        return elem_ref(eng, x, v, [ZERO])
    if name in ("back",):
        return elem_ref(eng, x, v, [sub(v.shape[0], ONE)])
    if name in ("push_back", "emplace_back"):
        if fl == "bag":
            args = [eng.val(a) for a in A]
            if len(args) == 1 and isinstance(args[0], Lst):
                args = [eng.rv(i) for i in args[0].items]
            i, j, val = [eng.number(a) for a in args]
            eng.touch(x)
            x.v.write((i, j), "+=", val, eng.where())
            return x
        if fl == "vec":
            val = eng.number(eng.ev(A[0]))
            n = v.shape[0]
            eng.touch(x)
            x.v.write((n,), "=", val)
            x.v.shape = (add(n, ONE),)
            return x
    if name in ("reserve", "makeCompressed", "shrink_to_fit"):
        return x
    if name == "clear":
        eng.touch(x)
        if fl == "bag":
            x.v = Arr(v.shape, a_const(ZERO), v.kind, flavour=fl)
        else:
            x.v = Arr((ZERO,), UNINIT, v.kind, flavour=fl)
        return x
    if name == "empty":
        return eq0(size_of(v.shape))
    if name == "setFromTriplets":
        it = eng.val(A[0])
        if isinstance(it, It):
            b = it.base
            bag = b.v if isinstance(b, Cell) else b
            if getattr(bag, "flavour", None) == "bag":
                eng.touch(x)
                a = Arr(v.shape, bag.base, "d", bag.regs, flavour="eig")
                x.v = a
                return x
        fail("setFromTriplets", e)
    if fl == "eig":
        if name == "transpose":
            return transpose(as_mat(eng, v))
        if name in ("eval", "sparseView"):
            return v
        if name == "noalias":
            return x
        if name in ("segment", "head", "tail"):
            a = [eng.number(eng.ev(y)) for y in A]
            if name == "segment":
                st, n = a
            elif name == "head":
                st, n = ZERO, a[0]
            else:
                st, n = sub(v.shape[0], a[0]), a[0]
            vw = View(x if isinstance(x, (Cell, View)) else Cell(v), [("d", 0, st, ONE)], (n,), v.kind)
            vw.flavour = "eig"
            return vw
        if name in ("nonZeros",):
            return fn("nnz", freeze(v), *(v.shape or ()), isint=True, nonneg=True)
    if name == "assign":
        a0, a1 = eng.val(A[0]), eng.val(A[1])
        if isinstance(a0, It) and isinstance(a1, It):
            m = materialise(eng, it_range(eng, a0, a1))
            eng.touch(x)
            m.flavour = fl
            x.v = m
            return x
    if name in ("storage", "expression", "linear_begin"):
        return x
    fail("array method %s (%s)" % (name, fl), e)


def lst_method(eng, e, name, x, v, A):
    if name == "size":
        return num(len(v.items))
    if name in ("push_back", "emplace_back"):
        if not isinstance(x, Cell):
            fail("push_back", e)
        val = eng.copy(eng.val(A[0]))
        eng.touch(x)
        x.v.items.append(Cell(val))
        return x
    if name in ("front",):
        return v.items[0]
    if name in ("back",):
        return v.items[-1]
    if name in ("reserve",):
        return x
    if name == "clear":
        eng.touch(x)
        x.v.items.clear()
        return x
    if name == "at":
        return eng.index(x, [eng.number(eng.ev(A[0]))])
    if name == "empty":
        return TRUE if not v.items else FALSE
    if name == "fill":
        val = eng.val(A[0])
        for i in v.items:
            eng.store(i, val)
        return x
    if name == "data":
        return Ptr(x, (ZERO,))
    if name in ("begin", "cbegin"):
        return It(x if isinstance(x, Cell) else Cell(v), ZERO)
    if name in ("end", "cend"):
        return It(x if isinstance(x, Cell) else Cell(v), num(len(v.items)))
    fail("list method " + str(name), e)


def opq_method(eng, e, name, x, v, A):
    if v.tag in ("solver", "factor", "factors") or (v.tag == "sym" and "Eigen" in v.args[1]):
        if name in ("compute", "factorize", "analyzePattern"):
            m = as_mat(eng, eng.ev(A[0]))
            if name == "analyzePattern":
                return x
            new = Opq("factor", mat_node(m), m.shape)
            T.MATSHAPE.setdefault(mat_node(m), m.shape)
            if not isinstance(x, Cell):
                fail("solver", e)
            eng.touch(x)
            x.v = new
            return x
        if name == "solve":
            b = as_mat(eng, eng.ev(A[0]))
            return solve_with(v, b)
        if name == "info":
            return Opq("info")
    if v.tag == "shapeof":
        if name == "size":
            return fn("rank", freeze(v.args[0]), isint=True, nonneg=True)
    if v.tag == "noalias":
        return x
    if v.tag == "innerat":
        node, i, j = v.args
        if name == "value":
            return rd(node, (i, j))
        if name in ("row", "index"):
            return i
        if name == "col":
            return j
        fail("inner iterator", e)
    fail("method %s of %s" % (name, v.tag), e)


# ---------------------------------------------------------------- free functions
def call(eng, e):
    f = e.get("fn", "")
    A = e["args"]
    ev = eng.ev
    if f.startswith("vf::"):
        return intrinsic(eng, e, f[4:], A)
    h = CALLS.get(f)
    if h is None and f.endswith("::from_shape") and f.startswith("xt::"):
        t = eng.ty(e).replace("const ", "")
        shape = dims(eng, ev(A[0]))
        return Arr(shape, UNINIT, eng.elem_kind(t))
    if h is None and re.match(r"Eigen::DenseBase<.*>::(Zero|Ones|Constant)$", f):
        return _eigen_filled(eng, e, f, A)
    m = re.match(r"std::numeric_limits<(.*)>::(\w+)$", f)
    if m:
        if m.group(2) in ("infinity", "quiet_NaN"):
            return fn(m.group(2))
        if m.group(2) == "epsilon" and m.group(1) == "double":
            return num(Fraction(1, 2**52))
        bits = {"unsigned long": 64, "unsigned int": 32, "long": 63, "int": 31}.get(m.group(1))
        if bits and m.group(2) == "max":
            return num(2**bits - 1)
    if h is None:
        fail("call of " + f, e)
    return h(eng, e, [ev(a) for a in A])


def intrinsic(eng, e, name, A):
    if name == "shape":
        x = eng.ev(A[0])
        shape = tuple(eng.number(eng.ev(a)) for a in A[1:])
        if len(A) == 2 and isinstance(eng.rv(eng.ev(A[1])), Lst):
            shape = dims(eng, eng.ev(A[1]))
        v = eng.rv(x) if not isinstance(x, View) else x
        if not isinstance(x, Cell):
            fail("shape()", e)
        x.v = Arr(shape, v.base, v.kind, flavour=v.flavour)
        if v.base.tag == "asym":
            eng.shapes[v.base.args[0]] = shape
            eng.symshape[v.base.args[0]] = shape
        return None
    if name == "assume":
        c = eng.cond(eng.ev(A[0]))
        eng.assumed.append(c)
        eng.assume(c)
        return None
    if name == "require":
        c = eng.cond(eng.ev(A[0]))
        eng.requires.append((c, e.get("ln")))
        return None
    if name == "elem":
        pass
    fail("intrinsic " + name, e)


CALLS = {}


def _eigen_filled(eng, e, f, A):
    """Eigen::Matrix::Zero(...), Ones(...), Constant(..., v)"""
    name = f.rsplit("::", 1)[1]
    t = eng.ty(e)
    a = [eng.number(eng.ev(x)) for x in A]
    v = ZERO if name == "Zero" else ONE
    if name == "Constant":
        v = a.pop()
    m = re.match(r"Eigen::DenseBase<Eigen::Matrix<double, -1, (-?1)", f)
    if m is None:
        fail("call of " + f, e)
    shape = (a[0],) if m.group(1) == "1" else tuple(a)
    return Arr(shape, a_const(v), "d", flavour="eig")


def reg(*names):
    def d(f):
        for n in names:
            CALLS[n] = f
        return f
    return d


def tkind(eng, e, default="d"):
    ta = e.get("targs") or []
    for t in ta:
        if "t" in t:
            k = eng.scalar_kind(eng.types[t["t"]])
            if k:
                return k
            break
    return default


@reg("xt::zeros", "xt::ones", "xt::empty")
def _zeros(eng, e, a):
    shape = dims(eng, a[0])
    k = tkind(eng, e)
    nm = e["fn"][4:]
    if nm == "empty":
        return Arr(shape, UNINIT, k)
    return Arr(shape, a_const(ZERO if nm == "zeros" else ONE), k)


@reg("xt::zeros_like", "xt::ones_like", "xt::empty_like")
def _like(eng, e, a):
    v = eng.rv(a[0]) if not isinstance(a[0], View) else a[0]
    nm = e["fn"][4:]
    base = UNINIT if nm == "empty_like" else a_const(ZERO if nm == "zeros_like" else ONE)
    return Arr(v.shape, base, v.kind)


@reg("xt::full_like")
def _full_like(eng, e, a):
    v = eng.rv(a[0])
    return Arr(v.shape, a_const(eng.number(a[1])), v.kind)


@reg("xt::arange")
def _arange(eng, e, a):
    k = tkind(eng, e, "u")
    p = [eng.number(x) for x in a]
    if len(p) == 1:
        lo, hi, st = ZERO, p[0], ONE
    elif len(p) == 2:
        lo, hi, st = p[0], p[1], ONE
    else:
        lo, hi, st = p
    n = sub(hi, lo)
    if st is not ONE:
        c = const_int(st)
        if c is None:
            fail("arange step", e)
        n = fdiv(add(n, num(c - 1)), st)
    return Fn((n,), k, lambda i: add(lo, mul(st, i[0])))


@reg("xt::linspace")
def _linspace(eng, e, a):
    k = tkind(eng, e)
    lo, hi = eng.number(a[0]), eng.number(a[1])
    n = eng.number(a[2]) if len(a) > 2 else num(50)
    endpoint = eng.cond(a[3]) if len(a) > 3 else TRUE
    if endpoint is TRUE:
        d = div(sub(hi, lo), sub(n, ONE))
    elif endpoint is FALSE:
        d = div(sub(hi, lo), n)
    else:
        fail("linspace", e)
    return Fn((n,), k, lambda i: add(lo, mul(d, i[0])))


@reg("xt::eye")
def _eye(eng, e, a):
    n = eng.number(a[0])
    return Fn((n, n), tkind(eng, e), lambda i: bracket(eq0(sub(i[0], i[1]))))


@reg("xt::has_shape")
def _has_shape(eng, e, a):
    return has_shape(eng, a[0], a[1])


@reg("xt::view")
def _view(eng, e, a):
    return make_view(eng, a[0], a[1:])


@reg("xt::all")
def _all(eng, e, a):
    if not a:
        return ALL
    return quantify(eng, a[0], True)


@reg("xt::any")
def _any(eng, e, a):
    return quantify(eng, a[0], False)


@reg("xt::newaxis")
def _newaxis(eng, e, a):
    return Opq("newaxis")


@reg("xt::range")
def _range(eng, e, a):
    p = [None if isinstance(eng.rv(x), Opq) else eng.number(x) for x in a]
    if len(p) == 1:
        return Opq("range", ZERO, p[0], ONE)
    return Opq("range", p[0], p[1], p[2] if len(p) > 2 and p[2] is not None else ONE)


@reg("xt::keep")
def _keep(eng, e, a):
    if len(a) == 1:
        v = eng.rv(a[0]) if not isinstance(a[0], View) else a[0]
        if isarr(v):
            return Opq("keep", materialise(eng, a[0]))
    return Opq("keep", from_list(eng, Lst([Cell(eng.number(x)) for x in a])))


def mean_of(eng, x, w, axes):
    """sum of x (weighted: over sum of w) over axes"""
    sx, _ = operand(eng, x)
    if sx is None:
        fail("unknown rank")
    axes = list(range(len(sx))) if axes is None else [k % len(sx) for k in axes]
    if w is None:
        n = ONE
        for k in axes:
            n = mul(n, sx[k])
        den = lambda idx: n
        top = reduce_sum(eng, x, axes)
    else:
        sw, rw = operand(eng, w)
        if len(sw) != len(sx):
            if len(sw) != 1 or len(axes) != 1:
                fail("weights of average")
            ax = axes[0]
            w = Fn(sx, "d", lambda idx: rw((idx[ax],)))
        top = reduce_sum(eng, elementwise(eng, "*", [x, w]), axes)
        bot = reduce_sum(eng, w, axes)
        den = bot.f
    r = Fn(top.shape, "d", lambda idx: div(top.f(idx), den(idx)))
    return r


@reg("xt::mean")
def _mean(eng, e, a):
    return mean_of(eng, a[0], None, axis_arg(eng, a))


@reg("xt::average")
def _average(eng, e, a):
    return mean_of(eng, a[0], a[1], axis_arg(eng, [None] + list(a[2:])))


@reg("xt::amax", "xt::amin", "xt::prod")
def _amax(eng, e, a):
    return reduce_uf(eng, e["fn"][4:], a[0], axis_arg(eng, a))


@reg("xt::sum")
def _sum(eng, e, a):
    return reduce_sum(eng, a[0], axis_arg(eng, a))


@reg("xt::eval", "xt::noalias", "std::move", "std::forward", "std::cref", "std::ref", "xt::real", "std::as_const")
def _ident(eng, e, a):
    return a[0]


@reg("xt::eval")
def _eval(eng, e, a):
    v = eng.rv(a[0]) if not isinstance(a[0], View) else a[0]
    if isinstance(v, Arr):
        return a[0]
    return materialise(eng, a[0])


@reg("xt::cast")
def _cast(eng, e, a):
    k = tkind(eng, e)
    if k in "iu" and kind_of(eng, a[0]) == "d":
        return elementwise(eng, "cast_int", [a[0]])
    r = elementwise(eng, "id", [a[0]])
    r.kind = k
    return r


def _mk_cmp(op):
    def h(eng, e, a):
        return elementwise(eng, op, [a[0], a[1]])
    return h


for _n, _o in (("equal", "=="), ("not_equal", "!="), ("less", "<"), ("less_equal", "<="), ("greater", ">"),
               ("greater_equal", ">="), ("isclose", "isclose"), ("pow", "pow")):
    CALLS["xt::" + _n] = _mk_cmp(_o)


@reg("xt::allclose")
def _allclose(eng, e, a):
    sa, ra = operand(eng, a[0])
    sb, rb = operand(eng, a[1])
    return quantify(eng, elementwise(eng, "isclose", [a[0], a[1]]), True)


def _mk_el(op):
    def h(eng, e, a):
        v = eng.rv(a[0]) if not isinstance(a[0], View) else a[0]
        if isinstance(v, Poly):
            x = v
            if op == "sqrt":
                return sqrt_(x)
            if op == "abs":
                return absval(x)
            return scalar_fn(op, x)
        return elementwise(eng, op, [a[0]])
    return h


for _n in ("sqrt", "sin", "cos", "tan", "exp", "log", "floor", "ceil", "round", "abs", "square", "rint"):
    CALLS["xt::" + _n] = _mk_el(_n)
    CALLS["std::" + _n] = _mk_el(_n)
    CALLS["xt::math::" + _n] = _mk_el(_n)
    CALLS[_n] = _mk_el(_n)
CALLS["std::fabs"] = _mk_el("abs")
CALLS["fabs"] = _mk_el("abs")
CALLS["std::lround"] = lambda eng, e, a: trunc(scalar_fn("round", eng.number(a[0])))
CALLS["lround"] = CALLS["std::lround"]


@reg("std::pow", "pow")
def _pow(eng, e, a):
    b, x = eng.number(a[0]), eng.number(a[1])
    c = const_int(x)
    if c is not None and abs(c) <= 6:
        return power(b, c)
    if isconst(x) and constval(x) == Fraction(1, 2):
        return sqrt_(b)
    return fn("pow", b, x)


@reg("std::max", "std::min")
def _max(eng, e, a):
    if len(a) == 1:
        v = eng.rv(a[0])
        if isinstance(v, Lst):
            a = v.items
    p = [eng.number(x) for x in a]
    r = p[0]
    for q in p[1:]:
        c = lt0(sub(r, q)) if e["fn"] == "std::max" else lt0(sub(q, r))
        c = eng.simplify(c)
        r = ite(c, q, r)
    return r


@reg("std::isnan")
def _isnan(eng, e, a):
    return bvar(term("isnan", eng.number(a[0])))


@reg("xt::setdiff1d")
def _setdiff(eng, e, a):
    return set_uf(eng, "setdiff1d", a[:2])


def set_uf(eng, name, args, sorted_=True):
    vals = [eng.rv(x) if not isinstance(x, View) else x for x in args]
    nodes = []
    for v in vals:
        if isinstance(v, Lst):
            v = from_list(eng, v)
        nodes.append(set_node(eng, v))
    kind = kind_of(eng, args[0])
    node = a_uf(name, *nodes, isint=kind != "d", nonneg=kind in "ub")
    return Arr((fn("size", node, isint=True, nonneg=True),), node, kind)


def set_node(eng, v):
    """The content as a set: flattening and order do not matter."""
    n = freeze(v)
    shape = v.shape
    while n.tag == "auf" and n.args[0] in ("flatten", "sort"):
        if n.args[0] == "flatten":
            shape = n.args[2:]
        n = n.args[1]
    if n.tag == "auf" and n.args[0] == "unique":
        n = n.args[1]
    # the shape is part of the content, for closed formulas
    if n.tag in ("fun", "aconst", "aupd", "auninit") and shape:
        return term("withshape", n, *shape, isint=n.isint, nonneg=n.nonneg)
    return n


@reg("xt::unique")
def _unique(eng, e, a):
    v = eng.rv(a[0]) if not isinstance(a[0], View) else a[0]
    n = freeze(v)
    if n.tag == "auf" and n.args[0] in ("unique", "setdiff1d"):
        return v
    return set_uf(eng, "unique", a[:1])


@reg("xt::sort")
def _sort(eng, e, a):
    v = eng.rv(a[0]) if not isinstance(a[0], View) else a[0]
    n = freeze(v)
    if n.tag == "auf" and n.args[0] in ("unique", "sort", "setdiff1d"):
        return a[0]
    node = a_uf("sort", n, isint=v.kind != "d", nonneg=v.kind in "ub")
    return Arr(v.shape, node, v.kind)


@reg("xt::flatten", "xt::ravel")
def _flatten(eng, e, a):
    return flatten(eng, a[0])


@reg("xt::reshape_view")
def _reshape_view(eng, e, a):
    r = reshape(eng, a[0], [eng.number(x) for x in dims(eng, a[1])])
    return r



@reg("xt::transpose")
def _transpose(eng, e, a):
    s, r = operand(eng, a[0])
    return Fn(tuple(reversed(s)), kind_of(eng, a[0]), lambda i: r(tuple(reversed(i))))


@reg("xt::roll")
def _roll(eng, e, a):
    s, r = operand(eng, a[0])
    if s is None or len(s) != 1 or len(a) != 2:
        fail("roll", e)
    k = eng.number(a[1])
    return Fn(s, kind_of(eng, a[0]), lambda i: r((imod(sub(i[0], k), s[0]),)))


@reg("xt::argmax")
def _argmax(eng, e, a):
    """Position of the (first) largest element."""
    s, r = operand(eng, a[0])
    if s is None or len(s) != 1 or axis_arg(eng, a):
        fail("argmax", e)
    v = raw("f")
    x = r((atom(v),))
    x = known(bracket(x) if E.isbool(x) else x, [(v, s[0])])
    p = fn("argmax", fun([v], x), s[0], isint=True, nonneg=True)
    return Fn((), "u", lambda i: p)


@reg("xt::cumsum")
def _cumsum(eng, e, a):
    s, r = operand(eng, a[0])
    if len(s) != 1:
        fail("cumsum", e)

    def f(i):
        c = const_int(i[0])
        if c is not None and c < 64:
            t = ZERO
            for k in range(c + 1):
                t = add(t, r((num(k),)))
            return t
        v = raw("s")
        return psum([(v, add(i[0], ONE))], r((atom(v),)))

    return Fn(s, kind_of(eng, a[0]), f)


@reg("xt::concatenate")
def _concatenate(eng, e, a):
    l = eng.rv(a[0])
    ax = 0
    if len(a) > 1:
        ax = const_int(eng.number(a[1]))
    if not isinstance(l, Lst):
        fail("concatenate", e)
    parts = [operand(eng, i if not isinstance(i, Cell) else i) for i in l.items]
    kind = kind_of(eng, l.items[0])
    shape = list(parts[0][0])
    tot = ZERO
    offs = []
    for s, r in parts:
        offs.append(tot)
        tot = add(tot, s[ax])
    shape[ax] = tot

    def f(idx):
        val = None
        for (s, r), o in reversed(list(zip(parts, offs))):
            i = list(idx)
            i[ax] = sub(idx[ax], o)
            x = r(tuple(i))
            if val is None:
                val = x
            else:
                # before the next part
                c = eng.simplify(lt0(sub(i[ax], s[ax])))
                val = ite(c, x, val)
        return val

    r = Fn(tuple(shape), kind, f)
    return Concat(eng, r, parts, offs, ax)


def Concat(eng, fnv, parts, offs, ax):
    """Concatenation as regions of a new array."""
    a = Arr(fnv.shape, UNINIT, fnv.kind)
    for (s, r), o in zip(parts, offs):
        def wr(dom, pts, op, o=o):
            p2 = []
            for i, v in pts:
                i = list(i)
                i[ax] = add(i[ax], o)
                p2.append((tuple(i), v))
            put_regions(a, dom, p2, op)
        write_all(eng, wr, s, r)
    a.nfix = len(a.regs)
    return a


@reg("xt::xtuple", "std::make_tuple", "xt::stack_tuple")
def _tuple(eng, e, a):
    return Lst([x if isinstance(x, Cell) else Cell(x) for x in a], "tuple")


@reg("xt::norm_l2", "xt::norm_l1", "xt::norm_linf", "xt::norm_sq")
def _norm(eng, e, a):
    nm = e["fn"][4:]
    if nm in ("norm_l2", "norm_sq"):
        v = reduce_sum(eng, elementwise(eng, "square", [a[0]]))
        if nm == "norm_sq":
            return v
        return Fn((), "d", lambda i: sqrt_(v.read(())[0]))
    if nm == "norm_l1":
        return reduce_sum(eng, elementwise(eng, "abs", [a[0]]))
    return reduce_uf(eng, "amax", elementwise(eng, "abs", [a[0]]))


@reg("xt::adapt")
def _adapt(eng, e, a):
    p = eng.rv(a[0]) if not isinstance(a[0], View) else a[0]
    if isinstance(p, Ptr):
        base = p.base
        bv = base.v if isinstance(base, Cell) else base
        shape = None
        for y in a[1:]:
            y2 = eng.rv(y)
            if isinstance(y2, Lst):
                shape = dims(eng, y2)
        if shape is None:
            # xt::xshape<...>
            t = eng.types[e["targs"][-1]["t"]] if e.get("targs") else ""
            for ar in e["args"][1:]:
                m = re.search(r"fixed_shape<([\d, ]+)>", eng.ty(ar))
                if m:
                    shape = tuple(num(int(s)) for s in m.group(1).split(","))
        if shape is None:
            fail("adapt without shape", e)
        if p.idx is None:
            fail("adapt of a scalar", e)
        r = len(shape)
        if r > len(p.idx):
            fail("adapt of larger rank", e)
        pre, post = p.idx[:len(p.idx) - r], p.idx[len(p.idx) - r:]
        full = bv.shape[len(bv.shape) - r:]
        # contiguous block: leading dimension may be partial
        if any(const_int(i) != 0 for i in post[1:]) or any(not same_dim(x, y) for x, y in zip(full[1:], shape[1:])):
            fail("adapt of a strided block", e)
        spec = [("i", i) for i in pre] + [("d", k, post[k], ONE) for k in range(r)]
        v = View(base, spec, tuple(shape), bv.kind)
        return v
    if isarr(p):
        if len(a) > 1:
            try:
                shape = dims(eng, a[1])
            except Unmodelled:
                shape = None
            if shape is not None:
                return reshape(eng, a[0], shape)
        return a[0]
    if isinstance(p, Lst):
        return from_list(eng, p)
    fail("adapt of %s" % type(p).__name__, e)


def same_dim(a, b):
    d = sub(a, b)
    return not d.t or not isconst(d)


@reg("std::to_string", "std::operator+")
def _str(eng, e, a):
    return Str("")


@reg("std::get")
def _get(eng, e, a):
    v = eng.rv(a[0])
    k = e["targs"][0].get("v")
    if isinstance(v, Lst):
        return v.items[k]
    fail("get", e)


def it_assign(eng, d, r, n):
    """Assign n values r(i) from iterator d on."""
    base = d.base
    v = base.v if isinstance(base, Cell) else base
    if isinstance(v, Lst):
        c = const_int(n)
        p = const_int(d.pos)
        if c is None or p is None:
            fail("range of a list")
        vals = [r((num(k),)) for k in range(c)]
        for k in range(c):
            eng.store(v.items[p + k], vals[k])
        return
    s = flat_shape(eng, base)
    if len(s) == 1:
        vw = View(base, [("d", 0, d.pos, ONE)], (n,), v.kind)
        return assign_array(eng, vw, Fn((n,), v.kind, r), "=")
    if d.pos is ZERO and n is size_of(s):
        f = reshape(eng, Fn((n,), v.kind, r), s)
        return assign_array(eng, View(base, [("d", k, ZERO, ONE) for k in range(len(s))], s, v.kind), f, "=")
    fail("partial range of a multi-dimensional array")


@reg("std::copy")
def _copy(eng, e, a):
    s, t, d = [eng.rv(x) for x in a]
    if not all(isinstance(x, It) for x in (s, t, d)) or not same_base(eng, s, t):
        fail("std::copy", e)
    n = sub(t.pos, s.pos)
    sv = s.base.v if isinstance(s.base, Cell) else s.base
    if isinstance(sv, Lst):
        p = const_int(s.pos)
        items = [eng.number(x) for x in sv.items]
        rd_ = lambda i: items[p + const_int(i[0])]
    else:
        ss = flat_shape(eng, s.base)
        ds = flat_shape(eng, d.base)
        if len(ss) > 1 and len(ss) == len(ds) and s.pos is ZERO and d.pos is ZERO and n is size_of(ss) \
                and all(same_dim(x, y) for x, y in zip(ss[1:], ds[1:])):
            dv = d.base.v if isinstance(d.base, Cell) else d.base
            r = eng.reader(s.base)
            # the same strides, as far as they are known
            assign_array(eng, View(d.base, [("d", k, ZERO, ONE) for k in range(len(ss))], ss if ss[1:] == ds[1:] else ds, dv.kind),
                         Fn(ds, sv.kind, lambda i: r(i)), "=")
            return It(d.base, add(d.pos, n))
        r = eng.reader(s.base)
        p0 = s.pos
        rd_ = lambda i: r(unflatten(eng, add(p0, i[0]), ss))
    it_assign(eng, d, rd_, n)
    return It(d.base, add(d.pos, n))


@reg("xt::strided_view")
def _strided_view(eng, e, a):
    x = a[0]
    v = x if isinstance(x, View) else eng.rv(x)
    shape = dims(eng, a[1])
    strides = dims(eng, a[2])
    if not isarr(v) or isinstance(v, View) or v.shape is None or len(a) < 4 or eng.number(a[3]) is not ZERO:
        fail("strided_view", e)
    own = [fn("stride", num(k), *v.shape, isint=True, nonneg=True) for k in range(len(v.shape))]
    at = [None] * len(v.shape)
    if len(strides) != len(shape):
        fail("strided_view", e)
    for k, s in enumerate(strides):
        if s is ZERO:
            continue
        if s not in own or at[own.index(s)] is not None:
            fail("strided_view", e)
        at[own.index(s)] = k
    if None in at:
        fail("strided_view", e)
    r = eng.reader(x if isinstance(x, Cell) else v)
    return Fn(shape, v.kind, lambda i: r(tuple(i[k] for k in at)))


@reg("xt::where")
def _where(eng, e, a):
    if len(a) != 3:
        fail("xt::where", e)
    c = elementwise(eng, "!=", [a[0], ZERO]) if kind_of(eng, a[0]) != "b" else a[0]
    ops = [operand(eng, x) for x in (c, a[1], a[2])]
    out = broadcast([s for s, r in ops])

    def f(idx):
        g, p, q = [r(bidx(idx, s, out)) for s, r in ops]
        if not E.isbool(g):
            g = tobool(g)
        p, q = [bracket(x) if E.isbool(x) else x for x in (p, q)]
        return ite(g, p, q)

    return Fn(out, kind_of(eng, a[1]), f)


@reg("std::sort")
def _sort(eng, e, a):
    p, q = [eng.rv(x) for x in a[:2]]
    row = whole_row(eng, p, q)
    if row is None or len(a) != 2:
        fail("std::sort", e)
    if not is_sorted_row(row):
        eng.store(p.args[0], fn("sorted", row))


@reg("std::equal")
def _equal(eng, e, a):
    p, q, r = [eng.rv(x) for x in a[:3]]
    if len(a) == 3 and all(isinstance(x, It) for x in (p, q, r)) and same_base(eng, p, q):
        vs = [it.base.v if isinstance(it.base, Cell) else it.base for it in (p, r)]
        if not any(isinstance(v, Lst) for v in vs):
            d = sub(q.pos, p.pos)
            x, y = (eng.reader(it_range(eng, it, It(it.base, add(it.pos, d)))) for it in (p, r))
            i = raw("q")
            eng.facts.append(add(sub(atom(i), d), ONE))
            try:
                c = eng.compare("!=", x((atom(i),)), y((atom(i),)))
            finally:
                eng.facts.pop()
            return bnot(T.exists([(i, d)], c))
        n = const_int(sub(q.pos, p.pos))
        sides = []
        for it in (p, r):
            v = it.base.v if isinstance(it.base, Cell) else it.base
            k = const_int(it.pos)
            if not isinstance(v, Lst) or k is None or n is None or k < 0 or k + n > len(v.items):
                fail("std::equal", e)
            sides.append([eng.number(x) for x in v.items[k:k + n]])
        c = T.TRUE
        for x, y in zip(*sides):
            c = band(c, eq0(sub(x, y)))
        return c
    row = whole_row(eng, p, q)
    if row is None or len(a) != 3 or not (isinstance(r, Opq) and r.tag == "rowit" and r.args[1] == "gin"):
        fail("std::equal", e)
    other = eng.rv(r.args[0])
    return tobool(fn("rowequal", row, other, isint=True, nonneg=True)) if row is not other else T.TRUE


@reg("std::swap")
def _swap(eng, e, a):
    vals = [eng.rv(x) if not isinstance(x, View) else x for x in a]
    if any(isinstance(x, View) for x in a):
        fail("swap of views", e)
    vals = [v if isinstance(v, Poly) or E.isbool(v) else eng.copy(v) for v in vals]
    eng.store(a[0], vals[1])
    eng.store(a[1], vals[0])


@reg("std::rotate", "std::_V2::rotate")
def _rotate(eng, e, a):
    s, m, t = [eng.rv(x) for x in a]
    if not all(isinstance(x, It) for x in (s, m, t)) or not same_base(eng, s, t) or not same_base(eng, s, m):
        fail("std::rotate", e)
    n, k = sub(t.pos, s.pos), sub(m.pos, s.pos)
    sv = s.base.v if isinstance(s.base, Cell) else s.base
    if isinstance(sv, Lst):
        fail("rotate of a list", e)
    r = eng.reader(materialise(eng, it_range(eng, s, t)))

    def f(i):
        wrap = le0(sub(n, add(i[0], k)))
        return ite(wrap, r((sub(add(i[0], k), n),)), r((add(i[0], k),)))
    it_assign(eng, s, f, n)
    return It(s.base, add(s.pos, sub(n, k)))


def apply_fn(eng, f, args, e):
    v = eng.rv(f)
    if isinstance(v, E.Lam):
        x = eng.call_lambda(v, [Cell(y) for y in args])
    elif isinstance(v, Opq) and v.tag == "fnobj":
        return eng.fcompare(v.args[0], *args) if v.args[1] else eng.compare(v.args[0], *args)
    else:
        fail("function object %s" % type(v).__name__, e)
    return eng.rv(x)


def _it_seq(eng, a, e):
    s, t = eng.rv(a[0]), eng.rv(a[1])
    if not isinstance(s, It) or not isinstance(t, It) or not same_base(eng, s, t):
        fail("iterator range", e)
    x = it_range(eng, s, t)
    return operand(eng, x)


@reg("std::all_of", "std::any_of", "std::none_of")
def _all_of(eng, e, a):
    (n,), r = _it_seq(eng, a, e)
    name = e["fn"]
    v = raw("q")
    eng.facts.append(add(sub(atom(v), n), ONE))
    try:
        c = eng.cond(apply_fn(eng, a[2], [r((atom(v),))], e))
    finally:
        eng.facts.pop()
    if name == "std::all_of":
        return bnot(T.exists([(v, n)], bnot(c)))
    x = T.exists([(v, n)], c)
    return x if name == "std::any_of" else bnot(x)


@reg("std::is_sorted")
def _is_sorted(eng, e, a):
    (n,), r = _it_seq(eng, a, e)
    comp = a[2] if len(a) > 2 else Opq("fnobj", "<", True)
    v = raw("q")
    c = eng.cond(apply_fn(eng, comp, [r((add(atom(v), ONE),)), r((atom(v),))], e))
    return bnot(T.exists([(v, sub(n, ONE))], c))


@reg("std::fill")
def _fill(eng, e, a):
    s, t = eng.rv(a[0]), eng.rv(a[1])
    if not isinstance(s, It) or not isinstance(t, It) or s.base is not t.base:
        fail("std::fill", e)
    v = eng.number(a[2])
    it_assign(eng, s, lambda i: v, sub(t.pos, s.pos))


def _term_of(eng, x):
    v = eng.rv(x) if not isinstance(x, View) else x
    if isinstance(v, Poly) or E.isbool(v):
        return v
    if isarr(v):
        n = freeze(v)
        return term("withshape", n, *(v.shape or ()), isint=n.isint, nonneg=n.nonneg) if n.tag != "asym" else n
    if isinstance(v, Lst):
        return term("lst", *[_term_of(eng, i) for i in v.items])
    if isinstance(v, Obj):
        return term("obj", v.cls, v.sym or "", *[_term_of(eng, c) for k, c in sorted(v.fields.items())])
    if isinstance(v, Opq):
        return term("opq", v.tag)
    fail("argument of an uninterpreted function: %s" % type(v).__name__)


def uninterpreted(eng, f, args, this):
    """Function studied elsewhere: its result is a function of its arguments."""
    ts = [_term_of(eng, a) for a in args]
    if this is not None:
        ts.insert(0, _term_of(eng, this))
    rt = eng.types[f["ret"]].replace("const ", "").rstrip(" &")
    k = eng.scalar_kind(rt)
    name = f["q"]
    if k == "b":
        return tobool(fn(name, *ts, isint=True, nonneg=True))
    if k:
        return fn(name, *ts, isint=k != "d", nonneg=k == "u")
    r = eng.array_type(rt)
    if r is not None and r >= 0:
        kind = eng.elem_kind(rt)
        node = a_uf(name, *ts, isint=kind != "d", nonneg=kind in "ub")
        shape = eng.uf_shape(f, args, node, r) if hasattr(eng, "uf_shape") else None
        if shape is None:
            shape = tuple(fn("dim%d" % i, node, isint=True, nonneg=True) for i in range(r))
        return Arr(shape, node, kind)
    fail("uninterpreted result of type " + rt)
