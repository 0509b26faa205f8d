"""Random interpretation of closed value-graph terms.

Two formulas with different normal forms are only told apart if they denote different values: the uninterpreted
parts (array contents, sizes) are given pseudo-random meanings that satisfy the preconditions and the checks of both
sides, and both formulas are evaluated. A difference is a witness. Nothing of the analysed program is executed.
"""
import hashlib
import random
import re
import time
from fractions import Fraction
from terms import Poly, Term, isbool, TRUE, FALSE
import terms as T


class Several:
    """One of a number of values, depending on the order of assignments. Using it in an expression rejects the valuation."""

    def __init__(self, values):
        self.values = []
        for v in values:
            self.values += v.values if isinstance(v, Several) else [v]

    def __hash__(self):
        raise Reject


def _undetermined(*a):
    raise Reject


for _k in ("add radd sub rsub mul rmul truediv rtruediv floordiv rfloordiv mod rmod pow neg abs lt le gt ge eq ne bool int float "
           "index round trunc floor").split():
    setattr(Several, "__%s__" % _k, _undetermined)


class Reject(Exception):
    """The valuation is outside of the domain."""


class Unknown(Exception):
    """A construct without interpretation."""


def h(*a):
    return int.from_bytes(hashlib.blake2b(repr(a).encode(), digest_size=8).digest(), "big")


def same(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    if a == b:
        return True
    d = abs(a - b)
    return d <= 1e-7 * max(1, abs(a), abs(b)) if isinstance(d, float) else False


class Val:
    def __init__(self, seed, shapes):
        self.seed = seed
        self.shapes = shapes
        self.cache = {}
        self.steps = 0
        self.mod = 1 + h(seed, "mod") % 4
        self.names = {}
        self.memo = {}
        self.models = {}
        self.lets = {}
        self.over = {}  # state of the enclosing loops
        self.wild = False  # inputs need not be typical
        self.fix = {}  # (name, dimension): its value, from an equation
        self.few = h(seed, "few") % 4 == 0  # numbers out of a few: coincidences

    # ---- loops without closed form
    def mu(self, t, env):
        """Final state: iterate the effect of one pass."""
        level, cond, init, step = t.args[1:]
        loose = T._loose(t) or any("st" in str(k) for k in self.over)
        key = ("mu", t.args[1:], frozenset(env.items()) if loose else None)
        r = self.memo.get(key)
        if r is not None:
            return r
        v, state = self, []
        for x in init:
            state.append(v.entry(x, env))
        for n in range(400):
            v = Val(self.seed, self.shapes)
            v.models, v.mod, v.steps = self.models, self.mod, self.steps
            v.wild, v.fix = self.wild, self.fix
            v.over = dict(self.over)
            for k, x in enumerate(state):
                v.over["st%d.%d" % (level, k)] = x
                if isinstance(x, tuple):
                    for d, m in enumerate(x[0]):
                        v.over["st%d.%d.%d" % (level, k, d)] = m
            more = v.cond(cond, env)
            if more:
                state = [v.entry(x, env) for x in step]
            self.steps = v.steps
            if not more:
                break
        else:
            raise Reject
        self.memo[key] = state
        return state

    def entry(self, x, env):
        if isinstance(x, Poly):
            return self.num(x, env)
        dims = tuple(self.num(n, env) for n in x[1])
        return dims, {i: self.read(x[0], i, env) for i in points(dims)}

    def t_mu(self, t, env):
        x = self.mu(t, env)[t.args[0][0]]
        if isinstance(x, tuple):
            return x[0][t.args[0][1]]
        return x - (t.args[0][1] if len(t.args[0]) > 1 else 0)

    def model(self, name):
        """A typical input, by the name of the parameter: (shape, elements) or None."""
        if name not in self.models:
            self.models[name] = None
            f = MODELS.get(name)
            if f is not None and name in self.shapes and not (self.wild and h(self.seed, "wild", name) % 2):
                self.models[name] = f(self, len(self.shapes[name]))
        return self.models[name]

    # ---- scalars
    def num(self, p, env):
        key = None
        if not env or not T._hasbv(p):
            key = p.id
            r = self.cache.get(key)
            if r is not None:
                return r
        r = 0
        for m, c in p.t.items():
            v = int(c) if c.denominator == 1 else c
            # factors that vanish come first: the others need not be defined
            fs = sorted(m, key=lambda x: x[0].tag != "iv")
            for a, e in fs:
                y = self.atom(a, env)
                if isinstance(y, bool):
                    y = int(y)
                if e != 1:
                    if e < 0 and y == 0:
                        raise Reject
                    y = Fraction(y) ** e if isinstance(y, (int, Fraction)) else y ** e
                v = v * y
                if v == 0:
                    break
            r = r + v
        if key is not None:
            self.cache[key] = r
        return r

    def atom(self, t, env):
        self.steps += 1
        if self.steps > 1500000:
            raise Reject
        f = getattr(self, "t_" + t.tag, None)
        if f is None:
            raise Unknown(t.tag)
        return f(t, env)

    def size(self, *key):
        return 1 + h(self.seed, "size", *key) % 3

    def t_sym(self, t, env):
        name = t.args[0]
        if name in self.over:
            return self.over[name]
        if "# " + name in self.shapes:
            return self.shapes["# " + name](self)
        if name in SCALARS:
            r = SCALARS[name](self)
            if r is not None:
                return r
        if t.isint:
            if t.nonneg:
                return h(self.seed, "sym", name) % 5
            return h(self.seed, "sym", name) % 9 - 4
        if self.few:
            return h(self.seed, "sym", name) % 4 - 1
        return Fraction(h(self.seed, "sym", name) % 997 - 300, 101)

    def t_bv(self, t, env):
        return env[t]

    def t_raw(self, t, env):
        raise Unknown("raw")

    def t_rd(self, t, env):
        idx = self.index(t.args[1:], env)
        return self.read(t.args[0], idx, env)

    def index(self, polys, env):
        out = []
        for p in polys:
            i = self.num(p, env)
            if not isinstance(i, int):
                if i != int(i):
                    raise Reject
                i = int(i)
            out.append(i)
        return tuple(out)

    def t_iv(self, t, env):
        return 1 if self.cond(t.args[0], env) else 0

    def t_bx(self, t, env):
        return 1 if self.cond(T.bvar(t.args[0]), env) else 0

    def t_inv(self, t, env):
        v = self.num(t.args[0], env)
        if v == 0:
            raise Reject
        return Fraction(1) / v if isinstance(v, (int, Fraction)) else 1 / v

    def t_let(self, t, env):
        f = t.args[0]
        vals = tuple(self.num(v, env) for v in t.args[1:])
        r = self.lets.get((f, vals))
        if r is None:
            e = {T.term("bv", f.args[0], k): v for k, v in enumerate(vals)} if not f.loose else dict(env)
            if f.loose:
                e.update({T.term("bv", f.args[0], k): v for k, v in enumerate(vals)})
            r = self.num(f.args[2], e)
            if not f.loose:
                self.lets[(f, vals)] = r
        return r

    def t_sqrt(self, t, env):
        v = self.num(t.args[0], env)
        if v < 0:
            raise Reject
        return float(v) ** 0.5

    def t_fdiv(self, t, env):
        a, b = (self.num(x, env) for x in t.args)
        if b == 0:
            raise Reject
        q = abs(a) // abs(b)
        return q if (a < 0) == (b < 0) else -q

    def t_mod(self, t, env):
        a, b = (self.num(x, env) for x in t.args)
        if b == 0:
            raise Reject
        r = abs(a) % abs(b)
        return r if a >= 0 else -r

    def t_trunc(self, t, env):
        return int(self.num(t.args[0], env))

    def binder(self, t, env, ns, given=False):
        """All points of the domain (n may depend on earlier or later counters of the same binder)."""
        dep, n = t.args[0], t.args[1]
        bvs = [T.term("bv", dep, i) for i in range(n)]
        order = []
        todo = list(range(n))
        while todo:
            for i in todo:
                if not any(T.term("bv", dep, j) in T_bvs(ns[i]) for j in todo):
                    order.append(i)
                    todo.remove(i)
                    break
            else:
                raise Unknown("domain")

        def rec(k, e):
            if k == len(order):
                yield e
                return
            i = order[k]
            m = self.num(ns[i], e)
            if bvs[i] in e:
                if 0 <= e[bvs[i]] < m:
                    yield from rec(k + 1, e)
                return
            for x in range(int(m)):
                e2 = dict(e)
                e2[bvs[i]] = x
                yield from rec(k + 1, e2)

        yield from rec(0, dict(env) if given else {b: x for b, x in env.items() if b.args[0] != dep})

    def t_psum(self, t, env):
        ns, body = t.args[2:]
        return sum(self.num(body, e) for e in self.binder(t, env, ns))

    def t_ex(self, t, env):
        ns, c = t.args[2:]
        return any(self.cond(c, e) for e in self.binder(t, env, ns))

    def t_le0(self, t, env):
        return self.num(t.args[0], env) <= 0

    def t_lt0(self, t, env):
        v = self.num(t.args[0], env)
        return v < 0 if not isinstance(v, float) else v < -1e-12

    def t_eq0(self, t, env):
        v = self.num(t.args[0], env)
        return v == 0 if not isinstance(v, float) else abs(v) < 1e-10

    def t_isclose(self, t, env):
        return abs(self.num(t.args[0], env)) < 1e-8

    def t_isnan(self, t, env):
        v = self.num(t.args[0], env)
        return h(self.seed, "nan", round(float(v), 6)) % 3 == 0

    def t_fn(self, t, env):
        name, args = t.args[0], t.args[1:]
        if name.startswith("dim") and name[3:].isdigit():
            k = int(name[3:])
            s = self.shape(args[0], env)
            if s is None:
                raise Unknown("shape")
            return s[k]
        if name in ("size", "rank"):
            s = self.shape(args[0], env)
            if s is None:
                raise Unknown("shape")
            if name == "rank":
                return len(s)
            r = 1
            for n in s:
                r *= n
            return r
        if name == "nnz" and len(args) > 1:
            return sum(self.read(args[0], i, env) != 0 for i in points([self.num(n, env) for n in args[1:]]))
        if name == "argmax":
            v = [self.read(args[0], (i,), env) for i in range(self.num(args[1], env))]
            if not v:
                raise Reject
            return v.index(max(v))
        if name in ("amax", "amin", "prod", "mean"):
            s = [self.num(n, env) for n in args[1:]]
            v = [self.read(args[0], i, env) for i in points(s)]
            if not v:
                raise Reject
            if name == "prod":
                r = 1
                for x in v:
                    r *= x
                return r
            if name == "mean":
                return Fraction(1, len(v)) * sum(v)
            return max(v) if name == "amax" else min(v)
        if name == "abs":
            return abs(self.num(args[0], env))
        if name == "uninit":
            return h(self.seed, "uninit") % 1009
        if name == "divzero":
            raise Reject
        if name == "stored":
            return 1 if self.read(args[0], self.index(args[1:], env), env) != 0 else 0
        if all(isinstance(a, Poly) for a in args):
            # functions of numbers
            v = [self.num(a, env) for a in args]
            r = row_fn(name, v)
            if r is not None:
                return r
            v = [x if isinstance(x, int) else round(float(x), 7) for x in v]
            r = h(self.seed, name, v)
            return r % 5 if t.isint else Fraction(r % 997 - 300, 101)
        raise Unknown(name)

    # ---- conditions
    def cond(self, b, env):
        while True:
            if b is TRUE:
                return True
            if b is FALSE:
                return False
            v = b.args[0]
            b = b.args[1] if self.atom(v, env) else b.args[2]

    # ---- arrays
    def shape(self, node, env=None):
        env = env or {}
        if node.tag == "amu":
            return self.mu(node, env)[node.args[0][0]][0]
        if node.tag == "asym" and node.args[0] in self.over:
            return self.over[node.args[0]][0]
        if node.tag == "asym":
            m = self.model(node.args[0])
            if m is not None:
                return m[0]
            s = self.shapes.get(node.args[0])
            if s is None:
                raise Unknown("shape of " + str(node.args[0]))
            out = []
            for k, n in enumerate(s):
                if len(n.t) == 1:
                    (m, c), = n.t.items()
                    if c == 1 and len(m) == 1 and m[0][0].tag == "fn" and m[0][0].args[1:] == (node,):
                        out.append(self.dim(node.args[0], k))
                        continue
                out.append(self.num(n, env))
            return tuple(out)
        if node.tag == "withshape":
            return tuple(self.num(n, env) for n in node.args[1:])
        if node.tag == "auf" and node.args[0] == "flatten":
            n = 1
            for k in node.args[2:]:
                n *= self.num(k, env)
            return (n,)
        if node.tag == "auf" and node.args[0] in ("setdiff1d", "unique", "sort"):
            return (len(self.content(node, env)),)
        if node.tag == "auf" and node.args[0].endswith("::overlapping"):
            return (2, len(self.overlap(node, env)))
        raise Unknown("shape of " + node.tag)

    def dim(self, name, k):
        p = self.fix.get((name, k))
        if p is None:
            return self.size(name, k)
        if p == ():
            raise Reject
        self.fix[(name, k)] = ()
        try:
            n = self.num(p, {})
        finally:
            self.fix[(name, k)] = p
        if n < 0 or n > 40 or n != int(n):
            raise Reject
        return int(n)

    def overlap(self, node, env):
        """Pairs of nodes at the same position."""
        key = (node.id, "overlap")
        if key not in self.memo:
            rows = []
            for a in node.args[1:3]:
                n, d = self.shape(a, env)
                b = a.args[0] if a.tag == "withshape" else a
                rows.append([tuple(self.read(b, (i, j), env) for j in range(d)) for i in range(n)])
            self.memo[key] = [(i, j) for i, x in enumerate(rows[0]) for j, y in enumerate(rows[1]) if x == y]
        return self.memo[key]

    def content(self, node, env):
        """Flat list of all elements."""
        key = (node.id, frozenset(env.items()) if T._hasbv(node) else None)
        r = self.memo.get(key)
        if r is not None:
            return r
        if node.tag == "auf" and node.args[0] == "setdiff1d":
            b = set(self.content(node.args[2], env))
            r = sorted(set(self.content(node.args[1], env)) - b)
        elif node.tag == "auf" and node.args[0] == "unique":
            r = sorted(set(self.content(node.args[1], env)))
        elif node.tag == "auf" and node.args[0] == "sort":
            r = sorted(self.content(node.args[1], env))
        else:
            s = self.shape(node, env)
            n = node.args[0] if node.tag == "withshape" else node
            r = [self.read(n, i, env) for i in points(s)]
        self.memo[key] = r
        return r

    def read(self, node, idx, env):
        tag = node.tag
        if tag == "amu" or tag == "asym" and node.args[0] in self.over:
            s, d = self.mu(node, env)[node.args[0][0]] if tag == "amu" else self.over[node.args[0]]
            if idx not in d:
                return h(self.seed, "outside", idx) % 11
            return d[idx]
        if tag == "asym":
            m = self.model(node.args[0])
            if m is not None:
                if len(idx) != len(m[0]) or not all(0 <= i < n for i, n in zip(idx, m[0])):
                    return h(self.seed, "outside", node.args[0], idx) % 11
                return m[1][idx]
            x = h(self.seed, "el", node.args[0], tuple(int(i) if i == int(i) else i for i in idx))
            if node.isint:
                if node.nonneg:
                    return x % (self.mod + 1)
                return x % 7 - 3
            if self.few:
                return x % 4 - 1
            return Fraction(x % 997 - 300, 101)
        if tag == "aconst":
            return self.num(node.args[0], env)
        if tag == "auninit":
            return Fraction(h(self.seed, "uninit", idx) % 1009, 7)
        if tag == "withshape":
            return self.read(node.args[0], idx, env)
        if tag == "fun":
            dep, n = node.args[0], node.args[1]
            e = dict(env)
            for k, i in enumerate(idx):
                e[T.term("bv", dep, k)] = i
            return self.num(node.args[2], e)
        if tag == "aupd" and direct(node):
            key = (node.id, idx, frozenset(env.items()) if T._hasbv(node) else None)
            r = self.memo.get(key)
            if r is None:
                r = self.memo[key] = self.at(node, idx, env)
            return r
        if tag == "aupd":
            key = (node.id, frozenset(env.items()) if T._hasbv(node) else None)
            d = self.memo.get(key)
            if d is None:
                d = self.apply(node, env)
                self.memo[key] = d
            if idx in d:
                return d[idx]
            return self.read(node.args[0], idx, env)
        if tag == "auf" and node.args[0] in ("setdiff1d", "unique", "sort"):
            c = self.content(node, env)
            if len(idx) != 1 or not 0 <= idx[0] < len(c):
                return h(self.seed, "outside", node.args[0], idx) % 11
            return c[idx[0]]
        if tag == "auf" and node.args[0].endswith("::overlapping"):
            c = self.overlap(node, env)
            if not 0 <= idx[1] < len(c):
                return h(self.seed, "outside", node.args[0], idx) % 11
            return c[idx[1]][idx[0]]
        if tag == "auf" and node.args[0] == "flatten" and len(idx) == 1:
            s = [self.num(n, env) for n in node.args[3:]]
            i = idx[0]
            out = []
            for n in reversed(s):
                if n == 0:
                    raise Reject
                out.append(i % n)
                i //= n
            out.append(i)
            return self.read(node.args[1], tuple(reversed(out)), env)
        if tag in ("linalg", "minv", "mT"):
            m = self.matrix(node, None)
            x = m
            for i in idx:
                if not 0 <= i < len(x):
                    return h(self.seed, "outside", idx) % 11
                x = x[i]
            return x
        raise Unknown(tag if tag != "auf" else str(node.args[0]))

    def at(self, node, idx, env):
        """One element, if the place written follows from the counters directly."""
        add = 0
        for e in reversed(node.args[1:]):
            op, ns, g, at, val = e.args[2:]
            en = {b: x for b, x in env.items() if b.args[0] != e.args[0]}
            hit = True
            for p, i in zip(at, idx):
                b = counter(p, e.args[0])
                if b is None:
                    hit = self.num(p, env) == i
                elif en.setdefault(b, i) != i:
                    hit = False
                if not hit:
                    break
            if not hit:
                continue
            vals = []
            for en in self.binder(e, en, ns, True):
                if self.cond(g, en):
                    vals.append(self.num(val, en))
            if op == "+=":
                add = add + sum(vals)
            elif vals:
                if any(not same(v, vals[0]) for v in vals):
                    return Several([v + add for v in vals])
                return vals[0] + add
        return self.read(node.args[0], idx, env) + add

    def apply(self, node, env):
        d = {}
        for e in node.args[1:]:
            op, ns, g, idx, val = e.args[2:]
            new = {}
            cnt = 0
            for en in self.binder(e, env, ns):
                cnt += 1
                if cnt > 3000:
                    raise Reject
                if not self.cond(g, en):
                    continue
                i = self.index(idx, en)
                v = self.num(val, en)
                if op == "+=":
                    cur = new[i] if i in new else (d[i] if i in d else self.read(node.args[0], i, env))
                    new[i] = cur + v
                else:
                    if i in new and (isinstance(new[i], Several) or not same(new[i], v)):
                        # the order of the assignments matters: not part of the formula
                        v = Several([new[i], v])
                    new[i] = v
            d.update(new)
        return d

    # ---- linear algebra
    def matrix(self, node, rows_of):
        key = ("m", node.id)
        r = self.memo.get(key)
        if r is not None:
            return r
        if node.tag == "linalg":
            r = None
            for w, c in zip(*node.args):
                c = self.num(c, {})
                x = None
                for f in reversed(w):
                    y = self.matrix(f, x)
                    x = y if x is None else matmul(y, x)
                x = scaled(x, c)
                r = x if r is None else added(r, x)
        elif node.tag == "minv":
            a = node.args[0]
            if a.tag == "asym" and a.args[0] == "unfactorised":
                n = len(rows_of)
                r = [[Fraction(h(self.seed, "unf", i, j) % 97 + 1, 7) for j in range(n)] for i in range(n)]
            else:
                r = inverse(self.matrix(a, None))
        elif node.tag == "mT":
            m = self.matrix(node.args[0], None)
            r = [list(x) for x in zip(*m)]
        else:
            s = T.MATSHAPE.get(node)
            if s is None:
                raise Unknown("matrix shape")
            s = [self.num(n, {}) for n in s]
            if len(s) == 1:
                r = [self.read(node, (i,), {}) for i in range(s[0])]
            else:
                r = [[self.read(node, (i, j), {}) for j in range(s[1])] for i in range(s[0])]
        self.memo[key] = r
        return r


def counter(p, dep):
    """The counter of binder dep that p is, if any."""
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].tag == "bv" and m[0][0].args[0] == dep:
            return m[0][0]
    return None


DIRECT = {}


def direct(node):
    r = DIRECT.get(node)
    if r is None:
        r = True
        for e in node.args[1:]:
            for p in e.args[5]:
                if counter(p, e.args[0]) is None and any(b.args[0] == e.args[0] for b in T_bvs(p)):
                    r = False
        DIRECT[node] = r
    return r


def T_bvs(p):
    return T._loose(p)


def points(s):
    if not s:
        yield ()
        return
    for i in range(int(s[0])):
        for r in points(s[1:]):
            yield (i,) + r


def matmul(a, b):
    if a and isinstance(a[0], list) and a[0] and len(a[0]) != len(b):
        raise Reject
    if b and isinstance(b[0], list):
        return [[sum(x * y[j] for x, y in zip(row, b)) for j in range(len(b[0]))] for row in a]
    return [sum(x * y for x, y in zip(row, b)) for row in a]


def scaled(x, c):
    return [scaled(y, c) for y in x] if isinstance(x, list) else x * c


def added(a, b):
    if isinstance(a, list):
        if len(a) != len(b):
            raise Reject
        return [added(x, y) for x, y in zip(a, b)]
    return a + b


def inverse(m):
    n = len(m)
    if n > 12:
        raise Reject
    a = [[Fraction(x) if not isinstance(x, float) else x for x in r] + [Fraction(int(i == j)) for j in range(n)] for i, r in enumerate(m)]
    if any(len(r) != 2 * n for r in a):
        raise Reject
    for k in range(n):
        p = max(range(k, n), key=lambda i: abs(a[i][k]))
        if abs(a[p][k]) < 1e-9:
            raise Reject
        a[k], a[p] = a[p], a[k]
        q = 1 / a[k][k]
        a[k] = [x * q for x in a[k]]
        for i in range(n):
            if i != k and a[i][k] != 0:
                q = a[i][k]
                a[i] = [x - q * y for x, y in zip(a[i], a[k])]
    return [r[n:] for r in a]


# ---------------------------------------------------------------- typical inputs
LIMIT = 8


def table(shape, f):
    return tuple(shape), {i: f(i) for i in points(shape)}


def m_dofs(v, rank):
    if tied(v):
        return tied(v)["dofs"]
    if rank != 2:
        return None
    r = random.Random(h(v.seed, "dofs"))
    n, d = r.randint(2, 4), r.randint(1, 2)
    k = n * d
    val = list(range(k))
    if r.random() < 0.5:
        # tied degrees of freedom
        k = r.randint(max(1, k - 2), k)
        val = list(range(k)) + [r.randrange(k) for _ in range(n * d - k)]
    if r.random() < 0.1:
        # a number that is not used
        g = r.randrange(k)
        if k < n * d:
            val = [x + (x >= g) for x in val]
    r.shuffle(val)
    return table((n, d), lambda i: val[i[0] * d + i[1]])


def m_sparse(name):
    """Tying matrices: a random partition of the degrees of freedom."""
    def f(v, rank):
        n = ndof(v)
        if n is None or rank != 2:
            return None
        r = random.Random(h(v.seed, "partition"))
        d = r.randint(0 if n > 1 else 0, max(0, n - 1))
        p = r.randint(0, n - d)
        u = n - d - p
        q = random.Random(h(v.seed, name))
        cols = {"Cdu": u, "Cdp": p, "Cdi": u + p}[name]
        return table((d, cols), lambda i: q.choice((0, 1, Fraction(q.randint(-300, 300), 101))))

    return f


def ndof(v):
    m = v.model("dofs")
    return max(m[1].values()) + 1 if m is not None else None


def tied(v):
    """Typical periodic mesh: dofs, control, ties, iip."""
    if "ties" not in v.shapes or "control" not in v.shapes:
        return None
    r = random.Random(h(v.seed, "tied"))
    ndim = r.randint(1, 3)
    n = ndim + r.randint(2, 5)
    d = list(range(n * ndim))
    if r.random() < 0.6:
        r.shuffle(d)
    dep = r.sample(range(n - ndim), r.randint(1, n - ndim - 1))
    ind = [i for i in range(n - ndim) if i not in dep]
    t = [(r.choice(ind), i) for i in dep]
    free = [d[i * ndim + j] for i in range(n) for j in range(ndim) if i not in dep]
    p = r.sample(free, r.randint(0, len(free) - 1))
    return {
        "dofs": table((n, ndim), lambda i: d[i[0] * ndim + i[1]]),
        "control": table((ndim, ndim), lambda i: d[(n - ndim + i[0]) * ndim + i[1]]),
        "ties": table((len(t), 2), lambda i: t[i[0]][i[1]]),
        "iip": table((len(p),), lambda i: p[i[0]]),
    }


def m_tied(name):
    return lambda v, rank: tied(v)[name] if tied(v) else None


def m_conn(v, rank):
    if rank != 2:
        return None
    r = random.Random(h(v.seed, "conn"))
    m = v.model("dofs")
    if m is not None:
        n = m[0][0]
    elif v.model("coor") is not None:
        n = v.model("coor")[0][0]
    else:
        n = r.randint(2, 5)
    e, k = r.randint(1, 3), r.randint(1, 3)
    s = v.shapes["conn"]
    if all(len(x.t) <= 1 and () in x.t for x in s[1:]):
        k = int(T.constval(s[1]))
    val = [r.randrange(n) for _ in range(e * k)]
    return table((e, k), lambda i: val[i[0] * k + i[1]])


def m_iip(v, rank):
    if tied(v):
        return tied(v)["iip"]
    r = random.Random(h(v.seed, "iip"))
    n = ndof(v)
    if n is None or rank != 1:
        return None
    k = r.randint(0 if r.random() < 0.2 else 1, max(1, n - 1))
    val = r.sample(range(n), k)
    if r.random() < 0.5:
        val.sort()
    return table((k,), lambda i: val[i[0]])


def stitched(v):
    """Up to three meshes, of which nodes coincide. Named as in the driver stitch."""
    if "xa" not in v.shapes or "xb" not in v.shapes:
        return None
    r = random.Random(h(v.seed, "stitch"))
    out = {}
    x = {}
    if "ba" in v.shapes:
        # stack: bottom and top of equal width
        w = r.randint(1, 2)
        for k in "abc":
            hgt = r.randint(1, 2)
            p = [(i, j) for i in range(w) for j in range(hgt + 1)]
            r.shuffle(p)
            x[k] = p
            out["b" + k] = [p.index((i, 0)) for i in range(w)]
            out["t" + k] = [p.index((i, hgt)) for i in range(w)]
    else:
        grid = [(i, j) for i in range(3) for j in range(2)]
        for k in "abc":
            x[k] = r.sample(grid, r.randint(2, 5))
        if "oa" in v.shapes:
            m = [p for p in x["a"] if p in x["b"]]
            r.shuffle(m)
            out["oa"] = [x["a"].index(p) for p in m]
            out["ob"] = [x["b"].index(p) for p in m]
    out = {k: table((len(p),), lambda i, p=p: p[i[0]]) for k, p in out.items()}
    for k in "abc":
        n = len(x[k])
        out["x" + k] = table((n, 2), lambda i, k=k: x[k][i[0]][i[1]])
        e = r.randint(1, 2)
        c = [r.randrange(n) for _ in range(4 * e)]
        out["c" + k] = table((e, 4), lambda i, c=c: c[4 * i[0] + i[1]])
        s = [r.randrange(n) for _ in range(r.randint(1, 3))]
        out["s" + k] = table((len(s),), lambda i, s=s: s[i[0]])
    s = [r.randrange(min(len(x["a"]), len(x["b"]))) for _ in range(r.randint(1, 3))]
    out["set"] = table((len(s),), lambda i: s[i[0]])
    return out


def m_stitch(name):
    return lambda v, rank: (stitched(v) or {}).get(name)


def layers(v):
    """Tables of a mesh with a fine middle layer. Named as in the driver finelayer."""
    if "m.m_layer_nelx" not in v.shapes:
        return None
    if "m.m_layer_nelz" in v.shapes:
        return layers3(v)
    r = random.Random(h(v.seed, "layers"))
    half = r.randint(0, 3)
    nhx, nhy, ref = [1], [1], [-1]
    for k in range(half):
        if r.random() < 0.6 and nhx[-1] < 9:
            nhx.append(3 * nhx[-1])
            nhy.append(2 * nhx[-2])
            ref.append(0)
        else:
            nhx.append(nhx[-1])
            nhy.append(nhx[-1])
            ref.append(-1)
    nelx = nhx[-1] * r.randint(1, 2)
    nhx, nhy, ref = ([*reversed(x[1:]), *x] for x in (nhx, nhy, ref))
    n = len(nhx)
    lay = [nelx // k for k in nhx]
    nnd = [0] * (n + 1)
    se, sn, ne, nn = [], [0], 0, 0
    for i in range(n):
        up = i >= (n - 1) // 2
        nnd[i + 1 if up else i] = lay[i] + 1
        if not up or i == (n - 1) // 2:
            nnd[i] = lay[i] + 1
        se.append(ne)
        nn += ((5 if up else 3) * lay[i] + 1) if ref[i] == 0 else lay[i] + 1
        ne += lay[i] * (4 if ref[i] == 0 else 1)
        sn.append(nn)
    nn += lay[-1] + 1
    out = {k: table((len(x),), lambda i, x=x: x[i[0]])
           for k, x in (("nhx", nhx), ("nhy", nhy), ("refine", ref), ("layer_nelx", lay), ("nnd", nnd), ("startElem", se), ("startNode", sn))}
    out.update(nelem=ne, nnode=nn, nne=4, ndim=2, h=Fraction(h(v.seed, "edge") % 300 + 50, 101))
    out["Lx"] = out["h"] * nelx
    return out


def layers3(v):
    """The same for hexahedra: layers coarsen along x or z."""
    r = random.Random(h(v.seed, "layers"))
    half = r.choice([1, 2, 2, 3])
    nhx, nhy, nhz, ref = [1], [1], [1], [-1]
    for k in range(half):
        d = r.choice([0, 2, 2, -1]) if k or half == 1 else r.choice([0, 2, -1])
        big = max(nhx[-1], nhz[-1]) >= 3 and min(nhx[-1], nhz[-1]) >= 3
        if big:
            d = -1
        if d == 0 and nhx[-1] > nhz[-1]:
            d = 2
        if d == 2 and nhz[-1] > nhx[-1]:
            d = 0
        nhx.append(nhx[-1] * (3 if d == 0 else 1))
        nhz.append(nhz[-1] * (3 if d == 2 else 1))
        nhy.append(2 * min(nhx[-2], nhz[-2]) if d >= 0 else min(nhx[-1], nhz[-1]))
        ref.append(d)
    nelx = nhx[-1] * r.randint(1, 2)
    nelz = nhz[-1] * r.randint(1, 2)
    nhx, nhy, nhz, ref = ([*reversed(x[1:]), *x] for x in (nhx, nhy, nhz, ref))
    n = len(nhx)
    lx = [nelx // k for k in nhx]
    lz = [nelz // k for k in nhz]
    nnd = [0] * (n + 1)
    se, sn, ne, nn = [], [0], 0, 0
    for i in range(n):
        up = i >= (n - 1) // 2
        row = (lx[i] + 1) * (lz[i] + 1)
        nnd[i + 1 if up else i] = row
        if i == (n - 1) // 2:
            nnd[i] = row
        se.append(ne)
        k = 5 if up else 3
        nn += (k * lx[i] + 1) * (lz[i] + 1) if ref[i] == 0 else (lx[i] + 1) * (k * lz[i] + 1) if ref[i] == 2 else row
        ne += lx[i] * lz[i] * (1 if ref[i] == -1 else 4)
        sn.append(nn)
    nn += (lx[-1] + 1) * (lz[-1] + 1)
    out = {k: table((len(x),), lambda i, x=x: x[i[0]])
           for k, x in (("nhx", nhx), ("nhy", nhy), ("nhz", nhz), ("refine", ref), ("layer_nelx", lx), ("layer_nelz", lz), ("nnd", nnd),
                        ("startElem", se), ("startNode", sn))}
    out.update(nelem=ne, nnode=nn, nne=8, ndim=3, h=Fraction(h(v.seed, "edge") % 300 + 50, 101))
    out["Lx"] = out["h"] * nelx
    out["Lz"] = out["h"] * nelz
    return out


def m_layers(name):
    def f(v, rank=None):
        if "layers" not in v.memo:
            v.memo["layers"] = layers(v)
        return (v.memo["layers"] or {}).get(name)

    return f


def m_rows(name):
    def f(v, rank):
        r = random.Random(h(v.seed, name))
        n = ndof(v)
        if n is None or rank != 1:
            return None
        k = r.randint(1, 3)
        val = [r.randrange(n) for _ in range(k)]
        return table((k,), lambda i: val[i[0]])

    return f


def m_diagmat(name):
    def f(v, rank):
        c, d = v.model("conn"), v.model("dofs")
        if rank != 3 or c is None or d is None:
            return None
        r = random.Random(h(v.seed, name))
        n = c[0][1] * d[0][1]
        return table((c[0][0], n, n), lambda i: Fraction(r.randint(-300, 900), 101) if i[1] == i[2] else 0)

    return f


MODELS = {"ties": m_tied("ties"), "control": m_tied("control"), "Cdu": m_sparse("Cdu"), "Cdp": m_sparse("Cdp"), "Cdi": m_sparse("Cdi"), "diagmat": m_diagmat("diagmat"), "diagmat2": m_diagmat("diagmat2"), "dofs": m_dofs, "conn": m_conn, "iip": m_iip, "rows": m_rows("rows"), "cols": m_rows("cols")}

for _k in "xa xb xc ca cb cc oa ob ba ta bb tb bc tc sa sb sc set".split():
    MODELS[_k] = m_stitch(_k)

for _k in "nhx nhy nhz refine layer_nelx layer_nelz nnd startElem startNode".split():
    MODELS["m.m_" + _k] = m_layers(_k)

SCALARS = {"m.m_" + _k: m_layers(_k) for _k in "nelem nnode nne ndim h Lx Lz".split()}


# ---------------------------------------------------------------- lists of numbers
# A list is the sum over its elements n of 64^n (the order is not observed), and a fraction if it was sorted.
SORTED = Fraction(1, 1009)


def elements(x):
    f = Fraction(x)
    n = int(f) if f >= 0 else -1
    if n < 0 or (f - n) / SORTED % 1:
        return None
    r = []
    k = 0
    while n and k < 48:
        r += [k] * (n % 64)
        n //= 64
        k += 1
    return r if not n else None


def row_fn(name, v):
    if name == "elem":
        return 64 ** v[0] if isinstance(v[0], int) and 0 <= v[0] < 48 else None
    if name not in ("sorted", "card", "rowat", "rowequal"):
        return None
    x = elements(v[0])
    if x is None:
        return None
    if name == "card":
        return len(x)
    if name == "sorted":
        n = sum(64 ** k for k in x)
        return n if len(x) < 2 else n + SORTED
    if name == "rowat":
        return x[v[1]] if isinstance(v[1], int) and 0 <= v[1] < len(x) else None
    y = elements(v[1])
    return None if y is None else int(x == y)


# ---------------------------------------------------------------- comparison of results
def outside(v, node, shape):
    """An element outside the array that is written."""
    while node.tag == "aupd":
        for i in v.apply(node, {}):
            if len(i) == len(shape) and not all(0 <= x < n for x, n in zip(i, shape)):
                return i
        node = node.args[0]
    return None


def differ(v, a, b):
    """None, or a description of where the results differ."""
    if a is b:
        return None
    if isinstance(a, Poly) and isinstance(b, Poly):
        x, y = v.num(a, {}), v.num(b, {})
        return None if same(x, y) else "%s instead of %s" % (fmt(x), fmt(y))
    if isbool(a) and isbool(b):
        x, y = v.cond(a, {}), v.cond(b, {})
        return None if x == y else "%s instead of %s" % (x, y)
    if isarr(a) and isarr(b):
        sa = tuple(v.num(n, {}) for n in a[0])
        sb = tuple(v.num(n, {}) for n in b[0])
        if sa != sb:
            return "shape %s instead of %s" % (sa, sb)
        if a[1] is b[1]:
            return None
        pts = list(points(sa))
        random.Random(h(v.seed, "points")).shuffle(pts)
        for n, i in enumerate(pts):
            if n > 80:
                break
            x, y = v.read(a[1], i, {}), v.read(b[1], i, {})
            if isinstance(y, Several):
                continue
            if isinstance(x, Several):
                # whichever comes last
                if any(same(z, y) for z in x.values):
                    continue
                x = x.values[0]
            if not same(x, y):
                return "element %s is %s instead of %s" % (i, fmt(x), fmt(y))
        out = outside(v, a[1], sa)
        if out is not None and outside(v, b[1], sa) is None:
            return "element %s is written, the shape is %s" % (out, sa)
        return None
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return "%d parts instead of %d" % (len(a), len(b))
        for x, y in zip(a, b):
            r = differ(v, x, y)
            if r:
                return r
        return None
    if isinstance(a, str) and a == b:
        return None
    if isinstance(a, Term) and isinstance(b, Term) and not isbool(a) and a in T.MATSHAPE and b in T.MATSHAPE:
        x, y = v.matrix(a, None), v.matrix(b, None)
        return None if repr(x) == repr(y) else "matrix differs"
    raise Unknown("results")


def isarr(a):
    return isinstance(a, tuple) and len(a) == 2 and isinstance(a[0], tuple) and isinstance(a[1], Term) and all(isinstance(n, Poly) for n in a[0])


def fmt(x):
    return str(x) if not isinstance(x, Fraction) else "%.6g" % float(x)


def holds(v, asserts):
    for g, c, w, m in asserts:
        if c is None:
            continue
        try:
            if all(v.cond(x, {}) for x in g) and not v.cond(c, {}):
                return False
        except (Unknown, KeyError, Reject):
            pass
    return True


TRIALS, WANT, MORE, SEED = 600, 24, 250, 1


def witness(pairs, shapes, assumed, asserts):
    """pairs: (name, code, reference). ('differ', text) | ('agree', n) | ('unknown', reason)"""
    n = 0
    why = None
    t0 = time.time()
    for k in range(TRIALS):
        if time.time() - t0 > LIMIT and n:
            break
        if time.time() - t0 > 3 * LIMIT:
            break
        v = Val((SEED, k), shapes)
        try:
            if not all(v.cond(c, {}) for c in assumed):
                continue
            if not holds(v, asserts):
                continue
            used = False
            for name, a, b in pairs:
                r = differ(v, a, b)
                used = True
                if r:
                    return "differ", "%s: %s (valuation %d)" % (name, r, k)
            n += used
        except Reject:
            continue
        except Unknown as u:
            why = str(u)
            return "unknown", why
        except (OverflowError, KeyError, TypeError, ZeroDivisionError, RecursionError) as u:
            return "unknown", "%s: %s" % (type(u).__name__, u)
        if n >= WANT and (n >= MORE or time.time() - t0 > 3):
            break
    if n == 0:
        return "unknown", "no valuation satisfies the preconditions"
    return "agree", n


# ---------------------------------------------------------------- checks of inputs
def clauses(asserts):
    """(condition that has to hold, where); conjunctions are split"""
    for g, c, w, m in asserts:
        if c is None or c is TRUE:
            continue
        for x in list(split(c)):
            for y in g:
                x = T.bor(T.bnot(y), x)
            if x is not TRUE:
                yield x, w


def split(b):
    while b is not TRUE and b is not FALSE:
        if b.args[2] is FALSE:
            yield T.bvar(b.args[0])
            b = b.args[1]
        elif b.args[1] is FALSE:
            yield T.bnot(T.bvar(b.args[0]))
            b = b.args[2]
        else:
            yield b
            return
    if b is FALSE:
        yield b


def equations(cs, shapes, last=False):
    """Sizes of inputs that equalities determine."""
    fix = {}
    for c in cs:
        if isbool(c) and c not in (TRUE, FALSE) and c.args[0].tag == "eq0" and c.args[1] is TRUE and c.args[2] is FALSE:
            p = c.args[0].args[0]
            for m, k in sorted(p.t.items(), key=lambda x: repr(x[0]), reverse=last):
                if abs(k) == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].tag == "fn" and re.fullmatch(r"dim\d", str(m[0][0].args[0])):
                    a, d = m[0][0].args[1], int(m[0][0].args[0][3:])
                    if isinstance(a, Term) and a.tag == "asym" and (a.args[0], d) not in fix and a.args[0] in shapes:
                        rest = T._mkpoly({x: y for x, y in p.t.items() if x != m})
                        fix[(a.args[0], d)] = T.scale(rest, -k)
                        break
    return fix


def linear(cs):
    """The left-hand sides of the equations among the conditions, in echelon form: monomial -> polynomial."""
    rows = {}
    for c in cs:
        p = equation(c)
        if p is not None:
            p = reduced(p, rows)
            if p:
                m = min(p, key=repr)
                q = {x: y / p[m] for x, y in p.items()}
                for k, r in rows.items():
                    if m in r:
                        f = r[m]
                        rows[k] = {x: v for x in {*r, *q} if (v := r.get(x, 0) - f * q.get(x, 0))}
                rows[m] = q
    return rows


def equation(c):
    if isbool(c) and c not in (TRUE, FALSE) and c.args[0].tag == "eq0" and c.args[1] is TRUE and c.args[2] is FALSE:
        return {m: Fraction(k) for m, k in c.args[0].args[0].t.items()}
    return None


def reduced(p, rows):
    p = dict(p)
    for m, q in rows.items():
        f = p.get(m, 0)
        if f:
            p = {x: v for x in {*p, *q} if (v := p.get(x, 0) - f * q.get(x, 0))}
    return p


def implied(c, rows, cs=()):
    """The condition follows from the equations, and possibly one of the other conditions."""
    m = solved(rows)
    if m:
        memo = {}
        d = T.replace(c, m, memo)
        if d == TRUE or any(T.replace(x, m, memo) == d for x in cs):
            return True
    p = equation(c)
    if p is not None:
        return not reduced(p, rows)
    k = modulo(c, rows)
    return k is not None and any(k == modulo(x, rows) for x in cs)


def solved(rows):
    """The equations, solved for one unknown each: unknown -> polynomial."""
    m = {}
    for q in rows.values():
        p = T.replace(T._mkpoly(dict(q)), m) if m else T._mkpoly(dict(q))
        for x, v in sorted(p.t.items(), key=lambda t: (abs(t[1]) != 1, repr(t[0]))):
            if len(x) == 1 and x[0][1] == 1 and not any(x[0][0] is a for y in p.t if y != x for a, _ in y):
                r = T._mkpoly({y: -Fraction(w) / v for y, w in p.t.items() if y != x})
                if T.occurs(r, x[0][0]):
                    continue
                one = {x[0][0]: r}
                m = {k: T.replace(w, one) for k, w in m.items()}
                m.update(one)
                break
    return m


def modulo(c, rows):
    """A single comparison, up to the equations."""
    if isbool(c) and c not in (TRUE, FALSE) and {c.args[1], c.args[2]} == {TRUE, FALSE} and isinstance(c.args[0].args[0], T.Poly):
        return c.args[0].tag, c.args[1] is TRUE, frozenset(reduced(c.args[0].args[0].t, rows).items())


def counterexample(premises, goals, shapes, assumed=(), wild=True, trials=4000, limit=6):
    """A valuation of the inputs for which all premises hold and not all goals: (index of goal, valuation)."""
    fix = equations(premises, shapes) if wild else {}
    t0 = time.time()
    n = 0
    for k in range(trials):
        if time.time() - t0 > limit:
            break
        v = Val((SEED, "input", k), shapes)
        v.wild = wild and k % 4 != 3
        v.fix = dict(fix)
        try:
            if not all(v.cond(c, {}) for c in assumed) or not all(v.cond(c, {}) for c in premises):
                continue
        except (Reject, Unknown, KeyError, TypeError, OverflowError, ZeroDivisionError, RecursionError):
            continue
        n += 1
        for i, c in enumerate(goals):
            try:
                if not v.cond(c, {}):
                    return i, k, v
            except (Reject, Unknown, KeyError, TypeError, OverflowError, ZeroDivisionError, RecursionError):
                pass
    return None, n, None


def sizes(v):
    """The sizes of the inputs of a valuation, to show."""
    out = []
    for name in sorted(v.shapes):
        if name.startswith("#"):
            continue
        try:
            out.append("%s %s" % (name, v.shape(T.term("asym", name), {})))
        except Exception:
            pass
    return ", ".join(out)
