"""Value-numbering dataflow over the exported, type-resolved functions.

Functions are summarised as closed access relations: per output array, the set of effects
`for <domain> if <guard>: A(<index>) op <value>` with indices and values in normal form (terms.py).
Calls inside GooseFEM are inlined; constant-bound loops are expanded; other loops become iteration
domains, counters become closed forms; branches become guards. What is not understood raises
Unmodelled, and the obligation is then reported as undecided, never as a violation."""
import re
import sys
from fractions import Fraction

from terms import *
import interp
import terms as T

sys.setrecursionlimit(20000)
UNROLL = 64


class Unmodelled(Exception):
    pass


def fail(msg, e=None):
    raise Unmodelled(msg + (" (line %s)" % e.get("ln") if isinstance(e, dict) and e.get("ln") else ""))


# ------------------------------------------------------------------ values
_serial = [0]


class Cell:
    __slots__ = ("v", "name", "ty", "n")

    def __init__(self, v=None, name="", ty=None):
        self.v = v
        self.name = name
        self.ty = ty
        _serial[0] += 1
        self.n = _serial[0]


class Region:
    __slots__ = ("dom", "guard", "base", "pts", "where", "memo")

    def __init__(self, dom, guard, base, pts, where=None):
        self.memo = {}
        self.dom = dom
        self.guard = guard
        self.base = base
        self.pts = pts
        self.where = where


_lin = [0]


class Arr:
    """Array variable: base content and the effects applied to it, in order."""
    __slots__ = ("shape", "base", "regs", "nfix", "kind", "lineage", "shared", "flavour")

    def __init__(self, shape, base, kind="d", regs=None, lineage=None, flavour=None):
        self.shape = shape
        self.base = base
        self.kind = kind
        self.regs = list(regs or [])
        self.nfix = len(self.regs)
        if lineage is None:
            _lin[0] += 1
            lineage = _lin[0]
        self.lineage = lineage
        self.shared = False
        self.flavour = flavour  # "vec": std::vector, "bag": list of triplets, "eig": Eigen

    def clone(self):
        return Arr(self.shape, self.base, self.kind, self.regs, self.lineage, self.flavour)

    def write(self, idx, op, val, where=None):
        if isinstance(val, Poly) and len(val.t) == 1:
            # a copy of a stored value
            (m, c), = val.t.items()
            if len(m) == 1 and m[0][0].tag == "let" and m[0][1] == 1:
                val = scale(T.unlet(m[0][0]), c)
        base = []
        key = []
        for i in idx:
            c = constval(i)
            base.append(sub(i, num(c)) if c else i)
            key.append(c)
        base = tuple(base)
        key = tuple(key)
        r = None
        if len(self.regs) > self.nfix:
            r = self.regs[-1]
            if r.dom or r.guard is not TRUE or r.base != base:
                r = None
        if r is None:
            r = Region((), TRUE, base, {}, where)
            self.regs.append(r)
        old = r.pts.get(key)
        if op == "=":
            r.pts[key] = ("=", val)
        elif old is None:
            r.pts[key] = ("+=", val)
        else:
            r.pts[key] = (old[0], add(old[1], val))

    def read(self, idx, eng=None):
        v, pos = self._read(idx, len(self.regs), eng)
        return v, pos

    def _read(self, idx, upto, eng):
        acc = ZERO
        for k in range(upto - 1, -1, -1):
            reg = self.regs[k]
            if reg.dom:
                # written once and for all
                key = (idx, self.shape, tuple(eng.facts) if eng else None)
                hit = reg.memo.get(key, 0)
                if hit == 0:
                    hit = reg.memo[key] = match(reg, idx, self.shape, eng)
            else:
                hit = match(reg, idx, self.shape, eng)
            if hit is None:
                continue
            if hit == "maybe":
                node = freeze(self, k + 1)
                return add(acc, rd(node, idx, self.kind in "iub", self.kind in "ub")), -1
            op, val, cond = hit
            if op == "=":
                if cond is TRUE:
                    return add(acc, val), k
                rest, pos = self._read(idx, k, eng)
                return add(acc, ite(cond, val, rest)), pos
            acc = add(acc, mul(bracket(cond), val))
        b = self.base
        return add(acc, rd(b, idx, self.kind in "iub", self.kind in "ub")), -1


def match(reg, idx, shape, eng):
    """How a read of idx relates to a region: None (distinct), "maybe", or (op, value, condition)."""
    dv = [v for v, n in reg.dom]
    if not dv:
        d = [sub(i, b) for i, b in zip(idx, reg.base)]
        if all(isconst(x) for x in d):
            key = tuple(constval(x) for x in d)
            h = reg.pts.get(key)
            if h is None:
                return None
            return h[0], h[1], reg.guard
        # a constant difference outside of the region's points in some position: distinct
        for k, x in enumerate(d):
            if isconst(x) and all(key[k] != constval(x) for key in reg.pts):
                return None
        if eng and eng.distinct_ranges(idx, reg.base, reg.pts, shape):
            return None
        return "maybe"
    dvs = set(dv)
    res = None
    fixed = []
    for k in range(len(idx)):
        if not reg.base[k].free & dvs:
            x = sub(idx[k], reg.base[k])
            if isconst(x):
                fixed.append((k, constval(x)))
    if len(fixed) == len(idx):
        fixed_key = tuple(c for k, c in fixed)
        pts = [(fixed_key, reg.pts[fixed_key])] if fixed_key in reg.pts else []
    elif fixed and len(reg.pts) > 1:
        pts = [(key, w) for key, w in reg.pts.items() if all(key[k] == c for k, c in fixed)]
    else:
        pts = list(reg.pts.items())
    for key, (op, val) in pts:
        sol = {}
        status = "ok"
        pend = list(range(len(idx)))
        progress = True
        while progress:
            progress = False
            for k in list(pend):
                f = add(reg.base[k], num(key[k])) if key[k] else reg.base[k]
                f = subst(f, sol)
                x = sub(idx[k], f)
                fv = f.free & dvs
                if not fv:
                    pend.remove(k)
                    progress = True
                    if isconst(x):
                        if constval(x) != 0:
                            status = "none"
                            break
                    else:
                        status = "maybe" if status == "ok" else status
                    continue
                if len(fv) == 1:
                    (v,) = fv
                    c = f.t.get(((v, 1),))
                    if c in (1, -1) and sum(v in a.free for m in f.t for a, e in m) == 1:
                        # idx = c v + r  =>  v = (idx - r) / c
                        r = sub(f, scale(atom(v), c))
                        x = sub(idx[k], r)
                        sol[v] = x if c == 1 else neg(x)
                        pend.remove(k)
                        progress = True
            if status == "none":
                break
        if status == "none":
            continue
        if status == "maybe" or pend:
            return "maybe"
        if any(v not in sol for v in dv):
            # counters that do not select the element
            rest = [v for v in dv if v not in sol]
            if op == "=" and not (set(rest) & (val.free | reg.guard.free)):
                sol.update({v: ZERO for v in rest})
            elif op == "+=" and not any(set(rest) & n.free for v, n in reg.dom):
                # all of them contribute
                sub_ = [(v, subst(n, sol)) for v, n in reg.dom if v in rest]
                val = T.psum(sub_, subst(mul(val, bracket(reg.guard)), sol))
                cond = TRUE
                for v, n in reg.dom:
                    if v in sol:
                        x = sol[v]
                        cond = band(cond, band(le0(neg(x)), le0(add(sub(x, subst(n, sol)), ONE))))
                if eng:
                    cond = eng.simplify(cond, idx, shape)
                if cond is FALSE:
                    continue
                if res is not None:
                    return "maybe"
                res = (op, val, cond)
                continue
            else:
                return "maybe"
        cond = subst(reg.guard, sol)
        for v, n in reg.dom:
            x = sol[v]
            n2 = subst(n, sol)
            c = band(le0(neg(x)), le0(add(sub(x, n2), ONE)))
            cond = band(cond, c)
        if eng:
            cond = eng.simplify(cond, idx, shape)
        if cond is FALSE:
            continue
        h = (op, subst(val, sol), cond)
        if res is not None:
            return "maybe"
        res = h
    return res


def _find_split(x, t, out, seen=None):
    """Quotients and remainders of counter t."""
    if seen is None:
        seen = set()
    if isinstance(x, tuple):
        for y in x:
            _find_split(y, t, out, seen)
    elif isinstance(x, Poly):
        if t in x.free and x not in seen:
            seen.add(x)
            for m in x.t:
                for a, e in m:
                    _find_split(a, t, out, seen)
    elif isinstance(x, Term) and t in x.free and x not in seen:
        seen.add(x)
        if x.tag in ("fdiv", "mod") and x.args[0] is atom(t) and not x.args[1].free & {t}:
            out.add(x.args[1])
        for y in x.args:
            _find_split(y, t, out, seen)


def divide(p, q):
    """p / q if it is a polynomial with non-negative powers."""
    if len(q.t) != 1:
        return None
    r = div(p, q)
    for m, c in r.t.items():
        if any(e < 0 for a, e in m) or c.denominator != 1:
            return None
    return r


def _mkmono(m, c):
    return T._mkpoly({m: c})


def delinearise(r, t):
    """Split a flat counter over the dimensions that its quotients and remainders refer to."""
    while True:
        dom = dict(r.dom)
        n = dom.get(t)
        if n is None:
            return r
        qs = set()
        _find_split((r.guard, r.base) + tuple(v for o, v in r.pts.values()), t, qs)
        best = None
        for q in qs:
            d = divide(n, q)
            if d is not None and not const_int(q) == 1 and (best is None or q.id < best[0].id):
                best = (q, d)
        if best is None:
            return r
        q, d = best
        i, j = raw("t"), raw("t")
        m = {t: add(mul(atom(i), q), atom(j)), term("fdiv", atom(t), q): atom(i), term("mod", atom(t), q): atom(j)}
        nd = []
        for v, k in r.dom:
            if v is t:
                nd += [(i, d), (j, q)]
            else:
                nd.append((v, subst(k, m)))
        pts = {}
        base = tuple(subst(b, m) for b in r.base)
        r = Region(tuple(nd), subst(r.guard, m), base, {k: (o, subst(v, m)) for k, (o, v) in r.pts.items()}, r.where)
        t = i


def _effects(regs):
    """Flat list of raw effects [op, dom, guard, idx, val]."""
    out = []
    for r in regs:
        for key, (op, val) in r.pts.items():
            idx = tuple(add(b, num(k)) if k else b for b, k in zip(r.base, key))
            out.append((op, list(r.dom), r.guard, idx, val))
    return out


def covers(reg, shape):
    """Does the region assign every element of the array?"""
    if reg.guard is not TRUE or shape is None or any(op != "=" for op, v in reg.pts.values()):
        return False
    doms = dict(reg.dom)
    used = set()
    const = []
    for k, b in enumerate(reg.base):
        if not b.free & set(doms):
            if b.t:
                return False
            const.append(k)
            continue
        v = next(iter(b.free & set(doms)))
        if b is not atom(v) or v in used:
            # reflected counter
            if sub(b, neg(atom(v))) is sub(doms[v], ZERO) or not isconst(sub(add(b, atom(v)), doms[v])) or v in used:
                return False
        used.add(v)
        n = doms[v]
        keys = {key[k] for key in reg.pts}
        if keys != {Fraction(0)} or sub(n, shape[k]).t:
            if b is not atom(v) and keys == {Fraction(-1)} and not sub(n, shape[k]).t:
                continue
            return False
        if n.free & set(doms):
            return False
    if any(n.free & set(doms) for n in doms.values()):
        return False
    sizes = []
    for k in const:
        c = const_int(shape[k])
        if c is None:
            return False
        sizes.append(c)
    want = 1
    for c in sizes:
        want *= c
    have = {tuple(key[k] for k in const) for key in reg.pts}
    if len(have) != want:
        return False
    return all(0 <= x < s for h in have for x, s in zip(h, sizes))


_plain = {}


def plain(e):
    """The parts of an effect, with counters named by position only (comparable between effects)."""
    r = _plain.get(e)
    if r is None:
        dep, n = e.args[0], e.args[1]
        m = {term("bv", dep, k): atom(term("bv", 0, k, isint=True, nonneg=True)) for k in range(n)}
        op, ns, g, idx, val = e.args[2:]
        r = _plain[e] = (op, T._replace_bv(ns, m), g, T._replace_bv(idx, m), val, T._replace_bv(g, m))
    return r


def commute(a, b):
    """May the two effects be swapped?"""
    opa, na, _, ia, va, ga = plain(a)
    opb, nb, _, ib, vb, gb = plain(b)
    if opa == "+=" and opb == "+=":
        return True
    # a position in which both indices are constants (or the same up to a non-zero constant, without counters)
    for x, y in zip(ia, ib):
        d = sub(x, y)
        if isconst(d) and constval(d) != 0 and not T._hasbv(x):
            return True
    if opa == "=" and opb == "=" and na == nb and ia == ib:
        if band(ga, gb) is FALSE or va is vb:
            return True
    if na == nb and len(ia) == len(ib):
        # same domain, indices differ by a constant in a position, and the counters are all fixed by the others
        if injective(a) and injective(b):
            for x, y in zip(ia, ib):
                d = sub(x, y)
                if isconst(d) and constval(d) != 0:
                    others = [(p, q) for p, q in zip(ia, ib) if p is q]
                    fixed = set()
                    for p, q in others:
                        fixed |= {t for m in p.t for t, e in m if t.tag == "bv"}
                    mine = {t for m in x.t for t, e in m if t.tag == "bv"}
                    if mine <= fixed:
                        return True
    return False


def injective(a):
    idx = a.args[5]
    return True if idx is not None else False


def any_exit(x):
    """May the loop be left by return or throw?"""
    if isinstance(x, dict):
        return x.get("k") in ("return", "throw") or any(any_exit(v) for v in x.values())
    return isinstance(x, list) and any(any_exit(v) for v in x)


MUTATING = {"=", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "^=", "<<=", ">>=", "++", "--"}


def written(x, out):
    """Local variables that may be written: id -> name."""
    if isinstance(x, list):
        for v in x:
            written(v, out)
        return
    if not isinstance(x, dict):
        return
    k = x.get("k")
    if k == "assign" or k == "un" and x.get("op") in MUTATING:
        roots(x.get("l", x.get("e")), out)
    elif k == "op" and x.get("op") in MUTATING:
        roots(x["args"][0], out)
    elif k == "op" and x.get("op") in ("()", "[]"):
        pass
    elif k in ("call", "mcall"):
        # by reference
        for a in [*x.get("args", ()), x.get("obj")]:
            roots(a, out)
    for v in x.values():
        written(v, out)


def roots(x, out):
    if not isinstance(x, dict):
        return
    if x.get("k") == "ref":
        if x.get("local"):
            out[x["id"]] = x["name"]
        return
    if x.get("k") == "op" and x.get("args"):
        return roots(x["args"][0], out)
    for f in ("e", "obj", "l", "base"):
        if f in x:
            roots(x[f], out)


def canon(effs):
    """Canonical order of effects, merging those on the same elements."""
    effs = [e for e in effs if e is not None]
    changed = True
    while changed:
        changed = False
        seen = {}
        for k, e in enumerate(effs):
            key = (plain(e)[1], plain(e)[3])
            if key in seen:
                j = seen[key]
                o = effs[j]
                if all(commute(effs[i], e) for i in range(j + 1, k)) or all(commute(effs[i], o) for i in range(j + 1, k)):
                    m = merge_eff(o, e)
                    if m is not None:
                        if all(commute(effs[i], e) for i in range(j + 1, k)):
                            effs[j] = m[0] if m else None
                            effs[k] = None
                        else:
                            effs[j] = None
                            effs[k] = m[0] if m else None
                        effs = [x for x in effs if x is not None]
                        changed = True
                        break
            seen[key] = k
    out = []
    todo = list(effs)
    if all(e.args[2] == "+=" for e in todo):
        return tuple(sorted(todo, key=lambda t: t.id))
    while todo:
        best = None
        for k, e in enumerate(todo):
            if best is not None and todo[best].id < e.id:
                continue
            if all(commute(todo[j], e) for j in range(k)):
                best = k
        out.append(todo.pop(best))
    return tuple(out)


def merge_eff(a, b):
    va, aa = T._open(a)
    opa, na, ga, ia, xa = aa
    opb, nb, gb, ib, xb = T._open_with(b, [atom(v) for v in va])
    dom = list(zip(va, na))
    if opb == "=":
        if opa == "=":
            return (mk_eff("=", dom, bor(ga, gb), ia, simp_under(ite(gb, xb, xa), bor(ga, gb))),)
        return (b,) if gb is TRUE else None
    if opa == "+=":
        e = mk_eff("+=", dom, TRUE, ia, add(xa, xb))
        return (e,) if e is not None else ()
    if ga is TRUE and _selects(dom, ia):
        return (mk_eff("=", dom, TRUE, ia, add(xa, xb)),)
    return None


def _selects(dom, idx):
    """Every counter is an index by itself (hence one write per element)."""
    have = {v for i in idx for m, c in i.t.items() if len(i.t) <= 2 and len(m) == 1 and m[0][1] == 1 and abs(c) == 1
            for v in [m[0][0]] if sum(v2 in {w for w, _ in dom} for v2 in i.free) == 1}
    return all(v in have for v, n in dom)


def simp_under(p, g):
    """Simplify brackets in p knowing that g holds."""
    if g is TRUE:
        return p
    r = ZERO
    for m, c in p.t.items():
        q = num(c)
        for a, e in m:
            if a.tag == "iv":
                b = a.args[0]
                if band(g, bnot(b)) is FALSE:
                    continue
                if band(g, b) is FALSE:
                    q = ZERO
                    break
            q = mul(q, power(atom(a), e))
        r = add(r, q)
    return r


def once(effs, shape):
    """Do the effects assign elements at most once? 2: every element exactly once."""
    have = set()
    want = None
    full = True
    for e in effs:
        n = e.args[1]
        op, ns, g, idx, val, _ = plain(e)
        if op != "=":
            return 0
        if g is not TRUE:
            full = False
        bvs = {atom(term("bv", 0, k, isint=True, nonneg=True)): ns[k] for k in range(n)}
        pos = []
        key = []
        for k, i in enumerate(idx):
            if i in bvs:
                if sub(bvs.pop(i), shape[k]).t:
                    full = False
            else:
                c, d = const_int(i), const_int(shape[k])
                if c is None:
                    return 0
                if d is None or not 0 <= c < d:
                    full = False
                pos.append(k)
                key.append(c)
        if bvs or any(T._hasbv(x) for x in ns) or tuple(key) in have:
            return 0
        have.add(tuple(key))
        if want is None:
            want = pos
        if want != pos:
            return 0
    if not full:
        return 1
    size = 1
    for k in want or ():
        size *= const_int(shape[k])
    return 2 if len(have) == size else 1


def joined(regs):
    """Consecutive regions on the same domain that assign different elements."""
    out = []
    for r in regs:
        p = out[-1] if out else None
        if (p is not None and p.dom == r.dom and p.guard is r.guard and p.base == r.base and p.dom
                and not set(p.pts) & set(r.pts) and {o for o, v in p.pts.values()} == {o for o, v in r.pts.values()} == {"="}
                and all(sum(b.free == {v} for b in r.base) == 1 for v, n in r.dom)):
            out[-1] = Region(p.dom, p.guard, p.base, {**p.pts, **r.pts}, p.where)
        else:
            out.append(r)
    return out


def freeze(arr, upto=None):
    """Closed normal form of the content of an array."""
    if isinstance(arr, (Fn, View)):
        return arr.freeze()
    regs = joined(arr.regs if upto is None else arr.regs[:upto])
    base = arr.base
    start = 0
    for k in range(len(regs) - 1, -1, -1):
        if covers(regs[k], arr.shape):
            start = k
            base = UNINIT
            break
    regs = regs[start:]
    rank = len(arr.shape) if arr.shape is not None else None
    pending = []

    def close(base, pend):
        if not pend:
            return base
        effs = canon([mk_eff(*e) for e in _effects(pend)])
        if not effs:
            return base
        k = once(effs, arr.shape) if arr.kind != "b" and arr.shape else 0
        if k == 2 or k == 1 and base.tag == "aconst":
            # every element is assigned at most once: the same as adding
            c = base.args[0] if base.tag == "aconst" and k == 1 else ZERO
            base = a_const(c)
            pend2 = []
            for e in effs:
                vs, (op, ns, g, idx, val) = T._open(e)
                pend2.append(mk_eff("+=", list(zip(vs, ns)), g, idx, sub(val, c)))
            effs = canon(pend2)
            if not effs:
                return base
        return term("aupd", base, *effs, isint=arr.kind in "iub", nonneg=arr.kind in "ub")

    for r in regs:
        g = fold(r, arr.shape) if rank else None
        if g is None:
            pending.append(r)
            continue
        op, vs, val, guard = g
        if not isinstance(vs, Term):
            dom = list(zip(vs, arr.shape))
            val, guard = T.known(val, dom), T.known(guard, dom)
        if op == "+=" and all(o == "+=" for p in pending for o, v in p.pts.values()):
            base = fun(vs, add(rd(base, vs_(vs)), mul(bracket(guard), val)))
            continue
        base = close(base, pending)
        pending = []
        if isinstance(vs, Term):
            base = vs
        elif op == "=":
            base = fun(vs, val if guard is TRUE else ite(guard, val, rd(base, vs_(vs))))
        else:
            base = fun(vs, add(rd(base, vs_(vs)), mul(bracket(guard), val)))
    return close(base, pending)


def vs_(vs):
    return tuple(atom(v) for v in vs)


def fold(r, shape):
    """(op, counters, value, guard) of a region that visits every element once; (.., content, ..) for a plain copy."""
    probe = Region(r.dom, TRUE, r.base, {k: ("=", v) for k, (o, v) in r.pts.items()})
    if not covers(probe, shape):
        return None
    dv = {v for v, n in r.dom}
    if len(r.pts) == 1:
        ((key, (op, val)),) = r.pts.items()
        idx = [add(b, num(k)) for b, k in zip(r.base, key)]
        if not all(i.free & dv for i in idx):
            if op == "=" and r.guard is TRUE and not dv & val.free:
                return op, a_const(val), None, TRUE
            return None
        vs = [raw("f") for _ in idx]
        hit = match(probe, tuple(atom(v) for v in vs), None, None)
        if hit in (None, "maybe"):
            return None
        g = TRUE
        if r.guard is not TRUE:
            h2 = match(Region(r.dom, TRUE, r.base, {key: ("=", bracket(r.guard))}), tuple(atom(v) for v in vs), None, None)
            g = strip(h2[2], vs, shape)
            if g is not TRUE:
                return None
            g = tobool(h2[1])
        if strip(hit[2], vs, shape) is not TRUE:
            return None
        return op, vs, hit[1], g
    if r.guard is not TRUE or any(o != "=" for o, v in r.pts.values()):
        return None
    vals = [v for o, v in r.pts.values()]
    if all(v is vals[0] for v in vals) and not vals[0].free & dv:
        return "=", a_const(vals[0]), None, TRUE
    src = set()
    for key, (o, v) in r.pts.items():
        if len(v.t) != 1:
            return None
        ((m, c),) = v.t.items()
        if c != 1 or len(m) != 1 or m[0][1] != 1 or m[0][0].tag != "rd":
            return None
        t = m[0][0]
        idx = tuple(add(b, num(k)) for b, k in zip(r.base, key))
        if t.args[1:] != idx or t.args[0].free & dv:
            return None
        src.add(t.args[0])
    if len(src) == 1:
        return "=", src.pop(), None, TRUE
    return None


def strip(cond, vs, shape):
    """Drop the conditions that an index is within the shape."""
    facts = []
    for v, n in zip(vs, shape):
        facts += [neg(atom(v)), add(sub(atom(v), n), ONE)]
    e = Engine.__new__(Engine)
    return e._simp(cond, facts)


class Fn:
    """Lazy array expression."""
    __slots__ = ("shape", "kind", "f", "node", "flavour")

    def __init__(self, shape, kind, f, node=None, flavour=None):
        self.shape = shape
        self.kind = kind
        self.f = f
        self.node = node
        self.flavour = flavour

    def read(self, idx, eng=None):
        v = self.f(tuple(idx))
        return (bracket(v) if isbool(v) else v), -1

    def freeze(self):
        if self.node is not None:
            return self.node
        if self.shape is None:
            fail("array expression of unknown rank")
        if all(const_int(s) is not None for s in self.shape):
            sizes = [const_int(s) for s in self.shape]
            n = 1
            for s in sizes:
                n *= s
            if n <= UNROLL:
                a = Arr(self.shape, UNINIT, self.kind)
                for key in points(sizes):
                    a.write(tuple(num(k) for k in key), "=", self.read(tuple(num(k) for k in key))[0])
                self.node = freeze(a)
                return self.node
        vs = [raw("f") for _ in self.shape]
        self.node = fun(vs, T.known(self.read(tuple(atom(v) for v in vs))[0], list(zip(vs, self.shape))))
        return self.node


def points(sizes):
    if not sizes:
        yield ()
        return
    for k in range(sizes[0]):
        for r in points(sizes[1:]):
            yield (k,) + r


class View:
    """Part of an array variable: per dimension of the base ("i", index) or ("d", dim, start, step)."""
    __slots__ = ("cell", "spec", "shape", "kind", "flavour")

    def __init__(self, cell, spec, shape, kind):
        self.cell = cell
        self.spec = spec
        self.shape = shape
        self.kind = kind
        self.flavour = None

    def index(self, idx):
        out = []
        for s in self.spec:
            if s[0] == "i":
                out.append(s[1])
            elif s[0] == "k":  # through an index array
                out.append(s[2].read((idx[s[1]],))[0])
            else:
                out.append(add(s[2], mul(s[3], idx[s[1]])))
        return tuple(out)

    def read(self, idx, eng=None):
        b = self.cell
        i = self.index(idx)
        if eng:
            return eng.load_elem(b, i), -1
        a = b.v if isinstance(b, Cell) else b
        return a.read(i)

    def freeze(self):
        return Fn(self.shape, self.kind, lambda i: self.read(i)[0]).freeze()


class Elem:
    """Element of an array (assignable)."""
    __slots__ = ("base", "idx")

    def __init__(self, base, idx):
        self.base = base
        self.idx = idx


class Obj:
    __slots__ = ("cls", "fields", "sym", "clsid", "refs")

    def __init__(self, cls, clsid=None, sym=None):
        self.refs = frozenset()  # fields that are references: shared by copies
        self.cls = cls
        self.clsid = clsid
        self.fields = {}
        self.sym = sym


class Lst:
    """std::array, std::vector of non-scalars, initializer list, tuple: known length."""
    __slots__ = ("items", "ty")

    def __init__(self, items, ty=""):
        self.items = list(items)
        self.ty = ty


class Ptr:
    __slots__ = ("base", "idx")

    def __init__(self, base, idx):
        self.base = base
        self.idx = idx


class Lam:
    __slots__ = ("e", "env", "this")

    def __init__(self, e, env, this):
        self.e = e
        self.env = env
        self.this = this


class Str:
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s


class Opq:
    """Library object with symbolic identity (solver, iterator, generator, ...)."""
    __slots__ = ("tag", "args")

    def __init__(self, tag, *args):
        self.tag = tag
        self.args = args


class It(Opq):
    """Iterator: position in the flattened container. The position is a cell of its own, so that loops see its steps."""
    __slots__ = ("base", "cell")

    def __init__(self, base, pos):
        self.tag = "iter"
        self.base = base
        self.cell = Cell(pos, "iterator")
        self.args = (base,)

    @property
    def pos(self):
        return self.cell.v


class Frame:
    __slots__ = ("env", "this", "ret", "fn")

    def __init__(self, this, fn):
        self.env = {}
        self.this = this
        self.ret = Cell(None, "ret")
        self.fn = fn


FALL, RET, CONT, BRK, THROW = "fall", "ret", "cont", "brk", "throw"
ARRAYS = (Arr, Fn, View)


def isarr(x):
    return isinstance(x, ARRAYS)


def has_exit(s, loop=0):
    """Does the statement contain return/break/continue that leaves it?"""
    if isinstance(s, list):
        return any(has_exit(x, loop) for x in s)
    if not isinstance(s, dict):
        return False
    k = s.get("k")
    if k == "return":
        return True
    if k in ("break", "continue"):
        return loop == 0
    if k == "if":
        return has_exit(s.get("t"), loop) or has_exit(s.get("f"), loop) or has_exit(s.get("body"), loop)
    if k in ("block", "omp", "try"):
        return has_exit(s["body"], loop)
    if k in ("for", "while", "do", "rangefor", "rangedim"):
        return has_exit(s["body"], loop + 1)
    if k == "switch":
        return has_exit(s["body"], loop)
    return False


def leaves(s, loop=0):
    """Does the statement contain a break that leaves it?"""
    if isinstance(s, list):
        return any(leaves(x, loop) for x in s)
    if not isinstance(s, dict):
        return False
    if s.get("k") == "break":
        return loop == 0
    inner = loop + (s.get("k") in ("for", "while", "do", "rangefor", "switch"))
    return any(leaves(x, inner) for x in s.values() if isinstance(x, (dict, list)))


class Engine:
    ieee = False
    atleast = {}  # counter: lower bound of its value after a loop without closed form
    mulevel = 0
    races = None  # check of parallel loops

    def __init__(self, export, uf=(), prefix="p."):
        self.statics = {}
        self.x = export
        self.types = export["types"]
        self.fns = export["byid"]
        self.records = export["recs"]
        self.uf = set(uf)
        self.frames = []
        self.journal = []
        self.reads = []  # per active symbolic loop: set of (cell, idx, pos)
        self.facts = []  # polynomials known to be <= 0
        self.first = {}  # symbolic fields as they were when first used
        self.last = False
        self.inputs = {}  # whose shapes are unknown until they are checked
        self.asserts = []  # (guards, condition, where)
        self.guards = []
        self.requires = []
        self.depth = 0
        self.trace = set()  # functions analysed
        self.loops = []
        self.shapes = {}  # of symbolic arrays
        self.objshapes = {}
        self.symshape = {}
        self.assumed = []
        self.known = {}  # fields of symbolic objects -> value
        self.raised = []
        self.steps = 0
        import models
        self.models = models

    # -------------------------------------------------------------- types
    def ty(self, e):
        i = e.get("ty") if isinstance(e, dict) else e
        return self.types[i] if i is not None else ""

    def scalar_kind(self, t):
        t = t.replace("const ", "").replace("&", "").replace("volatile ", "").strip()
        if t in ("double", "float", "long double"):
            return "d"
        m = re.match(r"(?:struct )?std::(?:__)?atomic(?:_base)?<(.*)>$", t)
        if m:
            t = m.group(1)
        if t in ("unsigned long", "unsigned int", "unsigned short", "unsigned char", "unsigned long long"):
            return "u"
        if t in ("int", "long", "short", "char", "long long", "signed char", "wchar_t"):
            return "i"
        if t == "bool":
            return "b"
        return None

    def elem_kind(self, t):
        m = re.search(r"uvector<\s*(double|float|unsigned long|unsigned int|int|long|bool)", t)
        if not m:
            m = re.search(r"(?:xarray|xtensor|vector|array|svector|Matrix|xfixed_container)\w*<\s*(double|float|unsigned long|unsigned int|int|long|bool)\b", t)
        if not m:
            if "Eigen::" in t:
                return "d"
            return "d"
        return self.scalar_kind(m.group(1))

    def array_type(self, t):
        t = t.replace("const ", "").rstrip(" &*")
        m = re.match(r"xt::xtensor_container<.*?,\s*(\d+),\s*xt::layout_type", t)
        if m:
            return int(m.group(1))
        if t.startswith("xt::xarray_container"):
            return -1
        return None

    def sym(self, name, t, cls=None):
        """Symbolic input of the given type."""
        k = self.scalar_kind(t)
        if k == "b":
            return tobool(atom(term("sym", name, isint=True, nonneg=True)))
        if k:
            return atom(term("sym", name, isint=k != "d", nonneg=k == "u"))
        tt = t.replace("const ", "").rstrip(" &")
        r = self.array_type(tt)
        if r is not None:
            kind = self.elem_kind(tt)
            if name in self.shapes:
                shape = self.shapes[name]
            elif r == -1:
                shape = None
            else:
                shape = tuple(atom(term("fn", "dim%d" % i, a_sym(name), isint=True, nonneg=True)) for i in range(r))
            self.symshape[name] = shape
            return Arr(shape, a_sym(name, isint=kind != "d", nonneg=kind in "ub"), kind)
        if tt.startswith("Eigen::"):
            return self.models.eigen_sym(self, name, tt)
        if tt.startswith("std::array<") or re.match(r"std::vector<(double|unsigned long|int|bool)\b", tt):
            kind = self.elem_kind(tt)
            m = re.match(r"std::array<[^,]*,\s*(\d+)>", tt)
            n = num(int(m.group(1))) if m else atom(term("fn", "size", a_sym(name), isint=True, nonneg=True))
            if m and len(self.shapes.get(name, ())) == 0:
                return Lst([Cell(self.sym("%s[%d]" % (name, i), {"d": "double", "u": "unsigned long", "i": "int", "b": "bool"}[kind])) for i in range(int(m.group(1)))], tt)
            if name in self.shapes:
                n = self.shapes[name][0]
            self.symshape[name] = (n,)
            return Arr((n,), a_sym(name, isint=kind != "d", nonneg=kind in "ub"), kind, flavour="vec")
        if tt in self.x["rec_by_ty"]:
            rec = self.x["rec_by_ty"][tt]
            o = Obj(rec["q"], rec["id"], sym=name)
            return o
        if self.models.RAG.match(tt):
            return self.models.rag_sym(self, name, "double" not in tt)
        return Opq("sym", name, tt)

    def field(self, o, fid, name, ty):
        c = o.fields.get(fid)
        if c is None:
            if o.sym is None:
                c = Cell(self.default(ty), name)
            else:
                c = Cell(self.sym(o.sym + "." + name, ty), name)
                c.n = 0
                self.first[(o.sym, name)] = self.copy(c.v)
            o.fields[fid] = c
        return c

    def default(self, t):
        """Default-initialised object of type t."""
        k = self.scalar_kind(t)
        if k:
            p = fn("uninit", isint=k != "d", nonneg=k in "ub")
            return tobool(p) if k == "b" else p
        tt = t.replace("const ", "").rstrip(" &")
        r = self.array_type(tt)
        if r is not None:
            return Arr(tuple(ZERO for _ in range(r)) if r > 0 else (() if r == 0 else None), UNINIT, self.elem_kind(tt))
        if tt.startswith("Eigen::"):
            return self.models.eigen_default(self, tt)
        m = re.match(r"std::vector<Eigen::Triplet<", tt)
        if m:
            return Arr((ZERO, ZERO), a_const(ZERO), "d", flavour="bag")
        m = re.match(r"std::vector<(double|unsigned long|int|bool|long|unsigned int)\b", tt)
        if m:
            return Arr((ZERO,), UNINIT, self.scalar_kind(m.group(1)), flavour="vec")
        if self.models.RAG.match(tt):
            return Arr((ZERO,), a_const(ZERO), "d", flavour="rag")
        if tt.startswith("std::vector<"):
            return Lst([], tt)
        m = re.match(r"std::array<(.*),\s*(\d+)>$", tt)
        if m:
            return Lst([Cell(self.default(m.group(1))) for _ in range(int(m.group(2)))], tt)
        if tt in self.x["rec_by_ty"]:
            rec = self.x["rec_by_ty"][tt]
            o = Obj(rec["q"], rec["id"])
            self.init_fields(o, rec)
            return o
        return Opq("new", tt)

    def init_fields(self, o, rec):
        for b in rec["bases"]:
            br = self.x["rec_by_ty"].get(self.types[b["ty"]])
            if br:
                self.init_fields(o, br)
        for f in rec["fields"]:
            if "init" in f:
                v = self.rv(self.ev(f["init"]))
                o.fields[f["id"]] = Cell(v, f["name"])
            else:
                o.fields[f["id"]] = Cell(self.default(self.types[f["ty"]]), f["name"])

    # -------------------------------------------------------------- state
    def touch(self, cell):
        """Announce a write to the cell: journalled for branches and loops."""
        if self.journal:
            top = self.journal[-1]
            if cell not in top:
                top[cell] = cell.v
                if isinstance(cell.v, Arr):
                    cell.v = cell.v.clone()
                elif isinstance(cell.v, Lst):
                    cell.v = Lst(cell.v.items, cell.v.ty)
                return
        if isinstance(cell.v, Arr) and cell.v.shared:
            cell.v = cell.v.clone()

    def push(self):
        self.journal.append({})

    def pop(self, commit):
        top = self.journal.pop()
        if commit:
            if self.journal:
                for c, old in top.items():
                    self.journal[-1].setdefault(c, old)
        else:
            for c, old in top.items():
                c.v = old
        return top

    def load_elem(self, base, idx):
        if isinstance(base, Elem):
            base = self.rv(base)
        if isinstance(base, View):
            return self.load_elem(base.cell, base.index(idx))
        a = base.v if isinstance(base, Cell) else base
        if isinstance(a, Obj) or not isarr(a):
            fail("element of %s" % type(a).__name__)
        if isinstance(a, View):
            return self.load_elem(a.cell, a.index(idx))
        if a.shape is not None and len(idx) != len(a.shape):
            if len(idx) < len(a.shape):
                # xtensor: missing leading indices are zero
                idx = (ZERO,) * (len(a.shape) - len(idx)) + tuple(idx)
            else:
                idx = tuple(idx[len(idx) - len(a.shape):])
        v, pos = a.read(tuple(idx), self)
        if isinstance(base, Cell) and self.reads and isinstance(a, Arr):
            self.reads[-1].add((base, tuple(idx), pos))
        return T.let(v)

    def rv(self, x):
        """Value of an lvalue."""
        if isinstance(x, Cell):
            if x.v is None:
                fail("undefined variable " + str(x.name))
            if isinstance(x.v, Cell):
                return self.rv(x.v)
            return x.v
        if isinstance(x, Elem):
            k = self.kind_of(x.base)
            v = self.load_elem(x.base, x.idx)
            if k == "b":
                return tobool(v)
            return v
        return x

    def kind_of(self, base):
        if isinstance(base, Cell):
            base = base.v
        if isinstance(base, Elem):
            base = self.rv(base)
        return getattr(base, "kind", None)

    def number(self, x):
        x = self.rv(x)
        if isinstance(x, Poly):
            return x
        if isbool(x):
            return bracket(x)
        if isarr(x) and x.shape is not None and len(x.shape) == 0:
            return self.elem(x, ())
        fail("number expected, got %s" % type(x).__name__)

    def elem(self, a, idx):
        """Element of an array value or lvalue."""
        if isinstance(a, (Cell, Elem, View)):
            return self.load_elem(a, idx)
        return T.let(a.read(idx, self)[0])

    def cond(self, x):
        x = self.rv(x)
        if isbool(x):
            return x
        if isinstance(x, Poly):
            return tobool(x)
        fail("condition expected, got %s" % type(x).__name__)

    def store(self, lv, val, op="="):
        if isinstance(lv, Elem):
            base = lv.base
            idx = lv.idx
            while isinstance(base, View):
                idx = base.index(idx)
                base = base.cell
            if isinstance(base, Elem):
                fail("nested element")
            if not isinstance(base, Cell) or not isinstance(base.v, Arr):
                if isinstance(base, Cell) and isinstance(base.v, View):
                    return self.store(Elem(base.v, idx), val, op)
                fail("store to element of %s" % type(getattr(base, "v", base)).__name__)
            v = self.number(val)
            if op in ("*=", "/="):
                old = self.load_elem(base, idx)
                v = mul(old, v) if op == "*=" else div(old, v)
                op = "="
            if op == "-=":
                v = neg(v)
                op = "+="
            if op == "|=":
                v = bracket(bor(tobool(self.load_elem(base, idx)), tobool(v)))
                op = "="
            if base.v.kind in "iu" and op == "=" and not v.isint:
                v = trunc(v)
            self.touch(base)
            a = base.v
            if a.shape is not None and len(idx) < len(a.shape):
                idx = (ZERO,) * (len(a.shape) - len(idx)) + tuple(idx)
            a.write(tuple(idx), op, v, self.where())
            return
        if isinstance(lv, View):
            return self.models.assign_array(self, lv, val, op)
        if not isinstance(lv, Cell):
            fail("store to %s" % type(lv).__name__)
        if isinstance(lv.v, Cell):
            return self.store(lv.v, val, op)
        if isarr(lv.v):
            return self.models.assign_array(self, lv, val, op)
        if op != "=":
            old = self.rv(lv)
            val = self.rv(val)
            if isbool(old) and op in ("|=", "&="):
                val = bor(old, self.cond(val)) if op == "|=" else band(old, self.cond(val))
            else:
                val = self.arith(op[:-1], self.number(old), self.number(val))
        else:
            val = self.copy(self.rv(val))
            if isbool(lv.v) and isinstance(val, Poly):
                val = tobool(val)
            if isinstance(lv.v, Poly) and isbool(val):
                val = bracket(val)
        self.touch(lv)
        lv.v = val

    def copy(self, v):
        """Value copy."""
        if isinstance(v, Arr):
            v.shared = True
            c = v.clone()
            _lin[0] += 1
            c.lineage = _lin[0]
            return c
        if isinstance(v, Obj):
            o = Obj(v.cls, v.clsid, v.sym)
            if v.sym is not None:
                # materialise on demand from the same symbol
                o.fields = {k: Cell(self.copy(c.v), c.name) for k, c in v.fields.items()}
                return o
            o.refs = v.refs
            o.fields = {k: c if k in v.refs else Cell(self.copy(c.v), c.name) for k, c in v.fields.items()}
            return o
        if isinstance(v, Lst):
            return Lst([Cell(self.copy(self.rv(i))) for i in v.items], v.ty)
        if isinstance(v, View):
            v = Fn(v.shape, v.kind, self.snapshot(v))
        if isinstance(v, It):
            return It(v.base, v.pos)
        return v

    def snapshot(self, v):
        """Reader of the present content of a view."""
        cell = v.cell
        if isinstance(cell, Cell) and isinstance(cell.v, Arr):
            a = cell.v
            a.shared = True
            return lambda i: self._snapread(cell, a, v.index(i))
        if isinstance(cell, Cell) and isinstance(cell.v, View):
            inner = self.snapshot(cell.v)
            return lambda i: inner(v.index(i))
        if isinstance(cell, View):
            inner = self.snapshot(cell)
            return lambda i: inner(v.index(i))
        a = cell.v if isinstance(cell, Cell) else cell
        return lambda i: a.read(v.index(i), self)[0]

    def _snapread(self, cell, a, idx):
        v, pos = a.read(tuple(idx), self)
        if self.reads and cell is not None:
            self.reads[-1].add((cell, tuple(idx), pos))
        return T.let(v)

    def reader(self, x):
        """Function idx -> value for an array operand, as it is now."""
        if isinstance(x, Cell):
            if isinstance(x.v, Arr):
                a = x.v
                a.shared = True
                return lambda i: self._snapread(x, a, i)
            return self.reader(x.v)
        if isinstance(x, Elem):
            return self.reader(self.rv(x))
        if isinstance(x, View):
            return self.snapshot(x)
        if isinstance(x, Arr):
            x.shared = True
        return lambda i: x.read(tuple(i), self)[0]

    def where(self):
        return self.frames[-1].fn["q"] if self.frames else None

    # -------------------------------------------------------------- facts
    def simplify(self, c, idx=(), shape=None):
        """Decide comparisons by the known bounds (loop domains; valid access: 0 <= idx < shape)."""
        if c is TRUE or c is FALSE:
            return c
        facts = list(self.facts)
        if shape is not None:
            for i, n in zip(idx, shape):
                facts.append(neg(i))
                facts.append(add(sub(i, n), ONE))
        return self._simp(c, facts)

    def _simp(self, c, facts):
        if c.tag != "bdd":
            return c
        a, hi, lo = c.args
        if a.tag == "le0":
            d = self.implied(a.args[0], facts)
            if d is True:
                return self._simp(hi, facts)
            if d is False:
                return self._simp(lo, facts)
        return bite(bvar(a), self._simp(hi, facts), self._simp(lo, facts))

    def implied(self, p, facts):
        for f in facts:
            d = sub(p, f)
            l = T._lower(neg(d))
            if l is not None and l >= 0:
                return True  # p = f + d, f <= 0, d <= 0
            d = add(p, f)
            l = T._lower(d)
            if l is not None and l > 0:
                return False  # p = d - f >= d > 0
        return None

    def distinct_ranges(self, idx, base, pts, shape):
        return False

    # -------------------------------------------------------------- expressions
    def ev(self, e):
        k = e["k"]
        m = getattr(self, "e_" + k, None)
        if m is None:
            fail("expression " + k, e)
        self.steps += 1
        if self.steps > 6000000:
            fail("budget exhausted")
        return m(e)

    def val(self, e):
        return self.rv(self.ev(e))

    def e_int(self, e):
        return num(e["v"])

    def e_float(self, e):
        return num(Fraction(e["s"])) if "s" in e else num(Fraction(e["v"]))

    def e_bool(self, e):
        return TRUE if e["v"] else FALSE

    def e_str(self, e):
        return Str(e["v"])

    def e_zero(self, e):
        k = self.scalar_kind(self.ty(e))
        if k == "b":
            return FALSE
        if k:
            return ZERO
        return self.default(self.ty(e))

    def e_ref(self, e):
        for f in (self.frames[-1],):
            if e["id"] in f.env:
                return f.env[e["id"]]
        g = self.x["globals"].get(e["id"])
        if g is not None:
            return self.sym(g["q"], self.types[g["ty"]])
        if e.get("q", "").startswith("std::placeholders") or e.get("global"):
            return Opq("global", e["q"])
        fail("variable %s" % e["name"], e)

    def e_this(self, e):
        if self.frames[-1].this is None:
            fail("this", e)
        return self.frames[-1].this

    def e_member(self, e):
        b = self.ev(e["base"])
        o = self.rv(b)
        if isinstance(o, Ptr) and o.idx is None:
            o = self.rv(o.base)
        if not isinstance(o, Obj):
            if isinstance(o, Lst) and e["name"] in ("first", "second"):
                return o.items[0 if e["name"] == "first" else 1]
            fail("member %s of %s" % (e["name"], type(o).__name__), e)
        if e["id"] not in o.fields and o.sym is None:
            # static constexpr or not initialised
            pass
        return self.field(o, e["id"], e["name"], self.ty(e))

    def e_cast(self, e):
        ck = e.get("ck", "")
        x = self.ev(e["e"])
        t = self.ty(e)
        if ck in ("IntegralCast", "IntegralToFloating", "FloatingCast", "IntegralToBoolean", "FloatingToBoolean",
                  "FloatingToIntegral", "PointerToBoolean"):
            v = self.rv(x)
            if ck == "FloatingToIntegral":
                return trunc(self.number(v))
            if ck in ("IntegralToBoolean", "FloatingToBoolean"):
                return self.cond(v)
            if ck == "PointerToBoolean":
                fail("pointer as condition", e)
            return self.number(v)
        k = self.scalar_kind(t)
        if k and "&" not in t:
            v = self.rv(x)
            if isinstance(v, Poly) or isbool(v):
                if k == "b":
                    return self.cond(v)
                p = self.number(v)
                if k in "iu" and not p.isint:
                    return trunc(p)
                return p
        return x

    def e_conv(self, e):
        x = self.ev(e["e"])
        v = self.rv(x)
        k = self.scalar_kind(self.ty(e))
        if k and isarr(v) and v.shape is not None and len(v.shape) == 0:
            return self.elem(v, ())
        if k == "b" and isinstance(v, Opq):
            fail("conversion", e)
        return x

    def e_cond(self, e):
        c = self.cond(self.ev(e["c"]))
        c = self.simplify(c)
        if c is TRUE:
            return self.ev(e["t"])
        if c is FALSE:
            return self.ev(e["f"])
        a, b = self.val(e["t"]), self.val(e["f"])
        return self.merge_values(c, a, b)

    def e_sub(self, e):
        b = self.ev(e["b"])
        i = self.number(self.ev(e["i"]))
        return self.index(b, [i])

    def index(self, b, idx):
        v = self.rv(b) if not isinstance(b, View) else b
        if isinstance(v, Poly):
            return self.models.row_at(v, idx[0])
        if isinstance(v, Lst):
            c = const_int(idx[0])
            if c is None or not 0 <= c < len(v.items):
                fail("index into list")
            if isinstance(b, Cell) and self.journal:
                pass
            return v.items[c]
        if isinstance(v, Ptr):
            return Elem(v.base, self.offset(v, idx[0]))
        if isarr(v):
            if isinstance(b, (Cell,)) and isinstance(b.v, Arr):
                return Elem(b, tuple(idx))
            if isinstance(v, View):
                return Elem(v, tuple(idx))
            if isinstance(b, Elem):
                fail("element of element")
            r = self.elem(v, tuple(idx))
            return tobool(r) if v.kind == "b" else r
        fail("index of %s" % type(v).__name__)

    def offset(self, p, n):
        """Index of the element n behind the one that is pointed to, in row-major order."""
        a = p.base.v if isinstance(p.base, Cell) else p.base
        shape = getattr(a, "shape", None)
        if shape is None or len(shape) != len(p.idx):
            fail("pointer")
        out = list(p.idx)
        carry = n
        for k in range(len(out) - 1, -1, -1):
            v = add(out[k], carry)
            carry = ZERO
            d = shape[k]
            if k == 0 or v is out[k] and k == len(out) - 1:
                out[k] = v
                break
            c, m = const_int(v), const_int(d)
            if c is not None and m:
                carry, out[k] = num(c // m), num(c % m)
            elif len(d.t) == 1:
                q, r = {}, {}
                for mono, x in v.t.items():
                    y = divide(_mkmono(mono, x), d)
                    if y is None:
                        r[mono] = x
                    else:
                        for m2, x2 in y.t.items():
                            q[m2] = q.get(m2, 0) + x2
                carry, out[k] = T._mkpoly(q), T._mkpoly(r)
                r = out[k]
                lo = T._lower(r)
                if r.t and not ((lo is not None and lo >= 0 or self.implied(neg(r), self.facts)) and self.implied(add(sub(r, d), ONE), self.facts)):
                    fail("pointer beyond a row")
            else:
                fail("pointer beyond a row")
            if not carry.t:
                break
        if isinstance(a, View) and carry.t:
            fail("pointer in a view")
        return tuple(out)

    def e_un(self, e):
        op = e["op"]
        if op in ("++", "--"):
            lv = self.ev(e["e"])
            old = self.rv(lv)
            if isinstance(old, Opq):
                return self.models.iter_step(self, lv, old, op, e)
            new = add(self.number(old), num(1 if op == "++" else -1))
            self.store(lv, new)
            return old if e.get("post") else new
        if op == "*":
            x = self.ev(e["e"])
            v = self.rv(x)
            if isinstance(v, Obj):
                return v
            if isinstance(v, Ptr):
                if v.idx is None:
                    return v.base
                return Elem(v.base, v.idx)
            if isinstance(v, Opq):
                return self.models.iter_deref(self, v, e)
            fail("dereference", e)
        if op == "&":
            y = e["e"]
            while y["k"] == "cast":
                y = y["e"]
            if y["k"] == "op" and y.get("op") == "[]" or y["k"] == "sub":
                b, i = (y["args"] if y["k"] == "op" else (y["b"], y["i"]))
                bb = self.ev(b)
                if isinstance(self.rv(bb), Lst):
                    return It(bb, self.number(self.ev(i)))
            x = self.ev(e["e"])
            if isinstance(x, Elem):
                return Ptr(x.base, x.idx)
            return Ptr(x, None)
        v = self.val(e["e"])
        if op == "-":
            if isarr(v) or isinstance(v, self.models.Mat):
                return self.models.elementwise(self, "neg", [self.ev(e["e"])])
            return neg(self.number(v))
        if op == "+":
            return v
        if op == "!":
            return bnot(self.cond(v))
        fail("operator " + op, e)

    def arith(self, op, a, b, intdiv=None):
        if op == "+":
            return add(a, b)
        if op == "-":
            return sub(a, b)
        if op == "*":
            return mul(a, b)
        if op == "/":
            if intdiv is None:
                intdiv = a.isint and b.isint
            return fdiv(a, b) if intdiv else div(a, b)
        if op == "%":
            return imod(a, b)
        fail("operator " + op)

    def compare(self, op, a, b):
        if isbool(a) and isbool(b) and op in ("==", "!="):
            r = bite(a, b, bnot(b))
            return r if op == "==" else bnot(r)
        a, b = self.number(a), self.number(b)
        d = sub(a, b)
        if op == "==":
            return eq0(d)
        if op == "!=":
            return bnot(eq0(d))
        if op == "<":
            return lt0(d)
        if op == ">":
            return lt0(neg(d))
        if op == "<=":
            return le0(d)
        if op == ">=":
            return le0(neg(d))
        fail("comparison " + op)

    def fcompare(self, op, a, b):
        """Comparison of floating-point numbers: false if one is not a number."""
        r = self.compare("==" if op == "!=" else op, a, b)
        if self.ieee:
            for x in (self.number(a), self.number(b)):
                if not isconst(x) and not (len(x.t) == 1 and next(iter(x.t))[0][0].args[:1] == ("infinity",)):
                    r = band(r, bnot(bvar(term("isnan", x))))
        return bnot(r) if op == "!=" else r

    def e_bin(self, e):
        op = e["op"]
        if op in ("&&", "||"):
            a = self.cond(self.ev(e["l"]))
            if op == "&&" and a is FALSE or op == "||" and a is TRUE:
                return a
            b = self.cond(self.ev(e["r"]))
            return band(a, b) if op == "&&" else bor(a, b)
        if op == ",":
            self.ev(e["l"])
            return self.ev(e["r"])
        a, b = self.ev(e["l"]), self.ev(e["r"])
        va, vb = self.rv(a), self.rv(b)
        if isarr(va) or isarr(vb):
            return self.models.elementwise(self, op, [a, b])
        if isinstance(va, (Opq, Ptr, Lst, Obj)) or isinstance(vb, (Opq, Ptr, Lst, Obj)):
            if isinstance(va, Ptr) and va.idx is not None and op in "+-":
                n = self.number(vb)
                return Ptr(va.base, self.offset(va, n if op == "+" else neg(n)))
            return self.models.opaque_bin(self, op, va, vb, e)
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return self.fcompare(op, va, vb) if e.get("fp") else self.compare(op, va, vb)
        k = self.scalar_kind(self.ty(e))
        if op in ("|", "&", "^") and isbool(va) and isbool(vb):
            return {"|": bor, "&": band, "^": lambda p, q: bite(p, bnot(q), q)}[op](va, vb)
        return self.arith(op, self.number(va), self.number(vb), (k in ("i", "u")) if k else None)

    def e_assign(self, e):
        op = e["op"]
        r = self.ev(e["r"])
        l = self.ev(e["l"])
        if not isinstance(r, (Cell, View, Elem)) or not isarr(self.rv(r)):
            r = self.rv(r)
        if op == "/=" and isinstance(self.rv(l), Poly):
            old = self.number(l)
            k = self.scalar_kind(self.ty(e["l"])) or self.scalar_kind(self.ty(e))
            self.store(l, self.arith("/", old, self.number(r), k in ("i", "u")))
            return l
        self.store(l, r, op)
        return l

    def e_init(self, e):
        t = self.ty(e)
        k = self.scalar_kind(t)
        if k:
            if len(e["args"]) == 1:
                return self.val(e["args"][0])
            return ZERO
        if t in self.x["rec_by_ty"]:
            fail("aggregate initialisation", e)
        r = self.array_type(t)
        args = e["args"]
        # std::array: braces may be elided or nested
        m = re.match(r"(?:const )?std::array<", t)
        if m and len(args) == 1 and args[0].get("k") == "init" and "[" in self.ty(args[0]):
            return Lst([Cell(self.val(a)) for a in args[0]["args"]], t)
        return Lst([Cell(self.copy(self.val(a))) for a in args], t)

    def e_lambda(self, e):
        return Lam(e, self.frames[-1].env, self.frames[-1].this)

    def e_throw(self, e):
        fail("throw in expression", e)

    def e_fnref(self, e):
        return Opq("fn", e.get("fn"), e.get("fid"))

    def e_memfn(self, e):
        return Opq("memfn", e.get("fn"))

    def e_opaque(self, e):
        if e.get("what") in ("PredefinedExpr",):
            return Str("")
        if e.get("what") == "CXXInheritedCtorInitExpr":
            fail("inherited constructor", e)
        fail("expression %s" % e.get("what"), e)

    def e_ctor(self, e):
        if "fid" in e and not e.get("copy"):
            t = self.ty(e).replace("const ", "")
            f = self.fns.get(e["fid"])
            o = Obj(e["cls"])
            rec = self.x["rec_by_ty"].get(t)
            if rec is not None:
                o.clsid = rec["id"]
                o.cls = rec["q"]
            if f is None:
                # implicit default constructor
                if rec is None:
                    fail("constructor of " + t, e)
                self.init_fields(o, rec)
                return o
            self.construct(o, f, e["args"], rec)
            return o
        if e.get("copy"):
            return self.copy(self.val(e["args"][0]))
        return self.models.construct(self, e)

    def construct(self, o, f, args, rec=None):
        args = [self.ev(a) for a in args]
        self.run_ctor(o, f, args, rec)

    def run_ctor(self, o, f, args, rec=None):
        q = f["q"]
        if rec is None:
            rec = self.x["rec_by_ty"].get(self.types[f["clsty"]])
        fr = self.enter(f, args, o)
        try:
            done = set()
            delegated = False
            for i in f.get("inits", []):
                if "field" in i:
                    done.add(i["id"])
                    fl = next((x for x in rec["fields"] if x["id"] == i["id"]), None) if rec else None
                    t = self.types[fl["ty"]] if fl else ""
                    if not i.get("written", True) and fl is not None and "init" not in fl:
                        o.fields[i["id"]] = Cell(self.default(t), i["field"])
                        continue
                    if t.endswith("&"):
                        x = self.ev(i["e"])
                        o.fields[i["id"]] = x if isinstance(x, Cell) else Cell(x, i["field"])
                        o.refs = o.refs | {i["id"]}
                        continue
                    o.fields[i["id"]] = Cell(self.coerce(self.ev(i["e"]), t), i["field"])
                elif "base" in i:
                    bt = self.types[i["base"]]
                    e = i["e"]
                    if e.get("k") == "ctor":
                        g = self.fns.get(e.get("fid"))
                        br = self.x["rec_by_ty"].get(bt)
                        if g is None:
                            if br is not None and e.get("copy"):
                                src = self.val(e["args"][0])
                                o.refs = o.refs | src.refs
                                for k, c in src.fields.items():
                                    o.fields[k] = c if k in src.refs else Cell(self.copy(c.v), c.name)
                            elif br is not None:
                                self.init_fields(o, br)
                            else:
                                fail("base constructor of " + bt, e)
                        else:
                            self.run_ctor(o, g, [self.ev(a) for a in e["args"]], br)
                    else:
                        fail("base initialiser", e)
                else:
                    e = i["e"]
                    if e.get("k") == "ctor" and e.get("fid") in self.fns:
                        delegated = True
                        self.run_ctor(o, self.fns[e["fid"]], [self.ev(a) for a in e["args"]], rec)
                    else:
                        fail("initialiser", e)
            if rec is not None and not delegated:
                for b in rec["bases"]:
                    br = self.x["rec_by_ty"].get(self.types[b["ty"]])
                    if br and not any("base" in i for i in f.get("inits", [])):
                        self.init_fields(o, br)
                for fl in rec["fields"]:
                    if fl["id"] not in o.fields:
                        if "init" in fl:
                            o.fields[fl["id"]] = Cell(self.rv(self.ev(fl["init"])), fl["name"])
                        else:
                            o.fields[fl["id"]] = Cell(self.default(self.types[fl["ty"]]), fl["name"])
            self.body(f["body"])
        finally:
            self.leave()

    def coerce(self, x, t):
        """Initialise an object of type t with x."""
        tt = t.replace("const ", "").rstrip(" &")
        v = self.rv(x)
        k = self.scalar_kind(tt)
        if k == "b":
            return self.cond(v)
        if k:
            p = self.number(v)
            return trunc(p) if k in "iu" and not p.isint else p
        r = self.array_type(tt)
        if r is not None:
            return self.models.make_array(self, x, tt)
        if tt.startswith("Eigen::"):
            return self.models.eigen_make(self, x, tt)
        return self.copy(v)

    # -------------------------------------------------------------- calls
    def enter(self, f, args, this):
        self.depth += 1
        if self.depth > 60:
            fail("recursion")
        fr = Frame(this, f)
        for p, a in zip(f["params"], args):
            t = self.types[p["ty"]]
            if p["isref"]:
                if isinstance(a, (Cell, Elem, View)):
                    fr.env[p["id"]] = a
                else:
                    fr.env[p["id"]] = Cell(a, p["name"])
            else:
                fr.env[p["id"]] = Cell(self.coerce_param(a, t), p["name"], t)
        if len(args) < len(f["params"]):
            fail("missing arguments of " + f["q"])
        self.frames.append(fr)
        self.trace.add((f["q"], f["file"], f["ln"]))
        return fr

    def coerce_param(self, a, t):
        v = self.rv(a)
        if isinstance(v, It):
            return It(v.base, v.pos)
        if isinstance(v, (Ptr, Lam, Opq, Str)):
            return v
        if self.scalar_kind(t) or self.array_type(t.replace("const ", "")) is not None:
            return self.coerce(a, t)
        return self.copy(v)

    def leave(self):
        self.frames.pop()
        self.depth -= 1

    def body(self, stmts):
        return self.run(stmts)

    def call(self, f, args, this=None):
        if f["q"] in self.uf:
            return self.models.uninterpreted(self, f, args, this)
        self.enter(f, args, this)
        try:
            fr = self.frames[-1]
            self.run(f["body"])
            r = fr.ret.v
            return r
        finally:
            self.leave()

    def args(self, e):
        return [self.ev(a) for a in e["args"]]

    def e_call(self, e):
        fid = e.get("fid")
        if fid in self.fns:
            return self.call(self.fns[fid], self.args(e))
        if "callee" in e:
            c = self.val(e["callee"])
            fail("indirect call", e)
        return self.models.call(self, e)

    def e_mcall(self, e):
        fid = e.get("fid")
        if fid in self.fns:
            f = self.fns[fid]
            o = None
            if not f.get("static"):
                o = self.rv(self.ev(e["obj"]))
                if isinstance(o, Ptr):
                    o = self.rv(o.base)
                if isinstance(o, Lam):
                    return self.call_lambda(o, self.args(e))
                if not isinstance(o, Obj):
                    fail("method of %s" % type(o).__name__, e)
            return self.call(f, self.args(e), o)
        return self.models.mcall(self, e)

    def call_lambda(self, lam, args):
        f = self.fns.get(lam.e["fid"])
        for fid in lam.e.get("specs", ()):
            f = f or self.fns.get(fid)
        if f is None:
            fail("lambda", lam.e)
        self.enter(f, args, lam.this)
        fr = self.frames[-1]
        for k, v in lam.env.items():
            fr.env.setdefault(k, v)
        try:
            self.run(f["body"])
            return fr.ret.v
        finally:
            self.leave()

    def e_op(self, e):
        fid = e.get("fid")
        op = e["op"]
        if fid in self.fns:
            f = self.fns[fid]
            args = self.args(e)
            if f.get("lambda"):
                return self.call_lambda(self.rv(args[0]), args[1:])
            if f.get("cls") and not f.get("static"):
                return self.call(f, args[1:], self.rv(args[0]))
            return self.call(f, args)
        if op == "()" and e["args"]:
            o = self.ev(e["args"][0])
            if isinstance(self.rv(o), Lam):
                return self.call_lambda(self.rv(o), [self.ev(a) for a in e["args"][1:]])
        return self.models.op(self, e)

    # -------------------------------------------------------------- statements
    def run(self, stmts):
        """Execute a statement list; nested blocks are spliced (names are unique)."""
        stmts = list(stmts)
        k = 0
        while k < len(stmts):
            s = stmts[k]
            k += 1
            if s is None:
                continue
            kind = s["k"]
            if kind == "omp" and self.races is not None:
                r = self.races.run(self, s)
                if r != FALL:
                    return r
                continue
            if kind in ("block", "omp", "try"):
                stmts = list(s["body"]) + stmts[k:]
                k = 0
                continue
            if kind == "if":
                r = self.s_if(s, stmts[k:])
                if r == "done":
                    return self._last
                if r == FALL:
                    continue
                return r
            if kind == "return":
                fr = self.frames[-1]
                if s.get("e") is not None:
                    v = self.ev(s["e"])
                    rt = self.types[fr.fn["ret"]]
                    if rt.endswith("&") and isinstance(v, (Cell, Elem, View)):
                        pass
                    elif rt.endswith("&"):
                        pass
                    else:
                        v = self.ret_value(v, rt)
                    self.touch(fr.ret)
                    fr.ret.v = v
                return RET
            if kind == "break":
                return BRK
            if kind == "continue":
                return CONT
            if kind == "null":
                continue
            if kind == "pycall":
                s["f"]()
                continue
            if kind == "expr":
                if s["e"]["k"] == "throw":
                    return THROW
                if s["e"]["k"] == "cast" and "Void" in s["e"].get("ck", ""):
                    continue
                if s["e"]["k"] == "un" and s["e"]["op"] in ("++", "--"):
                    lv = self.ev(s["e"]["e"])
                    while isinstance(lv, Cell) and isinstance(lv.v, (Cell, Elem)):
                        lv = lv.v
                    if isinstance(lv, Elem) and not isinstance(lv.base, Lst):
                        self.store(lv, ONE, "+=" if s["e"]["op"] == "++" else "-=")
                        continue
                self.ev(s["e"])
                continue
            if kind == "decl":
                for d in s["decls"]:
                    self.decl(d)
                continue
            if kind == "for":
                r = self.s_for(s)
            elif kind == "rangedim":
                r = self.s_rangedim(s)
            elif kind == "rangefor":
                r = self.s_rangefor(s)
            elif kind == "while":
                r = self.any_loop(s)
            elif kind == "switch":
                r = self.s_switch(s, stmts[k:])
                if r == "done":
                    return self._last
            else:
                fail("statement " + kind, s)
            if r != FALL:
                if isinstance(r, tuple) and r[0] == "cond_ret":
                    # if (exists ...) return v; rest
                    _, c, v = r
                    fr = self.frames[-1]
                    self.push()
                    st = self.run(stmts[k:])
                    if st in (FALL, CONT) or isinstance(st, tuple) and st[0] == "may_ret":
                        # inside an outer search loop
                        self.pop(True)
                        if isinstance(st, tuple):
                            if not self.same(v, st[2]):
                                fail("different values returned from a loop", s)
                            c = bor(c, st[1])
                        return ("may_ret", c, v)
                    if st not in (RET,):
                        fail("return out of a loop, without return after it", s)
                    top = self.pop(True)
                    self.touch(fr.ret)
                    fr.ret.v = self.merge_values(c, v, fr.ret.v)
                    # the state after an early return is that before the rest
                    if any(isinstance(x, Cell) and x is not fr.ret and x in self.live(fr) for x in top):
                        fail("state after early return", s)
                    return RET
                return r
        return FALL

    def live(self, fr):
        return ()

    def ret_value(self, v, rt):
        x = self.rv(v)
        if isinstance(x, View):
            return self.copy(x)
        k = self.scalar_kind(rt)
        if k or self.array_type(rt) is not None:
            return self.coerce(v, rt)
        if isinstance(v, Cell) and isinstance(x, (Arr, Obj, Lst)):
            return self.copy(x)
        return x

    def decl(self, d):
        env = self.frames[-1].env
        t = self.ty(d)
        if "init" not in d:
            c = Cell(self.default(t), d["name"], t)
            env[d["id"]] = c
            return
        if d.get("static"):
            # persists over calls; unknown number of earlier calls
            c = self.statics.get(d["id"])
            if c is None:
                if self.scalar_kind(t) in ("u", "i"):
                    c = Cell(atom(term("sym", "static." + d["name"], isint=True, nonneg=True)), d["name"], t)
                else:  # of which this is the first
                    c = Cell(self.coerce(self.copy(self.rv(self.ev(d["init"]))), t.replace("const ", "")), d["name"], t)
                c.n = 0
                self.statics[d["id"]] = c
            env[d["id"]] = c
            return
        x = self.ev(d["init"])
        if d.get("isref"):
            if not isinstance(x, (Cell, Elem, View)):
                x = Cell(x, d["name"])
            env[d["id"]] = x
            return
        tt = t.replace("const ", "")
        v = self.rv(x)
        if isinstance(v, (Ptr, Lam, Opq, Str)):
            env[d["id"]] = Cell(self.copy(v), d["name"], t)
            return
        if isinstance(v, View) and self.array_type(tt) is None:
            # a view (or adaptor) keeps referring to its base
            env[d["id"]] = v
            return
        env[d["id"]] = Cell(self.coerce(x, tt), d["name"], t)

    def checked(self, c):
        """Shapes of inputs, once the code has checked them."""
        arrays = {k: x.v for k, x in self.inputs.items() if isinstance(x.v, Arr) and x.v.shape is not None}
        for (k, d), n in interp.equations(list(interp.split(c)), arrays, self.last).items():
            v = arrays[k]
            if d < len(v.shape):
                v.shape = v.shape[:d] + (n,) + v.shape[d + 1:]

    # ---- branches
    def s_if(self, s, rest):
        if s.get("resolved"):
            st = self.run(list(s.get("body", [])) + rest) if has_exit(s.get("body")) else None
            if st is not None:
                self._last = st
                return "done"
            return self.run(s.get("body", []))
        if s.get("init"):
            self.run([s["init"]])
        if s.get("condvar"):
            fail("condition variable", s)
        # assertion: if (!cond) throw
        tb, fb = s.get("t") or [], s.get("f") or []
        if self.throws(tb) and not fb:
            self.push()
            try:
                try:
                    c = self.cond(self.ev(s["c"]))
                except Unmodelled as u:
                    self.asserts.append((tuple(self.guards), None, (self.frames[-1].fn["q"], s.get("ln")), str(u)))
                    self.pop(False)
                    self.push()
                    return FALL
            finally:
                self.pop(True)
            c = self.simplify(c)
            self.asserts.append((tuple(self.guards), bnot(c), (self.frames[-1].fn["q"], s.get("ln")), ""))
            if self.inputs and not self.guards:
                self.checked(bnot(c))
            if c is TRUE:
                return THROW
            return FALL
        c = self.cond(self.ev(s["c"]))
        c = self.simplify(c)
        if c is TRUE or c is FALSE:
            b = tb if c is TRUE else fb
            if has_exit(b):
                self._last = self.run(list(b) + rest)
                return "done"
            st = self.run(b)
            return st
        split = has_exit(tb) or has_exit(fb)
        r = rest if split else []
        n0 = _serial[0]
        self.guards.append(c)
        nf = len(self.facts)
        self.assume(c)
        self.push()
        st1 = self.run(list(tb) + r)
        t1 = {x: x.v for x in self.journal[-1]}
        old = dict(self.pop(False))
        del self.facts[nf:]
        self.guards[-1] = bnot(c)
        self.assume(bnot(c))
        self.push()
        st2 = self.run(list(fb) + r)
        t2 = {x: x.v for x in self.journal[-1]}
        old2 = self.pop(False)
        del self.facts[nf:]
        self.guards.pop()
        if st1 == THROW and st2 == THROW:
            self._last = THROW
            return "done"
        if st1 == THROW or st2 == THROW:
            # only one branch returns
            keep = t2 if st1 == THROW else t1
            self.asserts.append((tuple(self.guards), bnot(c) if st1 == THROW else c, (self.frames[-1].fn["q"], s.get("ln")), ""))
            for cell, v in keep.items():
                self.touch(cell)
                cell.v = v
            st = st2 if st1 == THROW else st1
            if split:
                self._last = st
                return "done"
            return st
        mr = [x for x in (st1, st2) if isinstance(x, tuple) and x[0] == "may_ret"]
        if mr and all(x in (FALL, CONT) or x in mr for x in (st1, st2)) and all(self.same(x[2], mr[0][2]) for x in mr):
            cr = FALSE
            if st1 in mr:
                cr = bor(cr, band(c, st1[1]))
            if st2 in mr:
                cr = bor(cr, band(bnot(c), st2[1]))
            self.merge(c, t1, t2, {**old2, **old}, n0)
            self._last = ("may_ret", cr, mr[0][2])
            return "done" if split else self._last
        if st1 != st2:
            if {st1, st2} <= {FALL, CONT}:
                st = FALL if split else None
            else:
                st = None
            if {st1, st2} == {RET, FALL} and self.void():
                st = RET
            if {st1, st2} <= {RET, FALL, CONT, BRK} and st is None:
                # a loop left on some iterations only
                if RET in (st1, st2):
                    cr = c if st1 == RET else bnot(c)
                    tr = t1 if st1 == RET else t2
                    to = t2 if st1 == RET else t1
                    fr = self.frames[-1]
                    if set(tr) <= {fr.ret} and not (set(to) & {fr.ret}) and (st2 if st1 == RET else st1) in (FALL, CONT):
                        for cell, v in to.items():
                            self.touch(cell)
                            cell.v = v
                        self._last = ("may_ret", cr, tr.get(fr.ret))
                        return "done"
                fail("exit on one branch only", s)
        else:
            st = st1
        self.merge(c, t1, t2, {**old2, **old}, n0)
        if split:
            self._last = st
            return "done"
        return st

    def void(self):
        return self.types[self.frames[-1].fn["ret"]] == "void"

    def assume(self, c):
        """Record the comparisons that c implies."""
        while c.tag == "bdd":
            a, hi, lo = c.args
            if lo is FALSE:
                if a.tag == "le0":
                    self.facts.append(a.args[0])
                c = hi
            elif hi is FALSE:
                if a.tag == "le0":
                    self.facts.append(sub(ONE, a.args[0]))
                c = lo
            else:
                break

    def throws(self, b):
        b = [x for x in b if x is not None and x["k"] != "null"]
        if len(b) == 1 and b[0]["k"] == "block":
            return self.throws(b[0]["body"])
        if not b:
            return False
        l = b[-1]
        return l["k"] == "expr" and l["e"]["k"] == "throw" and all(x["k"] in ("expr", "decl") for x in b)

    def merge(self, c, t1, t2, old, n0=None):
        for cell in list(dict.fromkeys(list(t1) + list(t2))):
            o = old[cell]
            a = t1.get(cell, o)
            b = t2.get(cell, o)
            if n0 is not None and cell.n > n0 and (a is None or b is None):
                # created inside one of the branches: the other cannot see it
                self.touch(cell)
                cell.v = b if a is None else a
                continue
            if a is b:
                self.touch(cell)
                cell.v = a
                continue
            if isinstance(o, Arr) and isinstance(a, Arr) and isinstance(b, Arr) and a.lineage == b.lineage == o.lineage:
                n = len(o.regs)
                self.touch(cell)
                if a.shape != b.shape:
                    fail("shape depends on a condition")
                new = cell.v
                new.shape = a.shape
                ra, rb = a.regs[n:], b.regs[n:]
                if self.merge_points(new, c, ra, rb, o):
                    continue
                for r in ra:
                    new.regs.append(Region(r.dom, band(r.guard, c), r.base, dict(r.pts), r.where))
                for r in rb:
                    new.regs.append(Region(r.dom, band(r.guard, bnot(c)), r.base, dict(r.pts), r.where))
                new.nfix = len(new.regs)
                continue
            v = self.merge_values(c, a, b)
            self.touch(cell)
            cell.v = v

    def merge_points(self, new, c, ra, rb, o):
        """Both branches assign the same known points."""
        if len(ra) > 1 or len(rb) > 1 or not (ra or rb):
            return False
        rs = ra + rb
        if any(r.dom or r.guard is not TRUE for r in rs):
            return False
        if len({r.base for r in rs}) != 1:
            return False
        base = rs[0].base
        pa = ra[0].pts if ra else {}
        pb = rb[0].pts if rb else {}
        out = {}
        for key in list(dict.fromkeys(list(pa) + list(pb))):
            x, y = pa.get(key), pb.get(key)
            if x and y and x[0] == y[0]:
                out[key] = (x[0], ite(c, x[1], y[1]))
            elif x and y:
                return False
            else:
                op, v = x or y
                g = c if x else bnot(c)
                if op == "+=":
                    out[key] = ("+=", mul(bracket(g), v))
                else:
                    return False
        for key, (op, v) in out.items():
            new.write(tuple(add(b, num(k)) for b, k in zip(base, key)), op, v)
        return True

    def merge_values(self, c, a, b):
        a, b = self.rv(a) if not isinstance(a, (Elem, View)) else a, self.rv(b) if not isinstance(b, (Elem, View)) else b
        if a is b:
            return a
        if a is None or b is None:
            fail("value set on one branch only")
        if isbool(a) or isbool(b):
            return bite(c, self.cond(a), self.cond(b))
        if isinstance(a, Poly) and isinstance(b, Poly):
            return ite(c, a, b)
        if isinstance(a, (Poly, Elem)) and isinstance(b, (Poly, Elem)):
            return ite(c, self.number(a), self.number(b))
        if isarr(a) and isarr(b):
            if a.shape is None or b.shape is None or len(a.shape) != len(b.shape):
                fail("rank depends on a condition")
            shape = tuple(ite(c, x, y) for x, y in zip(a.shape, b.shape))
            ra, rb = self.reader(a), self.reader(b)
            na, nb = freeze(a), freeze(b)
            node = None
            if na is nb:
                node = na
            f = Fn(shape, a.kind, lambda i: ite(c, self.num_(ra(i)), self.num_(rb(i))), node)
            return self.models.materialise(self, f)
        if isinstance(a, Lst) and isinstance(b, Lst) and len(a.items) == len(b.items):
            return Lst([Cell(self.merge_values(c, self.rv(x), self.rv(y))) for x, y in zip(a.items, b.items)], a.ty)
        if isinstance(a, Obj) and isinstance(b, Obj) and a.cls == b.cls:
            o = Obj(a.cls, a.clsid, a.sym if a.sym == b.sym else None)
            for k in dict.fromkeys(list(a.fields) + list(b.fields)):
                if k not in a.fields or k not in b.fields:
                    fail("field set on one branch only")
                if k in a.refs or k in b.refs:
                    if a.fields[k] is not b.fields[k]:
                        fail("merged references")
                    o.refs = o.refs | {k}
                    o.fields[k] = a.fields[k]
                    continue
                o.fields[k] = Cell(self.merge_values(c, a.fields[k].v, b.fields[k].v), a.fields[k].name)
            return o
        if isinstance(a, Opq) and isinstance(b, Opq) and a.tag == b.tag and a.args == b.args:
            return a
        m = self.models.merge(self, c, a, b)
        if m is not None:
            return m
        fail("merge of %s and %s" % (type(a).__name__, type(b).__name__))

    def num_(self, v):
        return bracket(v) if isbool(v) else v

    def s_switch(self, s, rest):
        v = self.number(self.ev(s["c"]))
        # flatten: list of (label value | None, statements up to break)
        items = []

        def flat(x):
            if x["k"] == "case":
                items.append(("case", x["v"]))
                flat(x["s"])
            elif x["k"] == "default":
                items.append(("default", None))
                flat(x["s"])
            elif x["k"] == "block":
                for y in x["body"]:
                    flat(y)
            else:
                items.append(("s", x))

        for x in s["body"]:
            flat(x)
        c = const_int(v)

        def path(start):
            out = []
            for kind, x in items[start:]:
                if kind != "s":
                    continue
                if x["k"] == "break":
                    break
                out.append(x)
                if x["k"] == "return":
                    break
            return out

        default = next((i for i, (k, _) in enumerate(items) if k == "default"), None)
        cases = [(i, self.number(self.ev(x))) for i, (k, x) in enumerate(items) if k == "case"]
        # rewrite to nested if
        def build(j):
            if j == len(cases):
                return path(default) if default is not None else []
            i, val = cases[j]
            cc = self.compare("==", v, val)
            return [{"k": "if", "c": {"k": "constval", "v": cc}, "t": path(i), "f": build(j + 1), "ln": s.get("ln")}]

        st = self.run(build(0) + rest)
        self._last = st
        return "done"

    def e_constval(self, e):
        return e["v"]

    # ---- loops
    def s_for(self, s):
        if s.get("init"):
            self.run([s["init"]])
            if s["init"].get("k") == "decl" and len(s["init"]["decls"]) == 1:
                c = self.frames[-1].env.get(s["init"]["decls"][0]["id"])
                v = c.v if isinstance(c, Cell) else None
                if isinstance(v, Opq) and v.tag == "inner":
                    return self.inner_loop(c, v, s)
        return self.any_loop(s)

    def any_loop(self, s):
        marks = [(x, len(x)) for x in (self.frames, self.reads, self.facts, self.guards, self.loops, self.asserts)]
        depth = len(self.journal)

        def reset():
            while len(self.journal) > depth:
                self.pop(False)
            for x, n in marks:
                del x[n:]

        self.push()
        try:
            r = self.s_loop(s.get("init"), s.get("c"), s.get("inc"), s["body"], s)
            self.pop(True)
            return r
        except Unmodelled as why:
            reset()
            level = self.mulevel
            try:
                return self.mu_loop(s)
            except Unmodelled:
                reset()
                raise why
            finally:
                self.mulevel = level

    def mu_loop(self, s):
        """A loop without closed form: the outcome of iterating the effect of one pass on the state it carries."""
        if any_exit(s["body"]):
            fail("exit from a loop", s)
        flag = Cell(ZERO, "left")
        inc = [{"k": "expr", "e": s["inc"]}] if s.get("inc") is not None else []
        body = s["body"] if isinstance(s["body"], list) else [s["body"]]
        leave = {"k": "pycall", "f": lambda: self.store(flag, ONE)}

        def desugar(stmts):
            out = []
            for k, x in enumerate(stmts):
                if x is None:
                    continue
                if x["k"] == "break":
                    return out + [leave]
                if x["k"] == "continue":
                    return out + inc
                if x["k"] in ("block", "omp"):
                    return out + desugar(list(x["body"]) + list(stmts[k + 1:]))
                if not has_exit(x):
                    out.append(x)
                    continue
                if x["k"] != "if" or x.get("init") or x.get("condvar"):
                    fail("exit from a loop", x)
                rest = list(stmts[k + 1:])
                if x.get("resolved"):
                    return out + desugar(list(x.get("body", [])) + rest)
                c = dict(x)
                c["t"], c["f"] = desugar(list(x.get("t") or []) + rest), desugar(list(x.get("f") or []) + rest)
                return out + [c]
            return out + inc

        body = desugar(body)
        level = self.mulevel
        self.mulevel += 1
        env = self.frames[-1].env
        ids = {}
        written({"k": "block", "b": [s["body"], s.get("inc")]}, ids)
        state, dyn = [], set()
        for i in ids:
            c = env.get(i)
            while isinstance(c, Cell) and isinstance(c.v, Cell):
                c = c.v
            # (lists of lists: if they are found to change)
            if isinstance(c, Cell) and c not in state and (isinstance(c.v, Poly) or isinstance(c.v, Arr) and c.v.flavour != "rag" or isbool(c.v)):
                state.append(c)
        state.append(flag)
        tried = set()
        while True:
            self.push()
            self.reads.append(set())
            marks = [(x, len(x)) for x in (self.facts, self.asserts)]
            serial = _serial[0]
            ph = {}
            for k, c in enumerate(state):
                nm = "st%d.%d" % (level, k)
                v = c.v
                self.touch(c)
                if isinstance(v, Poly):
                    u = c is flag or bool(c.ty and self.scalar_kind(c.ty) in ("u", "b"))
                    ph[c] = atom(term("sym", nm, isint=v.isint or bool(c.ty and self.scalar_kind(c.ty) in ("u", "i")), nonneg=u))
                elif isbool(v):
                    ph[c] = bnot(eq0(atom(term("sym", nm, isint=True, nonneg=True))))
                elif isinstance(v, Arr) and v.shape is not None and v.flavour in (None, "vec", "rag"):
                    shape = v.shape
                    if c in dyn:
                        shape = tuple(atom(term("sym", nm + ".%d" % d, isint=True, nonneg=True)) for d in range(len(shape)))
                    self.symshape[nm] = shape
                    ph[c] = Arr(shape, a_sym(nm, isint=v.kind != "d", nonneg=v.kind in "ub"), v.kind, flavour=v.flavour)
                else:
                    fail("state of a loop", s)
                c.v = ph[c]
            n0 = len(self.journal[-1])
            cv = self.cond(self.ev(s["c"])) if s.get("c") is not None else TRUE
            if len(self.journal[-1]) != n0 or any(c.v is not ph[c] and not (isinstance(c.v, Arr) and c.v.regs == ph[c].regs) for c in state):
                fail("loop condition with an effect", s)
            cv = band(cv, eq0(ph[flag]))
            self.assume(cv)
            st = self.run(body)
            self.reads.pop()
            new = {x: x.v for x in self.journal[-1] if x.n <= serial}
            fin = {}
            for c, v in new.items():
                if c in ph and isinstance(v, Arr):
                    if v.shape is None or len(v.shape) != len(ph[c].shape):
                        fail("shape of the state of a loop", s)
                    fin[c] = (freeze(v), tuple(v.shape))
                elif isinstance(v, Poly):
                    fin[c] = v
                elif isbool(v):
                    fin[c] = bracket(v)
                elif c in ph:
                    fail("state of a loop", s)
            self.pop(False)
            for x, n in marks:
                del x[n:]
            if st not in (FALL, CONT):
                fail("exit from a loop", s)
            extra = [c for c in new if c not in ph]
            grown = [c for c in state if isinstance(ph[c], Arr) and c not in dyn and fin[c][1] != ph[c].shape]
            keep = [c for c in state if c is flag or not (
                fin[c] is ph[c] if isinstance(ph[c], Poly) else
                isinstance(ph[c], Arr) and fin[c] == (ph[c].base, ph[c].shape))]
            if not extra and not grown and (len(keep) == len(state) or "dropped" in tried):
                break
            if len(tried) > 8:
                fail("state of a loop", s)
            if not extra and not grown:
                tried.add("dropped")
                state = keep
            else:
                tried.add(len(tried))
            state += extra
            dyn.update(grown)
        init = []
        for c in state:
            v = c.v
            init.append(v if isinstance(v, Poly) else (freeze(v), tuple(v.shape)) if isinstance(v, Arr) else bracket(v))
        args = (level, cv, tuple(init), tuple(fin[c] for c in state))
        for k, c in enumerate(state):
            v = c.v
            if isinstance(v, Arr):
                shape = v.shape
                if c in dyn:
                    shape = tuple(atom(term("mu", (k, d), *args, isint=True, nonneg=True)) for d in range(len(shape)))
                w = Arr(shape, term("amu", (k,), *args, isint=v.kind in "iub", nonneg=v.kind in "ub"), v.kind, flavour=v.flavour)
            else:
                lo = self.atleast.get(c.name, 0)
                p = ph[c] if isinstance(v, Poly) else None
                one = next(iter(p.t))[0][0] if p is not None else None
                w = add(num(lo), atom(term("mu", (k, lo) if lo else (k,), *args, isint=one.isint if one else True, nonneg=one.nonneg if one else True)))
                if not isinstance(v, Poly):
                    w = bnot(eq0(w))
            if c is not flag:
                self.touch(c)
                c.v = w
        return FALL

    def inner_loop(self, cell, v, s):
        """Loop over the stored entries of a column of a sparse matrix."""
        inc, c = s.get("inc"), s.get("c")
        while c is not None and c.get("k") in ("conv", "cast", "cleanup"):
            c = c["e"]
        ok = inc is not None and inc.get("k") in ("un", "op") and inc.get("op") == "++"
        if not ok:
            fail("loop over an inner iterator", s)
        a, k = self.rv(v.args[0]), self.number(v.args[1])
        if not isarr(a) or len(a.shape) != 2:
            fail("inner iterator", s)
        node = a.freeze() if not isinstance(a, Arr) else freeze(a)

        def setup(tp):
            cell.v = Opq("innerat", node, tp, k)
            test["v"] = bnot(eq0(fn("stored", node, tp, k, isint=True, nonneg=True)))

        test = {"k": "constval", "v": TRUE}
        body = [{"k": "if", "c": test, "t": s["body"] if isinstance(s["body"], list) else [s["body"]], "f": [], "ln": s.get("ln")}]
        return self.symbolic_loop(None, None, body, s, setup=setup, n=a.shape[0])

    def s_loop(self, init, c, inc, body, s):
        if c is None:
            return self.exit_loop(inc, body, s)
        # constant trip count
        self.push()
        snap = (len(self.asserts),)
        n = 0
        ok = None
        status = FALL
        facts = list(self.facts)
        while True:
            cv = self.simplify(self.cond(self.ev(c)))
            if cv is FALSE:
                ok = True
                break
            if cv is not TRUE or n >= UNROLL:
                ok = False
                break
            st = self.run(body)
            n += 1
            if st in (FALL, CONT):
                if inc is not None:
                    self.ev(inc)
                continue
            if st == BRK:
                ok = True
                break
            if st in (RET, THROW):
                ok = True
                status = st
                break
            if isinstance(st, tuple):
                if st[0] == "may_ret":
                    # unrolled search: nested conditional returns
                    self.pop(False)
                    return self.search_unrolled(c, inc, body, s)
                ok = False
                break
            fail("loop exit", s)
        if ok:
            self.pop(True)
            return status
        self.pop(False)
        del self.asserts[snap[0]:]
        return self.symbolic_loop(c, inc, body, s)

    def exit_loop(self, inc, body, s):
        """for (..;;..) { A; if (stop) break; B }: A once more than B."""
        at = [k for k, x in enumerate(body) if x.get("k") == "if" and not x.get("f") and
              len(x["t"]) == 1 and x["t"][0].get("k") == "break"]
        init = s.get("init")
        init = init[0] if isinstance(init, list) and len(init) == 1 else init
        if len(at) != 1 or inc is None or not isinstance(init, dict) or init.get("k") != "decl":
            fail("loop without condition", s)
        k = at[0]
        return self.symbolic_loop(None, inc, body[:k], s, brk=(body[k], body[k + 1:]))

    def search_unrolled(self, c, inc, body, s):
        conds = []
        val = None
        notyet = TRUE
        self.push()
        n = 0
        while n < UNROLL:
            cv = self.simplify(self.cond(self.ev(c)))
            if cv is FALSE:
                break
            if cv is not TRUE:
                self.pop(False)
                return self.symbolic_loop(c, inc, body, s)
            st = self.run(body)
            if isinstance(st, tuple) and st[0] == "may_ret":
                if val is None:
                    val = st[2]
                elif not self.same(val, st[2]):
                    fail("different values returned from a loop", s)
                conds.append(st[1])
            elif st not in (FALL, CONT):
                fail("loop exit", s)
            if inc is not None:
                self.ev(inc)
            n += 1
        self.pop(True)
        cc = FALSE
        for x in conds:
            cc = bor(cc, x)
        return ("cond_ret", cc, val)

    def same(self, a, b):
        return a is b

    def symbolic_loop(self, c, inc, body, s, setup=None, n=None, brk=None):
        """Loop with a symbolic domain. setup(t): binds the element of a range-for.
        brk: the exit (if (stop) break) after the body, and the statements after it."""
        t = raw("t")
        tp = atom(t)

        def iterate(subs):
            """One iteration from the state with carried cells set as in subs; returns modified cells."""
            self.push()
            self.reads.append(set())
            nf = len(self.facts)
            na = len(self.asserts)
            serial = _serial[0]
            try:
                for cell, v in subs.items():
                    self.touch(cell)
                    cell.v = v
                self.facts.append(neg(tp))
                if n is not None:
                    self.facts.append(add(sub(tp, n), ONE))
                cv = TRUE
                if c is not None:
                    cv = self.cond(self.ev(c))
                    self.assume(cv)
                if setup:
                    setup(tp)
                self.loops.append(t)
                st = self.run(body)
                if brk:
                    if st != FALL:
                        fail("exit from a loop", s)
                    cv = bnot(self.cond(self.ev(brk[0]["c"])))
                    st = self.run([{"k": "if", "c": {"k": "constval", "v": cv}, "t": brk[1], "f": [], "ln": s.get("ln")}])
                self.loops.pop()
                if st in (FALL, CONT) or isinstance(st, tuple):
                    if inc is not None:
                        self.ev(inc)
            except Unmodelled:
                self.pop(False)
                self.reads.pop()
                del self.facts[nf:]
                del self.asserts[na:]
                raise
            rdlog = self.reads.pop()
            newv = {x: x.v for x in self.journal[-1] if x.n <= serial}
            old = dict(self.pop(False))
            rdlog = {x for x in rdlog if x[0].n <= serial}
            del self.facts[nf:]
            ass = self.asserts[na:]
            del self.asserts[na:]
            return cv, st, newv, old, rdlog, ass

        scal = (Poly,)

        def isscal(v):
            return isinstance(v, Poly) or isbool(v)

        # guess: the counter of a canonical loop
        guess = {}
        if inc is not None and inc.get("k") == "un" and inc["op"] in ("++", "--"):
            lv = self.ev(inc["e"])
            if isinstance(lv, Cell) and isinstance(lv.v, Poly):
                guess[lv] = add(lv.v, scale(tp, 1 if inc["op"] == "++" else -1))
        start = {x: x.v for x in guess}
        cv, st, newv, old, rdlog, ass = iterate(guess)
        mod = [x for x in newv if isscal(old[x]) and isscal(newv[x])]
        extra = [x for x in mod if x not in guess]
        closed = dict(guess)
        good = all(newv.get(x) is not None and newv[x] is subst(guess[x], {t: add(tp, ONE)}) for x in guess)
        finals = {}
        if extra or not good:
            # general: placeholders for everything carried
            cells = list(dict.fromkeys(list(guess) + mod))
            for x in cells:
                start[x] = x.v
            ph = {}
            for x in cells:
                k = start[x]
                r = raw("c_" + x.name, isint=(k.isint if isinstance(k, Poly) else True), nonneg=False)
                if isinstance(k, Poly) and k.isint and x.ty and self.scalar_kind(x.ty) == "u":
                    r.nonneg = True
                ph[x] = r
            subs = {x: (atom(ph[x]) if isinstance(start[x], Poly) else tobool(atom(ph[x]))) for x in cells}
            cv, st, newv, old, rdlog, ass = iterate(subs)
            more = [x for x in newv if isscal(old[x]) and isscal(newv[x]) and x not in cells]
            if more:
                fail("carried state", s)
            closed = {}
            todo = list(cells)
            while todo:
                prog = False
                for x in list(todo):
                    sol = {ph[y]: closed[y] for y in closed}
                    v = newv.get(x, subs[x])
                    if isbool(v):
                        # latches: x = x && f(t), x = x || f(t)
                        v0 = subst(subst(v, {ph[x]: ZERO}), sol)
                        v1 = subst(subst(v, {ph[x]: ONE}), sol)
                        if (v0.free | v1.free) & {ph[y] for y in todo}:
                            continue
                        k = raw("k")
                        b0 = self.cond(start[x])
                        if v0 is FALSE:
                            g = subst(v1, {t: atom(k)})
                            closed[x] = band(b0, bnot(exists([(k, tp)], bnot(g))))
                        elif v1 is TRUE:
                            g = subst(v0, {t: atom(k)})
                            closed[x] = bor(b0, exists([(k, tp)], g))
                        else:
                            continue
                        todo.remove(x)
                        prog = True
                        continue
                    if not isinstance(v, Poly):
                        continue
                    incr = subst(sub(v, atom(ph[x])), sol)
                    others = {ph[y] for y in todo}
                    if incr.free & others:
                        continue
                    # increments that read arrays modified in the loop are excluded by the read check
                    if t in incr.free:
                        k = raw("k")
                        pre = psum([(k, tp)], subst(incr, {t: atom(k)}))
                    else:
                        pre = mul(incr, tp)
                    closed[x] = add(start[x], pre)
                    todo.remove(x)
                    prog = True
                if not prog:
                    break
            sol = {ph[x]: closed[x] for x in closed}
            rest = {ph[x]: x for x in todo}
            # values recomputed in each iteration
            for x in todo:
                v = newv.get(x, subs[x])
                v2 = subst(v, sol)
                if v2.free & set(rest):
                    finals[x] = None
                else:
                    finals[x] = v2
            cv = subst(cv, sol)
            if cv.free & set(rest):
                fail("loop condition on carried state", s)
            used = set()
            for x in newv:
                v = newv[x]
                if isinstance(v, Arr):
                    n0 = len(old[x].regs) if isinstance(old[x], Arr) else 0
                    nr = []
                    for r in v.regs[n0:]:
                        q = Region(tuple((w, subst(m, sol)) for w, m in r.dom), subst(r.guard, sol),
                                   tuple(subst(b, sol) for b in r.base), {}, r.where)
                        # constants may have moved in the index
                        cl = {}
                        for key, (op, val) in r.pts.items():
                            idx = [add(b, num(k)) for b, k in zip(q.base, key)]
                            bb = tuple(sub(i, num(constval(i))) for i in idx)
                            kk = tuple(constval(i) for i in idx)
                            cl.setdefault(bb, {})[kk] = (op, subst(val, sol))
                        for bb, pts in cl.items():
                            z = Region(q.dom, q.guard, bb, pts, r.where)
                            used |= T._free((z.guard, z.base) + tuple(v for o, v in pts.values()) + tuple(m for w, m in z.dom))
                            nr.append(z)
                    newv[x] = Arr(v.shape, v.base, v.kind, v.regs[:n0] + nr, v.lineage, v.flavour)
            if used & set(rest):
                # a value carried over iterations, without closed form, is used
                fail("value carried over iterations: " + ", ".join(rest[r].name for r in used & set(rest)), s)
            rdlog = {(cell, tuple(subst(i, sol) for i in idx), pos) for cell, idx, pos in rdlog}
            ass = [(tuple(subst(g, sol) for g in gs), subst(b, sol) if b is not None else None, w, m) for gs, b, w, m in ass]
            if isinstance(st, tuple):
                st = (st[0], subst(st[1], sol), st[2])
        # trip count
        if n is None:
            trip = self.trip(cv, t, s)
            if brk:
                trip = add(trip, ONE)
        else:
            trip = n
            if c is not None:
                fail("loop", s)
        # arrays
        post = {}
        for x in newv:
            v, o = newv[x], old[x]
            if isscal(v) and isscal(o):
                continue
            if isinstance(v, Arr) and isinstance(o, Arr) and v.lineage == o.lineage and v.shape == o.shape:
                n0 = len(o.regs)
                regs = v.regs[n0:]
                try:
                    self.check_carried(x, regs, n0, rdlog, t, s)
                except Unmodelled:
                    regs = self.recurrence(x, o, closed, guess, iterate, t, rdlog)
                    if regs is None:
                        raise
                post[x] = Arr(o.shape, o.base, o.kind, o.regs + [
                    delinearise(Region(((t, trip),) + tuple(r.dom), r.guard, r.base, dict(r.pts), r.where), t)
                    for r in regs], o.lineage, o.flavour)
                continue
            if isinstance(v, Arr) and isinstance(o, Arr) and o.flavour == "vec" and v.lineage == o.lineage:
                fail("vector grows in a loop", s)
            # replaced as a whole in each iteration: unknown afterwards unless not used
            if isinstance(v, Arr) and isinstance(o, Arr) and (o.regs or o.base is not UNINIT) and o.shape and v.shape == o.shape:
                sym = T.a_sym("carried %d" % T.raw("y").id, isint=o.kind in "iub", nonneg=o.kind in "ub")
                subs = dict(closed or guess)
                subs[x] = Arr(o.shape, sym, o.kind, [], o.lineage, o.flavour)
                if T.occurs_in(iterate(subs)[2].get(x), sym):
                    fail("array carried over iterations", s)
            post[x] = None
        if any(cell in newv and not isinstance(newv[cell], Arr) and not isscal(newv[cell]) for cell, i, p in rdlog):
            fail("object carried over iterations", s)
        for x, v in closed.items():
            post[x] = subst(v, {t: trip})
        for x, v in finals.items():
            if v is None:
                post[x] = None
                continue
            last = subst(v, {t: sub(trip, ONE)})
            post[x] = self.merge_values(bnot(le0(trip)), last, start[x])
        for gs, b, w, m in ass:
            if b is None:
                self.asserts.append((gs, None, w, m))
                continue
            g = TRUE
            for y in gs[len(self.guards):]:
                g = band(g, y)
            viol = exists([(t, trip)], band(g, bnot(b)))
            self.asserts.append((tuple(self.guards), bnot(viol), w, m))
        if isinstance(st, tuple) and st[0] == "may_ret":
            if any(isinstance(v, Arr) or x in closed and x not in guess for x, v in post.items()):
                fail("state changed in a search loop", s)
            v = st[2]
            if isinstance(v, Poly) and t in v.free or isbool(v) and t in v.free:
                fail("search returns the position", s)
            for x, v2 in post.items():
                self.touch(x)
                x.v = v2
            return ("cond_ret", exists([(t, trip)], st[1]), v)
        if st not in (FALL, CONT):
            fail("exit from a loop", s)
        for x, v in post.items():
            self.touch(x)
            x.v = v
        if self.reads:
            # reads of an inner loop, for the outer loop
            self.reads[-1] |= rdlog
        return FALL

    def trip(self, cv, t, s):
        """Number of iterations from the condition at the start of iteration t."""
        if cv.tag != "bdd" or cv.args[0].tag not in ("le0", "eq0"):
            fail("loop condition", s)
        a, hi, lo = cv.args
        p = a.args[0]
        c = p.t.get(((t, 1),))
        if c is None or sum(t in x.free for m in p.t for x, e in m) != 1:
            fail("loop condition", s)
        rest = sub(p, scale(atom(t), c))
        if a.tag == "eq0":
            if hi is FALSE and lo is TRUE and abs(c) == 1:
                return scale(rest, Fraction(-1) / c)
            fail("loop condition", s)
        if hi is TRUE and lo is FALSE:
            pass
        elif hi is FALSE and lo is TRUE:
            # !(p <= 0)  <=>  -p + 1 <= 0
            c, rest = -c, sub(ONE, rest)
        else:
            fail("loop condition", s)
        if c <= 0:
            fail("loop condition", s)
        if c == 1:
            return add(neg(rest), ONE)
        # c t + rest <= 0: t <= floor(-rest / c)
        return add(fdiv(neg(rest), num(c)), ONE)

    def recurrence(self, cell, old, closed, guess, iterate, t, rdlog):
        """y(i) = y(i - 1) + g(i), with i increasing by one: a running sum."""
        if old.shape is None or len(old.shape) != 1:
            return None
        sym = T.a_sym("carried %d" % T.raw("y").id, isint=old.kind in "iub", nonneg=old.kind in "ub")
        subs = dict(closed or guess)
        subs[cell] = Arr(old.shape, sym, old.kind, [], old.lineage, old.flavour)
        cv, st, newv, was, log, ass = iterate(subs)
        a = newv.get(cell)
        if not isinstance(a, Arr) or len(a.regs) != 1:
            return None
        r = a.regs[0]
        if r.dom or r.guard is not TRUE or len(r.pts) != 1:
            return None
        ((key, (op, val)),) = r.pts.items()
        x = add(r.base[0], num(key[0]))
        if op != "=" or x.t.get(((t, 1),)) != 1 or t in sub(x, atom(t)).free:
            return None
        g = sub(val, T.rd(sym, (sub(x, ONE),), sym.isint, sym.nonneg))
        if T.occurs(g, sym) or any(y is not cell and T.occurs_in(v, sym) for y, v in newv.items()):
            return None
        k = raw("k")
        first = old.read((sub(sub(x, atom(t)), ONE),), self)[0]
        val = add(first, psum([(k, add(atom(t), ONE))], subst(g, {t: atom(k)})))
        return [Region((), TRUE, r.base, {key: ("=", val)}, r.where)]

    def check_carried(self, cell, regs, n0, rdlog, t, s):
        for c2, idx, pos in rdlog:
            if c2 is not cell or pos >= n0:
                continue
            for r in regs:
                for key in r.pts:
                    f = [add(b, num(k)) for b, k in zip(r.base, key)]
                    safe = False
                    for x, y in zip(f, idx):
                        d = sub(x, y)
                        if isconst(d) and constval(d) != 0 and t not in x.free:
                            if not (x.free - {t}) or True:
                                # the same expression but for a constant; inner counters may differ
                                if not any(w in x.free for w, m in r.dom) and not x.free & self.inner(idx):
                                    safe = True
                        if not d.t and t in x.free:
                            c = x.t.get(((t, 1),))
                            if c is not None and sum(t in a.free for m in x.t for a, e in m) == 1:
                                if not any(w in x.free for w, m in r.dom):
                                    safe = True
                        if safe:
                            break
                    if not safe:
                        fail("array element carried over iterations", s)

    def inner(self, idx):
        return frozenset()

    def s_rangefor(self, s):
        d = s["var"]
        r = self.ev(s["range"])
        v = self.rv(r)
        env = self.frames[-1].env
        if isinstance(v, Lst):
            for item in list(v.items):
                if d.get("isref"):
                    env[d["id"]] = item if isinstance(item, Cell) else Cell(item)
                else:
                    env[d["id"]] = Cell(self.copy(self.rv(item)), d["name"], self.ty(d))
                st = self.run(s["body"])
                if st in (FALL, CONT):
                    continue
                if st == BRK:
                    break
                if st == RET:
                    return RET
                fail("exit from a loop over a list", s)
            return FALL
        if isarr(v):
            if v.shape is None:
                fail("range of unknown rank", s)
            base = r if isinstance(r, (Cell, View)) else v
            if len(v.shape) != 1:
                if not v.shape or leaves(s["body"]):
                    fail("range-for over %d-D" % len(v.shape), s)
                return self.s_rangedim({"k": "rangedim", "line": s.get("line"), "body": s["body"], "of": (s, d, base, v.shape, ())})
            n = v.shape[0]
            c = const_int(n)
            if c is not None and c <= UNROLL:
                for k in range(c):
                    self.bind_elem(env, d, base, num(k))
                    st = self.run(s["body"])
                    if st in (FALL, CONT):
                        continue
                    if st == BRK:
                        break
                    if st == RET:
                        return RET
                    fail("exit from a range loop", s)
                return FALL
            return self.symbolic_loop(None, None, s["body"], s, setup=lambda tp: self.bind_elem(env, d, base, tp), n=n)
        fail("range-for over %s" % type(v).__name__, s)

    def s_rangedim(self, s):
        """One of the loops of a range-for over an array of several dimensions (row-major)."""
        o, d, base, shape, idx = s["of"]
        env = self.frames[-1].env
        n = shape[len(idx)]
        c = const_int(n)

        def inner(k):
            i = idx + (k,)
            if len(i) == len(shape):
                self.bind_elem(env, d, base, i)
                return s["body"]
            return [{"k": "rangedim", "line": s.get("line"), "body": s["body"], "of": (o, d, base, shape, i)}]

        if c is not None and c <= UNROLL:
            for k in range(c):
                st = self.run(inner(num(k)))
                if st == RET:
                    return RET
                if st not in (FALL, CONT):
                    fail("exit from a range loop", o)
            return FALL
        if len(idx) + 1 == len(shape):
            return self.symbolic_loop(None, None, s["body"], s, setup=inner, n=n)
        k = Cell(ZERO)
        nxt = [{"k": "rangedim", "line": s.get("line"), "body": s["body"], "of": (o, d, base, shape, idx + (k,))}]
        return self.symbolic_loop(None, None, nxt, s, setup=lambda tp: setattr(k, "v", tp), n=n)

    def bind_elem(self, env, d, base, k):
        k = tuple(x.v if isinstance(x, Cell) else x for x in k) if isinstance(k, tuple) else (k,)
        if d.get("isref") and isinstance(base, (Cell, View)):
            env[d["id"]] = Elem(base, k)
        else:
            x = self.elem(base, k)
            if self.kind_of(base) == "b":
                x = tobool(x)
            env[d["id"]] = Cell(x, d["name"], self.ty(d))
