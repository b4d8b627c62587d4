"""Numeric domain: linear expressions over integer symbols and conjunctions of linear inequalities
(closed polyhedra, emptiness by Fourier-Motzkin elimination with integer tightening), plus generic
traversal of abstract values."""
from math import gcd
from functools import lru_cache
from collections import namedtuple

K = '~k'          # the element-position symbol inside segment contents
BIG = 1 << 40     # every size/index that a caller supplies is assumed below this


class Lin:
    __slots__ = ('c', 't', '_h')

    def __init__(self, c, t=()):
        self.c = c
        self.t = t
        self._h = hash((c, t))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self._h == o._h and self.c == o.c and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t)
        if not o.t:
            return Lin(self.c + o.c, self.t)
        if not self.t:
            return Lin(self.c + o.c, o.t)
        d = dict(self.t)
        for s, k in o.t:
            v = d.get(s, 0) + k
            if v:
                d[s] = v
            else:
                d.pop(s, None)
        return Lin(self.c + o.c, tuple(sorted(d.items())))

    __radd__ = __add__

    def __neg__(self):
        return Lin(-self.c, tuple((s, -k) for s, k in self.t))

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t)
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, n):
        if n == 0:
            return Lin(0)
        if n == 1:
            return self
        return Lin(self.c * n, tuple((s, k * n) for s, k in self.t))

    __rmul__ = __mul__

    def isc(self):
        return not self.t

    def coef(self, s):
        for a, k in self.t:
            if a == s:
                return k
        return 0

    def syms(self):
        return [s for s, _ in self.t]

    def subst(self, m):
        r = None
        for s, k in self.t:
            if s in m:
                r = True
                break
        if r is None:
            return self
        acc = Lin(self.c)
        rest = []
        for s, k in self.t:
            if s in m:
                acc = acc + m[s] * k
            else:
                rest.append((s, k))
        return acc + Lin(0, tuple(rest))

    def div(self, n):
        """exact division or None"""
        if self.c % n:
            return None
        for _, k in self.t:
            if k % n:
                return None
        return Lin(self.c // n, tuple((s, k // n) for s, k in self.t))

    def __repr__(self):
        o = ''
        for s, k in self.t:
            sn = 'k' if s == K else s
            if k == 1:
                o += f"+{sn}"
            elif k == -1:
                o += f"-{sn}"
            else:
                o += f"{k:+d}*{sn}"
        if self.c or not o:
            o += f"{self.c:+d}" if o else str(self.c)
        return o.lstrip('+')


ZERO = Lin(0)
ONE = Lin(1)


def L(n):
    return n if isinstance(n, Lin) else Lin(n)


def sym(s):
    return Lin(0, ((s, 1),))


KAPPA = sym(K)


def tighten(e):
    """integer normal form of e >= 0"""
    if not e.t:
        return e
    g = 0
    for _, k in e.t:
        g = gcd(g, k)
        if g == 1:
            return e
    return Lin(e.c // g, tuple((s, k // g) for s, k in e.t))


# ---------------------------------------------------------------- emptiness

stats = {'entail': 0, 'fm': 0}


def _fm(cons):
    """True if the conjunction (set of Lin >= 0) is empty over the rationals (after integer tightening)."""
    stats['fm'] += 1
    cur = {}

    def add(d, e):
        e = tighten(e)
        if not e.t:
            return e.c >= 0
        o = d.get(e.t)
        if o is None or e.c < o:
            d[e.t] = e.c
        return True

    for e in cons:
        if not add(cur, e):
            return True
    while cur:
        # equality elimination
        eq = None
        for t, c in cur.items():
            nt = tuple((s, -k) for s, k in t)
            o = cur.get(nt)
            if o is not None:
                if c + o < 0:
                    return True
                if c + o == 0:
                    for s, k in t:
                        if k in (1, -1):
                            eq = (t, c, s, k)
                            break
                    if eq:
                        break
        if eq:
            t, c, s, k = eq
            # k*s + rest + c == 0  ->  s = -(rest + c)/k
            rest = Lin(c, tuple((a, b) for a, b in t if a != s))
            rep = {s: rest * (-k)}
            nxt = {}
            for t2, c2 in cur.items():
                if not add(nxt, Lin(c2, t2).subst(rep)):
                    return True
            cur = nxt
            continue
        pos, neg = {}, {}
        for t in cur:
            for s, k in t:
                if k > 0:
                    pos[s] = pos.get(s, 0) + 1
                else:
                    neg[s] = neg.get(s, 0) + 1
        best, bs = None, None
        for s in set(pos) | set(neg):
            p, n = pos.get(s, 0), neg.get(s, 0)
            v = p * n - p - n
            if best is None or v < best:
                best, bs = v, s
        s = bs
        P_, N_, R_ = [], [], {}
        for t, c in cur.items():
            k = 0
            for a, b in t:
                if a == s:
                    k = b
                    break
            if k > 0:
                P_.append((k, t, c))
            elif k < 0:
                N_.append((-k, t, c))
            else:
                R_[t] = c
        if len(P_) * len(N_) + len(R_) > 4000:
            return False
        for kp, tp, cp in P_:
            for kn, tn, cn in N_:
                e = Lin(cp, tp) * kn + Lin(cn, tn) * kp
                if not add(R_, e):
                    return True
        cur = R_
    return False


def _component(cons, syms):
    if not syms:
        return list(cons)
    todo = set(syms)
    out = []
    rest = list(cons)
    seen = set()
    while todo:
        seen |= todo
        nrest = []
        new = set()
        for e in rest:
            ss = [s for s, _ in e.t]
            if any(s in seen for s in ss):
                out.append(e)
                for s in ss:
                    if s not in seen:
                        new.add(s)
            else:
                nrest.append(e)
        rest = nrest
        todo = new
    return out


_ecache = {}


def entails(cons, e):
    """conjunction cons |= e >= 0 ?"""
    if not e.t:
        return e.c >= 0
    e = tighten(e)
    if e in cons:
        return True
    key = (cons, e)
    r = _ecache.get(key)
    if r is None:
        stats['entail'] += 1
        # quick: single constraint with the same linear part
        r = False
        for c in cons:
            if c.t == e.t and c.c <= e.c:
                r = True
                break
        if not r:
            neg = -e - 1
            comp = _component(cons, e.syms())
            big = abs(e.c) >= (1 << 31)
            if big:
                comp = comp + [Lin(BIG, ((s, -1),)) for s in {s for x in comp for s in x.syms()} | set(e.syms())]
            r = _fm(comp + [neg])
        if len(_ecache) > 400000:
            _ecache.clear()
        _ecache[key] = r
    return r


def entails_eq(cons, e):
    if not e.t:
        return e.c == 0
    return entails(cons, e) and entails(cons, -e)


def feasible_with(cons, *es):
    es = [tighten(e) for e in es]
    for e in es:
        if not e.t and e.c < 0:
            return False
    syms = [s for e in es for s in e.syms()]
    comp = _component(cons, syms) if syms else []
    return not _fm(comp + [e for e in es if e.t])


def least(cons, s):
    """candidates for a symbol that has to be larger than the usual ones: its smallest values"""
    hi = 128
    while _fm(cons + [Lin(hi) - sym(s)]):
        hi *= 2
        if hi > 1 << 66:
            return ()
    lo = hi // 2
    while lo + 1 < hi:
        m = (lo + hi) // 2
        if _fm(cons + [Lin(m) - sym(s)]):
            lo = m
        else:
            hi = m
    return (hi, hi + 1, hi + 2)


def find_model(cons, hints=None, extra=()):
    """an integer point of the polyhedron, or None.  Values as small as possible."""
    cons = [tighten(e) for e in list(cons) + list(extra)]
    syms = sorted({s for e in cons for s in e.syms()})
    budget = [400]

    def rec(cons, syms):
        budget[0] -= 1
        if budget[0] < 0:
            return None
        if _fm(cons):
            return None
        if not syms:
            return {} if all(e.c >= 0 for e in cons) else None
        s = syms[0]
        cand = (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 33, 64, -1)
        if _fm(cons + [Lin(64) - sym(s)]):
            cand = least(cons, s)
        for v in cand:
            m = {s: Lin(v)}
            c2 = []
            ok = True
            for e in cons:
                x = e.subst(m)
                if not x.t:
                    if x.c < 0:
                        ok = False
                        break
                else:
                    c2.append(x)
            if ok:
                r = rec(c2, syms[1:])
                if r is not None:
                    r[s] = v
                    return r
            if budget[0] < 0:
                return None
        return None

    return rec(cons, syms)


# ---------------------------------------------------------------- abstract values

Ptr = namedtuple('Ptr', 'obj off')        # obj 0 is the null pointer
NULL = Ptr(0, ZERO)
UNDEF = ('Undef',)
ANY = ('Any',)
MOVED = ('Moved',)
DEFAULT = ('Default',)


class Mismatch(Exception):
    pass


_GROUND = {}


def ground(v):
    """no index or other unknown occurs in the term (remembered for operator terms, which nest deeply)"""
    if isinstance(v, Lin):
        return not v.t
    if isinstance(v, Ptr):
        return not v.off.t
    if not isinstance(v, tuple):
        return True
    if id(v) in _GROUND:
        return True
    for x in v:
        if isinstance(x, (Lin, tuple)) and not ground(x):
            return False
    if v and v[0] == 'App':
        if len(_GROUND) > 200000:
            _GROUND.clear()
        _GROUND[id(v)] = v
    return True


def subst_val(v, m):
    if isinstance(v, Lin):
        return v.subst(m)
    if isinstance(v, Ptr):
        return Ptr(v.obj, v.off.subst(m))
    if isinstance(v, tuple):
        if v and v[0] == 'App' and ground(v):
            return v
        ch = False
        out = []
        for x in v:
            if isinstance(x, (Lin, tuple)):
                y = subst_val(x, m)
                ch = ch or (y is not x)
                out.append(y)
            else:
                out.append(x)
        return tuple(out) if ch else v
    return v


def map_obj(v, om):
    if isinstance(v, Ptr):
        return Ptr(om[v.obj], v.off) if v.obj in om else v
    if isinstance(v, Lin):
        return v
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == 'pi':
            return ('pi', om.get(v[1], v[1]), v[2])
        return tuple(map_obj(x, om) if isinstance(x, tuple) else x for x in v)
    return v


def zip_lin(a, b, f, fo=None):
    """combine two structurally equal values; f on pairs of Lin; fo on pairs of object ids"""
    if isinstance(a, Lin):
        if not isinstance(b, Lin):
            raise Mismatch((a, b))
        return f(a, b)
    if isinstance(a, Ptr):
        if not isinstance(b, Ptr):
            raise Mismatch((a, b))
        o = a.obj
        if a.obj != b.obj:
            if fo is None:
                raise Mismatch((a, b))
            o = fo(a.obj, b.obj)
        return Ptr(o, f(a.off, b.off))
    if isinstance(a, tuple):
        if not isinstance(b, tuple) or isinstance(b, Ptr) or len(a) != len(b):
            raise Mismatch((a, b))
        if len(a) == 3 and a[0] == 'pi' and b[0] == 'pi':
            o = a[1]
            if o != b[1]:
                if fo is None:
                    raise Mismatch((a, b))
                o = fo(a[1], b[1])
            return ('pi', o, f(a[2], b[2]))
        return tuple(zip_lin(x, y, f, fo) for x, y in zip(a, b))
    if a != b:
        raise Mismatch((a, b))
    return a


def val_syms(v, out):
    if isinstance(v, Lin):
        out.update(s for s, _ in v.t)
    elif isinstance(v, tuple):
        for x in v:
            if isinstance(x, (Lin, tuple)):
                val_syms(x, out)


def val_objs(v, out):
    if isinstance(v, Ptr):
        out.add(v.obj)
    elif isinstance(v, Lin):
        return
    elif isinstance(v, tuple):
        if len(v) == 3 and v[0] == 'pi':
            out.add(v[1])
            return
        for x in v:
            if isinstance(x, tuple):
                val_objs(x, out)


def has_any(v):
    if v == ANY:
        return True
    if isinstance(v, Lin):
        return False
    if isinstance(v, tuple):
        return any(has_any(x) for x in v if isinstance(x, tuple))
    return False
