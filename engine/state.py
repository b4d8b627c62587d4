"""Abstract state: numeric constraints, memory as symbolic segment lists, event trace."""
from collections import namedtuple
from dom import *

# one segment [lo,hi) of an object, in bytes.  st: 'raw' (no live object), 'live', 'any' (unknown).
# typ: 's' scalar of size `stride`; 'zero' zero bytes; otherwise the name of an opaque element class.
# val: content of the element at position K counted from lo (symbol K of dom)
Seg = namedtuple('Seg', 'lo hi st typ stride val')
Obj = namedtuple('Obj', 'id kind name size segs alive family frame')
TSeg = namedtuple('TSeg', 'lo hi val')     # trace segment


class Undecided(Exception):
    pass


_ctr = [0]


def fresh_id():
    _ctr[0] += 1
    return _ctr[0]


def fresh(prefix='x'):
    return f"{prefix}#{fresh_id()}"


def sym_no(s):
    return int(s.rsplit('#', 1)[1]) if '#' in s else 0


class State:
    __slots__ = ('cons', 'regs', 'mem', 'trace', 'tlen', 'exact', 'ex', 'sig', 'note')

    def __init__(self):
        self.cons = frozenset()
        self.regs = {}
        self.mem = {}
        self.trace = ()
        self.tlen = ZERO
        self.exact = True
        self.ex = {}
        self.sig = ()
        self.note = ()

    def fork(self):
        s = State.__new__(State)
        s.cons, s.regs, s.mem = self.cons, dict(self.regs), dict(self.mem)
        s.trace, s.tlen, s.exact, s.ex, s.sig, s.note = self.trace, self.tlen, self.exact, dict(self.ex), self.sig, self.note
        return s

    # ---- numeric
    def ge0(self, e):
        """True / False / None (undetermined) for e >= 0"""
        if not e.t:
            return e.c >= 0
        if entails(self.cons, e):
            return True
        if entails(self.cons, -e - 1):
            return False
        return None

    def eq0(self, e):
        if not e.t:
            return e.c == 0
        a, b = self.ge0(e), self.ge0(-e)
        if a is False or b is False:
            return False
        if a and b:
            return True
        return None

    def assume(self, e):
        """add e >= 0 (caller made sure it is feasible)"""
        e = tighten(e)
        if e.t and e not in self.cons:
            self.cons = self.cons | {e}
        return self

    def split(self, e):
        """[(state, bool)] for e >= 0"""
        d = self.ge0(e)
        if d is not None:
            return [(self, d)]
        a = self.fork()
        a.assume(e)
        b = self
        b.assume(-e - 1)
        return [(a, True), (b, False)]

    def split_eq(self, e):
        d = self.eq0(e)
        if d is not None:
            return [(self, d)]
        out = []
        a = self.fork()
        if feasible_with(a.cons, e, -e):
            a.assume(e)
            a.assume(-e)
            out.append((a, True))
        d1 = self.ge0(e)
        if d1 is True:            # e >= 1
            self.assume(e - 1)
            out.append((self, False))
            return out
        d2 = self.ge0(-e)
        if d2 is True:
            self.assume(-e - 1)
            out.append((self, False))
            return out
        b = self.fork()
        if feasible_with(b.cons, e - 1):
            b.assume(e - 1)
            out.append((b, False))
        if feasible_with(self.cons, -e - 1):
            self.assume(-e - 1)
            out.append((self, False))
        return out

    # ---- whole-state substitution (of a symbol private to the current frame and memory)
    def substitute(self, m):
        self.regs = {k: subst_val(v, m) for k, v in self.regs.items()}
        mem = {}
        for i, o in self.mem.items():
            segs = tuple(Seg(s.lo.subst(m), s.hi.subst(m), s.st, s.typ, s.stride, subst_val(s.val, m)) for s in o.segs)
            mem[i] = o._replace(segs=segs, size=o.size.subst(m) if o.size is not None else None)
        self.mem = mem
        self.trace = tuple(TSeg(s.lo.subst(m), s.hi.subst(m), subst_val(s.val, m)) for s in self.trace)
        self.tlen = self.tlen.subst(m)
        self.ex = {k: subst_val(v, m) for k, v in self.ex.items()}
        cons = set()
        for c in self.cons:
            x = tighten(c.subst(m))
            if x.t:
                cons.add(x)
            elif x.c < 0:
                cons.add(x)
        self.cons = frozenset(cons)


# ---------------------------------------------------------------- segments

def raw_seg(lo, hi):
    return Seg(lo, hi, 'raw', '', 1, ())


def seg_width(s):
    """width in elements, or None"""
    return (s.hi - s.lo).div(s.stride)


def at(s, n):
    """content at element n of segment s"""
    return subst_val(s.val, {K: L(n)})


def shift(v, n):
    return subst_val(v, {K: KAPPA + n})


def split_seg(s, pos):
    """split at byte position pos (lo<pos<hi assumed)"""
    if s.st == 'raw':
        return s._replace(hi=pos), s._replace(lo=pos)
    if s.typ == 'zero' or s.st == 'any':
        return s._replace(hi=pos), s._replace(lo=pos)
    d = (pos - s.lo).div(s.stride)
    if d is None:
        a = s._replace(hi=pos, st='any', typ='', stride=1, val=())
        b = s._replace(lo=pos, st='any', typ='', stride=1, val=())
        return a, b
    return s._replace(hi=pos), s._replace(lo=pos, val=shift(s.val, d))


def _single(w):
    return w is not None and not w.t and w.c == 1


def merge_val(va, wa, vb, wb, cons, scalar=False):
    """content of the concatenation of two runs (lossless) or None"""
    if va == vb == ():
        return ()
    if wa is None or wb is None:
        return None
    try:
        if _single(wa) and _single(wb):
            a = subst_val(va, {K: ZERO})
            b = subst_val(vb, {K: ZERO})
            if a == b:
                return a
            if scalar and (isinstance(a, (Lin, Ptr)) or isinstance(b, (Lin, Ptr))):
                return None

            def f(x, y):
                d = y - x
                if entails_eq(cons, d):
                    return x
                if not d.isc():
                    raise Mismatch
                return x + KAPPA * d.c
            return zip_lin(a, b, f)
        if _single(wa):
            # prepend: f(k) = vb(k-1); check f(0) == a
            f = shift(vb, L(-1))
            a = subst_val(va, {K: ZERO})
            f0 = subst_val(f, {K: ZERO})
            return f if veq(a, f0, cons) else None
        if _single(wb):
            b = subst_val(vb, {K: ZERO})
            fb = subst_val(va, {K: wa})
            return va if veq(b, fb, cons) else None
        return va if veq(shift(va, wa), vb, cons) else None
    except Mismatch:
        return None


def veq(a, b, cons, width1=False):
    """values equal for every K (entailed)?"""
    if a == b:
        return True
    if width1:
        a, b = subst_val(a, {K: ZERO}), subst_val(b, {K: ZERO})
        if a == b:
            return True

    def f(x, y):
        d = x - y
        if d.coef(K) != 0:
            raise Mismatch
        if not entails_eq(cons, d):
            raise Mismatch
        return x
    try:
        zip_lin(a, b, f)
        return True
    except Mismatch:
        return False


def norm_segs(segs, cons):
    out = []
    for s in segs:
        if s.lo == s.hi or entails_eq(cons, s.hi - s.lo):
            continue
        if out:
            p = out[-1]
            if p.st == s.st and p.typ == s.typ and p.stride == s.stride:
                if s.st in ('raw', 'any') or s.typ == 'zero':
                    out[-1] = p._replace(hi=s.hi)
                    continue
                v = None if (p.typ == 's' and isinstance(p.val, (Lin, Ptr)) and p.stride >= 8) else \
                    merge_val(p.val, seg_width(p), s.val, seg_width(s), cons, p.typ == 's')
                if v is not None:
                    out[-1] = p._replace(hi=s.hi, val=v)
                    continue
        out.append(s)
    return tuple(out)


def norm_trace(tr, cons):
    out = []
    for s in tr:
        if s.lo == s.hi or entails_eq(cons, s.hi - s.lo):
            continue
        if out:
            p = out[-1]
            v = merge_val(p.val, p.hi - p.lo, s.val, s.hi - s.lo, cons)
            if v is not None:
                out[-1] = TSeg(p.lo, s.hi, v)
                continue
        out.append(s)
    return tuple(out)


def normalize(st):
    mem = {}
    for i, o in st.mem.items():
        if len(o.segs) > 1:
            o = o._replace(segs=norm_segs(o.segs, st.cons))
        mem[i] = o
    st.mem = mem
    if len(st.trace) > 1:
        st.trace = norm_trace(st.trace, st.cons)


def segs_equal(cons, A, B, typed=True, depth=5):
    """None if both segment lists denote the same memory under cons, else a reason string."""
    A = norm_segs(A, cons) if typed else norm_trace(A, cons)
    B = norm_segs(B, cons) if typed else norm_trace(B, cons)
    bad = None
    for i in range(max(len(A), len(B))):
        if i >= len(A) or i >= len(B):
            bad = f"different number of segments: {A} / {B}"
            break
        a, b = A[i], B[i]
        if not entails_eq(cons, a.lo - b.lo) or not entails_eq(cons, a.hi - b.hi):
            bad = f"bounds differ: [{a.lo},{a.hi}) / [{b.lo},{b.hi})"
            break
        if typed:
            if (a.st, a.typ, a.stride) != (b.st, b.typ, b.stride):
                bad = f"state differs on [{a.lo},{a.hi}): {a.st} {a.typ} / {b.st} {b.typ}"
                break
            w = seg_width(a)
        else:
            w = a.hi - a.lo
        one = _single(w) or (w is not None and a.val != b.val and entails_eq(cons, w - 1))
        if not veq(a.val, b.val, cons, one):
            bad = f"content differs on [{a.lo},{a.hi}): {a.val} / {b.val}"
            break
    if bad is None:
        return None
    if depth > 0:
        # case split on a possibly empty segment
        for s in list(A) + list(B):
            w = s.hi - s.lo
            if not w.isc() and not entails(cons, w - 1):
                if feasible_with(cons, -w, w):
                    c1 = frozenset(cons | {tighten(w), tighten(-w)})
                    r = segs_equal(c1, A, B, typed, depth - 1)
                    if r is not None:
                        return r
                    if feasible_with(cons, w - 1):
                        c2 = frozenset(cons | {tighten(w - 1)})
                        return segs_equal(c2, A, B, typed, depth - 1)
                    return None
    return bad
