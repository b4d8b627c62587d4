"""Loop summarisation.  A loop is described by a finite set of phases G(t): abstract states whose numeric
slots, segment bounds, segment contents and trace are linear in an iteration counter t >= 0.  A phase is
guessed from two consecutive iterations and accepted only after one generic iteration from G(t) has been
analysed and every back edge shown to land in some phase again (induction)."""
from dom import *
from state import *

MAX_ENTRIES = 40
MAX_PEEL = 4


def norm_header(st):
    normalize(st)
    st.sig = ()


def prune(F, lp, st):
    keep = {p.id for p in F.blocks[lp.header].phis}
    dead = lp.defs
    if dead is None:
        dead = set()
        for b in lp.blocks:
            for i in F.blocks[b].instrs:
                if i.id not in keep:
                    dead.add(i.id)
        lp.defs = dead
    st.regs = {k: v for k, v in st.regs.items() if k not in dead}


def iterate(ip, F, lp, st):
    """(outs, reports) of one iteration from a header state"""
    s = st.fork()
    s.sig = ()
    with ip.capture() as rep:
        work, outs = [], []
        ip.run_block(F, s, lp.header, work, outs)
        outs += ip.explore(F, work, lp)
    keep = []
    for o in outs:
        if o[0] == 'back':
            w = wrapped(ip, F, lp, st, o[1])
            if w:
                with ip.capture() as r:
                    ip.report('wrap', f"the {w}-bit counter of a loop in {F.name} wraps around before it reaches its bound", o[1], last_ins(F, lp))
                rep += r
                continue
            prune(F, lp, o[1])
            normalize(o[1])
        keep.append(o)
    return keep, rep


def last_ins(F, lp):
    ins = F.blocks[lp.header].instrs
    return ins[-1] if ins else None


def wrapped(ip, F, lp, a, b):
    """the width of a counter of the loop that wrapped around in the turn from a to b"""
    new = b.ex.get('wrap', ())[len(a.ex.get('wrap', ())):]
    for fn, i, w in new:
        if fn == F.name and b.exact and any(x.kind == 'reg' and x.v == i for p in F.blocks[lp.header].phis for x in p.x.values()):
            return w
    return 0


# ------------------------------------------------------------ alignment / generalisation

def _constb(s):
    return s.lo.isc() and s.hi.isc()


def align(A, B):
    """split constant-bounded scalar segments of A at the constant bounds of B"""
    cuts = sorted({x.c for s in B for x in (s.lo, s.hi) if x.isc()})
    out = []
    for s in A:
        if not _constb(s) or s.st == 'any':
            out.append(s)
            continue
        cs = [c for c in cuts if s.lo.c < c < s.hi.c]
        for c in cs:
            if s.typ not in ('', 'zero') and (c - s.lo.c) % s.stride:
                continue
            a, s = split_seg(s, Lin(c))
            out.append(a)
        out.append(s)
    return out


def unzero(A, B):
    """represent zero-filled pieces as scalars where B has a scalar of the same extent"""
    out = []
    for s in A:
        if s.typ == 'zero':
            for b in B:
                if b.typ == 's' and b.lo == s.lo and b.hi == s.hi:
                    s = Seg(s.lo, s.hi, 'live', 's', b.stride, NULL if isinstance(b.val, Ptr) else ZERO)
                    break
        out.append(s)
    return out


def gen_lin(t, cons):
    def f(x, y):
        d = y - x
        if d == ZERO or entails_eq(cons, d):
            return x
        if not d.isc():
            raise Mismatch(f"step {d} not constant")
        return x + t * d.c
    return f


def gen_val(a, wa, b, wb, f, t):
    one_a, one_b = wa is not None and wa == ONE, wb is not None and wb == ONE
    if one_a:
        a = subst_val(a, {K: ZERO})
    if one_b:
        b = subst_val(b, {K: ZERO})
    if a == b:
        return a
    if one_a and not one_b:
        b0 = subst_val(b, {K: ZERO})

        def g(x, y3):
            return None
        # content = b(K) + (t-1) * (b(0) - a)
        g1 = zip_lin(a, b0, lambda x, y: Lin(0) if x == y else _cdelta(x, y))
        return zip_lin(b, g1, lambda y, d: y + (t - 1) * d.c)
    return zip_lin(a, b, f)


def _cdelta(x, y):
    d = y - x
    if not d.isc():
        raise Mismatch(f"content step {d} not constant")
    return d


def zip_segs(A, B, f, t, typed=True):
    if len(A) != len(B):
        raise Mismatch(f"{len(A)} / {len(B)} segments")
    out = []
    for a, b in zip(A, B):
        if typed:
            if (a.st, a.typ, a.stride) != (b.st, b.typ, b.stride):
                raise Mismatch(f"segment kinds {a} / {b}")
            v = gen_val(a.val, seg_width(a), b.val, seg_width(b), f, t)
            out.append(Seg(f(a.lo, b.lo), f(a.hi, b.hi), a.st, a.typ, a.stride, v))
        else:
            v = gen_val(a.val, a.hi - a.lo, b.val, b.hi - b.lo, f, t)
            out.append(TSeg(f(a.lo, b.lo), f(a.hi, b.hi), v))
    return tuple(out)


def generalize(F, lp, a, b, tn):
    """G(t) with G(0)=a and G(1)=b, or Mismatch"""
    t = sym(tn)
    cons = b.cons
    f = gen_lin(t, cons)
    g = a.fork()
    for p in F.blocks[lp.header].phis:
        va, vb = a.regs.get(p.id), b.regs.get(p.id)
        if va is None or vb is None:
            raise Mismatch("phi")
        g.regs[p.id] = zip_lin(va, vb, f) if not isinstance(va, bool) else _same(va, vb)
    if set(a.mem) != set(b.mem):
        raise Mismatch("object sets differ")
    for i, oa in a.mem.items():
        ob = b.mem[i]
        if oa is ob or oa == ob:
            continue
        if oa.alive != ob.alive or oa.kind != ob.kind:
            raise Mismatch("object liveness")
        A = norm_segs(oa.segs, cons)
        B = norm_segs(ob.segs, cons)
        try:
            A2, B2 = unzero(A, B), unzero(B, A)
            g.mem[i] = oa._replace(segs=zip_segs(A2, B2, f, t))
        except Mismatch:
            A2, B2 = align(A, B), align(B, A)
            A2, B2 = unzero(A2, B2), unzero(B2, A2)
            g.mem[i] = oa._replace(segs=zip_segs(A2, B2, f, t))
    g.trace = zip_segs(norm_trace(a.trace, cons), norm_trace(b.trace, cons), f, t, False)
    g.tlen = f(a.tlen, b.tlen)
    check_ex(a, b)
    return g


def _same(x, y):
    if x != y:
        raise Mismatch
    return x


def check_ex(a, b):
    for k in set(a.ex) | set(b.ex):
        if k == 'opq':
            continue
        if a.ex.get(k) != b.ex.get(k):
            raise Mismatch("auxiliary state " + k)


# ------------------------------------------------------------ subsumption

class Phase:
    def __init__(self, g, tn, inv):
        self.g, self.tn, self.inv = g, tn, list(inv)
        self.exact = True


def _eqs(F, lp, ph, b):
    """pairs (G slot, state slot) of linear expressions that must agree"""
    out = []

    def f(x, y):
        out.append((x, y))
        return x
    g = ph.g
    for p in F.blocks[lp.header].phis:
        zip_lin(g.regs[p.id], b.regs[p.id], f) if not isinstance(g.regs[p.id], bool) else None
    out.append((g.tlen, b.tlen))
    return out


def _mem_eqs(ph, b):
    out = []

    def f(x, y):
        out.append((x, y))
        return x
    for i, og in ph.g.mem.items():
        ob = b.mem.get(i)
        if ob is None or og.segs == ob.segs:
            continue
        B = norm_segs(ob.segs, b.cons)
        A = og.segs
        if len(A) != len(B):
            B = align(B, og.segs)
            A = align(og.segs, B)
        if len(A) == len(B):
            for x, y in zip(A, B):
                out.append((x.lo, y.lo))
                out.append((x.hi, y.hi))
                try:
                    if x.typ == 's' and y.typ == 's':
                        zip_lin(x.val, y.val, f)
                except Mismatch:
                    pass
    return out


def subsumed(F, lp, ph, b):
    """the parameter value tau with G(tau) == b (under b.cons), or None"""
    tn = ph.tn
    g = ph.g
    if set(g.mem) != set(b.mem):
        return None
    try:
        check_ex(g, b)
        tau = None
        eqs = _eqs(F, lp, ph, b)
        for src in (eqs, None):
            if src is None:
                src = _mem_eqs(ph, b)
            for x, y in src:
                k = x.coef(tn)
                if k:
                    # k*t + rest == y
                    rest = x - sym(tn) * k
                    q = (y - rest).div(abs(k))
                    if q is None:
                        return None
                    tau = q if k > 0 else -q
                    break
            if tau is not None:
                break
        if tau is None:
            tau = ZERO
        m = {tn: tau}
        for x, y in eqs:
            if not entails_eq(b.cons, x.subst(m) - y):
                return None
        for p in F.blocks[lp.header].phis:
            if isinstance(g.regs[p.id], bool) and g.regs[p.id] != b.regs[p.id]:
                return None
    except Mismatch:
        return None
    if not entails(b.cons, tau):
        return None
    for i, og in g.mem.items():
        ob = b.mem[i]
        if og is ob or og == ob:
            continue
        if og.alive != ob.alive:
            return None
        A = [Seg(s.lo.subst(m), s.hi.subst(m), s.st, s.typ, s.stride, subst_val(s.val, m)) for s in og.segs]
        B = list(ob.segs)
        A, B = align(A, B), align(B, A)
        A, B = unzero(A, B), unzero(B, A)
        if segs_equal(b.cons, A, B) is not None:
            return None
    A = [TSeg(s.lo.subst(m), s.hi.subst(m), subst_val(s.val, m)) for s in g.trace]
    if segs_equal(b.cons, A, b.trace, typed=False) is not None:
        return None
    return tau


def solve_out(st, tn):
    """eliminate tn from a state when an equality determines it"""
    for c in sorted(st.cons, key=lambda c: (len(c.t), repr(c))):
        k = c.coef(tn)
        if k in (1, -1) and entails(st.cons, -c):
            rest = c - sym(tn) * k
            rep = rest * (-k)
            st.substitute({tn: rep})
            return True
    return False


# ------------------------------------------------------------ driver

def repeats(F, lp, a, b):
    """one turn of the loop led from state a back to the very same state"""
    if a.trace != b.trace or a.cons != b.cons or a.ex != b.ex or not b.exact:
        return False
    for p in F.blocks[lp.header].phis:
        if a.regs.get(p.id) != b.regs.get(p.id):
            return False
    ma = {i: o for i, o in a.mem.items() if o.alive}
    mb = {i: o for i, o in b.mem.items() if o.alive}
    return ma == mb


def hang(ip, F, lp, st):
    ip.report('hang', f"a loop in {F.name} repeats without changing anything: it never ends", st, last_ins(F, lp))


def unroll(ip, F, lp, st):
    outs = []
    cur = [st]
    n = 0
    while cur:
        n += 1
        if n > ip.unroll:
            raise Undecided(f"loop not finished after {ip.unroll} iterations")
        nxt = []
        for s in cur:
            o, rep = iterate(ip, F, lp, s)
            ip.reports += rep
            for x in o:
                if x[0] == 'back':
                    if repeats(F, lp, s, x[1]):
                        hang(ip, F, lp, x[1])
                        continue
                    nxt.append(x[1])
                else:
                    outs.append(x)
        cur = nxt
        if len(cur) > 400:
            raise Undecided("too many loop states")
    return outs


def _emit(ip, outs, rep, res):
    ip.reports += rep
    for o in outs:
        if o[0] != 'back':
            res.append(o)


def straight(ip, F, lp, st, limit=8):
    """a loop whose every test is decided: followed to its end, if that comes soon"""
    cur = st
    rep = []
    for _ in range(limit):
        try:
            outs, r = iterate(ip, F, lp, cur)
        except Undecided:
            return None
        rep += r
        backs = [o for o in outs if o[0] == 'back']
        if not backs:
            ip.reports += rep
            return outs
        if len(outs) != 1:
            return None
        if repeats(F, lp, cur, backs[0][1]):
            ip.reports += rep
            hang(ip, F, lp, cur)
            return []
        cur = backs[0][1]
    return None


def analyze(ip, F, lp, st):
    prune(F, lp, st)
    if ip.unroll:
        return unroll(ip, F, lp, st)
    ip.loops_n += 1
    norm_header(st)
    r = straight(ip, F, lp, st)
    if r is not None:
        return r
    res = []
    phases = []
    entries = [(st, 0)]
    count = 0
    while entries:
        e, peel = entries.pop()
        count += 1
        if count > MAX_ENTRIES:
            raise Undecided("loop phases")
        if any(subsumed(F, lp, ph, e) is not None for ph in phases):
            continue
        outs0, rep0 = iterate(ip, F, lp, e)
        backs = [o[1] for o in outs0 if o[0] == 'back']
        if not backs:
            _emit(ip, outs0, rep0, res)
            continue
        made = build(ip, F, lp, e, backs, phases)
        if made is None:
            if peel >= MAX_PEEL:
                raise Undecided(f"loop in {F.name} not summarised: {ip.loop_why}")
            _emit(ip, outs0, rep0, res)
            for b in backs:
                b.sig = ()
                entries.append((b, peel + 1))
            continue
        ph, covers_e, outs, rep, newb = made
        ip.phases_n += 1
        phases.append(ph)
        if not covers_e:
            _emit(ip, outs0, rep0, res)
            for b in backs:
                if subsumed(F, lp, ph, b) is None:
                    entries.append((b, peel))
        ip.reports += rep
        for o in outs:
            if o[0] != 'back':
                solve_out(o[1], ph.tn)
                if not ph.exact:
                    o[1].exact = False
                res.append(o)
        for b in newb:
            solve_out(b, ph.tn)
            if not ph.exact:
                b.exact = False
            b.sig = ()
            normalize(b)
            entries.append((b, peel))
    return res


def build(ip, F, lp, e, backs, phases):
    """(phase, covers_e, outs, reports, new entry states) or None"""
    ip.loop_why = 'no repeating path'
    for b0 in backs:
        try:
            outs1, _ = iterate(ip, F, lp, b0)
        except Undecided as u:
            ip.loop_why = str(u)
            continue
        for o in outs1:
            if o[0] != 'back' or o[1].sig != b0.sig:
                continue
            b1 = o[1]
            tn = fresh('t')
            try:
                g = generalize(F, lp, b0, b1, tn)
            except Mismatch as m:
                ip.loop_why = str(m)
                continue
            r = try_phase(ip, F, lp, e, b0, g, tn)
            if r is not None:
                return r
    return None


def try_phase(ip, F, lp, e, b0, g, tn):
    t = sym(tn)
    # G(-1) == e ?
    g1 = g.fork()
    g1.cons = e.cons
    g1.substitute({tn: t - 1})
    g1.cons = e.cons
    ph = Phase(g1, tn, [])
    # e is G(0) of the shifted phase
    probe = e.fork()
    first = None
    if eq_at(F, lp, ph, probe):
        r = verify(ip, F, lp, ph, e)
        if r is not None:
            first = (r[0], True, r[1], r[2], r[3])
            if r[0].exact:
                return first
    g0 = g.fork()
    g0.cons = b0.cons
    ph = Phase(g0, tn, [])
    r = verify(ip, F, lp, ph, b0)
    if r is not None and (first is None or r[0].exact):
        return r[0], False, r[1], r[2], r[3]
    return first


def eq_at(F, lp, ph, e):
    """G(0) == e"""
    g = ph.g
    m = {ph.tn: ZERO}
    h = Phase(g.fork(), ph.tn, [])
    h.g.substitute(m)
    return subsumed(F, lp, h, e) is not None


def verify(ip, F, lp, ph, base):
    t = sym(ph.tn)
    ph.g.sig = ()
    base_cons = base.cons
    inv = None
    for rnd in range(12):
        g = ph.g.fork()
        g.exact = base.exact
        cons = set(base_cons)
        cons.add(t)
        for c in inv or ():
            cons.add(tighten(c))
        g.cons = frozenset(cons)
        try:
            outs, rep = iterate(ip, F, lp, g)
        except Undecided as u:
            if inv is None:
                ip.loop_why = str(u)
                return None
            ip.loop_why = str(u)
            return None
        backs = [o[1] for o in outs if o[0] == 'back']
        # the phase itself, with no constraint on its parameter, must contain a back edge
        taus = []
        cover = []
        for b in backs:
            tau = subsumed(F, lp, ph, b)
            taus.append(tau)
            if tau is not None:
                cover.append((b, tau))
        if not cover:
            ip.loop_why = 'step not inductive'
            return None
        if inv is None:
            # candidate invariants: path constraints of the covered back edges, one step earlier
            inv = []
            seen = set()
            for b, tau in cover:
                if tau != t + 1:
                    continue
                for c in b.cons - g.cons:
                    if c.coef(ph.tn) == 0 or any(sym_no(s) > sym_no(ph.tn) for s in c.syms()):
                        continue
                    c1 = c.subst({ph.tn: t - 1})
                    if c1 in seen:
                        continue
                    seen.add(c1)
                    if entails(base_cons, c1.subst({ph.tn: ZERO})):
                        inv.append(c1)
            if inv:
                continue
        keep = []
        for c in inv:
            ok = True
            for b, tau in cover:
                if not entails(b.cons, c.subst({ph.tn: tau})):
                    ok = False
                    break
            if ok:
                keep.append(c)
        if len(keep) != len(inv):
            inv = keep
            continue
        ph.inv = inv
        ph.g.cons = g.cons
        # exactness: every t that satisfies the invariants is reached
        ph.exact = True
        for b, tau in cover:
            if tau != t + 1:
                continue
            good = True
            for c in b.cons - g.cons:
                if c.coef(ph.tn) > 0 or any(sym_no(s) > sym_no(ph.tn) for s in c.syms()):
                    good = False
                elif not entails(g.cons, c.subst({ph.tn: t - 1})):
                    good = False
                if not good:
                    break
            if good:
                break
        else:
            ph.exact = False
        if not ph.exact:
            for o in outs:
                o[1].exact = False
            for r in rep:
                r.exact = False
        newb = [b for b, tau in zip(backs, taus) if tau is None]
        return ph, outs, rep, newb
    ip.loop_why = 'invariants did not stabilise'
    return None
