"""Array, ArrVec, Vector: lifetimes, contents, value semantics, capacity, ownership, aliasing."""
from spec import *

DRIVER = 'seq.cpp'
TYPES = {'AV': 'P', 'AVs': 'P', 'AR': 'P', 'VE': 'P', 'AVi': 'int', 'AVsi': 'int', 'ARi': 'int', 'VEi': 'int'}
SC = []
SPARE = True


def scn(*props, name=None):
    def d(f):
        SC.append(Scenario(name or f.__name__, props, f, DRIVER))
        return f
    return d


BOUND = {'AV': True, 'VE': False, 'AR': True}


def no_throw(c, o, what):
    if o.kind == 'throw' and 'libthrow' not in o.st.note:
        c.fail(o, 'throws', f"{what} throws")
        return False
    return o.kind == 'ret'


def outcomes(c, outs, what, refuse=None, hs=(), keep=()):
    """returns the normal outcomes.  refuse: e with 'refused exactly when e >= 0' (None: never).
    On a refused call every handle in hs is unchanged."""
    good = []
    for o in outs:
        if o.kind == 'ret':
            if refuse is not None:
                c.must(o, -refuse - 1, 'refuse', f"{what} is accepted although it must be refused")
            good.append(o)
        elif 'libthrow' in o.st.note:
            continue
        elif refuse is None:
            c.fail(o, 'throws', f"{what} throws although its arguments are valid")
        else:
            c.must(o, refuse, 'refuse', f"{what} is refused although it is within capacity and range")
            for h in hs:
                c.unchanged(o, h)
    return good


def done(c, o, owners):
    c.no_leak(o, owners)


# ---------------------------------------------------------------- construction / destruction

def mk(tn):
    K, T = tn[:2], TYPES[tn]
    z, D = (4, ZERO) if T == 'int' else (24, DEFAULT)
    own = [1] if K == 'VE' else []

    def default_ctor(c):
        w = c.fresh_seq('w', tn)
        for o in outcomes(c, c.run(f'ctor_{tn}', w.ptr), 'default construction'):
            c.expect_seq(o, w, [rep(7, D)] if K == 'AR' else [])
            done(c, o, [w])
    SC.append(Scenario(f'{tn}.default_ctor', ('C01', 'C03', 'C05'), default_ctor, DRIVER))

    def dtor(c):
        v = c.seq('v', tn)
        for o in outcomes(c, c.run(f'dtor_{tn}', v.ptr), 'destruction'):
            c.oblig += 1
            for g in o.st.mem[v.obj].segs:
                if g.st == 'live' and g.typ == T and o.st.ge0(g.hi - g.lo - 1) is not False:
                    c.fail(o, 'leak_elem', "an element is alive after its container was destroyed", (g.hi - g.lo - 1,))
            done(c, o, [])
    SC.append(Scenario(f'{tn}.dtor', ('C01', 'C05'), dtor, DRIVER))

    def copy_ctor(c):
        v, w = c.seq('v', tn), c.fresh_seq('w', tn)
        for o in outcomes(c, c.run(f'copy_{tn}', w.ptr, v.ptr), 'copy construction'):
            c.expect_seq(o, w, v.runs)
            c.unchanged(o, v)
            disjoint(c, o, v, w)
            done(c, o, [v, w])
    SC.append(Scenario(f'{tn}.copy_ctor', ('C01', 'C03', 'C05'), copy_ctor, DRIVER))

    def move_ctor(c):
        v, w = c.seq('v', tn), c.fresh_seq('w', tn)
        for o in outcomes(c, c.run(f'move_{tn}', w.ptr, v.ptr), 'move construction'):
            c.expect_seq(o, w, v.runs)
            wellformed(c, o, v)
            disjoint(c, o, v, w)
            done(c, o, [v, w])
    SC.append(Scenario(f'{tn}.move_ctor', ('C01', 'C03', 'C05'), move_ctor, DRIVER))

    def copy_assign(c):
        v, w = c.seq('v', tn), c.seq('w', tn)
        for o in outcomes(c, c.run(f'cassign_{tn}', w.ptr, v.ptr), 'copy assignment'):
            c.expect_seq(o, w, v.runs)
            c.unchanged(o, v)
            disjoint(c, o, v, w)
            done(c, o, [v, w])
    SC.append(Scenario(f'{tn}.copy_assign', ('C01', 'C03', 'C05'), copy_assign, DRIVER))

    def move_assign(c):
        v, w = c.seq('v', tn), c.seq('w', tn)
        for o in outcomes(c, c.run(f'massign_{tn}', w.ptr, v.ptr), 'move assignment'):
            c.expect_seq(o, w, v.runs)
            wellformed(c, o, v)
            disjoint(c, o, v, w)
            done(c, o, [v, w])
    SC.append(Scenario(f'{tn}.move_assign', ('C01', 'C03', 'C05'), move_assign, DRIVER))

    def self_copy_assign(c):
        v = c.seq('v', tn)
        for o in outcomes(c, c.run(f'cassign_{tn}', v.ptr, v.ptr), 'self-assignment'):
            c.expect_seq(o, v, v.runs)
            done(c, o, [v])
    SC.append(Scenario(f'{tn}.self_copy_assign', ('C01', 'C03', 'C05'), self_copy_assign, DRIVER))

    def self_move_assign(c):
        v = c.seq('v', tn)
        for o in outcomes(c, c.run(f'massign_{tn}', v.ptr, v.ptr), 'self-move-assignment'):
            c.expect_seq(o, v, v.runs)
            done(c, o, [v])
    SC.append(Scenario(f'{tn}.self_move_assign', ('C01', 'C03', 'C05'), self_move_assign, DRIVER))

    def ilist(c):
        w = c.fresh_seq('w', tn)
        n = c.num('n', 0, None if K == 'VE' else 9)
        a = c.elems('il', n, T)
        lim = {'VE': None, 'AV': n - 8}.get(K, 0)
        outs = c.run(f'ilist_{tn}', w.ptr, a, n)
        for o in outs:
            if o.kind == 'ret':
                if K == 'AV':
                    c.must(o, L(7) - n, 'refuse', "more initialisers than the capacity are accepted")
                if K == 'AR':
                    c.must_eq(o, n - 7, 'refuse', "a wrong number of initialisers is accepted")
                c.expect_seq(o, w, [run_elt('il', 0, n)])
                done(c, o, [w])
            else:
                if K == 'AV':
                    c.must(o, n - 8, 'refuse', "initialisers within the capacity are refused")
                if K == 'AR' and o.st.eq0(n - 7) is not False:
                    c.fail(o, 'refuse', "the right number of initialisers is refused", (n - 7, L(7) - n))
                if K == 'VE' and 'libthrow' not in o.st.note:
                    c.fail(o, 'throws', "construction from an initialiser list throws")
                for g in o.st.mem[w.obj].segs:
                    if g.st == 'live' and g.typ == T:
                        c.fail(o, 'leak_elem', "elements constructed before the refusal are never destroyed")
                done(c, o, [])
    SC.append(Scenario(f'{tn}.ilist', ('C01', 'C02', 'C04', 'C05'), ilist, DRIVER))

    def accessors(c):
        v = c.seq('v', tn)
        i = c.num('i', 0, v.n - 1)
        for fn in (f'at_{tn}', f'cat_{tn}'):
            for o in outcomes(c, c.run(fn, v.ptr, i), 'indexing'):
                want = Ptr(v.heap, i * z) if v.heap else Ptr(v.obj, i * z + v.lay.data_off)
                same_ptr(c, o, o.val, want, 'content', 'v[i]')
                c.unchanged(o, v)
    SC.append(Scenario(f'{tn}.index', ('C02',), accessors, DRIVER))

    def iters(c):
        v = c.seq('v', tn)
        base = (v.heap, ZERO) if v.heap else ((0, ZERO) if v.lay.kind == 'pointer' else (v.obj, L(v.lay.data_off)))
        for p in ('', 'c'):
            for o in outcomes(c, c.run(f'{p}begin_{tn}', v.ptr), 'begin()'):
                same_ptr(c, o, o.val, Ptr(base[0], base[1]), 'content', 'begin()')
            for o in outcomes(c, c.run(f'{p}end_{tn}', v.ptr), 'end()'):
                same_ptr(c, o, o.val, Ptr(base[0], base[1] + v.n * z), 'content', 'end()')
        for o in outcomes(c, c.run(f'empty_{tn}', v.ptr), 'empty()'):
            for s, b in c.ip.resolve(o.st, o.val if not isinstance(o.val, Lin) else o.val, None):
                oo = Outcome('ret', s, b)
                if b:
                    c.must(oo, -v.n, 'content', "empty() is true for a non-empty container")
                else:
                    c.must(oo, v.n - 1, 'content', "empty() is false for an empty container")
    SC.append(Scenario(f'{tn}.iterators', ('C02',), iters, DRIVER))

    def equality(c):
        v, w = c.seq('v', tn), c.seq('w', tn)
        for o in outcomes(c, c.run(f'eq_{tn}', v.ptr, w.ptr), '=='):
            for s, b in c.ip.resolve(o.st, o.val, None):
                oo = Outcome('ret', s, b)
                check_eq(c, oo, b, v, w, 'eq' if T == 'int' else 'P_eq')
                c.unchanged(oo, v)
                c.unchanged(oo, w)
    SC.append(Scenario(f'{tn}.equality', ('C03',), equality, DRIVER))

    def reserve(c):
        v = c.seq('v', tn)
        n = c.num('k', 0, None if K == 'VE' else 12, span=8)
        for o in outcomes(c, c.run(f'reserve_{tn}', v.ptr, n), 'reserve',
                          None if K == 'VE' else n - 8, [v]):
            c.expect_seq(o, v, v.runs)
            vw = c.view(o, v)
            if vw and isinstance(vw[2], Lin):
                c.must(o, vw[2] - n, 'content', "reserve leaves less capacity than requested")
            done(c, o, [v])
    SC.append(Scenario(f'{tn}.reserve', ('C01', 'C02', 'C04', 'C05'), reserve, DRIVER))

    def resize(c):
        v = c.seq('v', tn)
        n = c.num('k', 0, None if K == 'VE' else 12, span=6)
        if K == 'AR':
            for o in c.run(f'resize_{tn}', v.ptr, n):
                if o.kind == 'ret':
                    c.must_eq(o, n - 7, 'refuse', "a fixed-size container accepts another size")
                elif o.st.eq0(n - 7) is not False:
                    c.fail(o, 'refuse', "resizing to the same size is refused", (n - 7, L(7) - n))
                c.unchanged(o, v)
            return
        for o in outcomes(c, c.run(f'resize_{tn}', v.ptr, n), 'resize', None if K == 'VE' else n - 8, [v]):
            for s, grow in o.st.split(n - v.n):
                oo = Outcome('ret', s, None)
                if grow:
                    c.expect_seq(oo, v, [run_elt('v', 0, v.n), rep(n - v.n, D)])
                else:
                    c.expect_seq(oo, v, [run_elt('v', 0, n)])
                done(c, oo, [v])
    SC.append(Scenario(f'{tn}.resize', ('C01', 'C02', 'C04', 'C05'), resize, DRIVER))


def same_ptr(c, o, p, want, kind, what):
    c.oblig += 1
    if p == UNDEF:
        c.fail(o, kind, f"{what} is uninitialised")
        return
    if not isinstance(p, Ptr):
        c.unsure.append(f"{what}: pointer not determined")
        return
    if p.obj != want.obj:
        c.fail(o, kind, f"{what} designates the wrong object")
        return
    c.must_eq(o, p.off - want.off, kind, f"{what} designates offset {p.off}, expected {want.off}")


def disjoint(c, o, v, w):
    a, b = c.view(o, v), c.view(o, w)
    c.oblig += 1
    if a and b and isinstance(a[1], Ptr) and isinstance(b[1], Ptr) and a[1].obj == b[1].obj and a[1].obj != 0:
        c.fail(o, 'shared', f"{v.name} and {w.name} share their storage")


def wellformed(c, o, h):
    """a moved-from (or otherwise unspecified) container can still be used and destroyed"""
    vw = c.view(o, h)
    if vw is None:
        return
    n, p, cap = vw
    if n == UNDEF or p == UNDEF:
        c.fail(o, 'content', f"{h.name} is left with an uninitialised size or data pointer")
        return
    if not isinstance(n, Lin) or not isinstance(p, Ptr):
        c.unsure.append("moved-from state unknown")
        return
    if p.obj == 0:
        c.must_eq(o, n, 'content', f"{h.name} has no storage but size {n}")
        if isinstance(cap, Lin):
            c.must_eq(o, cap, 'content', f"{h.name} has no storage but capacity {cap}")
        return
    ob = o.st.mem.get(p.obj)
    if ob is None or not ob.alive:
        c.fail(o, 'uaf', f"{h.name} refers to released memory")
        return
    A = c.slice_obj(o, p.obj, p.off, p.off + n * h.sz)
    if A is not None:
        for g in A:
            c.oblig += 1
            if g.st != 'live' and o.st.ge0(g.hi - g.lo - 1) is not False:
                c.fail(o, 'lifetime', f"{h.name} counts an element that is not alive", (g.hi - g.lo - 1,))
    cc = h.lay.cap if h.lay.kind == 'inline' else None
    end = p.off + (L(cc) * h.sz if cc is not None else ob.size)
    A = c.slice_obj(o, p.obj, p.off + n * h.sz, end)
    if A is not None:
        for g in A:
            c.oblig += 1
            if g.st == 'live' and g.typ not in ('s', 'zero') and o.st.ge0(g.hi - g.lo - 1) is not False:
                c.fail(o, 'leak_elem', f"{h.name} no longer counts elements that are still alive", (g.hi - g.lo - 1,))


def check_eq(c, o, result, v, w, name='P_eq'):
    """== over opaque elements: true only after every pair was found equal, false only with a reason"""
    def turn(val):
        # equality is symmetric: either side may be asked
        a = val[2]
        if len(a) == 2 and a[0][0] == 'Elt' and a[1][0] == 'Elt' and a[0][1] == w.cname and a[1][1] == v.cname:
            return val[:2] + ((a[1], a[0]),) + val[3:]
        return val
    tr = [TSeg(s.lo, s.hi, turn(strip_refs(s.val))) for s in o.st.trace]
    if result:
        c.must_eq(o, v.n - w.n, 'equality', "containers of different sizes compare equal")
        if o.st.eq0(v.n - w.n):
            c.match(o, tr, [TSeg(ZERO, v.n, E(name, ('Elt', v.cname, KAPPA), ('Elt', w.cname, KAPPA), out='T'))],
                    'equality', "compared equal without comparing every element", typed=False)
    else:
        c.oblig += 1
        # some comparison came out false, or the sizes differ
        if any(s.val[3] == 'F' and o.st.ge0(s.hi - s.lo - 1) is True for s in tr):
            for s in tr:
                if s.val[3] == 'F':
                    a, b = s.val[2]
                    if not (a[0] == 'Elt' and b[0] == 'Elt' and {a[1], b[1]} == {v.cname, w.cname} and
                            o.st.eq0((a[2] - b[2]).subst({K: ZERO})) is True):
                        c.fail(o, 'equality', "elements at different positions are compared")
            return
        if o.st.eq0(v.n - w.n) is not False:
            c.fail(o, 'equality', "containers of the same size compare unequal without a differing element",
                   (v.n - w.n, w.n - v.n))


for _t in ('AR', 'AV', 'VE', 'ARi', 'AVi', 'VEi'):
    mk(_t)


# ---------------------------------------------------------------- growing containers

def mkgrow(tn):
    K, T = tn[:2], TYPES[tn]
    z, D = (4, ZERO) if T == 'int' else (24, DEFAULT)
    full = (lambda v: v.n - 7) if K == 'AV' else (lambda v: None)

    def add(name, props, f):
        SC.append(Scenario(f'{tn}.{name}', props, f, DRIVER))

    for fn, nm, moved in ((f'push_{tn}', 'push_back', 0), (f'pushm_{tn}', 'push_back_move', 1)) + \
            (((f'emplace_{tn}', 'emplace_back', 0), (f'emplacem_{tn}', 'emplace_back_move', 1)) if K == 'VE' else ()):
        def push(c, fn=fn, nm=nm, moved=moved):
            v, x = c.seq('v', tn), c.elem('x', T)
            for o in outcomes(c, c.run(fn, v.ptr, x), nm, full(v), [v]):
                c.expect_seq(o, v, v.runs + [one(elt('x'))])
                if not moved:
                    c.match(o, o.st.mem[x.obj].segs, c.st.mem[x.obj].segs, 'content', "the argument of " + nm)
                done(c, o, [v])
        add(nm, ('C01', 'C02', 'C04', 'C05'), push)

        def push_alias(c, fn=fn, nm=nm, moved=moved):
            v = c.seq('v', tn, null=False)
            i = c.num('i', 0, v.n - 1)
            x = Ptr(v.heap, i * z) if v.heap else Ptr(v.obj, i * z + v.lay.data_off)
            for o in outcomes(c, c.run(fn, v.ptr, x), nm, full(v), [v]):
                if moved:
                    c.expect_seq(o, v, [run_elt('v', 0, i), one(elt('v', i) if T == 'int' else MOVED), run_elt('v', i + 1, v.n), one(elt('v', i))], 'alias')
                else:
                    c.expect_seq(o, v, v.runs + [one(elt('v', i))], 'alias')
                done(c, o, [v])
        add(nm + '_own_element', ('C06',), push_alias)

    if K == 'VE':
        def emplace0(c):
            v = c.seq('v', tn)
            for o in outcomes(c, c.run(f'emplace0_{tn}', v.ptr), 'emplace_back'):
                c.expect_seq(o, v, v.runs + [one(D)])
                done(c, o, [v])
        add('emplace_back_default', ('C01', 'C02', 'C05'), emplace0)

        def shrink(c):
            v = c.seq('v', tn)
            for o in outcomes(c, c.run(f'shrink_{tn}', v.ptr), 'shrink_to_fit'):
                c.expect_seq(o, v, v.runs)
                done(c, o, [v])
        add('shrink_to_fit', ('C01', 'C02', 'C05'), shrink)

    def pop(c):
        v = c.seq('v', tn)
        for o in outcomes(c, c.run(f'pop_{tn}', v.ptr), 'pop_back', -v.n, [v]):
            c.expect_seq(o, v, [run_elt('v', 0, v.n - 1)])
            done(c, o, [v])
    add('pop_back', ('C01', 'C02', 'C04', 'C05'), pop)

    def clear(c):
        v = c.seq('v', tn)
        for o in outcomes(c, c.run(f'clear_{tn}', v.ptr), 'clear'):
            c.expect_seq(o, v, [])
            done(c, o, [v])
    add('clear', ('C01', 'C02', 'C05'), clear)

    def insert(c):
        v, x, i = c.seq('v', tn), c.elem('x', T), c.num('i', 0, None if K == 'VE' else 12, span=4)
        outs = c.run(f'insert_{tn}', v.ptr, i, x)
        good = []
        for o in outs:
            if o.kind == 'ret':
                c.must(o, v.n - i, 'refuse', "insertion beyond the end is accepted")
                if K == 'AV':
                    c.must(o, L(6) - v.n, 'refuse', "insertion into a full container is accepted")
                c.expect_seq(o, v, [run_elt('v', 0, i), one(elt('x')), run_elt('v', i, v.n)])
                c.match(o, o.st.mem[x.obj].segs, c.st.mem[x.obj].segs, 'content', "the inserted argument")
                done(c, o, [v])
            elif 'libthrow' not in o.st.note:
                ex = [v.n - i] + ([L(6) - v.n] if K == 'AV' else [])
                if feasible_with(o.st.cons, *ex):
                    c.fail(o, 'refuse', "a valid insertion is refused", ex)
                c.unchanged(o, v)
    add('insert', ('C01', 'C02', 'C04', 'C05'), insert)

    def insert_alias(c):
        v = c.seq('v', tn, null=False)
        i = c.num('i', 0, v.n)
        j = c.num('j', 0, v.n - 1)
        if K == 'AV':
            c.assume(L(6) - v.n)
        x = Ptr(v.heap, j * z) if v.heap else Ptr(v.obj, j * z + v.lay.data_off)
        for o in outcomes(c, c.run(f'insert_{tn}', v.ptr, i, x), 'insert'):
            c.expect_seq(o, v, [run_elt('v', 0, i), one(elt('v', j)), run_elt('v', i, v.n)], 'alias')
            done(c, o, [v])
    add('insert_own_element', ('C06',), insert_alias)

    def erase(c):
        v, i = c.seq('v', tn), c.num('i', 0, None if K == 'VE' else 12, span=4)
        for o in outcomes(c, c.run(f'erase_{tn}', v.ptr, i), 'erase', i - v.n, [v]):
            c.expect_seq(o, v, [run_elt('v', 0, i), run_elt('v', i + 1, v.n)])
            done(c, o, [v])
    add('erase', ('C01', 'C02', 'C04', 'C05'), erase)

    def npos(c):
        """the largest index or size there is: tests on it must not wrap around"""
        v = c.seq('v', tn)
        op = c.case('op', ['erase', 'insert'] + (['resize', 'reserve'] if K == 'AV' else []))
        args = (c.elem('x', T),) if op == 'insert' else ()
        outcomes(c, c.run(f'{op}_{tn}', v.ptr, L(-1), *args), f'{op} with the largest size_t', ZERO, [v])
    add('largest_index', ('C02', 'C04'), npos)


for _t in ('AV', 'VE', 'AVi', 'VEi'):
    mkgrow(_t)


# ---------------------------------------------------------------- conversions

def conv(fn, src, dst):
    def f(c):
        v, w = c.seq('v', src), c.fresh_seq('w', dst)
        for o in outcomes(c, c.run(fn, w.ptr, v.ptr), 'conversion'):
            c.expect_seq(o, w, v.runs)
            c.unchanged(o, v)
            done(c, o, [v, w] if dst[:2] == 'VE' else [])
    SC.append(Scenario(f'{dst}.from_{src}', ('C01', 'C03', 'C05'), f, DRIVER))


conv('from_AR_VE', 'AR', 'VE')
conv('from_AV_VE', 'AV', 'VE')
conv('from_AVs_AV', 'AVs', 'AV')
conv('from_ARi_VEi', 'ARi', 'VEi')
conv('from_AVi_VEi', 'AVi', 'VEi')
conv('from_AVsi_AVi', 'AVsi', 'AVi')
