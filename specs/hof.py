"""Higher-order functions over sequences: which elements the callback sees, in which order, and what comes out."""
from spec import *
from seq import outcomes, same_ptr

DRIVER = 'hof.cpp'
TYPES = {'AR': 'P', 'AV': 'P', 'VE': 'P', 'ARv': 'P', 'AVv': 'P', 'VEv': 'P', 'AR3': 'P', 'AV4': 'P',
         'ARq': 'Q', 'AVq': 'Q', 'VEq': 'Q', 'ARq3': 'Q', 'AVx': 'long', 'AV3': 'P', 'AVx3': 'long', 'AVx4': 'long', 'VEx': 'long', 'TWa': 'P', 'TWv': 'P',
         'ARARr': 'P', 'AVAVr': 'P', 'AVARr': 'P', 'AP3r': 'P'}
SC = []


def add(name, props, f):
    SC.append(Scenario(name, props, f, DRIVER))


def quietly(c, outs, hs, what='the call'):
    """normal outcomes; every source in hs is unchanged"""
    good = outcomes(c, outs, what)
    for o in good:
        for h in hs:
            c.unchanged(o, h)
    return good


def K1(name, lo=0):
    return ('Elt', name, KAPPA + L(lo))


def minlen(c, o, *ns):
    """[(outcome, n)] with n the smallest of ns"""
    res = [(o, ns[0])]
    for m in ns[1:]:
        nx = []
        for oo, n in res:
            for s, le in oo.st.split(m - n):
                nx.append((Outcome(oo.kind, s, oo.val), n if le else m))
        res = nx
    return res


RESQ = {'AR': 'ARq', 'ARv': 'ARq', 'AV': 'AVq', 'AVv': 'AVq', 'VE': 'VEq', 'VEv': 'VEq'}


def src(tn):
    def foreach(c):
        v = c.seq('v', tn)
        for fn in ('foreach', 'cfe'):
            for o in quietly(c, c.run(f'{fn}_{tn}', v.ptr), [v]):
                c.trace(o, [(v.n, E('f', K1('v')))], 'order', 'calls made by for_each')
    add(f'{tn}.for_each', ('C16',), foreach)

    def foreach2(c):
        v, w = c.seq('v', tn), c.seq('w', tn)
        for o in quietly(c, c.run(f'foreach2_{tn}', v.ptr, w.ptr), [v, w]):
            for oo, n in minlen(c, o, v.n, w.n):
                c.trace(oo, [(n, E('f2', K1('v'), K1('w')))], 'order', 'calls made by for_each over two sequences')
    add(f'{tn}.for_each2', ('C16',), foreach2)

    def foreachi(c):
        v = c.seq('v', tn)
        for o in quietly(c, c.run(f'foreachi_{tn}', v.ptr), [v]):
            c.trace(o, [(v.n, E('fi', KAPPA, K1('v')))], 'order', 'calls made by for_each_with_index')
    add(f'{tn}.for_each_with_index', ('C16',), foreachi)

    def foreachi2(c):
        v, w = c.seq('v', tn), c.seq('w', tn)
        for o in quietly(c, c.run(f'foreachi2_{tn}', v.ptr, w.ptr), [v, w]):
            for oo, n in minlen(c, o, v.n, w.n):
                c.trace(oo, [(n, E('fi2', KAPPA, K1('v'), K1('w')))], 'order', 'calls made by for_each_with_index over two sequences')
    add(f'{tn}.for_each_with_index2', ('C16',), foreachi2)

    def mp(c):
        v = c.seq('v', tn)
        for fn, ev, args in (('map', 'f', (K1('v'),)), ('mapi', 'fi', (KAPPA, K1('v')))):
            w = c.fresh_seq('result', RESQ[tn])
            for o in quietly(c, c.run(f'{fn}_{tn}', w.ptr, v.ptr), [v]):
                if c.trace(o, [(v.n, E(ev, *args))], 'order', 'calls made by map'):
                    c.expect_seq(o, w, [(v.n, ('Ret', ev, KAPPA))])
                    c.no_leak(o, own(v, w))
    add(f'{tn}.map', ('C16',), mp)

    def mp2(c):
        v, w = c.seq('v', tn), c.seq('w', tn)
        r = c.fresh_seq('result', RESQ[tn])
        for o in quietly(c, c.run(f'map2_{tn}', r.ptr, v.ptr, w.ptr), [v, w]):
            for oo, n in minlen(c, o, v.n, w.n):
                if c.trace(oo, [(n, E('f2', K1('v'), K1('w')))], 'order', 'calls made by map over two sequences'):
                    c.expect_seq(oo, r, [(n, ('Ret', 'f2', KAPPA))])
                    c.no_leak(oo, own(v, w, r))
    add(f'{tn}.map2', ('C16',), mp2)

    def fold(c):
        v = c.seq('v', tn)
        left = c.case('side', ['left', 'right']) == 'left'
        i, r = c.elem('i', 'R'), c.raw(8, 'result')
        for o in quietly(c, c.run(('foldl_' if left else 'foldr_') + tn, r, i, v.ptr), [v]):
            for s, some in o.st.split(v.n - 1):
                oo = Outcome('ret', s, None)
                if not some:
                    c.trace(oo, [], 'order', 'calls made by a fold of an empty sequence')
                    holds(c, oo, r, 'R', elt('i'), 'fold of an empty sequence')
                    continue
                if left:
                    want = [(ONE, E('l', elt('i'), elt('v'))), (v.n - 1, E('l', ('Ret', 'l', KAPPA), K1('v', 1)))]
                else:
                    want = [(ONE, E('r', elt('v', v.n - 1), elt('i'))),
                            (v.n - 1, E('r', ('Elt', 'v', v.n - 2 - KAPPA), ('Ret', 'r', KAPPA)))]
                if c.trace(oo, want, 'order', 'calls made by a fold'):
                    holds(c, oo, r, 'R', ('Ret', 'l' if left else 'r', v.n - 1), 'result of the fold')
    add(f'{tn}.fold', ('C16',), fold)

    def finds(c):
        v = c.seq('v', tn)
        op = c.case('op', ['elem', 'find'])
        x = c.elem('x')
        outs = c.run('elem_' + tn, x, v.ptr) if op == 'elem' else c.run('find_' + tn, v.ptr)
        for o in quietly(c, outs, [v]):
            for s, b in c.ip.resolve(o.st, o.val, None):
                first_hit(c, Outcome('ret', s, b), v, op, b, None)
    add(f'{tn}.find', ('C17',), finds)

    def findi(c):
        v = c.seq('v', tn)
        op = c.case('op', ['elem', 'find'])
        x, r = c.elem('x'), c.raw(16, 'result')
        outs = c.run('elemindex_' + tn, r, x, v.ptr) if op == 'elem' else c.run('findindex_' + tn, r, v.ptr)
        for o in quietly(c, outs, [v]):
            m = maybe_size(c, o, r)
            if m is not None:
                first_hit(c, o, v, op, m[0], m[1])
    add(f'{tn}.find_index', ('C17',), findi)

    def trait(c):
        v = c.seq('v', tn)
        base = c.view(Outcome('ret', c.st, None), v)[1]
        for o in quietly(c, c.run('length_' + tn, v.ptr), [v]):
            c.must_eq(o, o.val - v.n, 'content', 'length differs from the number of elements')
        for fn in ('cdata_', 'mdata_'):
            for o in quietly(c, c.run(fn + tn, v.ptr), [v]):
                same_ptr(c, o, o.val, base, 'content', 'data()')
        for o in quietly(c, c.run('isnull_' + tn, v.ptr), [v]):
            for s, b in c.ip.resolve(o.st, o.val, None):
                c.must(Outcome('ret', s, b), -v.n if b else v.n - 1, 'content', f'is_null is {b}')
    add(f'{tn}.trait', ('C29',), trait)

    def trait_nth(c):
        v = c.seq('v', tn)
        i = c.num('i', 0, v.n - 1)
        base = c.view(Outcome('ret', c.st, None), v)[1]
        for fn in ('cnth_', 'nth_'):
            for o in quietly(c, c.run(fn + tn, i, v.ptr), [v]):
                same_ptr(c, o, o.val, Ptr(base.obj, base.off + i * 24), 'content', 'nth(i, v)')
    add(f'{tn}.nth', ('C29',), trait_nth)


def own(*hs):
    return [h for h in hs if h.lay.owner]


def holds(c, o, p, T, val, what):
    c.oblig += 1
    s = o.st.fork()
    with c.ip.capture() as rep:
        r = c.ip.p_content(s, T, tsize(T), p, None, what, 'read_dead')
    if rep or len(r) != 1:
        if rep:
            c.fail(o, 'content', f"{what}: {rep[0].msg}")
        else:
            c.unsure.append(what)
        return False
    if not veq(r[0][1], val, o.st.cons):
        c.fail(o, 'content', f"{what} is {r[0][1]}, expected {val}")
        return False
    return True


def first_hit(c, o, v, op, hit, idx):
    """a search looks at the elements in order and stops at the first hit"""
    ev = 'P_eq' if op == 'elem' else 'p'
    tr = [TSeg(s.lo, s.hi, strip_refs(s.val)) for s in o.st.trace]
    if op == 'elem':
        # comparison order of the operands is irrelevant
        def canon(val):
            a, b = val[2]
            if b[0] == 'Elt' and b[1] == 'v':
                a, b = b, a
            return ('E', val[1], (a, b), val[3])
        tr = [TSeg(s.lo, s.hi, canon(s.val)) for s in tr]
    args = (lambda k: (('Elt', 'v', k), elt('x'))) if op == 'elem' else (lambda k: (('Elt', 'v', k),))
    if not hit:
        c.match(o, tr, [TSeg(ZERO, v.n, E(ev, *args(KAPPA), out='F'))], 'search', "reports nothing without having examined every element", typed=False)
        return
    m = o.st.tlen - 1
    c.must(o, m, 'search', "reports a hit without examining any element")
    c.must(o, v.n - 1 - m, 'search', "examines more elements than there are")
    if idx is not None:
        if not isinstance(idx, Lin):
            c.unsure.append('index')
            return
        c.must_eq(o, idx - m, 'search', f"the reported index {idx} is not that of the hit {m}")
    c.match(o, tr, [TSeg(ZERO, m, E(ev, *args(KAPPA), out='F')), TSeg(m, m + 1, E(ev, *args(m), out='T'))],
            'search', "reports a hit that is not the first", typed=False)


def maybe_size(c, o, r):
    """(has value, value) of the Maybe<size_t> at r"""
    f = c.mod.fn('mhas')
    outs, rep = c.quiet_call('mhas', r, st=o.st)
    vals = []
    for x in outs:
        for s, b in c.ip.resolve(x.st, x.val, None):
            vals.append(b)
    if rep or len(vals) != 1:
        c.unsure.append('Maybe not determined')
        return None
    if not vals[0]:
        return False, None
    outs, rep = c.quiet_call('mval', r, st=o.st)
    outs = [x for x in outs if x.kind == 'ret']
    if rep or len(outs) != 1:
        c.unsure.append('Maybe value not determined')
        return None
    return True, outs[0].val


for _t in ('AR', 'AV', 'VE', 'ARv', 'AVv', 'VEv'):
    src(_t)


def mut(tn):
    def one_(c):
        v = c.seq('v', tn)
        for fn, ev, args, pos in (('foreachm', 'f', (K1('v'),), 0), ('cfem', 'f', (K1('v'),), 0), ('foreachim', 'fi', (KAPPA, K1('v')), 1)):
            for o in outcomes(c, c.run(f'{fn}_{tn}', v.ptr), fn):
                c.trace(o, [(v.n, E(ev, *args))], 'order', 'calls made by ' + fn)
                c.expect_seq(o, v, [(v.n, ('Upd', ev, KAPPA, pos))], 'content', what='elements after ' + fn)
                c.no_leak(o, own(v))
    add(f'{tn}.for_each_mut', ('C16',), one_)

    def two(c):
        v, w = c.seq('v', tn), c.seq('w', tn)
        for o in outcomes(c, c.run(f'foreachm2_{tn}', v.ptr, w.ptr), 'for_each_mut'):
            for oo, n in minlen(c, o, v.n, w.n):
                c.trace(oo, [(n, E('f2', K1('v'), K1('w')))], 'order', 'calls made by for_each_mut over two sequences')
                c.expect_seq(oo, v, [(n, ('Upd', 'f2', KAPPA, 0)), run_elt('v', n, v.n)])
                c.expect_seq(oo, w, [(n, ('Upd', 'f2', KAPPA, 1)), run_elt('w', n, w.n)])
    add(f'{tn}.for_each_mut2', ('C16',), two)


for _t in ('AR', 'AV', 'VE'):
    mut(_t)


def mixed(a, b, r):
    def f(c):
        v, w = c.seq('v', a), c.seq('w', b)
        res = c.fresh_seq('result', r)
        for o in quietly(c, c.run(f'mapx_{a}_{b}', res.ptr, v.ptr, w.ptr), [v, w]):
            for oo, n in minlen(c, o, v.n, w.n):
                if c.trace(oo, [(n, E('f2', K1('v'), K1('w')))], 'order', 'calls made by map over two kinds of sequence'):
                    c.expect_seq(oo, res, [(n, ('Ret', 'f2', KAPPA))])
                    c.no_leak(oo, own(v, w, res))
    add(f'{a}_{b}.map', ('C16',), f)


for _x in (('AR', 'AV', 'AVq'), ('AV', 'AR', 'AVq'), ('AV', 'VE', 'VEq'), ('VE', 'AR', 'VEq'), ('AR', 'AR3', 'ARq3'), ('AR3', 'AR', 'ARq3')):
    mixed(*_x)


def fex(a, b):
    def f(c):
        v, w = c.seq('v', a), c.seq('w', b)
        for o in quietly(c, c.run(f'fex_{a}_{b}', v.ptr, w.ptr), [v, w]):
            for oo, n in minlen(c, o, v.n, w.n):
                c.trace(oo, [(n, E('f2', K1('v'), K1('w')))], 'order', 'calls made by for_each over two kinds of sequence')
    add(f'{a}_{b}.for_each', ('C16',), f)


fex('AV', 'VE')
fex('VE', 'AR')


def three(c):
    u, v, w = c.seq('u', 'AV'), c.seq('v', 'VE'), c.seq('w', 'AR')
    op = c.case('op', ['map', 'for_each'])
    r = c.fresh_seq('result', 'VEq')
    outs = c.run('map3', r.ptr, u.ptr, v.ptr, w.ptr) if op == 'map' else c.run('fe3', u.ptr, v.ptr, w.ptr)
    for o in quietly(c, outs, [u, v, w]):
        for oo, n in minlen(c, o, u.n, v.n, w.n):
            if c.trace(oo, [(n, E('f3', K1('u'), K1('v'), K1('w')))], 'order', 'calls over three sequences') and op == 'map':
                c.expect_seq(oo, r, [(n, ('Ret', 'f3', KAPPA))])


add('three_sequences', ('C16',), three)


def forindex(c):
    n = c.num('n', 0)
    for o in outcomes(c, c.run('forindex', n), 'for_index'):
        c.trace(o, [(n, E('i', KAPPA))], 'order', 'calls made by for_index')


add('for_index', ('C16',), forindex)


def fromfn(c):
    fixed = c.case('length', ['dynamic', 'static']) == 'static'
    n = L(5) if fixed else c.num('n', 0)
    r = c.fresh_seq('result', 'ARq' if fixed else 'VEq')
    for o in outcomes(c, c.run('fromfn5', r.ptr) if fixed else c.run('fromfn', r.ptr, n), 'from_function'):
        if c.trace(o, [(n, E('i', KAPPA))], 'order', 'calls made by from_function'):
            c.expect_seq(o, r, [(n, ('Ret', 'i', KAPPA))])
            c.no_leak(o, own(r))


add('from_function', ('C16',), fromfn)


# ---------------------------------------------------------------- selection (data-dependent size)

def sel(tn, rp, rx):
    def f(c):
        v = c.seq('v', tn)
        n = v.n.c
        op = c.case('op', ['filter', 'find_indices', 'elem_indices'])
        x = c.elem('x')
        r = c.fresh_seq('result', rp if op == 'filter' else rx)
        outs = {'filter': lambda: c.run('filter_' + tn, r.ptr, v.ptr),
                'find_indices': lambda: c.run('findindices_' + tn, r.ptr, v.ptr),
                'elem_indices': lambda: c.run('elemindices_' + tn, r.ptr, x, v.ptr)}[op]()
        for o in quietly(c, outs, [v]):
            evs = []
            for s in o.st.trace:
                for k in range((s.hi - s.lo).c):
                    e = strip_refs(subst_val(s.val, {K: Lin(k)}))
                    evs.append(e)
            c.oblig += 1
            want = 'P_eq' if op == 'elem_indices' else 'p'
            bad = len(evs) != n or any(e[1] != want for e in evs)
            if not bad:
                for i, e in enumerate(evs):
                    if elt('v', i) not in e[2]:
                        bad = True
            if bad:
                c.fail(o, 'order', f"{op} does not examine every element once, in order: {[(e[1], e[2]) for e in evs]}")
                continue
            hits = [i for i, e in enumerate(evs) if e[3] == 'T']
            if op == 'filter':
                c.expect_seq(o, r, [one(elt('v', i)) for i in hits], what=f'{op} with hits {hits}')
            else:
                c.expect_seq(o, r, [one(Lin(i)) for i in hits], what=f'{op} with hits {hits}')
            c.no_leak(o, own(v, r))
    SC.append(Scenario(f'{tn}.select', ('C17',), f, DRIVER, unroll=True))


sel('AV4', 'AV4', 'AVx4')
sel('VE', 'VE', 'VEx')
sel('VEv', 'VE', 'VEx')
sel('AR3', 'AV3', 'AVx3')


def whiles(tn, r):
    def f(c):
        v = c.seq('v', tn)
        op = c.case('op', ['take', 'drop'])
        base = c.view(Outcome('ret', c.st, None), v)[1]
        w = c.fresh_seq('result', r)
        for o in quietly(c, c.run(f'{op}while_{tn}', w.ptr, v.ptr), [v]):
            tr = [TSeg(s.lo, s.hi, strip_refs(s.val)) for s in o.st.trace]
            m = o.st.tlen
            # the last event is false unless the whole sequence satisfied the predicate
            for s, ended in o.st.split(v.n - m - 1):
                oo = Outcome('ret', s, None)
                last = None
                for t in tr:
                    if s.ge0(m - 1 - t.lo) and s.ge0(t.hi - m):
                        last = t.val[3]
                view_is(c, oo, w, base, v, op, m, last)
    add(f'{tn}.while', ('C17',), f)


def view_is(c, o, w, base, v, op, m, last):
    """the prefix of hits has length m-1 if the last examined element failed, m otherwise"""
    tr = [TSeg(s.lo, s.hi, strip_refs(s.val)) for s in o.st.trace]
    if last == 'F':
        k = m - 1
        want = [TSeg(ZERO, k, E('p', ('Elt', 'v', KAPPA), out='T')), TSeg(k, m, E('p', ('Elt', 'v', k), out='F'))]
    else:
        k = m
        want = [TSeg(ZERO, k, E('p', ('Elt', 'v', KAPPA), out='T'))]
        c.must_eq(o, k - v.n, 'search', "the search stops although the predicate still holds")
    if not c.match(o, tr, want, 'search', "elements examined", typed=False):
        return
    vw = c.view(o, w)
    if vw is None:
        return
    n, p, _ = vw
    lo, hi = (ZERO, k) if op == 'take' else (k, v.n)
    if not isinstance(n, Lin) or not isinstance(p, Ptr):
        c.unsure.append('view')
        return
    if c.must_eq(o, n - (hi - lo), 'search', f"the view has {n} elements, expected {hi - lo}"):
        for s, some in o.st.split(n - 1):
            if some:
                same_ptr(c, Outcome('ret', s, None), p, Ptr(base.obj, base.off + lo * 24), 'search', f'{op}_while')


for _x in (('AR', 'TWa'), ('AV', 'TWa'), ('VE', 'TWv')):
    whiles(*_x)


# ---------------------------------------------------------------- append

def app(srcs, r):
    def f(c):
        hs = [c.seq(f's{i}', t) for i, t in enumerate(srcs)]
        w = c.fresh_seq('result', r)
        for o in quietly(c, c.run('append_' + '_'.join(srcs), w.ptr, *[h.ptr for h in hs]), hs):
            c.expect_seq(o, w, [run_elt(h.name, 0, h.n) for h in hs])
            c.no_leak(o, own(w, *hs))
    add('append.' + '_'.join(srcs), ('C18',), f)


for _s, _r in ((('AR', 'AR3'), 'ARARr'), (('AV', 'AV4'), 'AVAVr'), (('AV', 'AR3'), 'AVARr'), (('AR3', 'AV'), 'AVARr'),
               (('VE', 'VE'), 'VE'), (('VE', 'AV'), 'VE'), (('AR', 'VE'), 'VE'), (('AV', 'AR3', 'AV4'), 'AP3r'),
               (('VE', 'VE', 'VE'), 'VE'), (('VEv', 'VEv'), 'VE')):
    app(_s, _r)
