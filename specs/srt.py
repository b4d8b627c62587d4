"""Sorting: permutation, order, stability, bounds.

The elements are opaque.  What is known about their order is the set of comparison results on the path, closed under
the laws of a strict weak order; a comparison whose result follows from it is not forked.  A result is sorted only if
its order follows from the comparisons made."""
from spec import *
from seq import outcomes

TYPES = {'VE': 'P'}
SC = []
SHARDS = 8
STDS = {'quick': ['c++17']}
SZ = 24
WHOLE = {'sort': 'stable', 'sort_unstable': '', 'quicksort': '', 'heapsort': '', 'insertion_sort': '', 'size_trosort': '', 'timsort': 'stable'}
WHOLE_BY = {'sort_by': 'stable', 'sort_unstable_by': '', 'heapsort_by': '', 'insertion_sort_by': '', 'size_trosort_by': '', 'timsort_by': 'stable'}
RANGE_BY = {'quicksort_by': '', 'merge_sort_by': ''}


def source(tier):
    s = ['#include "probe.hpp"', '#include "efp/sort.hpp"', 'using namespace efp; using namespace vp;', 'using VE = Vector<P>; VP_SEQ(VE, VE) VP_OWN(VE, VE)',
         'extern "C" bool vp_b_cmp(const P& a, const P& b);',
         'struct Cmp { bool operator()(const P& a, const P& b) const { return vp_b_cmp(a, b); } };']
    for f in WHOLE:
        s.append(f'S_FN void {f}_VE(VE& v) {{ efp::{f}(v); }}')
    for f in WHOLE_BY:
        s.append(f'S_FN void {f}_VE(VE& v) {{ efp::{f}(v, Cmp {{}}); }}')
    for f in RANGE_BY:
        s.append(f'S_FN void {f}_VE(VE& v, unsigned long l, unsigned long r) {{ efp::{f}(v, size_t(l), size_t(r), Cmp {{}}); }}')
    return '\n'.join(s)


def learn(rel, a, b, strict):
    """rel with a <= b (a < b if strict), transitively closed"""
    nodes = {x for k in rel for x in k} | {a, b}
    r = dict(rel)

    def get(x, y):
        return 0 if x == y and (x, y) not in rel else rel.get((x, y))
    for x in nodes:
        p = get(x, a)
        if p is None:
            continue
        for y in nodes:
            q = get(b, y)
            if q is None:
                continue
            v = max(p, q, int(strict))
            if r.get((x, y), -1) < v:
                r[(x, y)] = v
    return r


def less(st, x, y):
    """is x < y ?  True / False / None"""
    rel = st.ex.get('ord', {})
    if x == y:
        return False
    if rel.get((x, y)) == 1:
        return True
    if (y, x) in rel:
        return False
    return None


LT = re.compile(r'^_ZNK2vp1P(lt|gt|le|ge)ERKS0_$')


def hook_call(ip, st, name, a, ins):
    m = LT.match(name)
    if name != 'vp_b_cmp' and not m:
        return None
    op = m.group(1) if m else 'lt'
    out = []
    for s, x in ip.content_of(st, a[0], ins, 'left side of a comparison'):
        for s2, y in ip.content_of(s, a[1], ins, 'right side of a comparison'):
            bad = [v for v in (x, y) if not (isinstance(v, tuple) and v[0] == 'Elt' and v[2].isc())]
            if bad:
                if MOVED in bad:
                    ip.report('content', "an element that was moved away is compared", s2, ins)
                    continue
                raise Undecided("comparison of unknown elements")
            i, j = x[2].c, y[2].c
            neg = False
            if op in ('gt', 'le'):
                i, j = j, i
            neg = op in ('le', 'ge')
            r = less(s2, i, j)
            s2.ex['ncmp'] = s2.ex.get('ncmp', 0) + 1
            if r is not None:
                out.append(('ret', s2, r != neg))
                continue
            t = s2.fork()
            t.ex['ord'] = learn(t.ex.get('ord', {}), i, j, True)
            s2.ex['ord'] = learn(s2.ex.get('ord', {}), j, i, False)
            out += [('ret', t, not neg), ('ret', s2, neg)]
    return out


HOOKS = {'call': hook_call}


def short(l):
    return str(l) if len(l) <= 40 else f"[{str(l[:6])[1:-1]}, ... {len(l)} elements]"


def add(name, f, tier='quick'):
    SC.append(Scenario(name, ('C27',), f, 'srt', unroll=True, tier=tier))


def vec(c, n, spare=1):
    null = n == 0 and c.case('storage', ['heap', 'null']) == 'null'
    v = c.seq('v', 'VE', n=n, cap=n + spare, null=null)
    return v


def judge(c, o, v, n, lo, hi, stable, what):
    """v holds its n elements, those at [lo,hi) in order, the others in place"""
    c.oblig += 1
    vw = c.view(o, v)
    if vw is None:
        return
    if vw[0] != Lin(n):
        c.fail(o, 'content', f"the size of the vector after {what} is {vw[0]}, not {n}")
        return
    if n == 0:
        c.no_leak(o, [v])
        return
    p = vw[1]
    got = []
    ob = o.st.mem.get(p.obj)
    if ob is None or not ob.alive:
        c.fail(o, 'uaf', "the vector refers to released memory")
        return
    for i in range(n):
        with c.ip.capture() as rep:
            rs = c.ip.p_content(o.st.fork(), 'P', SZ, Ptr(p.obj, p.off + i * SZ), None, 'element', 'read_dead')
        if len(rs) != 1 or rep:
            c.fail(o, 'lifetime', f"element {i} is not alive after {what}")
            return
        got.append(rs[0][1])
    idx = []
    for i, g in enumerate(got):
        if not (isinstance(g, tuple) and g[0] == 'Elt' and g[2].isc()):
            c.fail(o, 'content', f"position {i} holds {g} after {what}, which is none of the elements")
            return
        idx.append(g[2].c)
    ranks = o.st.ex.get('ord', {})
    if sorted(idx) != list(range(n)):
        c.fail(o, 'content', f"after {what} the vector is not a permutation of its elements: positions hold the elements formerly at {idx}")
        return
    for i in range(n):
        if not (lo <= i < hi) and idx[i] != i:
            c.fail(o, 'content', f"{what} of [{lo},{hi}) changed position {i} outside the range")
            return
    for a, b in zip(idx[lo:hi - 1], idx[lo + 1:hi]):
        c.oblig += 1
        if (a, b) not in ranks:
            # b < a is consistent with every comparison made
            if ranks.get((b, a)) == 1:
                c.fail(o, 'order', f"after {what} the element formerly at {a} precedes the smaller one formerly at {b} (order {short(idx)})")
            else:
                c.fail(o, 'order', f"after {what} the element formerly at {a} precedes the one formerly at {b}, but no comparison establishes their order (order {short(idx)})")
            return
        if stable and a > b and ranks[(a, b)] == 0:
            c.fail(o, 'order', f"{what} is not stable: equal elements formerly at {b} and {a} changed places (order {short(idx)})")
            return
    c.no_leak(o, [v])


def ordered(c, n, pat, free=None):
    """the order of the elements is given, except for the free one"""
    rank = {'ascending': lambda i: i, 'descending': lambda i: -i, 'zigzag': lambda i: i if i % 2 else -i, 'blocks': lambda i: -(i // 8),
            'equal': lambda i: 0, 'scrambled': lambda i: (i * 37) % 11, 'free last': lambda i: i // 2, 'free first': lambda i: i // 2}[pat]
    rel = {}
    for i in range(n):
        for j in range(n):
            if i != j and free not in (i, j) and rank(i) <= rank(j):
                rel[(i, j)] = int(rank(i) < rank(j))
    c.st.ex['ord'] = rel


def whole(f, stable):
    def small(c):
        if c.big:
            return large(c)
        n = c.case('n', list(range(0, 5 if c.eng.tier == 'quick' else 6)))
        c.sampled = True
        v = vec(c, n)
        for o in outcomes(c, c.run(f'{f}_VE', v.ptr), f):
            judge(c, o, v, n, 0, n, stable, f)
    add(f'{f}.small', small)

    def large(c):
        """more elements than any base-case threshold; their order given, one element free"""
        if c.big and c.big[1] <= 67:
            raise Skip()
        n = c.num('n', 0).c if c.big else c.case('n', [33, 40, 67] + ([100] if f in ('sort', 'sort_by', 'timsort_by') else []) + ([150] if f == 'timsort_by' else []) if c.eng.tier == 'quick' else [31, 32, 33, 34, 40, 63, 64, 65, 67, 97, 100, 129, 150, 200])
        pat = c.case('order', ['ascending', 'descending', 'zigzag', 'blocks', 'equal', 'scrambled'] + (['free last', 'free first'] if n == 33 else []))
        if c.big and pat not in ('descending', 'scrambled'):
            raise Skip()
        if n == 150 and c.eng.tier == 'quick' and pat not in ('descending', 'scrambled'):
            raise Skip()
        c.sampled = True
        c.ip.unroll = 4 * n + 40
        c.ip.maxdepth = n + 60
        v = vec(c, n)
        free = {'free last': n - 1, 'free first': 0}.get(pat)
        ordered(c, n, pat, free)
        for o in outcomes(c, c.run(f'{f}_VE', v.ptr), f):
            judge(c, o, v, n, 0, n, stable, f)
    add(f'{f}.large', large, 'quick' if f in ('sort', 'sort_by', 'sort_unstable_by', 'timsort_by', 'heapsort_by') else 'thorough')


for f_, s_ in list(WHOLE.items()) + list(WHOLE_BY.items()):
    whole(f_, s_ == 'stable')


def ranged(f):
    def run(c):
        if c.big:
            n = c.num('n', 1).c
            pat = c.case('order', ['descending', 'scrambled'])
            c.ip.unroll = 4 * n + 40
            c.ip.maxdepth = n + 60
            v = vec(c, n)
            ordered(c, n, pat)
            for o in outcomes(c, c.run(f'{f}_VE', v.ptr, ZERO, Lin(n - 1)), f):
                judge(c, o, v, n, 0, n, False, f)
            return
        n = c.case('n', [1, 2, 3, 4] if c.eng.tier == 'quick' else [1, 2, 3, 4, 5])
        l = c.case('left', list(range(n)))
        r = c.case('right', list(range(l, n)))
        if n == 4 and c.eng.tier == 'quick' and (l, r) not in ((0, 3), (1, 3), (0, 2)):
            raise Skip()
        c.sampled = True
        v = vec(c, n)
        for o in outcomes(c, c.run(f'{f}_VE', v.ptr, Lin(l), Lin(r)), f):
            judge(c, o, v, n, l, r + 1, False, f)
    add(f'{f}.range', run)


for f_ in RANGE_BY:
    ranged(f_)
SC.sort(key=lambda s: (s.tier, not s.name.endswith('.large')))
