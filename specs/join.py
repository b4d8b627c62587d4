"""concat, intercalate and the cartesian traversals: nested sequences of enumerated small sizes."""
from spec import *
from seq import outcomes

NEST = {'ARAR': ('AR2', 'Array<AR2, 3>'), 'ARAV': ('AV3', 'Array<AV3, 3>'), 'AVAR': ('AR2', 'ArrVec<AR2, 3>'), 'AVAV': ('AV3', 'ArrVec<AV3, 3>'),
        'VEVE': ('VE', 'Vector<VE>'), 'AVVE': ('VE', 'ArrVec<VE, 3>'), 'VEAV': ('AV3', 'Vector<AV3>'), 'ARVE': ('VE', 'Array<VE, 3>'),
        'VEvAR': ('AR2', 'VectorView<AR2>')}
DEL = {'AR2': 'Array<P, 2>', 'AV3': 'ArrVec<P, 3>', 'VE': 'Vector<P>'}
CT = {'AR2': (2, 2), 'AV3': (None, 3), 'VE': (None, None), 'AR': (3, 3), 'AV': (None, 3), 'VEv': (None, None)}


def kind(outer):
    return {'AR': 'AR', 'AV': 'AV', 'VE': 'VE'}[outer[:2]] if not outer.startswith('VEv') else 'VEv'


def concat_res(o):
    """(is static size, size or capacity or None)"""
    a, b = CT[kind(o)], CT[NEST[o][0]]
    if a[0] and b[0]:
        return 'A', a[0] * b[0]
    if a[1] and b[1]:
        return 'V', a[1] * b[1]
    return 'D', None


def inter_res(d, o):
    a, b, c = CT[kind(o)], CT[NEST[o][0]], CT[d]
    if a[0] and b[0] and c[0]:
        return 'A', a[0] * (b[0] + c[0]) - c[0]
    if a[1] and b[1] and c[1]:
        return 'V', a[1] * (b[1] + c[1]) - c[1]
    return 'D', None


def cart_res(*ts):
    if all(CT[t][0] for t in ts):
        n = 1
        for t in ts:
            n *= CT[t][0]
        return 'A', n
    if all(CT[t][1] for t in ts):
        n = 1
        for t in ts:
            n *= CT[t][1]
        return 'V', n
    return 'D', None


def rname(r, T):
    return {'A': f'RA{r[1]}', 'V': f'RV{r[1]}', 'D': 'RD'}[r[0]] + T


def rdecl(r, T):
    return {'A': f'Array<{T}, {r[1]}>', 'V': f'ArrVec<{T}, {r[1]}>', 'D': f'Vector<{T}>'}[r[0]]


INTER = [('AR2', 'ARAR'), ('AV3', 'AVAV'), ('VE', 'VEVE'), ('AR2', 'AVAR'), ('AV3', 'ARAR'), ('AR2', 'VEAV'), ('VE', 'ARAR'), ('AR2', 'ARAV')]
CART = [('AR2', 'AR2'), ('AV3', 'AV3'), ('VE', 'VE'), ('AV3', 'AR2'), ('AR2', 'VE')]
CART3 = [('AV3', 'AR2', 'AV3'), ('VE', 'AV3', 'AR2')]
RES = {}
for _o in NEST:
    RES[rname(concat_res(_o), 'P')] = (rdecl(concat_res(_o), 'P'), 'P')
for _d, _o in INTER:
    RES[rname(inter_res(_d, _o), 'P')] = (rdecl(inter_res(_d, _o), 'P'), 'P')
for _x in CART + CART3:
    RES[rname(cart_res(*_x), 'Q')] = (rdecl(cart_res(*_x), 'Q'), 'Q')
TYPES = {'AR2': 'P', 'AV3': 'P', 'VE': 'P'}
TYPES.update({k: v[1] for k, v in RES.items()})
SC = []


def source(tier):
    s = ['''#include "probe.hpp"
using namespace vp;
using namespace efp;
#define RES(e) new (r) efp::CVRefRemoved<decltype(e)>(e)
extern "C" {
void vp_v_f2(const P&, const P&);
void vp_v_f3(const P&, const P&, const P&);
void vp_m_f2(P&, P&);
void vp_v_i(unsigned long);
void vp_v_i2(unsigned long, unsigned long);
void vp_v_i3(unsigned long, unsigned long, unsigned long);
Q vp_rQ_f2(const P&, const P&);
Q vp_rQ_f3(const P&, const P&, const P&);
}
struct FQ2 { Q operator()(const P& p, const P& q) const { return vp_rQ_f2(p, q); } };
struct FQ3 { Q operator()(const P& p, const P& q, const P& r) const { return vp_rQ_f3(p, q, r); } };
''']
    for t, d in DEL.items():
        s.append(f'using {t} = {d}; VP_SEQ({t}, {t}) VP_OWN({t}, {t})')
    for t, (i, d) in NEST.items():
        s.append(f'using {t} = {d}; VP_SEQ({t}, {t})' + ('' if t.startswith('VEv') else f' VP_OWN({t}, {t})'))
    for t, (d, T) in RES.items():
        s.append(f'using {t} = {d}; VP_SEQ({t}, {t}) VP_OWN({t}, {t})')
    for t in NEST:
        s.append(f'S_FN void concat_{t}(void* r, const {t}& v) {{ RES(concat(v)); }}')
        s.append(f'static_assert(efp::IsSame<efp::CVRefRemoved<decltype(concat(efp::declval<const {t}&>()))>, {rname(concat_res(t), "P")}>::value, "type");')
    for d, t in INTER:
        s.append(f'S_FN void inter_{d}_{t}(void* r, const {d}& d, const {t}& v) {{ RES(intercalate(d, v)); }}')
    for a, b in CART:
        s.append(f'S_FN void cmap_{a}_{b}(void* r, const {a}& v, const {b}& w) {{ RES(cartesian_map(FQ2{{}}, v, w)); }}')
        s.append(f'S_FN void cfe_{a}_{b}(const {a}& v, const {b}& w) {{ cartesian_for_each([](const P& p, const P& q) {{ vp_v_f2(p, q); }}, v, w); }}')
        s.append(f'S_FN void cfem_{a}_{b}({a}& v, {b}& w) {{ cartesian_for_each_mut([](P& p, P& q) {{ vp_m_f2(p, q); }}, v, w); }}')
    for a, b, d in CART3:
        s.append(f'S_FN void cmap_{a}_{b}_{d}(void* r, const {a}& u, const {b}& v, const {d}& w) {{ RES(cartesian_map(FQ3{{}}, u, v, w)); }}')
        s.append(f'S_FN void cfe_{a}_{b}_{d}(const {a}& u, const {b}& v, const {d}& w) {{ cartesian_for_each([](const P& o, const P& p, const P& q) {{ vp_v_f3(o, p, q); }}, u, v, w); }}')
    s.append('''S_FN void cidx1(unsigned long a) { cartesian_for_index([](size_t i) { vp_v_i(i); }, a); }
S_FN void cidx2(unsigned long a, unsigned long b) { cartesian_for_index([](size_t i, size_t j) { vp_v_i2(i, j); }, a, b); }
S_FN void cidx3(unsigned long a, unsigned long b, unsigned long c) { cartesian_for_index([](size_t i, size_t j, size_t k) { vp_v_i3(i, j, k); }, a, b, c); }
''')
    return '\n'.join(s) + '\n'


def add(name, props, f, tier='quick'):
    SC.append(Scenario(name, props, f, 'join', unroll=True, tier=tier))


def num(c, name, hi, tn=None):
    c.sampled = True
    return c.num(name, 0, (CT[tn][1] if tn else None) if c.big else hi).c


def own(*hs):
    return [h for h in hs if h.lay.owner]


def shift(g, d):
    return g._replace(lo=g.lo + d, hi=g.hi + d)


def nested(c, name, tn):
    """a sequence of sequences; returns (handle, inner handles)"""
    inner = NEST[tn][0]
    il = c.layout(inner)
    c.eng.types[tn] = 'raw%d' % il.total
    lay = c.layout(tn)
    a = CT[kind(tn)]
    n = a[0] if a[0] else num(c, 'n_' + name, 3, kind(tn))
    hs = []
    body = []
    for i in range(n):
        m = CT[inner][0]
        k = m if m else num(c, f'n_{name}{i}', 2, inner)
        null = inner == 'VE' and k == 0 and c.case(f'{name}{i}', ['heap', 'null']) == 'null'
        h = c.seq(f'{name}{i}', inner, n=k, cap=k + 1 if inner == 'VE' else None, null=null)
        body += [shift(g, i * il.total) for g in c.st.mem[h.obj].segs]
        hs.append(h)
    for h in hs:
        del c.st.mem[h.obj]
        h.obj = None
    H = Handle()
    H.name, H.tn, H.T, H.lay = name, tn, c.eng.types[tn], lay
    H.n = L(n)
    H.heap = None
    cells = []
    if lay.kind == 'inline':
        room = lay.cap * il.total
        inl = [shift(g, lay.data_off) for g in body]
        if n * il.total < room:
            inl.append(raw_seg(Lin(lay.data_off + n * il.total), Lin(lay.data_off + room)))
        cells.append((lay.data_off, lay.data_off + room, inl))
    else:
        cap = n + 1 if lay.owner else n
        if lay.owner:
            body = body + [raw_seg(Lin(n * il.total), Lin(cap * il.total))]
        p = c.obj(cap * il.total, name + '.data', body, kind='heap' if lay.owner else 'ext', family=lay.family)
        H.heap = p.obj
        cells.append((lay.data_off, lay.data_off + 8, [Seg(Lin(lay.data_off), Lin(lay.data_off + 8), 'live', 's', 8, p)]))
        if lay.cap_off is not None:
            cells.append((lay.cap_off, lay.cap_off + 8, [Seg(Lin(lay.cap_off), Lin(lay.cap_off + 8), 'live', 's', 8, L(cap))]))
    if lay.size is not None:
        cells.append((lay.size, lay.size + 8, [Seg(Lin(lay.size), Lin(lay.size + 8), 'live', 's', 8, L(n))]))
    cells.sort(key=lambda x: x[0])
    segs = []
    pos = 0
    for lo, hi, g in cells:
        if lo > pos:
            segs += lay.filler(pos, lo)
        segs += g
        pos = hi
    if pos < lay.total:
        segs += lay.filler(pos, lay.total)
    H.ptr = c.obj(lay.total, name, norm_segs(segs, c.st.cons))
    H.obj = H.ptr.obj
    return H, hs


def still(c, o, H, hs):
    c.unchanged(o, H)
    for h in hs:
        h.obj = None
        c.unchanged(o, h)


def own_n(c, o, H, hs, *more):
    """no heap block besides the known ones"""
    c.oblig += 1
    known = {H.heap} | {h.heap for h in hs} | {h.heap for h in more if h.heap is not None}
    for h in more:
        v = c.view(o, h)
        if v is not None and isinstance(v[1], Ptr):
            known.add(v[1].obj)
    for i, ob in o.st.mem.items():
        if ob.kind == 'heap' and ob.alive and i not in known:
            c.fail(o, 'leak', f"a heap block ({ob.name}) is not released and not owned by any container")


def cc(tn):
    def f(c):
        H, hs = nested(c, 'v', tn)
        r = c.fresh_seq('result', rname(concat_res(tn), 'P'))
        for o in outcomes(c, c.run('concat_' + tn, r.ptr, H.ptr), 'concat'):
            still(c, o, H, hs)
            c.expect_seq(o, r, [run_elt(h.name, 0, h.n) for h in hs])
            own_n(c, o, H, hs, r)
    add('concat.' + tn, ('C18',), f)


for _o in NEST:
    cc(_o)


def ic(d, tn):
    def f(c):
        H, hs = nested(c, 'v', tn)
        m = CT[d][0]
        n = m if m else num(c, 'n_d', 2, d)
        D = c.seq('d', d, n=n, cap=n + 1 if d == 'VE' else None, null=False)
        r = c.fresh_seq('result', rname(inter_res(d, tn), 'P'))
        want = []
        for i, h in enumerate(hs):
            if i:
                want.append(run_elt('d', 0, n))
            want.append(run_elt(h.name, 0, h.n))
        for o in outcomes(c, c.run(f'inter_{d}_{tn}', r.ptr, D.ptr, H.ptr), 'intercalate'):
            still(c, o, H, hs)
            c.unchanged(o, D)
            c.expect_seq(o, r, want)
            own_n(c, o, H, hs, r, D)
    add(f'intercalate.{d}_{tn}', ('C18',), f)


for _d, _o in INTER:
    ic(_d, _o)


def prod(hs):
    out = [()]
    for h in hs:
        out = [p + (elt(h.name, i),) for p in out for i in range(h.n.c)]
    return out


def smalls(c, ts):
    hs = []
    for i, t in enumerate(ts):
        nm = 'uvw'[i] if len(ts) == 3 else 'vw'[i]
        n = CT[t][0] or num(c, 'n_' + nm, 2, t)
        null = t == 'VE' and n == 0
        hs.append(c.seq(nm, t, n=n, cap=n + 1 if t == 'VE' and not null else None, null=null))
    return hs


def ct(ts):
    key = '_'.join(ts)
    ev = f'f{len(ts)}'

    def f(c):
        hs = smalls(c, ts)
        r = c.fresh_seq('result', rname(cart_res(*ts), 'Q'))
        combos = prod(hs)
        op = c.case('op', ['map', 'for_each'])
        outs = c.run('cmap_' + key, r.ptr, *[h.ptr for h in hs]) if op == 'map' else c.run('cfe_' + key, *[h.ptr for h in hs])
        for o in outcomes(c, outs, 'cartesian ' + op):
            for h in hs:
                c.unchanged(o, h)
            if c.trace(o, [(ONE, E(ev, *p)) for p in combos], 'order', 'calls made by cartesian_' + op) and op == 'map':
                c.expect_seq(o, r, [one(('Ret', ev, Lin(i))) for i in range(len(combos))])
                c.no_leak(o, own(r, *hs))
    add('cartesian.' + key, ('C16',), f)


for _x in CART + CART3:
    ct(_x)


def ctm(ts):
    key = '_'.join(ts)

    def f(c):
        v, w = smalls(c, ts)
        for o in outcomes(c, c.run('cfem_' + key, v.ptr, w.ptr), 'cartesian_for_each_mut'):
            # each call sees the current values and updates the elements in place
            cur_v = [elt('v', i) for i in range(v.n.c)]
            cur_w = [elt('w', i) for i in range(w.n.c)]
            want = []
            for i in range(v.n.c):
                for j in range(w.n.c):
                    k = len(want)
                    want.append((ONE, E('f2', cur_v[i], cur_w[j])))
                    cur_v[i], cur_w[j] = ('Upd', 'f2', Lin(k), 0), ('Upd', 'f2', Lin(k), 1)
            if c.trace(o, want, 'order', 'calls made by cartesian_for_each_mut'):
                c.expect_seq(o, v, [one(x) for x in cur_v])
                c.expect_seq(o, w, [one(x) for x in cur_w])
                c.no_leak(o, own(v, w))
    add('cartesian_mut.' + key, ('C16',), f)


for _x in CART:
    ctm(_x)


def cidx(c):
    k = c.case('dims', [1, 2, 3])
    ns = [num(c, f'n{i}', 2) for i in range(k)]
    want = [()]
    for n in ns:
        want = [p + (Lin(i),) for p in want for i in range(n)]
    for o in outcomes(c, c.run(f'cidx{k}', *[L(n) for n in ns]), 'cartesian_for_index'):
        c.trace(o, [(ONE, E('i' + ('' if k == 1 else str(k)), *p)) for p in want], 'order', 'calls made by cartesian_for_index')


add('cartesian_for_index', ('C16',), cidx)
