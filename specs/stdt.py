"""Standard containers as sequences: the common queries and the traversals over std::array, std::vector and std::basic_string."""
from spec import *
from seq import outcomes, same_ptr
from hof import K1

KINDS = {'TA': ('std::array<P, 5>', 'P'), 'TV': ('std::vector<P>', 'P'), 'TS': ('std::string', 'char'), 'TU': ('std::u16string', 'char16_t')}
TYPES = {'VEq': 'Q', 'ARq': 'Q'}
W = {'P': 24, 'char': 1, 'char16_t': 2}
SC = []


def source(tier):
    s = ['''#include <array>
#include <vector>
#include <string>
#include "probe.hpp"
using namespace vp; using namespace efp;
using VEq = Vector<Q>; using ARq = Array<Q, 5>;
VP_SEQ(VEq, VEq) VP_OWN(VEq, VEq) VP_SEQ(ARq, ARq) VP_OWN(ARq, ARq)
extern "C" { void vp_v_f(const P&); void vp_m_f(P&); Q vp_rQ_f(const P&); R vp_rR_l(const R&, const P&); R vp_rR_r(const P&, const R&); void vp_v_fi(unsigned long, const P&);
void vp_v_c(char); void vp_v_d(char16_t); }
''']
    for t, (d, e) in KINDS.items():
        s.append(f'''using {t} = {d};
S_FN unsigned long length_{t}(const {t}& v) {{ return efp::length(v); }}
S_FN const {e}* nth_{t}(unsigned long i, {t}& v) {{ return &efp::nth(i, v); }}
S_FN const {e}* cnth_{t}(unsigned long i, const {t}& v) {{ return &efp::nth(i, v); }}
S_FN const {e}* data_{t}({t}& v) {{ return efp::data(v); }}
S_FN const {e}* cdata_{t}(const {t}& v) {{ return efp::data(v); }}
S_FN bool null_{t}(const {t}& v) {{ return efp::is_null(v); }}
''')
        if e == 'P':
            s.append(f'''S_FN void fe_{t}(const {t}& v) {{ efp::for_each([](const P& p) {{ vp_v_f(p); }}, v); }}
S_FN void fei_{t}(const {t}& v) {{ efp::for_each_with_index([](size_t i, const P& p) {{ vp_v_fi(i, p); }}, v); }}
S_FN void fem_{t}({t}& v) {{ efp::for_each_mut([](P& p) {{ vp_m_f(p); }}, v); }}
S_FN void map_{t}(void* r, const {t}& v) {{ new (r) {'ARq' if t == 'TA' else 'VEq'}(efp::map([](const P& p) {{ return vp_rQ_f(p); }}, v)); }}
S_FN void foldl_{t}(R* r, const R& i, const {t}& v) {{ new (r) R(efp::foldl([](const R& a, const P& b) {{ return vp_rR_l(a, b); }}, i, v)); }}
S_FN void foldr_{t}(R* r, const R& i, const {t}& v) {{ new (r) R(efp::foldr([](const P& a, const R& b) {{ return vp_rR_r(a, b); }}, i, v)); }}
''')
        else:
            s.append(f'''S_FN void fe_{t}(const {t}& v) {{ efp::for_each([](const {e}& p) {{ vp_v_{'c' if e == 'char' else 'd'}(p); }}, v); }}
''')
    return '\n'.join(s)


class H:
    pass


def make(c, t):
    h = H()
    e = KINDS[t][1]
    w = h.w = W[e]
    h.n = L(5) if t == 'TA' else c.num('n_v', 0)
    body = [Seg(ZERO, h.n * w, 'live', 'P' if e == 'P' else 's', w, ('Elt', 'v', KAPPA))]
    if t == 'TA':
        h.ptr = h.data = c.obj(h.n * w, 'v', body)
    else:
        cap = c.num('cap_v', h.n, None, span=2)
        if t == 'TV':
            h.data = c.obj(cap * w, 'v.data', norm_segs(body + [raw_seg(h.n * w, cap * w)], c.st.cons), kind='heap')
            cells = [Seg(ZERO, L(8), 'live', 's', 8, h.data), Seg(L(8), L(16), 'live', 's', 8, Ptr(h.data.obj, h.n * w)),
                     Seg(L(16), L(24), 'live', 's', 8, Ptr(h.data.obj, cap * w))]
            h.ptr = c.obj(24, 'v', cells)
        else:
            tail = [Seg(h.n * w, (h.n + 1) * w, 'live', 's', w, ZERO), raw_seg((h.n + 1) * w, (cap + 1) * w)]
            h.data = c.obj((cap + 1) * w, 'v.data', norm_segs(body + tail, c.st.cons), kind='heap')
            cells = [Seg(ZERO, L(8), 'live', 's', 8, h.data), Seg(L(8), L(16), 'live', 's', 8, h.n), Seg(L(16), L(24), 'live', 's', 8, cap), raw_seg(L(24), L(32))]
            h.ptr = c.obj(32, 'v', cells)
    return h


def kept(c, o, h):
    return c.match(o, o.st.mem[h.data.obj].segs, c.st.mem[h.data.obj].segs, 'content', "elements of v")


def mk(t):
    e = KINDS[t][1]

    def trait(c):
        v = make(c, t)
        for o in outcomes(c, c.run('length_' + t, v.ptr), 'length'):
            c.must_eq(o, o.val - v.n, 'content', 'length differs from the number of elements')
        for fn in ('data_', 'cdata_'):
            for o in outcomes(c, c.run(fn + t, v.ptr), 'data'):
                same_ptr(c, o, o.val, v.data, 'content', 'data()')
        for o in outcomes(c, c.run('null_' + t, v.ptr), 'is_null'):
            for s, b in c.ip.resolve(o.st, o.val, None):
                c.must(Outcome('ret', s, b), -v.n if b else v.n - 1, 'content', f'is_null is {b}')
    SC.append(Scenario(f'{t}.trait', ('C29',), trait, 'stdt'))

    def nth(c):
        v = make(c, t)
        i = c.num('i', 0, v.n - 1)
        for fn in ('nth_', 'cnth_'):
            for o in outcomes(c, c.run(fn + t, i, v.ptr), 'nth'):
                same_ptr(c, o, o.val, Ptr(v.data.obj, v.data.off + i * v.w), 'content', 'nth(i, v)')
    SC.append(Scenario(f'{t}.nth', ('C29',), nth, 'stdt'))

    def foreach(c):
        v = make(c, t)
        for o in outcomes(c, c.run('fe_' + t, v.ptr), 'for_each'):
            c.trace(o, [(v.n, E({'P': 'f', 'char': 'c'}.get(e, 'd'), K1('v')))], 'order', 'calls made by for_each')
            kept(c, o, v)
    SC.append(Scenario(f'{t}.for_each', ('C16',), foreach, 'stdt'))
    if e != 'P':
        return

    def more(c):
        v = make(c, t)
        op = c.case('op', ['index', 'mut', 'map', 'foldl', 'foldr'])
        if op == 'index':
            for o in outcomes(c, c.run('fei_' + t, v.ptr), 'for_each_with_index'):
                c.trace(o, [(v.n, E('fi', KAPPA, K1('v')))], 'order', 'calls made by for_each_with_index')
                kept(c, o, v)
        elif op == 'mut':
            for o in outcomes(c, c.run('fem_' + t, v.ptr), 'for_each_mut'):
                c.trace(o, [(v.n, E('f', K1('v')))], 'order', 'calls made by for_each_mut')
        elif op == 'map':
            r = c.fresh_seq('result', 'ARq' if t == 'TA' else 'VEq')
            for o in outcomes(c, c.run('map_' + t, r.ptr, v.ptr), 'map'):
                if c.trace(o, [(v.n, E('f', K1('v')))], 'order', 'calls made by map'):
                    c.expect_seq(o, r, [(v.n, ('Ret', 'f', KAPPA))])
                kept(c, o, v)
        else:
            i, r = c.elem('i', 'R'), c.raw(8, 'result')
            left = op == 'foldl'
            for o in outcomes(c, c.run(f'{op}_{t}', r, i, v.ptr), op):
                for s, some in o.st.split(v.n - 1):
                    oo = Outcome('ret', s, None)
                    if not some:
                        c.trace(oo, [], 'order', 'calls made by a fold of an empty sequence')
                        continue
                    if left:
                        want = [(ONE, E('l', elt('i'), elt('v'))), (v.n - 1, E('l', ('Ret', 'l', KAPPA), K1('v', 1)))]
                    else:
                        want = [(ONE, E('r', elt('v', v.n - 1), elt('i'))), (v.n - 1, E('r', ('Elt', 'v', v.n - 2 - KAPPA), ('Ret', 'r', KAPPA)))]
                    c.trace(oo, want, 'order', 'calls made by a fold')
    SC.append(Scenario(f'{t}.traversals', ('C16',), more, 'stdt'))


for _t in KINDS:
    mk(_t)
