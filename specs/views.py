"""take, drop, slice, tail, init, head, last and the view classes: which part of the source a view covers."""
from spec import *
from seq import outcomes, same_ptr

TYPES = {'AR': 'P', 'AV': 'P', 'VE': 'P', 'ARv': 'P', 'AVv': 'P', 'VEv': 'P', 'SA': 'P'}
DECL = {'AR': 'Array<P, 5>', 'AV': 'ArrVec<P, 5>', 'VE': 'Vector<P>', 'ARv': 'ArrayView<P, 5>', 'AVv': 'ArrVecView<P, 5>',
        'VEv': 'VectorView<P>', 'SA': 'std::array<P, 5>'}
OWN = ('AR', 'AV', 'VE')
SC = []
STATIC = {'take': [(0,), (3,), (5,), (9,)], 'drop': [(0,), (2,), (5,), (9,)], 'slice': [(0, 2), (1, 4), (2, 5), (3, 9), (0, 9)]}
CONV = [('ARv', 'ARv'), ('AVv', 'AVv'), ('VEv', 'VEv'), ('ARv', 'AVv'), ('ARv', 'VEv'), ('AVv', 'VEv')]


def source(tier):
    s = ['#include "probe.hpp"', 'using namespace vp;', 'using namespace efp;']
    for t, d in DECL.items():
        s.append(f'using {t} = {d};')
        if t == 'SA':
            s.append('S_FN unsigned long sizeof_SA() { return sizeof(SA); } S_FN unsigned long size_SA(const SA& v) { return efp::length(v); }'
                     'S_FN unsigned long cap_SA(const SA& v) { return 5; } S_FN const void* data_SA(const SA& v) { return v.data(); }')
        else:
            s.append(f'VP_SEQ({t}, {t})' + (f' VP_OWN({t}, {t})' if t in OWN else ''))
    s.append('''struct Out { const void *d, *b, *e; unsigned long n, l, c; };
#define OUT(x) auto r_ = (x); o.d = efp::data(r_); o.b = r_.begin(); o.e = r_.end(); o.n = r_.size(); o.l = efp::length(r_); o.c = r_.capacity();
S_FN const void* g_d(const Out& o) { return o.d; }
S_FN const void* g_b(const Out& o) { return o.b; }
S_FN const void* g_e(const Out& o) { return o.e; }
S_FN unsigned long g_n(const Out& o) { return o.n; }
S_FN unsigned long g_l(const Out& o) { return o.l; }
S_FN unsigned long g_c(const Out& o) { return o.c; }
''')
    for t in DECL:
        for q, cv in (('c', 'const '), ('m', '')):
            a = f'{cv}{t}& v'
            f = f'{q}_{t}'
            s.append(f'S_FN void take_{f}(Out& o, unsigned long k, {a}) {{ OUT(take(k, v)) }}')
            s.append(f'S_FN void drop_{f}(Out& o, unsigned long k, {a}) {{ OUT(drop(k, v)) }}')
            s.append(f'S_FN void takei_{f}(Out& o, int k, {a}) {{ OUT(take(k, v)) }}')
            s.append(f'S_FN void dropi_{f}(Out& o, int k, {a}) {{ OUT(drop(k, v)) }}')
            s.append(f'S_FN void slice_{f}(Out& o, unsigned long i, unsigned long j, {a}) {{ OUT(slice(i, j, v)) }}')
            s.append(f'S_FN void takeu_{f}(Out& o, unsigned long k, {a}) {{ OUT(take_unsafe(k, v)) }}')
            s.append(f'S_FN void dropu_{f}(Out& o, unsigned long k, {a}) {{ OUT(drop_unsafe(k, v)) }}')
            s.append(f'S_FN void sliceu_{f}(Out& o, unsigned long i, unsigned long j, {a}) {{ OUT(slice_unsafe(i, j, v)) }}')
            s.append(f'S_FN void tail_{f}(Out& o, {a}) {{ OUT(tail(v)) }}')
            s.append(f'S_FN void init_{f}(Out& o, {a}) {{ OUT(init(v)) }}')
            s.append(f'S_FN const void* head_{f}({a}) {{ return &head(v); }}')
            s.append(f'S_FN const void* last_{f}({a}) {{ return &last(v); }}')
            for op, ks in STATIC.items():
                for k in ks:
                    if t == 'VEv' and op != 'drop' and not True:
                        continue
                    n = '_'.join(map(str, k))
                    args = ', '.join(f'Size<{x}>{{}}' for x in k)
                    s.append(f'S_FN void {op}S{n}_{f}(Out& o, {a}) {{ OUT({op}({args}, v)) }}')
    for a, b in CONV:
        s.append(f'S_FN void conv_{a}_{b}({b}* r, const {a}& v) {{ new (r) {b}(v); }}')
        s.append(f'S_FN void asg_{a}_{b}({b}& r, const {a}& v) {{ r = v; }}')
    for t in ('ARv', 'AVv', 'VEv'):
        s.append(f'S_FN void mk_{t}({t}* r, const P* p, unsigned long n) {{ new (r) {t}(p, n); }}')
        s.append(f'S_FN void null_{t}({t}* r) {{ new (r) {t}(); }}')
        s.append(f'S_FN bool eq_{t}(const {t}& a, const {t}& b) {{ return a == b; }}')
        s.append(f'S_FN bool empty_{t}(const {t}& a) {{ return a.empty(); }}')
        s.append(f'S_FN const void* begin_{t}(const {t}& a) {{ return a.begin(); }}')
        s.append(f'S_FN const void* end_{t}(const {t}& a) {{ return a.end(); }}')
        s.append(f'S_FN const void* at_{t}(const {t}& a, unsigned long i) {{ return &a[i]; }}')
        s.append(f'S_FN const void* mbegin_{t}({t}& a) {{ return a.begin(); }}')
        s.append(f'S_FN const void* mend_{t}({t}& a) {{ return a.end(); }}')
        s.append(f'S_FN const void* mat_{t}({t}& a, unsigned long i) {{ return &a[i]; }}')
    return '\n'.join(s) + '\n'


def add(name, f, props=('C19',)):
    SC.append(Scenario(name, props, f, 'views'))


def get(c, o, fn, p):
    outs, rep = c.quiet_call(fn, p, st=o.st)
    if rep or len(outs) != 1:
        c.unsure.append(f"view not determined ({fn})")
        return None
    return outs[0].val


def covers(c, o, out, base, lo, hi, what):
    """the view in `out` covers exactly the elements lo..hi of the source at base"""
    w = hi - lo
    for g, nm in (('g_n', 'size()'), ('g_l', 'length')):
        n = get(c, o, g, out)
        if not isinstance(n, Lin):
            c.unsure.append(f'{nm} of the view')
            return
        if not c.must_eq(o, n - w, 'view', f"{what}: the view has {nm} {n}, expected {w}"):
            return
    n = get(c, o, 'g_c', out)
    if isinstance(n, Lin):
        c.must(o, n - w, 'view', f"{what}: the view has capacity {n} but size {w}")
    for s, some in o.st.split(w - 1):
        if not some:
            continue
        oo = Outcome('ret', s, None)
        for g, off in (('g_d', lo), ('g_b', lo), ('g_e', hi)):
            same_ptr(c, oo, get(c, oo, g, out), Ptr(base.obj, base.off + off * 24), 'view', f'{what}: {g[2:]}')


def cut(c, o, x, n):
    """[(outcome, min(x, n))]"""
    return [(Outcome(o.kind, s, o.val), n if ge else x) for s, ge in o.st.split(x - n)]


def mk(tn):
    def src_(c):
        v = c.seq('v', tn)
        base = c.view(Outcome('ret', c.st, None), v)[1]
        return v, base, c.raw(48, 'out')

    def good(c, outs, v, what, refuse=None):
        g = outcomes(c, outs, what, refuse)
        for o in g:
            c.unchanged(o, v)
        return g

    def take(c):
        v, base, out = src_(c)
        q = c.case('arg', ['c', 'm'])
        op = c.case('op', ['take', 'drop', 'takei', 'dropi'])
        k = c.num('k', 0, (1 << 31) - 1 if op.endswith('i') else (1 << 64) - 1)
        for o in good(c, c.run(f'{op}_{q}_{tn}', out, k, v.ptr), v, op):
            for oo, m in cut(c, o, k, v.n):
                covers(c, oo, out, base, ZERO if op.startswith('take') else m, m if op.startswith('take') else v.n, op)
    add(f'{tn}.take_drop', take)

    def slice_(c):
        v, base, out = src_(c)
        q = c.case('arg', ['c', 'm'])
        i, j = c.num('i', 0, (1 << 64) - 1), c.num('j', 0, (1 << 64) - 1)
        for o in good(c, c.run(f'slice_{q}_{tn}', out, i, j, v.ptr), v, 'slice'):
            for o1, e in cut(c, o, j, v.n):
                for o2, b in cut(c, o1, i, e):
                    covers(c, o2, out, base, b, e, 'slice')
    add(f'{tn}.slice', slice_)

    def npos(c):
        """the largest bound there is: clamping must not wrap around"""
        v, base, out = src_(c)
        q = c.case('arg', ['c', 'm'])
        op = c.case('op', ['take', 'drop', 'slice0', 'slice1', 'slice2'])
        if op[:5] == 'slice':
            a = [(L(-1), L(-1)), (ONE, L(-1)), (L(-1), ONE)][int(op[5])]
            for o in good(c, c.run(f'slice_{q}_{tn}', out, a[0], a[1], v.ptr), v, 'slice'):
                for o1, e in [(o, v.n)] if op != 'slice2' else cut(c, o, ONE, v.n):
                    for o2, b in [(o1, e)] if op != 'slice1' else cut(c, o1, ONE, e):
                        covers(c, o2, out, base, b, e, 'slice with a bound of the largest size_t')
        else:
            for o in good(c, c.run(f'{op}_{q}_{tn}', out, L(-1), v.ptr), v, op):
                covers(c, o, out, base, ZERO if op == 'take' else v.n, v.n, f'{op} of the largest size_t')
    add(f'{tn}.largest_bound', npos)

    def unsafe(c):
        v, base, out = src_(c)
        q = c.case('arg', ['c', 'm'])
        op = c.case('op', ['take', 'drop', 'slice'])
        j = c.num('j', 0, v.n)
        if op == 'slice':
            i = c.num('i', 0, j)
            outs, lo, hi = c.run(f'sliceu_{q}_{tn}', out, i, j, v.ptr), i, j
        else:
            outs = c.run(f'{op}u_{q}_{tn}', out, j, v.ptr)
            lo, hi = (ZERO, j) if op == 'take' else (j, v.n)
        for o in good(c, outs, v, op + '_unsafe'):
            covers(c, o, out, base, lo, hi, op + '_unsafe')
    add(f'{tn}.unsafe', unsafe)

    def ends(c):
        v, base, out = src_(c)
        q = c.case('arg', ['c', 'm'])
        op = c.case('op', ['tail', 'init', 'head', 'last'])
        args = (out, v.ptr) if op in ('tail', 'init') else (v.ptr,)
        for o in good(c, c.run(f'{op}_{q}_{tn}', *args), v, op, refuse=-v.n):
            if op in ('tail', 'init'):
                covers(c, o, out, base, ONE if op == 'tail' else ZERO, v.n if op == 'tail' else v.n - 1, op)
            else:
                same_ptr(c, o, o.val, Ptr(base.obj, base.off + (ZERO if op == 'head' else (v.n - 1) * 24)), 'view', op)
    add(f'{tn}.ends', ends)

    def static(c):
        v, base, out = src_(c)
        q = c.case('arg', ['c', 'm'])
        op = c.case('op', ['take', 'drop', 'slice'])
        k = c.case('bound', STATIC[op])
        n = '_'.join(map(str, k))
        for o in good(c, c.run(f'{op}S{n}_{q}_{tn}', out, v.ptr), v, op):
            if op == 'slice':
                for o1, e in cut(c, o, L(k[1]), v.n):
                    for o2, b in cut(c, o1, L(k[0]), e):
                        covers(c, o2, out, base, b, e, f'slice<{k[0]},{k[1]}>')
            else:
                for oo, m in cut(c, o, L(k[0]), v.n):
                    covers(c, oo, out, base, ZERO if op == 'take' else m, m if op == 'take' else v.n, f'{op}<{k[0]}>')
    add(f'{tn}.static_bounds', static)


for _t in TYPES:
    mk(_t)


def conv(a, b):
    def f(c):
        v = c.seq('v', a)
        base = c.view(Outcome('ret', c.st, None), v)
        how = c.case('op', ['construct', 'assign', 'self']) if a == b else c.case('op', ['construct', 'assign'])
        if how == 'construct':
            w = c.fresh_seq('w', b)
            outs = c.run(f'conv_{a}_{b}', w.ptr, v.ptr)
        elif how == 'assign':
            w = c.seq('w', b)
            outs = c.run(f'asg_{a}_{b}', w.ptr, v.ptr)
        else:
            w = v
            outs = c.run(f'asg_{a}_{b}', v.ptr, v.ptr)
        for o in outcomes(c, outs, 'copy of a view'):
            c.unchanged(o, v)
            same_view(c, o, w, base[1], v.n)
    add(f'{a}_{b}.view_copy', f)


def same_view(c, o, w, base, n):
    vw = c.view(o, w)
    if vw is None:
        return
    m, p, cap = vw
    if m == UNDEF or p == UNDEF or cap == UNDEF:
        c.fail(o, 'view', 'the view has an uninitialised member')
        return
    if not isinstance(m, Lin):
        c.unsure.append('size of the view')
        return
    c.must_eq(o, m - n, 'view', f"the view has {m} elements, expected {n}")
    if isinstance(cap, Lin):
        c.must(o, cap - m, 'view', f"the view has capacity {cap} but size {m}")
    for s, some in o.st.split(n - 1):
        if some:
            same_ptr(c, Outcome('ret', s, None), p, base, 'view', 'data()')


for _a, _b in CONV:
    conv(_a, _b)


def cls(tn):
    def make(c):
        n = L(5) if tn == 'ARv' else c.num('n', 0, 5 if tn == 'AVv' else None)
        null = c.case('data', ['some', 'null']) == 'null'
        p = NULL if null else c.elems('x', n)
        w = c.fresh_seq('w', tn)
        for o in outcomes(c, c.run(f'mk_{tn}', w.ptr, p, n), 'construction of a view', refuse=n - 1 if null else None):
            if not null:
                same_view(c, o, w, p, n)
    add(f'{tn}.make', make)

    def acc(c):
        v = c.seq('v', tn)
        base = c.view(Outcome('ret', c.st, None), v)[1]
        for fn, off in (('begin', ZERO), ('mbegin', ZERO), ('end', v.n), ('mend', v.n)):
            for o in outcomes(c, c.run(f'{fn}_{tn}', v.ptr), fn):
                c.unchanged(o, v)
                same_ptr(c, o, o.val, Ptr(base.obj, base.off + off * 24), 'view', fn + '()')
        i = c.num('i', 0, v.n - 1)
        for fn in ('at', 'mat'):
            for o in outcomes(c, c.run(f'{fn}_{tn}', v.ptr, i), fn):
                same_ptr(c, o, o.val, Ptr(base.obj, base.off + i * 24), 'view', 'operator[]')
    add(f'{tn}.access', acc)

    def empty(c):
        v = c.seq('v', tn)
        for o in outcomes(c, c.run(f'empty_{tn}', v.ptr), 'empty()'):
            for s, b in c.ip.resolve(o.st, o.val, None):
                c.must(Outcome('ret', s, b), -v.n if b else v.n - 1, 'view', f'empty() is {b}')
    add(f'{tn}.empty', empty)


for _t in ('ARv', 'AVv', 'VEv'):
    cls(_t)
