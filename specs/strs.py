"""String and StringView: termination, bounds, contents and comparison of text."""
import itertools
from spec import *
from seq import outcomes, same_ptr, disjoint, wellformed, done

KINDS = {'S8': ('char', 'char', 1), 'SW': ('wchar_t', 'wchar', 4), 'SU': ('char16_t', 'c16', 2), 'SX': ('char32_t', 'c32', 4)}
TYPES = {k: v[1] for k, v in KINDS.items()}
TYPES.update({k + 'v': v[1] for k, v in KINDS.items()})
SC = []
SHARDS = 6


def source(tier):
    s = ['#include "probe.hpp"', 'using namespace efp;']
    for t, (C, _, w) in KINDS.items():
        v = t + 'v'
        s.append(f'''using {t} = BasicString<{C}>; using {v} = BasicStringView<{C}>;
VP_SEQ({t}, {t}) VP_OWN({t}, {t}) VP_SEQ({v}, {v})
S_FN void cs_{t}(void* p, const {C}* s) {{ new (p) {t}(s); }}
S_FN void csn_{t}(void* p, const {C}* s, unsigned long n) {{ new (p) {t}(s, n); }}
S_FN void fill_{t}(void* p, unsigned long n, {C} c) {{ new (p) {t}(size_t(n), c); }}
S_FN void range_{t}(void* p, const {C}* a, const {C}* b) {{ new (p) {t}(a, b); }}
S_FN void copy_{t}(void* p, const {t}& o) {{ new (p) {t}(o); }}
S_FN void move_{t}(void* p, {t}& o) {{ new (p) {t}(efp::move(o)); }}
S_FN void cassign_{t}({t}& a, const {t}& b) {{ a = b; }}
S_FN void massign_{t}({t}& a, {t}& b) {{ a = efp::move(b); }}
S_FN const {C}* cstr_{t}(const {t}& a) {{ return a.c_str(); }}
S_FN {C} atf_{t}(const {t}& a, unsigned long i) {{ return a.at(i); }}
S_FN {C} front_{t}(const {t}& a) {{ return a.front(); }}
S_FN {C} back_{t}(const {t}& a) {{ return a.back(); }}
S_FN void pluseq_{t}({t}& a, const {t}& b) {{ a += b; }}
S_FN void append_{t}({t}& a, const {C}* s) {{ a.append(s); }}
S_FN void appendn_{t}({t}& a, unsigned long n, {C} c) {{ a.append(size_t(n), c); }}
S_FN void assign_{t}({t}& a, const {C}* s) {{ a.assign(s); }}
S_FN void assignn_{t}({t}& a, unsigned long n, {C} c) {{ a.assign(size_t(n), c); }}
S_FN void insert_{t}({t}& a, unsigned long p, const {C}* s) {{ a.insert(p, s); }}
S_FN void insertn_{t}({t}& a, unsigned long p, const {C}* s, unsigned long n) {{ a.insert(p, s, n); }}
S_FN void substr_{t}(void* r, const {t}& a, unsigned long p, unsigned long n) {{ new (r) {t}(a.substr(p, n)); }}
S_FN void substr1_{t}(void* r, const {t}& a, unsigned long p) {{ new (r) {t}(a.substr(p)); }}
S_FN unsigned long scopy_{t}(const {t}& a, {C}* d, unsigned long n, unsigned long p) {{ return a.copy(d, n, p); }}
S_FN int cmp_{t}(const {t}& a, const {t}& b) {{ return a.compare(b); }}
S_FN int cmpp_{t}(const {t}& a, unsigned long p, unsigned long n, const {t}& b) {{ return a.compare(p, n, b); }}
S_FN bool eq_{t}(const {t}& a, const {t}& b) {{ return a == b; }}
S_FN bool eqc_{t}(const {t}& a, const {C}* s) {{ return a == s; }}
S_FN void push_{t}({t}& a, const {C}& c) {{ a.push_back(c); }}
S_FN void pushm_{t}({t}& a, {C}& c) {{ a.push_back(efp::move(c)); }}
S_FN void pop_{t}({t}& a) {{ a.pop_back(); }}
S_FN void erase_{t}({t}& a, unsigned long i) {{ a.erase(i); }}
S_FN void resize_{t}({t}& a, unsigned long n) {{ a.resize(n); }}
S_FN void reserve_{t}({t}& a, unsigned long n) {{ a.reserve(n); }}
S_FN void shrink_{t}({t}& a) {{ a.shrink_to_fit(); }}
S_FN void clear_{t}({t}& a) {{ a.clear(); }}
S_FN void vcs_{t}(void* p, const {C}* s) {{ new (p) {v}(s); }}
S_FN void vst_{t}(void* p, const {t}& s) {{ new (p) {v}(s); }}
S_FN void vcv_{t}(void* p, const {t}& s) {{ new (p) {v}(static_cast<{v}>(s)); }}
S_FN void vpn_{t}(void* p, const {C}* s, unsigned long n) {{ new (p) {v}(s, n); }}
S_FN const {C}* vcstr_{t}(const {v}& a) {{ return a.c_str(); }}
S_FN bool veq_{t}(const {v}& a, const {v}& b) {{ return a == b; }}
S_FN bool veqc_{t}(const {v}& a, const {C}* s) {{ return a == s; }}
''')
        if C == 'char':
            s.append(f'''
S_FN void std_{t}(void* p, const {t}& s) {{ new (p) std::string(static_cast<std::string>(s)); }}
S_FN void stdv_{t}(void* p, const {v}& s) {{ new (p) std::string(static_cast<std::string>(s)); }}
S_FN unsigned long stdsizeof_{t}() {{ return sizeof(std::string); }}
S_FN unsigned long stdn_{t}(const std::string& s) {{ return s.size(); }}
S_FN const char* stdp_{t}(const std::string& s) {{ return s.data(); }}
''')
    return '\n'.join(s)


def is_text(v):
    while isinstance(v, tuple) and v and v[0] == 'App':
        v = v[-1]
    return isinstance(v, tuple) and v and v[0] == 'Chr'


def on_event(ip, st, name, args):
    """the characters of a C text are never NUL"""
    if name == 'eq' and len(args) == 2:
        a, b = args
        if isinstance(a, Lin):
            a, b = b, a
        if is_text(a) and isinstance(b, Lin) and b.isc() and b.c == 0:
            return False
    return None


HOOKS = {'event': on_event}


def add(tn, name, props, f, unroll=False):
    SC.append(Scenario(f'{tn}.{name}', props, f, 'strs', unroll=unroll, tier='quick' if tn in ('S8', 'SU') else 'thorough'))


def text(c, name, n, w, nul=True):
    """a C text of n characters with its terminator"""
    segs = [Seg(ZERO, L(n) * w, 'live', 's', w, ('Chr', name, KAPPA))]
    if nul:
        segs.append(Seg(L(n) * w, (L(n) + 1) * w, 'live', 's', w, ZERO))
    return c.obj((L(n) + 1) * w if nul else L(n) * w, name, segs)


def trun(name, lo, hi):
    return (L(hi) - L(lo), ('Chr', name, KAPPA + L(lo)))


X = ('Elt', 'x', ZERO)


def mk(t):
    C, T, w = KINDS[t]
    big = 1 << 40

    def good(c, o, h, runs, owners=None):
        """contents, room for the terminator, nothing leaked"""
        vw = c.view(o, h)
        nul = vw and isinstance(vw[1], Ptr) and vw[1].obj == 0
        ok = c.expect_seq(o, h, runs, spare=0 if nul else 1)
        c.no_leak(o, owners if owners is not None else [h])
        return ok

    def ctor(name, fn, build):
        def f(c):
            r = c.fresh_seq('s', t)
            args, runs, more = build(c)
            for o in outcomes(c, c.run(fn + '_' + t, r.ptr, *args), name):
                good(c, o, r, runs, [r] + more)
        add(t, name, ('C25', 'C26'), f)

    def b_cs(c):
        n = c.num('len', 0)
        return [text(c, 'text', n, w)], [trun('text', 0, n)], []
    ctor('from_text', 'cs', b_cs)

    def b_csn(c):
        n = c.num('len', 0)
        return [text(c, 'text', n, w, nul=False), n], [trun('text', 0, n)], []
    ctor('from_text_and_length', 'csn', b_csn)

    def b_fill(c):
        n = c.num('n', 0)
        return [n, X], [rep(n, X)], []
    ctor('from_count', 'fill', b_fill)

    def b_range(c):
        n = c.num('len', 0)
        p = text(c, 'text', n, w, nul=False)
        return [p, Ptr(p.obj, n * w)], [trun('text', 0, n)], []
    ctor('from_range', 'range', b_range)

    def b_def(c):
        return [], [], []
    ctor('default', 'ctor', b_def)

    def copy_ctor(c):
        v, r = c.seq('v', t, spare=1), c.fresh_seq('s', t)
        for o in outcomes(c, c.run('copy_' + t, r.ptr, v.ptr), 'copy construction'):
            good(c, o, r, v.runs, [r, v])
            c.unchanged(o, v)
            disjoint(c, o, v, r)
    add(t, 'copy_ctor', ('C25', 'C26'), copy_ctor)

    def room(c, o, h):
        """a moved-from string keeps room for its terminator"""
        wellformed(c, o, h)
        vw = c.view(o, h)
        if vw and isinstance(vw[1], Ptr) and vw[1].obj != 0 and isinstance(vw[0], Lin) and isinstance(vw[2], Lin):
            c.must(o, vw[2] - vw[0] - 1, 'capacity', f"{h.name} has no room for the terminator")
            ob = o.st.mem[vw[1].obj]
            c.must(o, ob.size - vw[1].off - vw[2] * w, 'capacity', f"capacity of {h.name} exceeds its storage")

    def move_ctor(c):
        v, r = c.seq('v', t, spare=1), c.fresh_seq('s', t)
        for o in outcomes(c, c.run('move_' + t, r.ptr, v.ptr), 'move construction'):
            good(c, o, r, v.runs, [r, v])
            room(c, o, v)
            disjoint(c, o, v, r)
    add(t, 'move_ctor', ('C25', 'C26'), move_ctor)

    def cassign(c):
        v, r = c.seq('v', t, spare=1), c.seq('s', t, spare=1)
        for o in outcomes(c, c.run('cassign_' + t, r.ptr, v.ptr), 'copy assignment'):
            good(c, o, r, v.runs, [r, v])
            c.unchanged(o, v)
            disjoint(c, o, v, r)
    add(t, 'copy_assign', ('C25', 'C26'), cassign)

    def massign(c):
        v, r = c.seq('v', t, spare=1), c.seq('s', t, spare=1)
        for o in outcomes(c, c.run('massign_' + t, r.ptr, v.ptr), 'move assignment'):
            good(c, o, r, v.runs, [r, v])
            room(c, o, v)
            disjoint(c, o, v, r)
    add(t, 'move_assign', ('C25', 'C26'), massign)

    def selfassign(c):
        v = c.seq('v', t, spare=1)
        for fn in ('cassign_', 'massign_'):
            for o in outcomes(c, c.run(fn + t, v.ptr, v.ptr), 'self-assignment'):
                good(c, o, v, v.runs)
    add(t, 'self_assign', ('C25', 'C26'), selfassign)

    def cstr(c):
        v = c.seq('v', t, spare=1)
        for o in outcomes(c, c.run('cstr_' + t, v.ptr), 'c_str'):
            good(c, o, v, v.runs)
            p = o.val
            c.oblig += 1
            if p == UNDEF:
                c.fail(o, 'terminator', "c_str() is uninitialised")
                continue
            if not isinstance(p, Ptr):
                c.unsure.append("c_str() not determined")
                continue
            if p.obj == 0:
                c.fail(o, 'terminator', "c_str() is a null pointer")
                continue
            ob = o.st.mem.get(p.obj)
            if ob is None or not ob.alive:
                c.fail(o, 'uaf', "c_str() points to released memory")
                continue
            if not c.must(o, ob.size - p.off - (v.n + 1) * w, 'terminator', "c_str() has no room for the terminator"):
                continue
            A = c.slice_obj(o, p.obj, p.off, p.off + (v.n + 1) * w)
            if A is None:
                continue
            A = [g._replace(typ='s', stride=w, val=ZERO) if g.typ == 'zero' else g for g in A]
            B, e = runs_segs(v.runs, 's', w, p.off)
            B.append(Seg(e, e + w, 'live', 's', w, ZERO))
            c.match(o, A, B, 'terminator', "c_str() is not the text followed by NUL")
    add(t, 'c_str', ('C25',), cstr)

    def at(c):
        v = c.seq('v', t, spare=1)
        i = c.num('i', 0, big, span=3)
        for o in outcomes(c, c.run('atf_' + t, v.ptr, i), 'at', i - v.n, [v]):
            val(c, o, elt('v', i), 'at(i)')
            c.unchanged(o, v)
    add(t, 'at', ('C26',), at)

    def val(c, o, want, what):
        c.oblig += 1
        r = o.val
        if r == UNDEF:
            c.fail(o, 'content', f"{what} is uninitialised")
        elif r == ANY:
            c.unsure.append(what + " not determined")
        else:
            sa = [Seg(ZERO, L(w), 'live', 's', w, r)]
            sb = [Seg(ZERO, L(w), 'live', 's', w, want)]
            c.match(o, sa, sb, 'content', what)

    def frontback(c):
        v = c.seq('v', t, spare=1, null=False)
        c.assume(v.n - 1)
        for o in outcomes(c, c.run('front_' + t, v.ptr), 'front'):
            val(c, o, elt('v', 0), 'front()')
        for o in outcomes(c, c.run('back_' + t, v.ptr), 'back'):
            val(c, o, elt('v', v.n - 1), 'back()')
    add(t, 'front_back', ('C26',), frontback)

    def plus(c):
        v, u = c.seq('v', t, spare=1), c.seq('u', t, spare=1)
        for o in outcomes(c, c.run('pluseq_' + t, v.ptr, u.ptr), '+='):
            good(c, o, v, v.runs + u.runs, [v, u])
            c.unchanged(o, u)
    add(t, 'plus_assign', ('C25', 'C26'), plus)

    def plus_self(c):
        v = c.seq('v', t, spare=1)
        for o in outcomes(c, c.run('pluseq_' + t, v.ptr, v.ptr), '+='):
            good(c, o, v, v.runs + v.runs)
    add(t, 'plus_assign_self', ('C06', 'C25', 'C26'), plus_self)

    def app(c):
        v = c.seq('v', t, spare=1)
        n = c.num('len', 0)
        s = text(c, 'text', n, w)
        which = c.case('op', ['append', 'assign'])
        for o in outcomes(c, c.run(f'{which}_{t}', v.ptr, s), which):
            good(c, o, v, (v.runs if which == 'append' else []) + [trun('text', 0, n)])
            c.match(o, o.st.mem[s.obj].segs, c.st.mem[s.obj].segs, 'content', "the text passed in")
    add(t, 'append_assign_text', ('C25', 'C26'), app)

    def appn(c):
        v = c.seq('v', t, spare=1)
        n = c.num('k', 0)
        which = c.case('op', ['append', 'assign'])
        for o in outcomes(c, c.run(f'{which}n_{t}', v.ptr, n, X), which):
            good(c, o, v, (v.runs if which == 'append' else []) + [rep(n, X)])
    add(t, 'append_assign_count', ('C25', 'C26'), appn)

    def ins(c):
        v = c.seq('v', t, spare=1)
        n = c.num('len', 0)
        p = c.num('pos', 0, big, span=3)
        how = c.case('op', ['text', 'text_and_length'])
        s = text(c, 'text', n, w, nul=how == 'text')
        outs = c.run(f'insert_{t}', v.ptr, p, s) if how == 'text' else c.run(f'insertn_{t}', v.ptr, p, s, n)
        for o in outcomes(c, outs, 'insert', p - v.n - 1, [v]):
            good(c, o, v, [run_elt('v', 0, p), trun('text', 0, n), run_elt('v', p, v.n)])
            c.match(o, o.st.mem[s.obj].segs, c.st.mem[s.obj].segs, 'content', "the text passed in")
    add(t, 'insert', ('C25', 'C26'), ins)

    def own(c, n=None, cap=None):
        v = c.seq('v', t, spare=1, null=False, n=n, cap=cap)
        ob = c.st.mem[v.heap]
        c.st.mem[v.heap] = ob._replace(segs=(Seg(ZERO, v.n * w, 'live', 's', w, ('Chr', 'v', KAPPA)),
                                             Seg(v.n * w, (v.n + 1) * w, 'live', 's', w, ZERO),
                                             raw_seg((v.n + 1) * w, v.cap * w)))
        return v

    def own_text(c):
        # the text passed in is (a part of) the string's own, terminated, text
        op = c.case('op', ['append', 'assign'])
        v = own(c)
        k = c.num('from', 0, v.n, span=2)
        for o in outcomes(c, c.run(f'{op}_{t}', v.ptr, Ptr(v.heap, k * w)), op):
            good(c, o, v, ([trun('v', 0, v.n)] if op == 'append' else []) + [trun('v', k, v.n)])
    add(t, 'own_text', ('C06', 'C26'), own_text)

    def own_insert(c):
        op = c.case('op', ['insert', 'insertn'])
        v = own(c, n=3, cap=c.case('capacity', [4, 12]))
        k = L(c.case('from', [0, 1, 3]))
        p = L(c.case('pos', [0, 1, 3]))
        hi = v.n if op == 'insert' else L(min(3, k.c + c.case('count', [1, 2])))
        s = Ptr(v.heap, k * w)
        outs = c.run(f'insert_{t}', v.ptr, p, s) if op == 'insert' else c.run(f'insertn_{t}', v.ptr, p, s, hi - k)
        for o in outcomes(c, outs, 'insert'):
            good(c, o, v, [trun('v', 0, p), trun('v', k, hi), trun('v', p, v.n)])
    add(t, 'own_text_insert', ('C06', 'C26'), own_insert, unroll=True)

    def sub(c):
        v, r = c.seq('v', t, spare=1), c.fresh_seq('s', t)
        p = c.num('pos', 0, big, span=3)
        how = c.case('op', ['len', 'rest', 'all'])
        if how == 'len':
            n = c.num('len', 0, big, span=3)
        else:
            n = L(-1)
        outs = c.run(f'substr_{t}', r.ptr, v.ptr, p, n) if how != 'rest' else c.run(f'substr1_{t}', r.ptr, v.ptr, p)
        for o in outcomes(c, outs, 'substr', p - v.n - 1, [v]):
            c.unchanged(o, v)
            for s, fits in (o.st.split(v.n - p - n) if how == 'len' else [(o.st, False)]):
                oo = Outcome('ret', s, o.val)
                good(c, oo, r, [run_elt('v', p, p + n if fits else v.n)], [r, v])
    add(t, 'substr', ('C25', 'C26'), sub)

    def cpy(c):
        v = c.seq('v', t, spare=1)
        p = c.num('pos', 0, big, span=3)
        n = c.num('len', 0, big, span=3)
        d = c.raw(n * w, 'dest')
        for o in outcomes(c, c.run(f'scopy_{t}', v.ptr, d, n, p), 'copy', p - v.n - 1, [v]):
            c.unchanged(o, v)
            for s, fits in o.st.split(v.n - p - n):
                oo = Outcome('ret', s, o.val)
                k = n if fits else v.n - p
                if not isinstance(o.val, Lin):
                    c.unsure.append('count of copy')
                    continue
                c.must_eq(oo, o.val - k, 'content', f"copy returns {o.val}, expected {k}")
                A = c.slice_obj(oo, d.obj, ZERO, k * w)
                if A is not None:
                    c.match(oo, A, runs_segs([run_elt('v', p, p + k)], 's', w)[0], 'content', "copied characters")
    add(t, 'copy_out', ('C26',), cpy)

    def npos(c):
        """npos as position or length: range tests must not wrap around"""
        v = c.seq('v', t, spare=1)
        op = c.case('op', ['at', 'insert', 'insertn', 'substr', 'copy', 'compare', 'erase', 'copy_rest'])
        what = op + ' with npos'
        if op == 'copy_rest':
            p = c.num('pos', 0, v.n)
            d = c.raw(v.n * w, 'dest')
            for o in outcomes(c, c.run(f'scopy_{t}', v.ptr, d, L(-1), p), what, None, [v]):
                c.unchanged(o, v)
                k = v.n - p
                if not isinstance(o.val, Lin):
                    c.unsure.append('count of copy')
                    continue
                c.must_eq(o, o.val - k, 'content', f"copy returns {o.val}, expected {k}")
                A = c.slice_obj(o, d.obj, ZERO, k * w)
                if A is not None:
                    c.match(o, A, runs_segs([run_elt('v', p, v.n)], 's', w)[0], 'content', "copied characters")
            return
        if op == 'at':
            outs = c.run('atf_' + t, v.ptr, L(-1))
        elif op in ('insert', 'insertn'):
            n = c.num('len', 0)
            s = text(c, 'text', n, w, nul=op == 'insert')
            outs = c.run(f'insert_{t}', v.ptr, L(-1), s) if op == 'insert' else c.run(f'insertn_{t}', v.ptr, L(-1), s, n)
        elif op == 'substr':
            outs = c.run(f'substr_{t}', c.fresh_seq('s', t).ptr, v.ptr, L(-1), ONE)
        elif op == 'copy':
            outs = c.run(f'scopy_{t}', v.ptr, c.raw(w, 'dest'), ONE, L(-1))
        elif op == 'compare':
            outs = c.run('cmpp_' + t, v.ptr, L(-1), ONE, c.seq('u', t, n=1, cap=2).ptr)
        else:
            outs = c.run('erase_' + t, v.ptr, L(-1))
        outcomes(c, outs, what, ZERO, [v])
    add(t, 'npos', ('C26',), npos)

    def push(c):
        v, x = c.seq('v', t, spare=1), c.scalar('xc', X, w)
        for o in outcomes(c, c.run(c.case('op', ['push_', 'pushm_']) + t, v.ptr, x), 'push_back'):
            good(c, o, v, v.runs + [one(X)])
    add(t, 'push_back', ('C25', 'C26'), push)

    def pop(c):
        v = c.seq('v', t, spare=1)
        for o in outcomes(c, c.run('pop_' + t, v.ptr), 'pop_back', -v.n, [v]):
            good(c, o, v, [run_elt('v', 0, v.n - 1)])
    add(t, 'pop_back', ('C25', 'C26'), pop)

    def erase(c):
        v, i = c.seq('v', t, spare=1), c.num('i', 0, big, span=3)
        for o in outcomes(c, c.run('erase_' + t, v.ptr, i), 'erase', i - v.n, [v]):
            good(c, o, v, [run_elt('v', 0, i), run_elt('v', i + 1, v.n)])
    add(t, 'erase', ('C25', 'C26'), erase)

    def resize(c):
        v, n = c.seq('v', t, spare=1), c.num('k', 0)
        for o in outcomes(c, c.run('resize_' + t, v.ptr, n), 'resize'):
            for s, grow in o.st.split(n - v.n):
                good(c, Outcome('ret', s, None), v, [run_elt('v', 0, v.n), rep(n - v.n, ZERO)] if grow else [run_elt('v', 0, n)])
    add(t, 'resize', ('C25', 'C26'), resize)

    def reserve(c):
        v, n = c.seq('v', t, spare=1), c.num('k', 0)
        for o in outcomes(c, c.run('reserve_' + t, v.ptr, n), 'reserve'):
            good(c, o, v, v.runs)
    add(t, 'reserve', ('C25', 'C26'), reserve)

    def shrink(c):
        v = c.seq('v', t, spare=1)
        for o in outcomes(c, c.run('shrink_' + t, v.ptr), 'shrink_to_fit'):
            good(c, o, v, v.runs)
        for o in outcomes(c, c.run('clear_' + t, v.ptr), 'clear'):
            good(c, o, v, [])
    add(t, 'shrink_clear', ('C25', 'C26'), shrink)

    # ------------------------------------------------------------ views
    def vw(c):
        how = c.case('from', ['text', 'string', 'conversion', 'pointer'])
        r = c.fresh_seq('view', t + 'v')
        if how == 'text':
            n = c.num('len', 0)
            s = text(c, 'text', n, w)
            outs, base = c.run('vcs_' + t, r.ptr, s), s
        elif how == 'pointer':
            n = c.num('len', 0)
            s = text(c, 'text', n, w, nul=False)
            outs, base = c.run('vpn_' + t, r.ptr, s, n), s
        else:
            v = c.seq('v', t, spare=1)
            n = v.n
            outs = c.run(('vst_' if how == 'string' else 'vcv_') + t, r.ptr, v.ptr)
            base = Ptr(v.heap, ZERO) if v.heap else NULL
        for o in outcomes(c, outs, 'construction of a view'):
            x = c.view(o, r)
            if x is None:
                continue
            c.must_eq(o, x[0] - n, 'content', "size of the view") if isinstance(x[0], Lin) else c.unsure.append('size')
            if isinstance(x[2], Lin):
                c.must(o, x[2] - n, 'capacity', "capacity of the view is below its size")
            elif x[2] == UNDEF:
                c.fail(o, 'content', "capacity of the view is uninitialised")
            same_ptr(c, o, x[1], base, 'content', 'data() of the view')
            outs2, bad = c.quiet_call('vcstr_' + t, r.ptr, st=o.st)
            for oo in outs2:
                same_ptr(c, oo, oo.val, base, 'content', 'c_str() of the view')
            if bad:
                c.fail(o, bad[0].kind, f"c_str() of the view: {bad[0].msg}")
    add(t, 'view', ('C26',), vw)

    def tostd(c):
        view = c.case('of', ['string', 'view']) == 'view'
        v = c.seq('v', t + 'v' if view else t, **({} if view else {'spare': 1}))
        r = c.obj(c.call('stdsizeof_' + t)[0].val, 'r')
        for o in outcomes(c, c.run(('stdv_' if view else 'std_') + t, r, v.ptr), 'conversion to std::string'):
            c.unchanged(o, v)
            (n, rep1), (p, rep2) = c.quiet_call('stdn_' + t, r, st=o.st), c.quiet_call('stdp_' + t, r, st=o.st)
            if rep1 or rep2 or len(n) != 1 or len(p) != 1 or not isinstance(n[0].val, Lin) or not isinstance(p[0].val, Ptr):
                c.unsure.append('std::string not determined')
                continue
            n, p = n[0].val, p[0].val
            if not c.must_eq(o, n - v.n, 'content', f"the std::string has {n} characters, expected {v.n}"):
                continue
            A = c.slice_obj(o, p.obj, p.off, p.off + v.n)
            if A is not None:
                c.match(o, A, runs_segs(v.runs, 's', w, p.off)[0], 'content', "characters of the std::string")
    if C == 'char':
        add(t, 'to_std', ('C26',), tostd)

    # ------------------------------------------------------------ comparison
    VALS = (1, 2, 200) if w == 1 else (1, 2, 0x7f00)
    bits = 8 * w

    def judge(c, o, names, expected, got, what):
        """every choice of character values consistent with the comparisons made must give the returned verdict"""
        c.oblig += 1
        tr = []
        for s in o.st.trace:
            wd = s.hi - s.lo
            if not wd.isc():
                c.unsure.append("comparison trace")
                return
            tr += [subst_val(strip_refs(s.val), {K: Lin(k)}) for k in range(wd.c)]

        def ev(v, m):
            if isinstance(v, Lin):
                return v.c if v.isc() else None
            if isinstance(v, tuple) and v and v[0] in ('Elt', 'Chr') and v[2].isc():
                x = m.get((v[1], v[2].c))
                return None if x is None else sgn(x, bits)
            if isinstance(v, tuple) and v and v[0] == 'App' and v[1] in ('zext', 'trunc'):
                x = ev(v[-1], m)
                return None if x is None else x % (1 << v[2])
            return None

        def sgn(x, b):
            x %= 1 << b
            return x - (1 << b) if x >> (b - 1) else x
        for m in valuations(names):
            ok = True
            for e in tr:
                if e[1] not in ('eq', 'ult', 'slt') or e[3] not in ('T', 'F'):
                    c.unsure.append(f"comparison trace: {e[1]} {e[3]}")
                    return
                a, b = ev(e[2][0], m), ev(e[2][1], m)
                if a is None or b is None:
                    c.unsure.append("comparison trace: unknown operand")
                    return
                if ext(e):
                    r = a == b if e[1] == 'eq' else a < b
                elif e[1] == 'eq':
                    r = (a - b) % (1 << bits) == 0
                elif e[1] == 'ult':
                    r = a % (1 << bits) < b % (1 << bits)
                else:
                    r = a < b
                if r != (e[3] == 'T'):
                    ok = False
                    break
            if ok and expected(m) != got:
                c.fail(o, 'compare', f"{what} is {got} for {show(m)}, expected {expected(m)}")
                return

    def valuations(names):
        if len(names) <= 7:
            for vals in itertools.product(VALS, repeat=len(names)):
                yield dict(zip(names, vals))
            return
        # long texts: equal ones, and ones that differ in a single character near an end or in the middle
        ks = {a: max(i for b, i in names if b == a) + 1 for a, _ in names}
        for base in VALS:
            m = {x: base for x in names}
            yield dict(m)
            for a, n in ks.items():
                for i in sorted({0, n // 2, n - 2, n - 1} & set(range(n))):
                    for y in VALS:
                        if y != base:
                            m[(a, i)] = y
                            yield dict(m)
                    m[(a, i)] = base

    def ext(e):
        return any(isinstance(x, tuple) and x and x[0] == 'App' for x in e[2])

    def show(m):
        d = {}
        for (a, i), x in m.items():
            d.setdefault(a, {})[i] = x
        def short(l):
            return str(l) if len(l) <= 12 else f"[{l[0]}, ... {len(l)} values ... {l[-1]}]"
        return ', '.join(f"{a}={short([y for _, y in sorted(v.items())])}" for a, v in d.items())

    def cmp_(c, part=False):
        c.sampled = True
        hi = None if c.big else 3
        n, m = c.num('n_v', 0, hi).c, c.num('n_u', 0, hi).c
        v = c.seq('v', t, n=n, cap=n + 1, null=(n == 0 and c.case('v', ['heap', 'null']) == 'null'))
        u = c.seq('u', t, n=m, cap=m + 1, null=(m == 0 and c.case('u', ['heap', 'null']) == 'null'))
        lo, hi = 0, n
        if part:
            p = c.num('pos', 0, n + 1).c
            k = c._choose([0, 1, 2, 1 << 40, -1], 'num')
            c.labels.append(f'len={k}')
            outs = outcomes(c, c.run('cmpp_' + t, v.ptr, L(p), L(k), u.ptr), 'compare', L(p - n - 1), [v])
            lo, hi = p, n if k < 0 else min(n, p + k)
        else:
            outs = outcomes(c, c.run('cmp_' + t, v.ptr, u.ptr), 'compare')
        names = [('v', i) for i in range(n)] + [('u', i) for i in range(m)]

        def expected(mm):
            a = [mm[('v', i)] for i in range(lo, hi)]
            b = [mm[('u', i)] for i in range(m)]
            return (a > b) - (a < b)
        for o in outs:
            if not isinstance(o.val, Lin):
                if o.val == UNDEF:
                    c.fail(o, 'compare', "compare returns an uninitialised value")
                else:
                    c.unsure.append("value of compare")
                continue
            for s, neg in o.st.split(-o.val - 1):
                if neg:
                    judge(c, Outcome('ret', s, None), names, expected, -1, 'the sign of compare')
                    continue
                for s2, posi in s.split(o.val - 1):
                    judge(c, Outcome('ret', s2, None), names, expected, 1 if posi else 0, 'the sign of compare')
            c.unchanged(o, v)
            c.unchanged(o, u)
    add(t, 'compare', ('C26',), cmp_, True)
    add(t, 'compare_part', ('C26',), lambda c: cmp_(c, True), True)

    def eqs(c, view=False):
        c.sampled = True
        hi = None if c.big else 3
        n, m = c.num('n_v', 0, hi).c, c.num('n_u', 0, hi).c
        how = c.case('with', ['same', 'text'])
        tt = t + 'v' if view else t
        mkk = (lambda nm, k: c.seq(nm, tt, n=k, cap=k if view else k + 1, null=(k == 0 and c.case(nm, ['heap', 'null']) == 'null')))
        v = mkk('v', n)
        if how == 'text':
            s = text(c, 'u', m, w)
            outs = c.run(('veqc_' if view else 'eqc_') + t, v.ptr, s)
        else:
            u = mkk('u', m)
            outs = c.run(('veq_' if view else 'eq_') + t, v.ptr, u.ptr)
        names = [('v', i) for i in range(n)] + [('u', i) for i in range(m)]

        def expected(mm):
            return [mm[('v', i)] for i in range(n)] == [mm[('u', i)] for i in range(m)]
        for o in outcomes(c, outs, '=='):
            for s2, b in c.ip.resolve(o.st, o.val, None):
                judge(c, Outcome('ret', s2, None), names, expected, bool(b), '==')
    add(t, 'equal', ('C26',), eqs, True)
    add(t, 'view_equal_text', ('C26',), lambda c: eqs_view(c), True)

    def eq_null(c):
        view = c.case('of', ['string', 'view']) == 'view'
        v = c.seq('v', t + 'v' if view else t, **({} if view else {'spare': 1}))
        for o in outcomes(c, c.run(('veqc_' if view else 'eqc_') + t, v.ptr, NULL), '== with a null pointer'):
            c.unchanged(o, v)
            for s2, b in c.ip.resolve(o.st, o.val, None):
                c.oblig += 1
                oo = Outcome('ret', s2, None)
                if b:
                    c.must(oo, -v.n, 'compare', "text equals a null pointer")
                elif not v.heap:
                    c.fail(oo, 'compare', "text without storage differs from a null pointer")
    add(t, 'equal_null', ('C26',), eq_null)

    def eqs_view(c):
        c.sampled = True
        hi = None if c.big else 3
        n, m = c.num('n_v', 0, hi).c, c.num('n_u', 0, hi).c
        null = n == 0 and c.case('v', ['heap', 'null']) == 'null'
        v = c.seq('v', t + 'v', n=n, cap=n, null=null)
        s = text(c, 'u', m, w)
        names = [('v', i) for i in range(n)] + [('u', i) for i in range(m)]
        for o in outcomes(c, c.run('veqc_' + t, v.ptr, s), '=='):
            for s2, b in c.ip.resolve(o.st, o.val, None):
                judge(c, Outcome('ret', s2, None), names,
                      lambda mm: [mm[('v', i)] for i in range(n)] == [mm[('u', i)] for i in range(m)], bool(b), '==')


for _t in KINDS:
    mk(_t)
