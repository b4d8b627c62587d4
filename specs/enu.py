"""Enum and Maybe.  For each number of alternatives the states "alternative k is stored" are produced by abstract
execution of the converting constructors; every operation is then analysed from every state (pairs of states for
assignment and comparison)."""
from spec import *

TYPES = {}
SC = []
NS = (2, 3, 4, 5, 8, 9, 17, 33)
NS_T = (16, 32, 64)


def source(tier):
    o = ['#include "probe.hpp"', 'using namespace vp; using namespace efp;']
    for N in NS + (NS_T if tier == 'thorough' else ()):
        o += decls(N, range(N), True)
    o.append(MAYBE)
    return '\n'.join(o)


def decls(N, ks, full):
        o = []
        E = f'E{N}'
        o.append(f'using {E} = Enum<{",".join(f"Alt<{k}>" for k in range(N))}>;')
        o.append(f'''
S_FN unsigned long sizeof_{E}() {{ return sizeof({E}); }}
S_FN void default_{E}(void* p) {{ new (p) {E}(); }}
S_FN void dtor_{E}({E}& e) {{ e.~{E}(); }}
S_FN void copy_{E}(void* p, const {E}& e) {{ new (p) {E}(e); }}
S_FN void move_{E}(void* p, {E}& e) {{ new (p) {E}(efp::move(e)); }}
S_FN void cassign_{E}({E}& a, const {E}& b) {{ a = b; }}
S_FN void massign_{E}({E}& a, {E}& b) {{ a = efp::move(b); }}
S_FN bool eq_{E}(const {E}& a, const {E}& b) {{ return a == b; }}
S_FN bool ne_{E}(const {E}& a, const {E}& b) {{ return a != b; }}
S_FN unsigned long index_{E}(const {E}& a) {{ return a.index(); }}''')
        for k in ks:
            o.append(f'''
S_FN void from{k}_{E}(void* p, const Alt<{k}>& a) {{ new (p) {E}(a); }}
S_FN void fromm{k}_{E}(void* p, Alt<{k}>& a) {{ new (p) {E}(efp::move(a)); }}
S_FN const void* gett{k}_{E}(const {E}& e) {{ return &e.get<Alt<{k}>>(); }}
S_FN const void* geti{k}_{E}(const {E}& e) {{ return &e.get<{k}>(); }}
S_FN void* mgett{k}_{E}({E}& e) {{ return &e.get<Alt<{k}>>(); }}
S_FN void* mgeti{k}_{E}({E}& e) {{ return &e.get<{k}>(); }}
S_FN void* movet{k}_{E}({E}& e) {{ Alt<{k}>&& r = e.move<Alt<{k}>>(); return &r; }}
S_FN void* movei{k}_{E}({E}& e) {{ Alt<{k}>&& r = e.move<{k}>(); return &r; }}
extern "C" R vp_rR_b{k}_{E}(const Alt<{k}>&);
extern "C" R vp_rR_w{k}_{E}();
extern "C" void vp_v_b{k}_{E}(const Alt<{k}>&);''')
        if full:
          br = ', '.join(f'[](const Alt<{k}>& a) {{ return vp_rR_b{k}_{E}(a); }}' for k in range(N))
          o.append(f'S_FN void match_{E}(void* r, const {E}& e) {{ new (r) R(e.match({br})); }}')
          br = ', '.join(f'[](const Alt<{k}>& a) {{ vp_v_b{k}_{E}(a); }}' for k in reversed(range(N)))
          o.append(f'S_FN void matchr_{E}(const {E}& e) {{ e.match({br}); }}')
        # wildcard for everything but one alternative
        for k in {0, N // 2, N - 1}:
            o.append(f'S_FN void matchw{k}_{E}(void* r, const {E}& e) {{ new (r) R(e.match('
                     f'[](const Alt<{k}>& a) {{ return vp_rR_b{k}_{E}(a); }}, []() {{ return vp_rR_w{k}_{E}(); }})); }}')
        o.append(f'S_FN void matchall_{E}(void* r, const {E}& e) {{ new (r) R(e.match([]() {{ return vp_rR_w0_{E}(); }})); }}')
        return o


MAYBE = '''
using MP = Maybe<P>;
using MQ = Maybe<Q>;
extern "C" Q vp_rQ_f(const P&);
extern "C" R vp_rR_g(const Q&);
extern "C" bool vp_b_has(const P&);
struct FQ { Q operator()(const P& p) const { return vp_rQ_f(p); } };
// an opaque partial function: has a value exactly when vp_b_has says so
struct KQ { MQ operator()(const P& p) const { if (vp_b_has(p)) return vp_rQ_f(p); return nothing; } };
S_FN unsigned long sizeof_MP() { return sizeof(MP); }
S_FN unsigned long sizeof_MQ() { return sizeof(MQ); }
S_FN void just_MP(void* r, const P& p) { new (r) MP(p); }
S_FN void none_MP(void* r) { new (r) MP(nothing); }
S_FN void default_MP(void* r) { new (r) MP(); }
S_FN void dtor_MP(MP& m) { m.~MP(); }
S_FN void dtor_MQ(MQ& m) { m.~MQ(); }
S_FN bool has_MP(const MP& m) { return m.has_value(); }
S_FN bool nothing_MP(const MP& m) { return m.is_nothing(); }
S_FN bool bool_MP(const MP& m) { return static_cast<bool>(m); }
S_FN bool has_MQ(const MQ& m) { return m.has_value(); }
S_FN void value_MP(void* r, const MP& m) { new (r) P(m.value()); }
S_FN void value_MQ(void* r, const MQ& m) { new (r) Q(m.value()); }
S_FN void movev_MP(void* r, MP& m) { new (r) P(m.move()); }
S_FN void cmovev_MP(void* r, const MP& m) { new (r) P(m.move()); }
S_FN void fmapm_MP(void* r, MP& m) { new (r) MQ(m.fmap(FQ{})); }
S_FN void fmap_MP(void* r, const MP& m) { new (r) MQ(fmap(FQ{}, m)); }
S_FN void bindm_MP(void* r, MP& m) { new (r) MQ(m.bind(KQ{})); }
S_FN void bindo_MP(void* r, MP& m) { new (r) MQ(m >>= KQ{}); }
S_FN void bind_MP(void* r, const MP& m) { new (r) MQ(bind(m, KQ{})); }
S_FN void pure_MP(void* r, const P& p) { new (r) MP(pure<MP>(p)); }
using MF = Maybe<FQ>;
S_FN unsigned long sizeof_MF() { return sizeof(MF); }
S_FN void just_MF(void* r) { new (r) MF(FQ{}); }
S_FN void none_MF(void* r) { new (r) MF(nothing); }
S_FN void ap_MP(void* r, const MF& f, const MP& m) { new (r) MQ(ap(f, m)); }
S_FN void apm_MP(void* r, const MF& f, MP& m) { new (r) MQ(m.ap(f)); }
S_FN void cctor_MP(void* r, const MP& m) { new (r) MP(m); }
S_FN void mctor_MP(void* r, MP& m) { new (r) MP(efp::move(m)); }
S_FN void cassign_MP(MP& a, const MP& b) { a = b; }
S_FN void massign_MP(MP& a, MP& b) { a = efp::move(b); }
S_FN void aval_MP(MP& a, const P& p) { a = p; }
S_FN void arval_MP(MP& a, P& p) { a = efp::move(p); }
S_FN void anone_MP(MP& a) { a = nothing; }
S_FN void rjust_MP(void* r, P& p) { new (r) MP(efp::move(p)); }
S_FN bool eqm_MP(const MP& a, const MP& b) { return a == b; }
S_FN bool nem_MP(const MP& a, const MP& b) { return a != b; }
S_FN bool eqnone_MP(const MP& a) { return a == MP(nothing); }
S_FN bool eq_nothing(const Nothing& a, const Nothing& b) { return a == b; }
S_FN bool ne_nothing(const Nothing& a, const Nothing& b) { return a != b; }
S_FN void matchr_MP(void* r, const MP& m) { new (r) R(m.match([](const P& p) { return vp_rR_g(vp_rQ_f(p)); }, []() { return R(); })); }
'''


def alive(c, o, p, T, sz, val, what, kind='content'):
    """p refers to a live T holding val"""
    c.oblig += 1
    if not isinstance(p, Ptr):
        c.unsure.append(what + ': pointer unknown')
        return False
    s = o.st.fork()
    with c.ip.capture() as rep:
        r = c.ip.p_content(s, T, sz, p, None, what, 'read_dead')
    if rep:
        c.fail(o, kind, f"{what}: {rep[0].msg}")
        return False
    if len(r) != 1:
        c.unsure.append(what)
        return False
    if r[0][1] != val:
        c.fail(o, kind, f"{what} is {r[0][1]}, expected {val}")
        return False
    return True


def live_things(o, ob):
    return [g for g in norm_segs(o.st.mem[ob].segs, o.st.cons) if g.st == 'live' and g.typ not in ('s', 'zero')]


def no_live(c, o, p, what):
    c.oblig += 1
    if live_things(o, p.obj):
        c.fail(o, 'leak_elem', what)
        return False
    return True


class En:
    def __init__(self, c, N):
        self.c, self.N, self.E = c, N, f'E{N}'
        self.total = c.call(f'sizeof_{self.E}')[0].val.c

    def build(self, k, name, st=None):
        """an enum object holding alternative k with content name[0]"""
        c = self.c
        x = c.elem(name, f'Alt{k}')
        p = c.obj(self.total, 'enum_' + name)
        outs = c.run(f'from{k}_{self.E}', p, x)
        if len(outs) != 1 or outs[0].kind != 'ret':
            raise Undecided("construction of an Enum")
        c.st = outs[0].st
        del c.st.mem[x.obj]
        return p

    def reset(self):
        self.c.st = State()
        self.c.ip.globals = {}

    def holds(self, o, p, k, val, what):
        """p stores exactly alternative k with this content"""
        c = self.c
        T, sz = f'Alt{k}', tsize(f'Alt{k}')
        outs, rep = c.quiet_call(f'index_{self.E}', p, st=o.st)
        for r in outs:
            c.oblig += 1
            if r.val == UNDEF:
                c.fail(o, 'content', f"{what}: the tag is uninitialised")
                return False
            if not isinstance(r.val, Lin) or not r.val.isc():
                c.unsure.append(what + ': index')
                return False
            if r.val.c != k:
                c.fail(o, 'content', f"{what}: index() is {r.val.c}, expected {k}")
                return False
        ls = live_things(o, p.obj)
        c.oblig += 1
        if len(ls) != 1 or ls[0].typ != T:
            c.fail(o, 'lifetime', f"{what}: the storage holds {[g.typ for g in ls] or 'no live alternative'}, expected one live {T}")
            return False
        return alive(c, o, Ptr(p.obj, ls[0].lo), T, sz, val, what)

    def rets(self, outs, what):
        for o in outs:
            if o.kind != 'ret':
                self.c.fail(o, 'throws', f"{what} throws")
        return [o for o in outs if o.kind == 'ret']

    def destroy(self, o, ps):
        c = self.c
        st = [o.st]
        for p in ps:
            nx = []
            for s in st:
                outs = c.call(f'dtor_{self.E}', p, st=s)
                c.collect()
                for x in self.rets(outs, 'destruction'):
                    no_live(c, x, p, "an alternative is alive after its Enum was destroyed")
                    nx.append(x.st)
            st = nx


def pairs(N, full, ks=None):
    if ks is not None:
        return [(a, b) for a in ks for b in ks]
    if full:
        return [(a, b) for a in range(N) for b in range(N)]
    ks = sorted({0, 1, 2, N // 2 - 1, N // 2, N - 2, N - 1})
    return [(a, b) for a in ks for b in ks] + [(a, (a + 1) % N) for a in range(N)] + [(a, a) for a in range(N)]


def mk(N, tier, sub=None, SC=SC):
    E = f'E{N}'
    ks = list(range(N)) if sub is None else sub

    def add(name, props, f):
        SC.append(Scenario(f'{E}.{name}', props, f, 'enu', unroll=True, tier=tier))

    def construct(c):
        e = En(c, N)
        for k in ks:
            T, sz = f'Alt{k}', tsize(f'Alt{k}')
            for fn in ('from', 'fromm'):
                e.reset()
                x, p = c.elem('x', T), c.obj(e.total, 'target')
                for o in e.rets(c.run(f'{fn}{k}_{E}', p, x), 'construction'):
                    e.holds(o, p, k, elt('x'), f'construction from alternative {k}')
                    alive(c, o, x, T, sz, elt('x') if fn == 'from' else MOVED, 'the constructor argument')
                    e.destroy(o, [p])
                if c.viol:
                    return
        e.reset()
        p = c.obj(e.total, 'target')
        for o in e.rets(c.run(f'default_{E}', p), 'default construction'):
            e.holds(o, p, 0, DEFAULT, 'default construction')
            e.destroy(o, [p])
    add('construct', ('C11',), construct)

    def copies(c):
        e = En(c, N)
        for k in ks:
            for fn in ('copy', 'move'):
                e.reset()
                v, p = e.build(k, 'x'), c.obj(e.total, 'target')
                for o in e.rets(c.run(f'{fn}_{E}', p, v), fn):
                    e.holds(o, p, k, elt('x'), f'{fn} of alternative {k}')
                    e.holds(o, v, k, elt('x') if fn == 'copy' else MOVED, f'source of a {fn}')
                    e.destroy(o, [p, v])
                if c.viol:
                    return
            for fn in ('cassign', 'massign'):
                e.reset()
                v = e.build(k, 'x')
                for o in e.rets(c.run(f'{fn}_{E}', v, v), 'self-assignment'):
                    e.holds(o, v, k, elt('x'), 'self-assignment')
                    e.destroy(o, [v])
                if c.viol:
                    return
    add('copy_move', ('C11',), copies)

    def assign(c):
        e = En(c, N)
        for j, k in pairs(N, N <= 9, sub):
            for fn in ('cassign', 'massign'):
                e.reset()
                v, w = e.build(k, 'x'), e.build(j, 'y')
                for o in e.rets(c.run(f'{fn}_{E}', w, v), 'assignment'):
                    e.holds(o, w, k, elt('x'), f'assignment of alternative {k} to {j}')
                    e.holds(o, v, k, elt('x') if fn == 'cassign' else MOVED, 'source of an assignment')
                    e.destroy(o, [w, v])
                if c.viol:
                    return
    add('assign', ('C11',), assign)

    def equality(c):
        e = En(c, N)
        for j, k in pairs(N, N <= 9, sub):
            for fn in ('eq', 'ne'):
                e.reset()
                v, w = e.build(k, 'x'), e.build(j, 'y')
                for o in e.rets(c.run(f'{fn}_{E}', w, v), 'comparison'):
                    for s, b in c.ip.resolve(o.st, o.val, None):
                        oo = Outcome('ret', s, b)
                        r = b if fn == 'eq' else not b
                        tr = [strip_refs(g.val) for g in s.trace]
                        c.oblig += 1
                        if j != k:
                            if r:
                                c.fail(oo, 'equality', f"alternatives {j} and {k} compare equal")
                        elif len(tr) != 1 or tr[0][1] != 'P_eq' or sorted(map(str, tr[0][2])) != sorted(map(str, (elt('x'), elt('y')))):
                            c.fail(oo, 'equality', f"Enums holding alternative {k} are compared without comparing the alternatives once")
                        elif (tr[0][3] == 'T') != r:
                            c.fail(oo, 'equality', f"equality of alternative {k} differs from that of the Enums")
                if c.viol:
                    return
    add('equality', ('C12',), equality)

    def access(c):
        e = En(c, N)
        for j, k in pairs(N, N <= 9, sub):
            # stored j, asked for k
            for fn in ('gett', 'geti', 'mgett', 'mgeti', 'movet', 'movei'):
                e.reset()
                v = e.build(j, 'x')
                seg0 = c.st.mem[v.obj].segs
                for o in c.run(f'{fn}{k}_{E}', v):
                    c.oblig += 1
                    if o.kind == 'ret':
                        if j != k:
                            c.fail(o, 'refuse', f"alternative {k} is handed out while {j} is stored")
                        else:
                            alive(c, o, o.val, f'Alt{k}', tsize(f'Alt{k}'), elt('x'), f'access to alternative {k}')
                            if not isinstance(o.val, Ptr) or o.val.obj != v.obj:
                                c.fail(o, 'content', f"access to alternative {k} does not refer to the Enum's own storage")
                    elif j == k:
                        c.fail(o, 'refuse', f"access to the stored alternative {k} is refused")
                    c.match(o, o.st.mem[v.obj].segs, seg0, 'unchanged', "the Enum changed by an access")
                if c.viol:
                    return
    add('access', ('C12',), access)

    def match(c):
        e = En(c, N)
        R8 = tsize('R')
        cases = ([('match', None), ('matchr', None)] if sub is None else []) + [('matchall', -1)] + [(f'matchw{k}', k) for k in sorted({0, N // 2, N - 1})]
        for j in ks:
            for fn, only in cases:
                e.reset()
                v = e.build(j, 'x')
                seg0 = c.st.mem[v.obj].segs
                r = c.raw(R8, 'result') if fn != 'matchr' else None
                outs = c.run(f'{fn}_{E}', *([r] if r else []), v)
                want = f'b{j}_{E}' if only is None or only == j else f'w{only if only >= 0 else 0}_{E}'
                args = (elt('x'),) if want[0] == 'b' else ()
                for o in e.rets(outs, 'match'):
                    ok = c.trace(o, [(ONE, E_(want, *args))], 'dispatch', f'branches run by a match on alternative {j}')
                    if ok and r:
                        alive(c, o, r, 'R', R8, ('Ret', want, ZERO), 'the result of the match')
                    c.match(o, o.st.mem[v.obj].segs, seg0, 'unchanged', "the Enum changed by a match")
                if c.viol:
                    return
    add('match', ('C12',), match)


def E_(name, *args):
    return E(name, *args)


for _n in NS:
    mk(_n, 'quick')
for _n in NS_T:
    mk(_n, 'thorough')


# ---------------------------------------------------------------- Maybe

SZP, SZQ = 24, 40


class Mb:
    def __init__(self, c):
        self.c = c
        self.total = c.call('sizeof_MP')[0].val.c
        self.tq = c.call('sizeof_MQ')[0].val.c

    def make(self, has, name='x'):
        c = self.c
        p = c.obj(self.total, 'maybe_' + name)
        if has:
            x = c.elem(name)
            outs = c.run('just_MP', p, x)
        else:
            outs = c.run('none_MP', p)
        if len(outs) != 1 or outs[0].kind != 'ret':
            raise Undecided('Maybe construction')
        c.st = outs[0].st
        if has:
            del c.st.mem[x.obj]
        return p

    def truth(self, o, fn, p, want, what):
        c = self.c
        outs, rep = c.quiet_call(fn, p, st=o.st)
        for r in outs:
            for s, b in c.ip.resolve(r.st, r.val, None):
                c.oblig += 1
                if b != want:
                    c.fail(o, 'content', f"{what}: {fn.split('_')[0]} is {b}, expected {want}")
                    return False
        return True

    def holds(self, o, p, T, val, what):
        """val None: nothing"""
        c = self.c
        ls = live_things(o, p.obj)
        c.oblig += 1
        tn = 'MP' if T == 'P' else 'MQ'
        if not self.truth(o, f'has_{tn}', p, val is not None, what):
            return False
        if val is None:
            if ls:
                c.fail(o, 'lifetime', f"{what}: an empty Maybe holds a live value")
                return False
            return True
        if len(ls) != 1 or ls[0].typ != T:
            c.fail(o, 'lifetime', f"{what}: no live value is stored")
            return False
        return alive(c, o, Ptr(p.obj, ls[0].lo), T, tsize(T), val, what)

    def drop(self, o, *ps):
        c = self.c
        sts = [o.st]
        for p, tn in ps:
            nx = []
            for s in sts:
                outs = c.call(f'dtor_{tn}', p, st=s)
                c.collect()
                for x in outs:
                    no_live(c, x, p, "a value is alive after its Maybe was destroyed")
                    nx.append(x.st)
            sts = nx


def madd(name, f):
    SC.append(Scenario(f'Maybe.{name}', ('C14',), f, 'enu'))


def rets(c, outs, what):
    for o in outs:
        if o.kind != 'ret':
            c.fail(o, 'throws', what + ' throws')
    return [o for o in outs if o.kind == 'ret']


def m_basic(c):
    m = Mb(c)
    has = c.case('has', [True, False])
    p = m.make(has)
    o = Outcome('ret', c.st, None)
    m.holds(o, p, 'P', elt('x') if has else None, 'construction')
    m.truth(o, 'nothing_MP', p, not has, 'construction')
    m.truth(o, 'bool_MP', p, has, 'construction')
    m.drop(o, (p, 'MP'))


madd('basic', m_basic)


def m_default(c):
    m = Mb(c)
    p = c.obj(m.total, 'maybe')
    for o in rets(c, c.run('default_MP', p), 'default construction'):
        m.holds(o, p, 'P', None, 'default construction')


madd('default', m_default)


def m_value(c):
    m = Mb(c)
    has = c.case('has', [True, False])
    fn = c.case('op', ['value', 'movev', 'cmovev'])
    p = m.make(has)
    r = c.raw(SZP, 'result')
    for o in c.run(f'{fn}_MP', r, p):
        c.oblig += 1
        if o.kind == 'ret':
            if not has:
                c.fail(o, 'refuse', "an empty Maybe yields a value")
                continue
            alive(c, o, r, 'P', SZP, elt('x'), 'the value')
            m.holds(o, p, 'P', MOVED if fn == 'movev' else elt('x'), 'the Maybe after access')
        else:
            if has:
                c.fail(o, 'refuse', "a present value is refused")
            m.holds(o, p, 'P', None, 'the Maybe after a refused access')


madd('value', m_value)


def m_fmap(c):
    m = Mb(c)
    has = c.case('has', [True, False])
    fn = c.case('op', ['fmap', 'fmapm'])
    p, r = m.make(has), c.obj(m.tq, 'result')
    for o in rets(c, c.run(f'{fn}_MP', r, p), 'fmap'):
        ok = c.trace(o, [(ONE, E('f', elt('x')))] if has else [], 'dispatch', 'calls of the mapped function')
        if ok:
            m.holds(o, r, 'Q', ('Ret', 'f', ZERO) if has else None, 'fmap')
        m.holds(o, p, 'P', elt('x') if has else None, 'argument of fmap')
        m.drop(o, (r, 'MQ'), (p, 'MP'))


madd('fmap', m_fmap)


def m_bind(c):
    m = Mb(c)
    has = c.case('has', [True, False])
    fn = c.case('op', ['bind', 'bindm', 'bindo'])
    p, r = m.make(has), c.obj(m.tq, 'result')
    for o in rets(c, c.run(f'{fn}_MP', r, p), 'bind'):
        tr = [strip_refs(g.val) for g in o.st.trace]
        c.oblig += 1
        if not has:
            if tr:
                c.fail(o, 'dispatch', "bind calls the function on nothing")
            m.holds(o, r, 'Q', None, 'bind on nothing')
        else:
            if [t[1] for t in tr] not in (['has'], ['has', 'f']) or any(t[2] != (elt('x'),) for t in tr):
                c.fail(o, 'dispatch', f"bind does not apply the function exactly once to the value: {[t[1] for t in tr]}")
                continue
            m.holds(o, r, 'Q', ('Ret', 'f', ONE) if len(tr) == 2 else None, 'bind')
        m.holds(o, p, 'P', elt('x') if has else None, 'argument of bind')
        m.drop(o, (r, 'MQ'), (p, 'MP'))


madd('bind', m_bind)


def m_pure(c):
    m = Mb(c)
    x, r = c.elem('x'), c.obj(m.total, 'result')
    for o in rets(c, c.run('pure_MP', r, x), 'pure'):
        m.holds(o, r, 'P', elt('x'), 'pure')


madd('pure', m_pure)


def m_ap(c):
    m = Mb(c)
    has = c.case('has', [True, False])
    hf = c.case('function', [True, False])
    fn = c.case('op', ['ap', 'apm'])
    sz = c.call('sizeof_MF')[0].val.c
    f = c.obj(sz, 'function')
    outs = c.run('just_MF' if hf else 'none_MF', f)
    c.st = outs[0].st
    p, r = m.make(has), c.obj(m.tq, 'result')
    for o in rets(c, c.run(f'{fn}_MP', r, f, p), 'ap'):
        both = has and hf
        ok = c.trace(o, [(ONE, E('f', elt('x')))] if both else [], 'dispatch', 'calls of the applied function')
        if ok:
            m.holds(o, r, 'Q', ('Ret', 'f', ZERO) if both else None, 'ap')
        m.holds(o, p, 'P', elt('x') if has else None, 'argument of ap')


madd('ap', m_ap)


def m_match(c):
    m = Mb(c)
    has = c.case('has', [True, False])
    p, r = m.make(has), c.raw(8, 'result')
    for o in rets(c, c.run('matchr_MP', r, p), 'match'):
        c.oblig += 1
        tr = [strip_refs(g.val) for g in o.st.trace]
        if has:
            if [t[1] for t in tr] != ['f', 'g'] or tr[0][2] != (elt('x'),):
                c.fail(o, 'dispatch', "match on a present value does not run its branch once on the value")
            else:
                alive(c, o, r, 'R', 8, ('Ret', 'g', ONE), 'result of match')
        else:
            if tr:
                c.fail(o, 'dispatch', "match on nothing runs the branch for a value")
            else:
                alive(c, o, r, 'R', 8, DEFAULT, 'result of match')


madd('match', m_match)


def m_copy(c):
    m = Mb(c)
    has = c.case('has', [True, False])
    fn = c.case('op', ['cctor', 'mctor'])
    p, r = m.make(has), c.obj(m.total, 'result')
    for o in rets(c, c.run(f'{fn}_MP', r, p), 'construction'):
        m.holds(o, r, 'P', elt('x') if has else None, 'a copied or moved Maybe')
        m.holds(o, p, 'P', None if not has else elt('x') if fn == 'cctor' else MOVED, 'the source')
        m.drop(o, (r, 'MP'), (p, 'MP'))


madd('copy', m_copy)


def m_assign(c):
    m = Mb(c)
    has = c.case('has', [True, False])
    had = c.case('target has', [True, False, 'itself'])
    fn = c.case('op', ['cassign', 'massign'])
    if had == 'itself':
        p = m.make(has)
        for o in rets(c, c.run(f'{fn}_MP', p, p), 'self-assignment'):
            m.holds(o, p, 'P', elt('x') if has else None, 'a Maybe assigned to itself')
            m.drop(o, (p, 'MP'))
        return
    p, r = m.make(has), m.make(had, 'y')
    for o in rets(c, c.run(f'{fn}_MP', r, p), 'assignment'):
        m.holds(o, r, 'P', elt('x') if has else None, 'an assigned Maybe')
        m.holds(o, p, 'P', None if not has else elt('x') if fn == 'cassign' else MOVED, 'the source')
        m.drop(o, (r, 'MP'), (p, 'MP'))


madd('assign', m_assign)


def m_assign_value(c):
    m = Mb(c)
    had = c.case('target has', [True, False])
    fn = c.case('op', ['aval', 'arval', 'anone', 'rjust'])
    x = c.elem('x')
    if fn == 'rjust':
        if had:
            raise Skip()
        r = c.obj(m.total, 'result')
    else:
        r = m.make(had, 'y')
    for o in rets(c, c.run(f'{fn}_MP', r, *([] if fn == 'anone' else [x])), 'assignment'):
        m.holds(o, r, 'P', None if fn == 'anone' else elt('x'), 'an assigned Maybe')
        alive(c, o, x, 'P', SZP, elt('x') if fn in ('aval', 'anone') else MOVED, 'the assigned value')
        m.drop(o, (r, 'MP'))


madd('assign_value', m_assign_value)


def m_equal(c):
    m = Mb(c)
    fn = c.case('op', ['eqm', 'nem', 'eqnone'])
    a = c.case('left', [True, False])
    p = m.make(a, 'x')
    if fn == 'eqnone':
        b, args = False, [p]
    else:
        b = c.case('right', [True, False])
        args = [p, m.make(b, 'y')]
    for o in rets(c, c.run(f'{fn}_MP', *args), 'comparison'):
        for s, v in c.ip.resolve(o.st, o.val, None):
            oo = Outcome('ret', s, v)
            eq = v if fn != 'nem' else not v
            tr = [strip_refs(g.val) for g in s.trace]
            c.oblig += 1
            if a and b:
                tr = [t for t in tr if t[1] == 'P_eq' and sorted(map(str, t[2])) == sorted(map(str, (elt('x'), elt('y'))))]
                if not tr:
                    c.fail(oo, 'equality', "two present values are not compared")
                elif (tr[0][3] == 'T') != eq:
                    c.fail(oo, 'equality', "equality of two Maybe values differs from that of their contents")
            elif eq != (a == b):
                c.fail(oo, 'equality', f"a Maybe {'with' if a else 'without'} a value and one {'with' if b else 'without'} compare {'equal' if eq else 'different'}")


madd('equality', m_equal)


def m_nothing(c):
    fn = c.case('op', ['eq', 'ne'])
    a, b = c.obj(1, 'a'), c.obj(1, 'b')
    for o in rets(c, c.run(f'{fn}_nothing', a, b), 'comparison'):
        for s, v in c.ip.resolve(o.st, o.val, None):
            c.oblig += 1
            if v != (fn == 'eq'):
                c.fail(Outcome('ret', s, v), 'equality', "nothing and nothing compare different")


madd('nothing', m_nothing)
