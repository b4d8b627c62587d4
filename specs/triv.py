"""Enum, Maybe and Tuple of trivially copyable types (a specialised path for such types is judged too)."""
from spec import *

TYPES = {}
SC = []
ALT = [('char', 1), ('int', 4), ('long', 8), ('Tri', 24), ('short', 2)]
N = len(ALT)

SRC = '''#include "probe.hpp"
using namespace efp;
struct Tri { long a, b, c; bool operator==(const Tri& o) const { return a == o.a && b == o.b && c == o.c; }
             bool operator!=(const Tri& o) const { return !(*this == o); } };
using EE = Enum<char, int, long, Tri, short>;
using MI = Maybe<int>;
using MT = Maybe<Tri>;
using TT = Tuple<char, int, long, Tri, short>;
S_FN void copy_EE(void* p, const EE& e) { new (p) EE(e); }
S_FN void move_EE(void* p, EE& e) { new (p) EE(efp::move(e)); }
S_FN void cassign_EE(EE& a, const EE& b) { a = b; }
S_FN void massign_EE(EE& a, EE& b) { a = efp::move(b); }
S_FN bool eq_EE(const EE& a, const EE& b) { return a == b; }
S_FN bool ne_EE(const EE& a, const EE& b) { return a != b; }
S_FN unsigned long index_EE(const EE& a) { return a.index(); }
S_FN unsigned long sizeof_EE() { return sizeof(EE); }
S_FN unsigned long sizeof_TT() { return sizeof(TT); }
S_FN void copy_TT(void* p, const TT& e) { new (p) TT(e); }
S_FN void move_TT(void* p, TT& e) { new (p) TT(efp::move(e)); }
S_FN void cassign_TT(TT& a, const TT& b) { a = b; }
S_FN void massign_TT(TT& a, TT& b) { a = efp::move(b); }
S_FN void make_TT(void* p, const char& a, const int& b, const long& c, const Tri& d, const short& e) { new (p) TT(a, b, c, d, e); }
S_FN void tup_TT(void* p, const char& a, const int& b, const long& c, const Tri& d, const short& e) { new (p) TT(tuple(a, b, c, d, e)); }
S_FN void swap_TT(TT& a, TT& b) { efp::swap(a, b); }
'''
for _k, (_t, _) in enumerate(ALT):
    SRC += f'''
extern "C" void vp_v_h{_k}(const {_t}&);
S_FN void from{_k}(void* p, const {_t}& a) {{ new (p) EE(a); }}
S_FN void fromm{_k}(void* p, {_t}& a) {{ new (p) EE(efp::move(a)); }}
S_FN const void* gett{_k}(const EE& e) {{ return &e.get<{_t}>(); }}
S_FN const void* geti{_k}(const EE& e) {{ return &e.get<{_k}>(); }}
S_FN const void* mgett{_k}(EE& e) {{ return &e.get<{_t}>(); }}
S_FN const void* mgeti{_k}(EE& e) {{ return &e.get<{_k}>(); }}
S_FN const void* cp{_k}_TT(const TT& t) {{ return &efp::p<{_k}>(t); }}
S_FN const void* mp{_k}_TT(TT& t) {{ return &efp::p<{_k}>(t); }}
S_FN const void* cget{_k}_TT(const TT& t) {{ return &efp::get<{_k}>(t); }}
'''
SRC += 'S_FN void match_EE(const EE& e) { e.match(%s); }\n' % ', '.join(f'[](const {t}& x) {{ vp_v_h{k}(x); }}' for k, (t, _) in enumerate(ALT))
for _m, _t in (('MI', 'int'), ('MT', 'Tri')):
    SRC += f'''
S_FN unsigned long sizeof_{_m}() {{ return sizeof({_m}); }}
S_FN void just_{_m}(void* p, const {_t}& a) {{ new (p) {_m}(a); }}
S_FN void rjust_{_m}(void* p, {_t}& a) {{ new (p) {_m}(efp::move(a)); }}
S_FN void none_{_m}(void* p) {{ new (p) {_m}(nothing); }}
S_FN void default_{_m}(void* p) {{ new (p) {_m}(); }}
S_FN void copy_{_m}(void* p, const {_m}& a) {{ new (p) {_m}(a); }}
S_FN void move_{_m}(void* p, {_m}& a) {{ new (p) {_m}(efp::move(a)); }}
S_FN void cassign_{_m}({_m}& a, const {_m}& b) {{ a = b; }}
S_FN void massign_{_m}({_m}& a, {_m}& b) {{ a = efp::move(b); }}
S_FN void aval_{_m}({_m}& a, const {_t}& b) {{ a = b; }}
S_FN void arval_{_m}({_m}& a, {_t}& b) {{ a = efp::move(b); }}
S_FN void anone_{_m}({_m}& a) {{ a = nothing; }}
S_FN bool has_{_m}(const {_m}& a) {{ return a.has_value(); }}
S_FN bool isn_{_m}(const {_m}& a) {{ return a.is_nothing(); }}
S_FN bool bool_{_m}(const {_m}& a) {{ return static_cast<bool>(a); }}
S_FN void val_{_m}(void* r, const {_m}& a) {{ new (r) {_t}(a.value()); }}
'''


def source(tier):
    return SRC


def word(c, name, k):
    t, z = ALT[k]
    return c.scalar(name, elt(name), z)


def rets(c, outs, what):
    for o in outs:
        if o.kind != 'ret':
            c.fail(o, 'throws', f"{what} throws")
    return [o for o in outs if o.kind == 'ret']


def content(c, o, p, z, want, what):
    c.oblig += 1
    if p == UNDEF:
        c.fail(o, 'content', f"{what}: uninitialised pointer")
        return False
    if not isinstance(p, Ptr):
        c.unsure.append(what)
        return False
    A = c.slice_obj(o, p.obj, p.off, p.off + z)
    if A is None:
        return False
    return c.match(o, A, [Seg(p.off, p.off + z, 'live', 's', z, want)], 'content', what)


def build(c, k, name):
    x = word(c, name, k)
    p = c.obj(c.call('sizeof_EE')[0].val.c, 'enum_' + name)
    outs = c.run(f'from{k}', p, x)
    if len(outs) != 1 or outs[0].kind != 'ret':
        raise Undecided("construction of an Enum")
    c.st = outs[0].st
    return p


def holds(c, o, p, k, want, what):
    c.oblig += 1
    outs, rep = c.quiet_call('index_EE', p, st=o.st)
    if rep or len(outs) != 1 or outs[0].val == UNDEF:
        c.fail(o, 'content', f"{what}: the tag is not initialised")
        return
    v = outs[0].val
    if not (isinstance(v, Lin) and v.isc()):
        c.unsure.append(what + ': index')
        return
    if v.c != k:
        c.fail(o, 'content', f"{what}: index() is {v.c}, expected {k}")
        return
    for f in ('gett', 'geti', 'mgett', 'mgeti'):
        outs, rep = c.quiet_call(f'{f}{k}', p, st=o.st)
        for x in outs:
            if x.kind != 'ret':
                c.fail(o, 'content', f"{what}: get of the alternative held is refused")
                return
            if not (isinstance(x.val, Ptr) and x.val.obj == p.obj):
                c.fail(o, 'content', f"{what}: get does not refer to the stored value")
                return
            if not content(c, o, x.val, ALT[k][1], want, f"{what}: value of alternative {k}"):
                return


def e_construct(c):
    k = c.case('alternative', list(range(N)))
    fn = c.case('op', ['from', 'fromm'])
    x, p = word(c, 'x', k), c.obj(c.call('sizeof_EE')[0].val.c, 'target')
    for o in rets(c, c.run(f'{fn}{k}', p, x), 'construction'):
        holds(c, o, p, k, elt('x'), 'construction')


def e_copy(c):
    k = c.case('alternative', list(range(N)))
    fn = c.case('op', ['copy', 'move', 'selfc', 'selfm'])
    v = build(c, k, 'x')
    if fn[:4] == 'self':
        outs, p = c.run(f'{fn[4]}assign_EE', v, v), v
    else:
        p = c.obj(c.call('sizeof_EE')[0].val.c, 'target')
        outs = c.run(f'{fn}_EE', p, v)
    for o in rets(c, outs, fn):
        holds(c, o, p, k, elt('x'), fn)
        if fn == 'copy':
            holds(c, o, v, k, elt('x'), 'source of a copy')


def e_assign(c):
    k, j = c.case('alternative', list(range(N))), c.case('before', list(range(N)))
    fn = c.case('op', ['cassign', 'massign'])
    v, w = build(c, k, 'x'), build(c, j, 'y')
    for o in rets(c, c.run(f'{fn}_EE', w, v), 'assignment'):
        holds(c, o, w, k, elt('x'), f'assignment of alternative {k} to {j}')
        if fn == 'cassign':
            holds(c, o, v, k, elt('x'), 'source of an assignment')


def e_get(c):
    k, j = c.case('held', list(range(N))), c.case('asked', list(range(N)))
    f = c.case('op', ['gett', 'geti', 'mgett', 'mgeti'])
    v = build(c, k, 'x')
    for o in c.run(f'{f}{j}', v):
        c.oblig += 1
        if (o.kind == 'ret') != (j == k):
            c.fail(o, 'refuse', f"get of alternative {j} of an Enum holding {k} is {'accepted' if o.kind == 'ret' else 'refused'}")
        holds(c, o, v, k, elt('x'), 'the Enum after get')


def e_match(c):
    k = c.case('held', list(range(N)))
    v = build(c, k, 'x')
    for o in rets(c, c.run('match_EE', v), 'match'):
        c.trace(o, [(ONE, E(f'h{k}', elt('x')))], 'match', 'handlers called by match')
        holds(c, o, v, k, elt('x'), 'the Enum after match')


def e_equal(c):
    k, j = c.case('left', list(range(N))), c.case('right', list(range(N)))
    if k == j == 3:
        raise Skip()
    fn = c.case('op', ['eq', 'ne'])
    v, w = build(c, k, 'x'), build(c, j, 'y')
    for o in rets(c, c.run(f'{fn}_EE', v, w), 'comparison'):
        for s, b in c.ip.resolve(o.st, o.val, None):
            judge(c, Outcome('ret', s, b), b if fn == 'eq' else not b, [(elt('x'), elt('y'))] if k == j else None)


def judge(c, o, eq, pairs_):
    """eq exactly when every pair was found equal; pairs_ None: must be different"""
    c.oblig += 1
    if pairs_ is None:
        if eq:
            c.fail(o, 'equality', "different alternatives compare equal")
        return
    fact = {}
    for g in o.st.trace:
        t = strip_refs(g.val)
        if t[1] == 'eq':
            fact[tuple(sorted(map(str, map(plain, t[2]))))] = t[3] == 'T'
    ks = [tuple(sorted(map(str, p))) for p in pairs_]
    if eq and not all(fact.get(k) is True for k in ks):
        c.fail(o, 'equality', "equal without comparing the values")
    if not eq and not any(fact.get(k) is False for k in ks):
        c.fail(o, 'equality', "different although the values were not found different")


def plain(v):
    while isinstance(v, tuple) and v and v[0] == 'App':
        v = v[-1]
    return v


for _n, _p, _f in (('construct', 'C11', e_construct), ('copy', 'C11', e_copy), ('assign', 'C11', e_assign), ('get', 'C12', e_get),
                   ('match', 'C12', e_match), ('equal', 'C12', e_equal)):
    SC.append(Scenario('enum_of_scalars.' + _n, (_p,), _f, 'triv', unroll=True))


# ---------------------------------------------------------------- Maybe

MS = {'MI': ('int', 4), 'MT': ('Tri', 24)}


def mbuild(c, m, some, name):
    p = c.obj(c.call(f'sizeof_{m}')[0].val.c, 'maybe_' + name)
    outs = c.run(f'just_{m}', p, c.scalar(name, elt(name), MS[m][1])) if some else c.run(f'none_{m}', p)
    if len(outs) != 1 or outs[0].kind != 'ret':
        raise Undecided("construction of a Maybe")
    c.st = outs[0].st
    return p


def mholds(c, o, m, p, want, what):
    for f, pol in (('has', True), ('isn', False), ('bool', True)):
        outs, rep = c.quiet_call(f'{f}_{m}', p, st=o.st)
        c.oblig += 1
        bs = {b for x in outs for _, b in c.ip.resolve(x.st, x.val, None)} if not rep and all(x.val != UNDEF for x in outs) else None
        if bs is None:
            c.fail(o, 'content', f"{what}: whether there is a value is not determined by what was stored")
            return
        if len(bs) != 1:
            c.unsure.append(what)
            return
        if (bs == {True}) != ((want is not None) == pol):
            c.fail(o, 'content', f"{what}: the Maybe is {'empty' if want is not None else 'not empty'}")
            return
    s = o.st.fork()
    old, c.st = c.st, s
    r = c.raw(MS[m][1], 'value')
    c.st = old
    outs, rep = c.quiet_call(f'val_{m}', r, p, st=s)
    for x in outs:
        c.oblig += 1
        if (x.kind == 'ret') != (want is not None):
            c.fail(o, 'refuse', f"{what}: value() of {'a present' if want is not None else 'an absent'} value is {'accepted' if x.kind == 'ret' else 'refused'}")
            return
        if want is not None:
            content(c, x, r, MS[m][1], want, what)


def m_all(m):
    def construct(c):
        fn = c.case('op', ['just', 'rjust', 'none', 'default'])
        p = c.obj(c.call(f'sizeof_{m}')[0].val.c, 'target')
        args = (c.scalar('x', elt('x'), MS[m][1]),) if 'just' in fn else ()
        for o in rets(c, c.run(f'{fn}_{m}', p, *args), 'construction'):
            mholds(c, o, m, p, elt('x') if args else None, fn)
    SC.append(Scenario(f'{m}.construct', ('C14',), construct, 'triv', unroll=True))

    def copy(c):
        some = c.case('source', [True, False])
        fn = c.case('op', ['copy', 'move', 'cassign', 'massign', 'selfc', 'selfm'])
        v = mbuild(c, m, some, 'x')
        if fn[:4] == 'self':
            p, outs = v, c.run(f'{fn[4]}assign_{m}', v, v)
        elif fn in ('copy', 'move'):
            p = c.obj(c.call(f'sizeof_{m}')[0].val.c, 'target')
            outs = c.run(f'{fn}_{m}', p, v)
        else:
            p = mbuild(c, m, c.case('target', [True, False]), 'y')
            outs = c.run(f'{fn}_{m}', p, v)
        for o in rets(c, outs, fn):
            mholds(c, o, m, p, elt('x') if some else None, fn)
            if fn in ('copy', 'cassign'):
                mholds(c, o, m, v, elt('x') if some else None, 'source of a copy')
    SC.append(Scenario(f'{m}.copy', ('C14',), copy, 'triv', unroll=True))

    def assign(c):
        p = mbuild(c, m, c.case('target', [True, False]), 'y')
        fn = c.case('op', ['aval', 'arval', 'anone'])
        args = (c.scalar('x', elt('x'), MS[m][1]),) if fn != 'anone' else ()
        for o in rets(c, c.run(f'{fn}_{m}', p, *args), 'assignment'):
            mholds(c, o, m, p, elt('x') if args else None, 'assignment')
    SC.append(Scenario(f'{m}.assign_value', ('C14',), assign, 'triv', unroll=True))


for _m in MS:
    m_all(_m)


# ---------------------------------------------------------------- Tuple

def tbuild(c, tag, fn='make'):
    p = c.obj(c.call('sizeof_TT')[0].val.c, 'tuple_' + tag)
    outs = c.run(f'{fn}_TT', p, *[c.scalar(f'{tag}{i}', elt(f'{tag}{i}'), z) for i, (_, z) in enumerate(ALT)])
    if len(outs) != 1 or outs[0].kind != 'ret':
        raise Undecided("construction of a Tuple")
    c.st = outs[0].st
    return p


def tholds(c, o, p, tag, what):
    for k, (_, z) in enumerate(ALT):
        for f in ('cp', 'mp', 'cget'):
            outs, rep = c.quiet_call(f'{f}{k}_TT', p, st=o.st)
            for x in outs:
                c.oblig += 1
                if not (isinstance(x.val, Ptr) and x.val.obj == p.obj):
                    c.fail(o, 'content', f"{what}: component {k} does not lie in the tuple")
                    return
                if not content(c, o, x.val, z, elt(f'{tag}{k}'), f"{what}: component {k}"):
                    return


def t_copy(c):
    fn = c.case('op', ['make', 'tup', 'copy', 'move', 'cassign', 'massign', 'selfc', 'selfm', 'swap'])
    if fn in ('make', 'tup'):
        p = tbuild(c, 'a', fn)
        tholds(c, Outcome('ret', c.st, None), p, 'a', 'construction')
        return
    v = tbuild(c, 'a')
    if fn[:4] == 'self':
        p, outs = v, c.run(f'{fn[4]}assign_TT', v, v)
    elif fn in ('copy', 'move'):
        p = c.obj(c.call('sizeof_TT')[0].val.c, 'target')
        outs = c.run(f'{fn}_TT', p, v)
    else:
        p = tbuild(c, 'b')
        outs = c.run(f'{fn}_TT', p, v)
    for o in rets(c, outs, fn):
        tholds(c, o, p, 'a', fn)
        if fn in ('copy', 'cassign'):
            tholds(c, o, v, 'a', 'source of a copy')
        if fn == 'swap':
            tholds(c, o, v, 'b', 'swap')


SC.append(Scenario('tuple_of_scalars', ('C31',), t_copy, 'triv', unroll=True))
