"""Tuple: each component is stored, copied, accessed, compared and destroyed as itself."""
from spec import *
from enu import alive, tsize, live_things, no_live

SC = []
TYPES = {}
SHAPES = {'T1': 'P', 'T2': 'PQ', 'T2p': 'PP', 'T3': 'PQR', 'T4': 'RPQP'}


def source(tier):
    s = ['#include "probe.hpp"', 'using namespace efp; using namespace vp;', 'extern "C" S vp_rS_m(const void*, const void*, const void*, const void*);']
    for n, ts in SHAPES.items():
        T = f'Tuple<{", ".join(ts)}>'
        pa = ', '.join(f'const {t}& a{i}' for i, t in enumerate(ts))
        aa = ', '.join(f'a{i}' for i in range(len(ts)))
        s += [f'using {n} = {T};', f'S_FN unsigned long sizeof_{n}() {{ return sizeof({n}); }}',
              f'S_FN void make_{n}(void* r, {pa}) {{ new (r) {n}({aa}); }}',
              f'S_FN void tuple_{n}(void* r, {pa}) {{ new (r) {n}(tuple({aa})); }}',
              f'S_FN void dtor_{n}({n}& t) {{ t.~{n}(); }}',
              f'S_FN void copy_{n}(void* r, const {n}& t) {{ new (r) {n}(t); }}',
              f'S_FN void move_{n}(void* r, {n}& t) {{ new (r) {n}(efp::move(t)); }}',
              f'S_FN void cassign_{n}({n}& a, const {n}& b) {{ a = b; }}',
              f'S_FN void massign_{n}({n}& a, {n}& b) {{ a = efp::move(b); }}',
              f'S_FN void selfassign_{n}({n}& a, const {n}& b) {{ a = b; }}',
              f'S_FN void swap_{n}({n}& a, {n}& b) {{ efp::swap(a, b); }}',
              f'S_FN bool eq_{n}(const {n}& a, const {n}& b) {{ return a == b; }}',
              f'S_FN bool ne_{n}(const {n}& a, const {n}& b) {{ return a != b; }}']
        mt = ', '.join(f'const {t}& a{i}' for i, t in enumerate(ts))
        for i, t in enumerate(ts):
            for g, c in (('get', f't.get<{i}>()'), ('fget', f'efp::get<{i}>(t)'), ('p', f'efp::p<{i}>(t)')) + ((('fst', 'fst(t)'),) if i == 0 else ()) + ((('snd', 'snd(t)'),) if i == 1 else ()):
                s.append(f'S_FN const void* c{g}{i}_{n}(const {n}& t) {{ return &{c}; }}')
                s.append(f'S_FN void* m{g}{i}_{n}({n}& t) {{ return &{c}; }}')
            s.append(f'S_FN void match{i}_{n}(void* r, const {n}& t) {{ new (r) {t}(t.match([]({mt}) {{ return {t}(a{i}); }})); }}')
    s += ['S_FN void leaf_copy(void* r, const P& a) { new (r) P(TupleLeaf<0, P>(a).get()); }',
          'S_FN void leaf_move(void* r, P& a) { new (r) P(TupleLeaf<0, P>(efp::move(a)).get()); }',
          'S_FN bool empty_eq(bool ne) { Tuple<> a, b; return ne ? a != b : a == b; }']
    s.append('S_FN void swap_P(P& a, P& b) { efp::swap(a, b); }')
    return '\n'.join(s)


def add(name, f, props=('C31',)):
    SC.append(Scenario(name, props, f, 'tup', unroll=True))


def swaps(c):
    same = c.case('with', ['another', 'itself']) == 'itself'
    a = c.elem('a', 'P')
    b = a if same else c.elem('b', 'P')
    for o in rets(c, c.run('swap_P', a, b), 'swap'):
        alive(c, o, a, 'P', tsize('P'), elt('a' if same else 'b'), 'first object after swap')
        if not same:
            alive(c, o, b, 'P', tsize('P'), elt('a'), 'second object after swap')


add('swap', swaps, ('C33',))


def rets(c, outs, what):
    for o in outs:
        if o.kind != 'ret':
            c.fail(o, 'throws', what + ' throws')
    return [o for o in outs if o.kind == 'ret']


def accessors(n, i):
    return ['get', 'fget', 'p'] + (['fst'] if i == 0 else []) + (['snd'] if i == 1 else [])


def build(c, n, tag):
    ts = SHAPES[n]
    p = c.obj(c.call(f'sizeof_{n}')[0].val.c, 'tuple_' + tag)
    xs = [c.elem(f'{tag}{i}', t) for i, t in enumerate(ts)]
    outs = c.run(f'make_{n}', p, *xs)
    if len(outs) != 1 or outs[0].kind != 'ret':
        raise Undecided('Tuple construction')
    c.st = outs[0].st
    for x in xs:
        del c.st.mem[x.obj]
    return p


def holds(c, o, p, n, tag, what):
    """the components as the accessor sees them, and nothing else alive"""
    ts = SHAPES[n]
    seen = []
    for i, t in enumerate(ts):
        outs, rep = c.quiet_call(f'cget{i}_{n}', p, st=o.st)
        for r in outs:
            if r.kind != 'ret' or not isinstance(r.val, Ptr) or r.val.obj != p.obj:
                c.fail(o, 'content', f"{what}: component {i} does not refer into the tuple")
                return
            seen.append(r.val.off)
            if not alive(c, r, r.val, t, tsize(t), elt(f'{tag}{i}'), f'{what}: component {i}'):
                return
    if len(live_things(o, p.obj)) != len(ts):
        c.fail(o, 'lifetime', f"{what}: the tuple holds {len(live_things(o, p.obj))} live components, expected {len(ts)}")


def drop(c, o, p, n):
    for x in rets(c, c.call(f'dtor_{n}', p, st=o.st), 'destruction'):
        no_live(c, x, p, "a component is alive after its tuple was destroyed")
    c.collect()


def mk(n):
    ts = SHAPES[n]

    def construct(c):
        fn = c.case('op', ['make', 'tuple'])
        p = c.obj(c.call(f'sizeof_{n}')[0].val.c, 'tuple')
        xs = [c.elem(f'a{i}', t) for i, t in enumerate(ts)]
        for o in rets(c, c.run(f'{fn}_{n}', p, *xs), 'construction'):
            holds(c, o, p, n, 'a', 'construction')
            for i, (x, t) in enumerate(zip(xs, ts)):
                alive(c, o, x, t, tsize(t), elt(f'a{i}'), 'the argument of the construction')
            drop(c, o, p, n)
    add(f'{n}.construct', construct)

    def copy(c):
        fn = c.case('op', ['copy', 'move', 'cassign', 'massign', 'selfassign'])
        p = build(c, n, 'a')
        r = build(c, n, 'b') if fn in ('cassign', 'massign') else p if fn == 'selfassign' else c.obj(c.call(f'sizeof_{n}')[0].val.c, 'target')
        for o in rets(c, c.run(f'{fn}_{n}', r, p), fn):
            holds(c, o, r, n, 'a', f'{fn} of a tuple')
            if fn not in ('move', 'massign'):
                holds(c, o, p, n, 'a', f'source of a {fn}')
            drop(c, o, r, n)
    add(f'{n}.copy', copy)

    def swapped(c):
        p, q = build(c, n, 'a'), build(c, n, 'b')
        for o in rets(c, c.run(f'swap_{n}', p, q), 'swap'):
            holds(c, o, p, n, 'b', 'first tuple after swap')
            holds(c, o, q, n, 'a', 'second tuple after swap')
            drop(c, o, p, n)
    add(f'{n}.swap', swapped)

    def access(c):
        i = c.case('component', list(range(len(ts))))
        g = c.case('accessor', accessors(n, i))
        cm = c.case('access', ['c', 'm'])
        p = build(c, n, 'a')
        for o in rets(c, c.run(f'{cm}{g}{i}_{n}', p), g):
            if not isinstance(o.val, Ptr) or o.val.obj != p.obj:
                c.fail(o, 'content', f"{g} does not refer to a component of the tuple")
                continue
            alive(c, o, o.val, ts[i], tsize(ts[i]), elt(f'a{i}'), f'{g} of component {i}')
            holds(c, o, p, n, 'a', 'the tuple after access')
    add(f'{n}.access', access)

    def match(c):
        i = c.case('component', list(range(len(ts))))
        p, r = build(c, n, 'a'), c.raw(tsize(ts[i]), 'result')
        for o in rets(c, c.run(f'match{i}_{n}', r, p), 'match'):
            alive(c, o, r, ts[i], tsize(ts[i]), elt(f'a{i}'), f'argument {i} of the function matched')
            holds(c, o, p, n, 'a', 'the tuple after match')
    add(f'{n}.match', match)

    def equality(c):
        fn = c.case('op', ['eq', 'ne'])
        p, q = build(c, n, 'a'), build(c, n, 'b')
        for o in rets(c, c.run(f'{fn}_{n}', p, q), 'comparison'):
            for s, v in c.ip.resolve(o.st, o.val, None):
                oo = Outcome('ret', s, v)
                eq = v if fn == 'eq' else not v
                fact = {}
                for g in s.trace:
                    t = strip_refs(g.val)
                    if t[1] == 'P_eq':
                        fact[tuple(sorted(map(str, t[2])))] = t[3] == 'T'
                ks = [tuple(sorted((str(elt(f'a{i}')), str(elt(f'b{i}'))))) for i in range(len(ts))]
                c.oblig += 1
                if eq and not all(fact.get(k) is True for k in ks):
                    i = next(i for i, k in enumerate(ks) if fact.get(k) is not True)
                    c.fail(oo, 'equality', f"tuples are equal although their components {i} {'differ' if fact.get(ks[i]) is False else 'were not compared'}")
                if not eq and not any(fact.get(k) is False for k in ks):
                    c.fail(oo, 'equality', "tuples are different although no two corresponding components were found different")
    add(f'{n}.equality', equality)


for n_ in SHAPES:
    mk(n_)


def leaf(c):
    fn = c.case('op', ['leaf_copy', 'leaf_move'])
    a, r = c.elem('a', 'P'), c.raw(tsize('P'), 'result')
    for o in rets(c, c.run(fn, r, a), fn):
        alive(c, o, r, 'P', tsize('P'), elt('a'), 'the value of a component')
        if fn == 'leaf_copy':
            alive(c, o, a, 'P', tsize('P'), elt('a'), 'the argument of the construction')
    c.collect()


add('leaf', leaf)


def empty(c):
    ne = c.case('op', ['==', '!=']) == '!='
    for o in rets(c, c.run('empty_eq', ne), 'comparison'):
        for s, v in c.ip.resolve(o.st, o.val, None):
            c.oblig += 1
            if bool(v) == ne:
                c.fail(Outcome('ret', s, v), 'equality', "empty tuples compare as different")


add('empty', empty)
