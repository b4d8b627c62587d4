"""func_ptr and compose: the plain function pointer calls the callable it was made from, with the same arguments and result."""
from spec import *
from enu import alive, tsize
from tup import rets

TYPES = {}
SC = []


def source(tier):
    return r'''
#include "probe.hpp"
#include "efp/c_utility.hpp"
using namespace efp; using namespace vp;
extern "C" Q vp_rQ_c(const P&, const P&, const P&);
extern "C" R vp_rR_d(const Q&, const P&, unsigned long);
extern "C" void vp_v_e(const P&, const P&);
extern "C" void vp_m_f(const P&, P&);
struct Const2 { P held; Q operator()(const P& a, const P& b) const { return vp_rQ_c(held, a, b); } };
struct Mut2 { P held; Q operator()(const P& a, const P& b) { return vp_rQ_c(held, a, b); } };
struct Value { Q held; R operator()(P a, unsigned long n) const { return vp_rR_d(held, a, n); } };
struct NoResult { P held; void operator()(const P& a) { vp_v_e(held, a); } };
struct Changes { P held; void operator()(P& a) const { vp_m_f(held, a); } };
S_FN void const2(void* r, Const2& f, const P& a, const P& b) { auto p = func_ptr(f); new (r) Q(p(a, b)); }
S_FN void constc(void* r, const Const2& f, const P& a, const P& b) { auto p = func_ptr(f); new (r) Q(p(a, b)); }
S_FN void mut2(void* r, Mut2& f, const P& a, const P& b) { auto p = func_ptr(f); new (r) Q(p(a, b)); }
S_FN void value(void* r, Value& f, const P& a, unsigned long n) { auto p = func_ptr(f); new (r) R(p(a, n)); }
S_FN void noresult(NoResult& f, const P& a) { auto p = func_ptr(f); p(a); }
S_FN void changes(Changes& f, P& a) { auto p = func_ptr(f); p(a); }
S_FN void others(void* r, Const2& f, Mut2& g, const P& a, const P& b) { auto p = func_ptr(f); auto q = func_ptr(g); new (r) Q(p(a, b)); }
S_FN void again(void* r, Const2& g, Const2& f, const P& a, const P& b) { func_ptr(g); auto p = func_ptr(f); new (r) Q(p(a, b)); }
S_FN void lambda_(void* r, const P& k, const P& a, const P& b) { auto f = [&k](const P& x, const P& y) { return vp_rQ_c(k, x, y); }; auto p = func_ptr(f); new (r) Q(p(a, b)); }
extern "C" R vp_rR_g(const P&, const Q&);
extern "C" Q vp_rQ_h(const P&, const R&);
extern "C" R vp_rR_k(const Q&);
struct Inner { P held; Q operator()(const P& a, const P& b) const { return vp_rQ_c(held, a, b); } };
struct Middle { P held; R operator()(const Q& q) const { return vp_rR_g(held, q); } };
struct Outer { P held; Q operator()(const R& r) const { return vp_rQ_h(held, r); } };
inline R plain(const Q& q) { return vp_rR_k(q); }
S_FN void compose2(void* r, const P& h1, const P& h2, const P& a, const P& b) { auto f = compose(Middle {h1}, Inner {h2}); new (r) R(f(a, b)); }
S_FN void compose2l(void* r, const Middle& m, const Inner& i, const P& a, const P& b) { auto f = compose(m, i); new (r) R(f(a, b)); }
S_FN void compose3(void* r, const P& h0, const P& h1, const P& h2, const P& a, const P& b) { auto f = compose(Outer {h0}, Middle {h1}, Inner {h2}); new (r) Q(f(a, b)); }
S_FN void composef(void* r, const P& h2, const P& a, const P& b) { auto f = compose(plain, Inner {h2}); new (r) R(f(a, b)); }
S_FN void composep(void* r, const P& h2, const P& a, const P& b) { R (*p)(const Q&) = plain; auto f = compose(p, Inner {h2}); new (r) R(f(a, b)); }
S_FN void compose1(void* r, const P& h2, const P& a, const P& b) { auto f = compose(Inner {h2}); new (r) Q(f(a, b)); }
S_FN void composec(void* r, const P& h1, const P& h2, const P& a, const P& b) { auto f = compose(Middle {h1}, Inner {h2}); auto g = f; new (r) R(g(a, b)); }
S_FN void id_P(void* r, const P& a) { new (r) P(efp::id(a)); }
'''


def calls(c, o, want):
    """the opaque calls made are exactly want"""
    c.oblig += 1
    got = []
    for g in o.st.trace:
        t = strip_refs(g.val)
        if t[1] in 'cdefghk':
            got.append((t[1], tuple(t[2])))
    if got != want:
        c.fail(o, 'call', f"the calls made are {[x[0] + str(x[1]) for x in got]}, expected {[x[0] + str(x[1]) for x in want]}")
        return False
    return True


def same(c):
    f = c.case('op', ['const2', 'constc', 'mut2', 'others', 'again', 'lambda_'])
    held, a, b = c.elem('held'), c.elem('a'), c.elem('b')
    r = c.raw(tsize('Q'), 'result')
    more = [c.elem('other')] if f in ('others', 'again') else []
    args = [held] + more if f == 'others' else more + [held]
    for o in rets(c, c.run(f, r, *args, a, b), f):
        if calls(c, o, [('c', (elt('held'), elt('a'), elt('b')))]):
            alive(c, o, r, 'Q', tsize('Q'), ('Ret', 'c', ZERO), 'the result')
        for x, n in ((held, 'held'), (a, 'a'), (b, 'b')):
            alive(c, o, x, 'P', tsize('P'), elt(n), n)


def byval(c):
    held, a = c.elem('held', 'Q'), c.elem('a')
    r = c.raw(tsize('R'), 'result')
    n = c.num('n', 0)
    for o in rets(c, c.run('value', r, held, a, n), 'call by value'):
        if calls(c, o, [('d', (elt('held'), elt('a'), n))]):
            alive(c, o, r, 'R', tsize('R'), ('Ret', 'd', ZERO), 'the result')
        alive(c, o, a, 'P', tsize('P'), elt('a'), 'the argument')


def nores(c):
    held, a = c.elem('held'), c.elem('a')
    for o in rets(c, c.run('noresult', held, a), 'call without result'):
        calls(c, o, [('e', (elt('held'), elt('a')))])


def changes(c):
    held, a = c.elem('held'), c.elem('a')
    for o in rets(c, c.run('changes', held, a), 'call that changes its argument'):
        if not calls(c, o, [('f', (elt('held'), elt('a')))]):
            continue
        s = o.st.fork()
        with c.ip.capture() as rep:
            x = c.ip.p_content(s, 'P', tsize('P'), a, None, 'argument', 'read_dead')
        c.oblig += 1
        if rep or len(x) != 1:
            c.unsure.append('argument after the call')
        elif x[0][1] == elt('a'):
            c.fail(o, 'call', "the change the callable makes to its argument does not reach the caller")


for _n, _f in (('arguments_and_result', same), ('by_value', byval), ('no_result', nores), ('by_reference', changes)):
    SC.append(Scenario(_n, ('C35',), _f, 'fpt'))


def composed(c):
    op = c.case('of', ['compose2', 'compose2l', 'compose3', 'composef', 'composep', 'compose1', 'composec'])
    n = {'compose3': 3, 'composef': 1, 'composep': 1, 'compose1': 1}.get(op, 2)
    hs = [c.elem(f'h{i}') for i in range(3 - n, 3)]
    a, b = c.elem('a'), c.elem('b')
    T = 'Q' if op in ('compose3', 'compose1') else 'R'
    r = c.raw(tsize(T), 'result')
    ret = lambda f: ('Ret', f, Lin({'c': 0, 'h': 2}.get(f, 1)))          # noqa: E731
    want = [('c', (elt('h2'), elt('a'), elt('b')))]
    if op in ('composef', 'composep'):
        want.append(('k', (ret('c'),)))
    elif n >= 2:
        want.append(('g', (elt('h1'), ret('c'))))
    if n == 3:
        want.append(('h', (elt('h0'), ret('g'))))
    for o in rets(c, c.run(op, r, *hs, a, b), op):
        if calls(c, o, want):
            alive(c, o, r, T, tsize(T), ret(want[-1][0]), 'the result')
        for i, x in enumerate(hs):
            alive(c, o, x, 'P', tsize('P'), elt(f'h{3 - n + i}'), 'captured value')
        for x, k in ((a, 'a'), (b, 'b')):
            alive(c, o, x, 'P', tsize('P'), elt(k), k)


def ident(c):
    a = c.elem('a')
    r = c.raw(tsize('P'), 'result')
    for o in rets(c, c.run('id_P', r, a), 'id'):
        alive(c, o, r, 'P', tsize('P'), elt('a'), 'the result')
        alive(c, o, a, 'P', tsize('P'), elt('a'), 'the argument')


SC.append(Scenario('compose', ('C35',), composed, 'fpt'))
SC.append(Scenario('id', ('C35',), ident, 'fpt'))
