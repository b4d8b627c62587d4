"""Numeric reductions and statistics.

The elements are symbols; every value computed from them is the term the instructions build.  A result is right if its
term denotes the specified function: both are polynomial, rational or square-root terms over the elements, compared as
functions by evaluating the two *terms* at fixed points in 80-digit arithmetic (the code is not run).  Comparisons between elements fork the analysis and are
recorded as facts; extrema must follow from the facts of their path."""
import decimal
import itertools
from decimal import Decimal
from spec import *
from seq import outcomes
from srt import learn

decimal.getcontext().prec = 80
SC = []
ARITH = (ZeroDivisionError, decimal.InvalidOperation, decimal.DivisionByZero)
SHARDS = 6
SEQT = {'VD': ('Vector<double>', 'double'), 'VF': ('Vector<float>', 'float'), 'VI': ('Vector<int>', 'int'), 'WD': ('VectorView<double>', 'double'), 'KD': ('ArrVec<double, 5>', 'double'),
        'AD': ('Array<double, 4>', 'double'), 'AI': ('Array<int, 3>', 'int')}
TYPES = {k: v[1] for k, v in SEQT.items()}
STAT = ['VD', 'VI', 'AD', 'WD', 'VF']
FIXED = {'AD': 4, 'AI': 3}
OPS1 = {  # name: (driver body, formula over the list of elements, least length)
    'mean': ('mean<double>(a)', lambda a: mean(a), 1),
    'rms': ('rms<double>(a)', lambda a: sqrt(mean([x * x for x in a])), 1),
    'variance': ('variance<double>(a)', lambda a: var(a, 0), 1),
    'variance_bessel': ('variance<double, true>(a)', lambda a: var(a, 1), 2),
    'standard_deviation': ('standard_deviation<double>(a)', lambda a: sqrt(var(a, 0)), 1),
    'standard_deviation_bessel': ('standard_deviation<double, true>(a)', lambda a: sqrt(var(a, 1)), 2),
    'regression_index_slope': ('efp::get<0>(linear_regression_with_index<double>(a))', lambda a: slope(idx(a), a), 2),
    'regression_index_offset': ('efp::get<1>(linear_regression_with_index<double>(a))', lambda a: mean(a) - slope(idx(a), a) * mean(idx(a)), 2),
}
OPSI = {  # element i of a sequence result
    'remove_dc': ('remove_dc<double>(a)', lambda a, i: a[i] - mean(a), 1),
    'detrend': ('detrend<double>(a)', lambda a, i: a[i] - (slope(idx(a), a) * i + mean(a) - slope(idx(a), a) * mean(idx(a))), 2),
}
OPSL = {  # with a lag
    'autocovariance': ('autocovariance<double>(a, l)', lambda a, l: autoc(a, l) / len(a), 1, 0),
    'autocovariance_bessel': ('autocovariance<double, true>(a, l)', lambda a, l: autoc(a, l) / (len(a) - 1), 2, 0),
    'autocovariance_adjusted': ('autocovariance<double, false, true>(a, l)', lambda a, l: autoc(a, l) / (len(a) - l), 1, 1),
    'autocovariance_bessel_adjusted': ('autocovariance<double, true, true>(a, l)', lambda a, l: autoc(a, l) / (len(a) - l - 1), 2, 2),
    'autocorrelation_bessel': ('autocorrelation<double, true>(a, l)', lambda a, l: autoc(a, l) / (len(a) - 1) / var(a, 1), 2, 0),
    'autocorrelation_adjusted': ('autocorrelation<double, false, true>(a, l)', lambda a, l: autoc(a, l) / (len(a) - l) / var(a, 0), 2, 1),
    'autocorrelation_bessel_adjusted': ('autocorrelation<double, true, true>(a, l)', lambda a, l: autoc(a, l) / (len(a) - l - 1) / var(a, 1), 2, 2),
    'autocorrelation': ('autocorrelation<double>(a, l)', lambda a, l: autoc(a, l) / len(a) / var(a, 0), 2, 0),
}
OPS2 = {
    'sse': ('sse<double>(a, b)', lambda a, b: sum((x - y) ** 2 for x, y in zip(a, b)), 0, False),
    'mse': ('mse<double>(a, b)', lambda a, b: mean([(x - y) ** 2 for x, y in zip(a, b)]), 1, False),
    'rmse': ('rmse<double>(a, b)', lambda a, b: sqrt(mean([(x - y) ** 2 for x, y in zip(a, b)])), 1, False),
    'nrmse_mean': ('nrmse_mean<double>(a, b)', lambda a, b: sqrt(mean([(x - y) ** 2 for x, y in zip(a, b)])) / mean(b), 1, False),
    'nrmse_max_min': ('nrmse_max_min<double>(a, b)', lambda a, b: sqrt(mean([(x - y) ** 2 for x, y in zip(a, b)])) / (max(b) - min(b)), 2, False),
    'covariance': ('covariance<double>(a, b)', lambda a, b: cov(a, b) / len(a), 1, True),
    'covariance_bessel': ('covariance<double, true>(a, b)', lambda a, b: cov(a, b) / (len(a) - 1), 2, True),
    'correlation': ('correlation<double>(a, b)', lambda a, b: cov(a, b) / len(a) / (sqrt(var(a, 0)) * sqrt(var(b, 0))), 2, True),
    'correlation_bessel': ('correlation<double, true>(a, b)', lambda a, b: cov(a, b) / len(a) / (sqrt(var(a, 0)) * sqrt(var(b, 0))), 2, True),
    'regression_slope': ('efp::get<0>(linear_regression<double>(a, b))', lambda a, b: slope(a, b), 2, True),
    'regression_offset': ('efp::get<1>(linear_regression<double>(a, b))', lambda a, b: mean(b) - slope(a, b) * mean(a), 2, True),
}


APPROX = {'DD': ('double', 'double'), 'FF': ('float', 'float'), 'DF': ('double', 'float'), 'FD': ('float', 'double'), 'FI': ('float', 'int'), 'IF': ('int', 'float'),
          'DI': ('double', 'int'), 'DL': ('double', 'long'), 'LD': ('long', 'double')}


def mean(a):
    return sum(a) / Decimal(len(a))


def var(a, k):
    m = mean(a)
    return sum((x - m) ** 2 for x in a) / Decimal(len(a) - k)


def cov(a, b):
    p, q = mean(a), mean(b)
    return sum((x - p) * (y - q) for x, y in zip(a, b))


def autoc(a, l):
    m = mean(a)
    return sum(((a[i] - m) * (a[i + l] - m) for i in range(len(a) - l)), Decimal(0))


def slope(a, b):
    return cov(a, b) / (var(a, 0) * len(a))


def idx(a):
    return [Decimal(i) for i in range(len(a))]


def sqrt(x):
    return x.sqrt()


def source(tier):
    s = ['#include "probe.hpp"', 'using namespace efp; using namespace vp;']
    for k, (T, e) in SEQT.items():
        s.append(f'using {k} = {T}; VP_SEQ({k}, {k})')
        for f in ('sum', 'product', 'max_elem', 'min_elem', 'max_min'):
            s.append(f'S_FN {e} {f}_{k}(const {k}& a) {{ return efp::{f}(a); }}')
    for k in STAT:
        def fl(b):
            return b.replace('<double', '<float') if k == 'VF' else b
        for f, (b, *_) in OPS1.items():
            s.append(f'S_FN double {f}_{k}(const {k}& a) {{ return {fl(b)}; }}')
        for f, (b, *_) in OPSI.items():
            b = fl(b)
            s.append(f'S_FN double {f}_{k}(const {k}& a, unsigned long i) {{ auto r = {b}; return r[i]; }}')
            s.append(f'S_FN unsigned long {f}n_{k}(const {k}& a) {{ return length({b}); }}')
        for f, (b, *_) in OPSL.items():
            s.append(f'S_FN double {f}_{k}(const {k}& a, int l) {{ return {fl(b)}; }}')
        for f, (b, *_) in OPS2.items():
            s.append(f'S_FN double {f}_{k}(const {k}& a, const {k}& b) {{ return {fl(b)}; }}')
    for e in ('double', 'int'):
        n = e[0].upper()
        s += [f'S_FN {e} square_{n}({e} x) {{ return efp::square(x); }}', f'S_FN {e} abs_{n}({e} x) {{ return efp::abs(x); }}',
              f'S_FN {e} squarec_{n}(const {e}& x) {{ return efp::square(x); }}', f'S_FN {e} absc_{n}(const {e}& x) {{ return efp::abs(x); }}',
              f'S_FN {e} min_{n}({e} x, {e} y) {{ return efp::min(x, y); }}', f'S_FN {e} max_{n}({e} x, {e} y) {{ return efp::max(x, y); }}']
    for f in ('sqrt', 'sin', 'cos', 'tan'):
        s.append(f'S_FN double {f}_D(double x) {{ return efp::{f}(static_cast<const double&>(x)); }} S_FN float {f}_F(float x) {{ return efp::{f}(static_cast<const float&>(x)); }}')
    for n, (a, b) in APPROX.items():
        s.append(f'S_FN int approx_{n}({a} x, {b} y) {{ const {a}& p = x; const {b}& q = y; if (efp::is_approx(p, q)) return 1; return 0; }}')
    for n, e in (('D', 'double'), ('I', 'int')):
        for f in ('add', 'sub', 'mul', 'div') + (('mod',) if n == 'I' else ()):
            s.append(f'S_FN {e} op{f}_{n}({e} x, {e} y) {{ const {e}& p = x; const {e}& q = y; return efp::op_{f}(p, q); }}')
        for f in ('eq', 'neq', 'gt', 'lt', 'geq', 'leq'):
            s.append(f'S_FN int op{f}_{n}({e} x, {e} y) {{ const {e}& p = x; const {e}& q = y; if (efp::op_{f}(p, q)) return 1; return 0; }}')
        s.append(f'S_FN {e} opneg_{n}({e} x, {e} y) {{ const {e}& p = x; return efp::op_neg(p); }}')
        s.append(f'S_FN {e} clamp_{n}({e} x, {e} y, {e} z) {{ const {e}& p = x; const {e}& q = y; const {e}& r = z; return efp::clamp(p, q, r); }}')
    s.append('''S_FN int opand_B(int x, int y) { const bool p = x > 0; const bool q = y > 0; if (efp::op_and(p, q)) return 1; return 0; }
S_FN int opor_B(int x, int y) { const bool p = x > 0; const bool q = y > 0; if (efp::op_or(p, q)) return 1; return 0; }
S_FN int opnot_B(int x, int y) { const bool p = x > 0; if (efp::op_not(p)) return 1; return 0; }
S_FN int uniteq_B(int x, int y) { const Unit a {}; const Unit b {}; if (a == b) return 1; return 0; }
S_FN int unitne_B(int x, int y) { const Unit a {}; const Unit b {}; if (a != b) return 1; return 0; }''')
    s.append('''S_FN double cc_real(double x, double y) { return complex_cast<true>(static_cast<const double&>(x)).real(); }
S_FN double cc_imag(double x, double y) { return complex_cast<true>(static_cast<const double&>(x)).imag(); }
S_FN double cc_down(double x, double y) { const Complex<double> z(x, y); return complex_cast<false>(z); }
S_FN double cc_same(double x, double y) { return complex_cast<false>(static_cast<const double&>(x)); }
S_FN double cc_keepr(double x, double y) { const Complex<double> z(x, y); return complex_cast<true>(z).real(); }
S_FN double cc_keepi(double x, double y) { const Complex<double> z(x, y); return complex_cast<true>(z).imag(); }''')
    return '\n'.join(s)


# ---------------------------------------------------------------- comparisons as facts

FP = {1: ('eq', 0), 2: ('gt', 0), 3: ('ge', 0), 4: ('lt', 0), 5: ('le', 0), 6: ('eq', 1), 9: ('eq', 0), 10: ('gt', 0), 11: ('ge', 0), 12: ('lt', 0), 13: ('le', 0), 14: ('eq', 1)}


def key(t):
    t = skip(t)
    if isinstance(t, Lin) and t.isc():
        return ('#', Decimal(t.c))
    if isinstance(t, tuple) and t and t[0] == 'Fp':
        return ('#', Decimal(float(t[1])))
    return t


def skip(t):
    while isinstance(t, tuple) and t and t[0] == 'App' and t[1] in ('fpext', 'fptrunc', 'sitofp', 'uitofp', 'sext', 'zext'):
        t = t[-1]
    return t


def relation(name, args):
    """(x, y, strict) meaning x < y (strict) or x <= y if the event is true; None if unknown; plus negation"""
    if name.startswith('fcmp'):
        op, neg = FP.get(int(name[4:]), (None, 0))
    elif name in ('slt', 'ult'):
        op, neg = 'lt', 0
    elif name == 'eq':
        op, neg = 'eq', 0
    else:
        return None
    x, y = key(args[0]), key(args[1])
    if op in ('gt', 'ge'):
        x, y, op = y, x, {'gt': 'lt', 'ge': 'le'}[op]
    return (x, y, op, neg) if op else None


LIMIT = {('#', Decimal(float(v))): s for v, s in ((1.7976931348623157e308, 1), (-1.7976931348623157e308, -1), (3.4028234663852886e38, 1), (-3.4028234663852886e38, -1), (2147483647, 1), (-2147483648, -1),
                                                  (float(2**63), 1), (-float(2**63), -1))}


def events(st):
    for g in st.trace:
        if g.lo.isc() and g.hi.isc():
            for i in range(g.lo.c, g.hi.c):
                yield subst_val(g.val, {K: Lin(i - g.lo.c)})
        else:
            raise Undecided('comparisons of unknown number')


def facts(st, extra=()):
    rel = {}
    ks = set()
    for e in events(st):
        if not (isinstance(e, tuple) and e[0] == 'E' and e[3] in ('T', 'F')):
            continue
        r = relation(e[1], e[2])
        if r is None:
            continue
        x, y, op, neg = r
        t = (e[3] == 'T') != bool(neg)
        ks |= {x, y}
        if op == 'eq':
            if t:
                rel = learn(learn(rel, x, y, False), y, x, False)
        elif t:
            rel = learn(rel, x, y, op == 'lt')
        else:
            rel = learn(rel, y, x, op == 'le')
    ks |= set(extra)
    # the numeric limits bound every element
    for l, s in LIMIT.items():
        if l in ks:
            for k in ks:
                if k != l and k[0] != '#':
                    rel = learn(rel, k, l, False) if s > 0 else learn(rel, l, k, False)
    cs = [k for k in ks if k[0] == '#']
    for a in cs:
        for b in cs:
            if a[1] < b[1]:
                rel = learn(rel, a, b, True)
    return rel


def hook_event(ip, st, name, args):
    r = relation(name, args)
    if r is None:
        return None
    x, y, op, neg = r
    if x == y:
        return (op in ('le', 'eq')) != bool(neg)
    f = facts(st, (x, y))
    v = None
    if op == 'eq':
        if f.get((x, y)) == 1 or f.get((y, x)) == 1:
            v = False
        elif f.get((x, y)) == 0 and f.get((y, x)) == 0:
            v = True
    elif op == 'lt':
        v = True if f.get((x, y)) == 1 else False if (y, x) in f else None
    else:
        v = True if (x, y) in f else False if f.get((y, x)) == 1 else None
    return None if v is None else v != bool(neg)


def hook_call(ip, st, name, a, ins):
    if name in ('sqrt', 'sqrtf', 'sqrtl', 'llvm.sqrt.f64', 'llvm.sqrt.f32', '_ZSt4sqrtf', '_ZSt4sqrte'):
        return [('ret', st, ('App', 'sqrt', a[0]))]
    m = re.match(r'^(?:llvm\.)?(sin|cos|tan)(f|l|\.f32|\.f64)?$', name) or re.match(r'^_ZSt3(sin|cos|tan)[fe]$', name)
    if m:
        return [('ret', st, ('App', m.group(1), a[0]))]
    if name in ('fabs', 'fabsf', 'llvm.fabs.f64', 'llvm.fabs.f32', 'abs', 'labs', 'llvm.abs.i32', 'llvm.abs.i64'):
        return [('ret', st, ('App', 'abs', a[0]))]
    if name in ('llvm.fmuladd.f64', 'llvm.fma.f64', 'fma', 'llvm.fmuladd.f32', 'llvm.fma.f32', 'fmaf'):
        return [('ret', st, ('App', 'fadd', ('App', 'fmul', a[0], a[1]), a[2]))]
    if name in ('pow', 'llvm.pow.f64') and isinstance(key(a[1]), tuple) and key(a[1])[0] == '#' and key(a[1])[1] == 2:
        return [('ret', st, ('App', 'fmul', a[0], a[0]))]
    return None


HOOKS = {'call': hook_call, 'event': hook_event}


class Nope(Exception):
    pass


def value(t, env, memo):
    """the term's value where the elements have the values env"""
    if isinstance(t, Lin):
        if not t.isc():
            raise Nope('symbolic integer')
        return Decimal(t.c)
    k = id(t)
    if k in memo:
        return memo[k][0]
    if t[0] == 'Fp':
        v = Decimal(float(t[1]))
    elif t[0] in ('Elt', 'Arg'):
        kk = (t[1], t[2].c) if t[0] == 'Elt' and t[2].isc() else t
        if kk not in env:
            raise Nope(f'unknown value {t}')
        v = env[kk]
    elif t[0] == 'ev' and '#' in env:
        v = Decimal(int(truth(env['#'][t[1].c if isinstance(t[1], Lin) else t[1]], env, memo) == t[2]))
    elif t[0] == 'App':
        op = t[1]
        xs = [value(x, env, memo) for x in t[2:] if not isinstance(x, str)]
        if op in ('fadd', 'add'):
            v = xs[0] + xs[1]
        elif op in ('fsub', 'sub'):
            v = xs[0] - xs[1]
        elif op in ('fmul', 'mul'):
            v = xs[0] * xs[1]
        elif op == 'fdiv':
            v = xs[0] / xs[1]
        elif op == 'fneg':
            v = -xs[0]
        elif op == 'sqrt':
            if xs[0] < 0:
                if xs[0] > Decimal('-1e-40'):
                    xs[0] = Decimal(0)
                else:
                    raise ZeroDivisionError
            v = xs[0].sqrt()
        elif op == 'abs':
            v = abs(xs[0])
        elif op in ('fpext', 'fptrunc', 'sitofp', 'uitofp', 'sext', 'zext', 'trunc'):
            v = xs[0]
        elif op in ('fptosi', 'fptoui'):
            v = Decimal(int(xs[0]))
        elif op == 'sdiv':
            v = Decimal(int(xs[0] / xs[1]))
        elif op == 'srem':
            v = xs[0] - xs[1] * int(xs[0] / xs[1])
        elif op == 'shl':
            v = xs[0] * 2 ** int(xs[1])
        else:
            raise Nope('operation ' + op)
    else:
        raise Nope(f'value {t}')
    memo[k] = (v, t)
    return v


POINTS = [[3, -7, 11, 2, -5, 13, 8], [1, 4, 9, -16, 25, 36, -49], [-12, 5, 5, 7, 0, -3, 2], [Decimal('0.5'), Decimal('2.25'), Decimal('-1.125'), 6, Decimal('0.75'), 4, 1]]
SHIFT = 3


def point(k, name, n, integer):
    base = POINTS[k]
    r = []
    for i in range(n):
        v = Decimal(base[(i + (SHIFT if name != 'v' else 0)) % 7]) + (i // 7) * 5 + (i * i * 3 % 17 if i > 6 else 0) + (Decimal(i) if name != 'v' else 0)
        r.append(Decimal(int(v * 2)) if integer else v)
    return r


def points(names, n, integer, more):
    for k in range(len(POINTS) if n < 20 else 1):
        yield [point(k, nm, ln, integer) for nm, ln in names]
    if more and names:
        # the path depends on the order of the elements: every order of four values
        for t in itertools.product([Decimal(-3), Decimal(2), Decimal(5), Decimal(11)], repeat=max(ln for _, ln in names)):
            yield [list(t[:ln]) if len(names) == 1 or j else [x * x - 3 * i for i, x in enumerate(t[:ln])] for j, (_, ln) in enumerate(names)]


def truth(e, env, memo):
    """whether the comparison e is true where the elements have the values env"""
    r = relation(e[1], e[2])
    if r is None:
        raise Nope('comparison ' + e[1])
    x, y, op, neg = r
    x, y = (z[1] if z[0] == '#' else value(z, env, memo) for z in (x, y))
    return {'lt': x < y, 'le': x <= y, 'eq': x == y}[op] != bool(neg)


def consistent(evs, env):
    memo = {}
    for e in evs:
        try:
            if truth(e, env, memo) != (e[3] == 'T'):
                return False
        except (Nope, *ARITH):
            return False
    return True


def same(c, o, term, want, names, n, integer, what, env0=None):
    """the term denotes the function want(lists...)"""
    c.oblig += 1
    done = 0
    evs = [e for e in events(o.st) if isinstance(e, tuple) and e[0] == 'E' and e[3] in ('T', 'F')]
    for lists in points(names, n, integer, bool(evs)):
        env = dict(env0 or {})
        for (nm, ln), xs in zip(names, lists):
            env.update({(nm, i): x for i, x in enumerate(xs)})
        if evs and (done > 3 or not consistent(evs, env)):
            continue
        try:
            w = want(*lists)
        except ARITH:
            continue
        w = Decimal(w)
        try:
            g = value(term, env, {})
        except Nope as e:
            c.unsure.append(f'{what}: {e}')
            return
        except ARITH:
            g = None
        done += 1
        if g is None or abs(g - w) > Decimal('1e-9') * max(abs(w), abs(g), Decimal(1)):
            vals = '; '.join(f"{nm} = {[str(x) for x in xs[:8]]}" for (nm, _), xs in zip(names, lists))
            c.fail(o, 'value', f"{what} is {'undefined' if g is None else format(g, '.12g')} where {vals}; the definition gives {format(w, '.12g')}")
            return
    if evs and all(z[0] == 'Elt' or z[0] == '#' and z in LIMIT for e in evs for z in (relation(e[1], e[2]) or [('?',)] * 2)[:2]):
        return  # every order of the elements has been tried: the path is taken by none of those that decide
    if not done:
        c.unsure.append(f'{what}: no point decides')


# ---------------------------------------------------------------- reductions

def add(name, props, f, tier='quick'):
    SC.append(Scenario(name, props, f, 'num', unroll=True, tier=tier))


def lengths(c, k, least, hi):
    if k in FIXED:
        return FIXED[k]
    if c.big:
        return c.num('n', least).c
    n = c.case('n', [x for x in hi if x >= least])
    c.sampled = True
    return n


def arg(c, k, name, n):
    c.ip.unroll = max(40, 3 * n + 20)
    kw = {} if k in FIXED else dict(n=n)
    if SEQT[k][0].startswith('Vector<'):
        kw.update(cap=n + 1, null=n == 0 and c.case(name, ['heap', 'null']) == 'null')
    elif 'View' in SEQT[k][0]:
        kw.update(null=False)
    return c.seq(name, k, **kw)


SMALL = [0, 1, 2, 3, 4]


def red(k):
    integer = SEQT[k][1] == 'int'

    def fold(f, want):
        def run(c):
            n = lengths(c, k, 0, SMALL + ([] if k == 'KD' else [40, 300]))
            v = arg(c, k, 'v', n)
            for o in outcomes(c, c.run(f'{f}_{k}', v.ptr), f):
                same(c, o, o.val, want, [('v', n)], n, integer, f)
        add(f'{f}.{k}', ('C28',), run)

    def prod(a):
        r = Decimal(1)
        for x in a:
            r *= x
        return r
    fold('sum', lambda a: sum(a, Decimal(0)))
    fold('product', prod)

    def extreme(f):
        def run(c):
            n = lengths(c, k, 1, SMALL)
            v = arg(c, k, 'v', n)
            es = [('Elt', 'v', Lin(i)) for i in range(n)]
            for o in outcomes(c, c.run(f'{f}_{k}', v.ptr), f):
                judge(c, o, o.val, es, f)
        add(f'{f}.{k}', ('C28',), run)
    extreme('max_elem')
    extreme('min_elem')

    def spread(c):
        n = lengths(c, k, 1, [1, 2, 3])
        v = arg(c, k, 'v', n)
        es = [('Elt', 'v', Lin(i)) for i in range(n)]
        for o in outcomes(c, c.run(f'max_min_{k}', v.ptr), 'max_min'):
            t = skip(o.val)
            c.oblig += 1
            if n == 1 and isinstance(key(t), tuple) and key(t) == ('#', Decimal(0)):
                continue
            if not (isinstance(t, tuple) and t[0] == 'App' and t[1] in ('fsub', 'sub')):
                c.unsure.append('max_min: result is not a difference')
                continue
            judge(c, o, t[2], es, 'max_elem', 'minuend of max_min')
            judge(c, o, t[3], es, 'min_elem', 'subtrahend of max_min')
    add(f'max_min.{k}', ('C28',), spread)


def judge(c, o, val, es, f, what=None):
    c.oblig += 1
    what = what or f
    r = key(val)
    ks = [key(e) for e in es]
    rel = facts(o.st, [r] + ks)
    if r not in ks and not (r[0] == '#' and any(((k, r) if f == 'min_elem' else (r, k)) in rel and ((r, k) if f == 'min_elem' else (k, r)) in rel for k in ks)):
        c.fail(o, 'value', f"{what} gives {r[1] if r[0] == '#' else r}, which is none of the elements")
        return
    for i, k in enumerate(ks):
        pair = (k, r) if f == 'max_elem' else (r, k)
        if k != r and pair not in rel:
            c.fail(o, 'value', f"{what} gives element {r[2] if r[0] == 'Elt' else r}, but element {i} may be {'larger' if f == 'max_elem' else 'smaller'} on this path")
            return


for k_ in SEQT:
    red(k_)


def scalars(c):
    n = c.case('type', ['D', 'I'])
    f = c.case('op', ['square', 'abs', 'squarec', 'absc', 'min', 'max'])
    x, y = ('Arg', 'x'), ('Arg', 'y')
    args = [x, y] if f in ('min', 'max') else [x]
    if f.endswith('c'):
        i = c.ip.new_obj(c.st, 'ext', 8 if n == 'D' else 4, 'x', None, [Seg(ZERO, Lin(8 if n == 'D' else 4), 'live', 's', 8 if n == 'D' else 4, x)])
        args = [Ptr(i, ZERO)]
    for o in outcomes(c, c.run(f'{f}_{n}', *args), f):
        f = f.rstrip('c')
        if f == 'square':
            same(c, o, o.val, lambda: Decimal(49), [], 0, False, f, {x: Decimal(-7)})
        elif f == 'abs':
            rel = facts(o.st, [x, ('#', Decimal(0))])
            z = ('#', Decimal(0))
            for v in (-3, 5, 0):
                # a point consistent with the path
                ok = not ((x, z) in rel and (v > 0 or v == 0 and rel[(x, z)] == 1)) and not ((z, x) in rel and (v < 0 or v == 0 and rel[(z, x)] == 1))
                if ok:
                    same(c, o, o.val, lambda: abs(Decimal(v)), [], 0, False, 'abs', {x: Decimal(v)})
        else:
            judge(c, o, o.val, [x, y], f + '_elem', f)


add('scalars', ('C28',), scalars)


def table(c, outs, pts, want, what):
    hit = set()
    for o in outs:
        al = [e for e in events(o.st)]
        evs = [e for e in al if isinstance(e, tuple) and e[0] == 'E' and e[3] in ('T', 'F')]
        v = o.val
        v = Lin(int(v)) if isinstance(v, bool) else v
        for i, env in enumerate(pts):
            env = dict(env)
            env['#'] = al
            if not consistent(evs, env):
                continue
            c.oblig += 1
            hit.add(i)
            w = Decimal(want(env))
            try:
                g = value(v, env, {})
            except Nope as e:
                c.unsure.append(f'{what}: {e}')
                return
            except ARITH:
                g = None
            if g is None or abs(g - w) > Decimal('1e-12') * max(abs(w), Decimal(1)):
                c.fail(o, 'value', f"{what} is {g} where {', '.join(f'{k[1]} = {x}' for k, x in env.items() if k != '#')}; expected {w}")
                return
    if len(hit) < len(pts):
        c.unsure.append(f'{what}: no path decides every point')


def approx(c):
    n = c.case('types', list(APPROX))
    x, y = ('Arg', 'x'), ('Arg', 'y')
    a, b = APPROX[n]
    kinds = {a, b}
    eps = Decimal(2) ** (-52 if 'double' in kinds else -23)
    xs = [0, 1, -1, 7] + ([] if a in ('int', 'long') else [Decimal('0.5'), Decimal('-0.5'), 1 + eps, 1 + 3 * eps])
    ys = [0, 1, -1, 7] + ([] if b in ('int', 'long') else [Decimal('0.5'), Decimal('-0.5'), 1 + eps, 1 + 3 * eps])
    pts = [{x: Decimal(p), y: Decimal(q)} for p in xs for q in ys]
    outs = outcomes(c, c.run(f'approx_{n}', x, y), 'is_approx')
    table(c, outs, pts, lambda e: int(abs(e[x] - e[y]) <= eps), f'is_approx<{a}, {b}>')


add('is_approx', ('C28',), approx)


def casts(c):
    x, y = ('Arg', 'x'), ('Arg', 'y')
    f = c.case('cast', ['real', 'imag', 'down', 'same', 'keepr', 'keepi'])
    want = {'imag': lambda e: 0, 'keepi': lambda e: e[y]}.get(f, lambda e: e[x])
    table(c, outcomes(c, c.run(f'cc_{f}', x, y), 'complex_cast'), [{x: Decimal(3), y: Decimal(-8)}], want, f'complex_cast ({f})')


add('complex_cast', ('C28',), casts)


def elementary(c):
    f = c.case('op', ['sqrt', 'sin', 'cos', 'tan'])
    n = c.case('type', ['D', 'F'])
    x = ('Arg', 'x')
    for o in outcomes(c, c.run(f'{f}_{n}', x), f):
        c.oblig += 1
        t = skip(o.val)
        if not (isinstance(t, tuple) and t[0] == 'App' and t[1] == f and skip(t[2]) == x):
            if isinstance(t, tuple) and t[0] == 'App' and t[1] in ('sqrt', 'sin', 'cos', 'tan'):
                c.fail(o, 'value', f"{f}(x) gives {t[1]} of {t[2]}")
            else:
                c.unsure.append(f'{f}: {t}')


add('elementary', ('C28',), elementary)


OPF = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b, 'div': lambda a, b: a / b,
       'mod': lambda a, b: a - b * int(a / b), 'neg': lambda a, b: -a,
       'eq': lambda a, b: int(a == b), 'neq': lambda a, b: int(a != b), 'gt': lambda a, b: int(a > b), 'lt': lambda a, b: int(a < b),
       'geq': lambda a, b: int(a >= b), 'leq': lambda a, b: int(a <= b)}
OPB = {'opand': lambda a, b: int(a > 0 and b > 0), 'opor': lambda a, b: int(a > 0 or b > 0), 'opnot': lambda a, b: int(not a > 0),
       'uniteq': lambda a, b: 1, 'unitne': lambda a, b: 0}


def operators(c):
    n = c.case('type', ['D', 'I', 'B'])
    x, y = ('Arg', 'x'), ('Arg', 'y')
    if n == 'B':
        f = c.case('op', list(OPB))
        want, fn, vals = OPB[f], f, (0, 1)
    else:
        f = c.case('op', [k for k in OPF if n == 'I' or k != 'mod'])
        want, fn, vals = OPF[f], 'op' + f, (-7, -2, 3, 11)
        if n == 'I' and f == 'div':
            want = lambda a, b: int(a / b)
    pts = [{x: Decimal(p), y: Decimal(q)} for p in vals for q in vals]
    table(c, outcomes(c, c.run(f'{fn}_{n}', x, y), fn), pts, lambda e: want(e[x], e[y]), f'{fn}(x, y)')


def clamps(c):
    n = c.case('type', ['D', 'I'])
    x, y, z = ('Arg', 'lower'), ('Arg', 'upper'), ('Arg', 'x')
    pts = [{x: Decimal(p), y: Decimal(q), z: Decimal(r)} for p, q in ((-3, 4), (-9, -2), (1, 1), (2, 8)) for r in (-10, -9, -5, -3, -2, 0, 1, 2, 4, 5, 8, 9)]
    table(c, outcomes(c, c.run(f'clamp_{n}', x, y, z), 'clamp'), pts, lambda e: min(max(e[z], e[x]), e[y]), 'clamp(lower, upper, x)')


add('operators', ('C33',), operators)
add('clamp', ('C33',), clamps)


# ---------------------------------------------------------------- statistics

def stat(k):
    integer = SEQT[k][1] == 'int'
    NS = [1, 2, 3, 4]

    for f, (b, want, least) in OPS1.items():
        def run(c, f=f, want=want, least=least):
            big = [1300] if 'regression' in f and k == 'VD' else []
            n = lengths(c, k, least, NS + big)
            v = arg(c, k, 'v', n)
            for o in outcomes(c, c.run(f'{f}_{k}', v.ptr), f):
                same(c, o, o.val, want, [('v', n)], n, integer, f)
        add(f'{f}.{k}', ('C32',), run)
    for f, (b, want, least) in OPSI.items():
        def runi(c, f=f, want=want, least=least):
            n = lengths(c, k, least, NS)
            i = c.case('i', list(range(n)))
            v = arg(c, k, 'v', n)
            for o in outcomes(c, c.run(f'{f}_{k}', v.ptr, Lin(i)), f):
                same(c, o, o.val, lambda a: want(a, i), [('v', n)], n, integer, f'element {i} of {f}')
            if i == 0:
                for o in outcomes(c, c.run(f'{f}n_{k}', v.ptr), f):
                    c.oblig += 1
                    if o.val != Lin(n):
                        c.fail(o, 'value', f"{f} of {n} elements gives {o.val} elements")
        add(f'{f}.{k}', ('C32',), runi)
    for f, (b, want, least, slack) in OPSL.items():
        def runl(c, f=f, want=want, least=least, slack=slack):
            n = lengths(c, k, least, NS)
            ok = [x for x in range(n) if n - x >= max(1, slack)] or [None]
            l = c.case('lag', ok if len(ok) < 12 else [ok[0], ok[1], ok[len(ok) // 2], ok[-1]])
            if l is None:
                raise Skip()
            v = arg(c, k, 'v', n)
            for o in outcomes(c, c.run(f'{f}_{k}', v.ptr, Lin(l)), f):
                same(c, o, o.val, lambda a: want(a, l), [('v', n)], n, integer, f'{f} at lag {l}')
        add(f'{f}.{k}', ('C32',), runl)
    for f, (b, want, least, equal) in OPS2.items():
        def run2(c, f=f, want=want, least=least, equal=equal):
            n = lengths(c, k, least, NS)
            m = n if equal or k in FIXED else c.case('m', [x for x in (n - 1, n, n + 1) if x >= least])
            v, w = arg(c, k, 'v', n), arg(c, k, 'w', m)
            for o in outcomes(c, c.run(f'{f}_{k}', v.ptr, w.ptr), f):
                same(c, o, o.val, want, [('v', n), ('w', m)], n, integer, f)
        add(f'{f}.{k}', ('C32',), run2)


for k_ in STAT:
    stat(k_)
