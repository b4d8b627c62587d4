"""Properties decided by the type checker: result types of the sequence functions, const-correctness, exhaustive
matching, storage layout.  Each obligation is a static assertion or a pair of programs of which one must be accepted and
the other, differing in one violating construct, must be rejected; the compiler's type checker decides them for
/repo's headers.  Nothing is executed."""
import itertools
import os
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor
import spec

STDS = {'quick': ['c++11', 'c++17'], 'thorough': ['c++11', 'c++14', 'c++17', 'c++20']}
PRE = r'''
#include "efp.hpp"
#include "efp/io.hpp"
#include "efp/concurrency.hpp"
#include <array>
#include <vector>
#include <string>
#include <type_traits>
#include <utility>
namespace vt {
using namespace efp;
struct P { P(); P(const P&); P(P&&); P& operator=(const P&); P& operator=(P&&); ~P(); bool operator==(const P&) const; long w[3]; };
struct Q { Q(); Q(const Q&); Q(Q&&); Q& operator=(const Q&); Q& operator=(Q&&); ~Q(); bool operator==(const Q&) const; long w[2]; };
struct F1 { Q operator()(const P&) const; };
struct F2 { Q operator()(const P&, const P&) const; };
struct F3 { Q operator()(const P&, const P&, const P&) const; };
struct FI { Q operator()(size_t, const P&) const; };
struct FI2 { Q operator()(size_t, const P&, const P&) const; };
struct FB { bool operator()(const P&) const; };
struct FN { Q operator()(size_t) const; };
template<typename T> T mk();
// result shapes
template<typename R, typename E, size_t n> struct is_array: std::is_same<R, Array<E, n>> {};
template<typename R, typename E, size_t c> struct is_arrvec: std::false_type {};
template<typename E, size_t k, size_t c> struct is_arrvec<ArrVec<E, k>, E, c>: std::integral_constant<bool, (k >= c)> {};
template<typename R, typename E> struct is_vector: std::is_same<R, Vector<E>> {};
template<typename R, typename E, size_t n> struct is_aview: std::integral_constant<bool, std::is_same<R, ArrayView<E, n>>::value || std::is_same<R, ArrayView<const E, n>>::value> {};
template<typename R, typename E, size_t c> struct is_avview: std::false_type {};
template<typename E, size_t k, size_t c> struct is_avview<ArrVecView<E, k>, E, c>: std::integral_constant<bool, (k >= c)> {};
template<typename E, size_t k, size_t c> struct is_avview<ArrVecView<const E, k>, E, c>: std::integral_constant<bool, (k >= c)> {};
template<typename R, typename E> struct is_vview: std::integral_constant<bool, std::is_same<R, VectorView<E>>::value || std::is_same<R, VectorView<const E>>::value> {};
// no write access
template<typename T> struct read_only_ref: std::integral_constant<bool, !std::is_assignable<T, P>::value> {};
template<typename T> struct read_only_ptr: std::integral_constant<bool, !std::is_convertible<T, P*>::value && std::is_convertible<T, const P*>::value> {};
}
'''


class TU:
    def __init__(self):
        self.lines = []
        self.labels = {}

    def check(self, label, expr):
        self.lines.append((label, f'static_assert(({expr}), "");'))

    def decl(self, text):
        self.lines.append((None, text.replace('\n', ' ')))


def clang(std, tmp, pch, src, name):
    f = os.path.join(tmp, name + '.cpp')
    with open(f, 'w') as h:
        h.write(src)
    return subprocess.run([spec.CLANG, f'-std={std}', '-w', '-fsyntax-only', '-ferror-limit=0', '-ftemplate-backtrace-limit=0', '-include-pch', pch, f],
                          capture_output=True, text=True)


def build_pch(std, tmp):
    d = os.path.join(tmp, 'pch-' + std.replace('+', 'x'))
    os.makedirs(d, exist_ok=True)
    h = os.path.join(d, 'pre.hpp')
    with open(h, 'w') as f:
        f.write(PRE)
    r = subprocess.run([spec.CLANG, f'-std={std}', '-w', '-x', 'c++-header', '-I', os.path.join(spec.REPO, 'include'), h, '-o', h + '.pch'],
                       capture_output=True, text=True)
    if r.returncode:
        raise spec.BuildError(r.stderr[-3000:])
    return d, h + '.pch'


def headline(err):
    return '\n    '.join(spec.short(x) for x in err.splitlines() if 'error:' in x)[:1500] if False else \
        '\n    '.join([spec.short(x) for x in err.splitlines() if 'error:' in x][:3])


def run_asserts(prop, tu, std, tmp, out, what):
    d, pch = build_pch(std, tmp)
    src, where = [], {}
    for label, l in tu.lines:
        src.append(l)
        if label:
            where[len(src) + 1] = label
    r = clang(std, d, pch, 'namespace vt {\n' + '\n'.join(src) + '\n}\n', prop)
    fn = prop + '.cpp'
    bad = {}
    cur, block = None, []

    def flush():
        if not block:
            return
        ls = [int(x) for x in re.findall(re.escape(fn) + r':(\d+):', '\n'.join(block))]
        ls = [x for x in ls if x in where]
        if ls:
            hard = 'static assertion failed due to requirement' not in block[0] and not re.match(r'.*' + re.escape(fn), block[0])
            bad.setdefault(ls[-1], (hard, block[0]))
        else:
            raise spec.BuildError('\n'.join(block)[:3000])
    for l in r.stderr.splitlines():
        if re.search(r': (fatal )?error: ', l):
            flush()
            block = [l]
        elif block:
            block.append(l)
    flush()
    n = len(where)
    out['inst'] += n
    out['oblig'] += n
    out['proved'] += n - len(bad)
    groups = {}
    for i, lab in where.items():
        g = lab.split(':')[0]
        groups.setdefault(g, [0, 0])
        groups[g][0] += 1
        groups[g][1] += i in bad
    for g, (k, b) in groups.items():
        out['scen'].append({'name': g, 'instances': k, 'proved': k - b, 'bounded': 0, 'undecided': 0, 'violated': b})
    for i, (hard, first) in bad.items():
        out['viol'].append((where[i].split(':')[0], 'type', f"[type] {where[i]}: {what}\n    {spec.short(first)}"))
    out['samples'] += [where[i] for i in list(where)[:4]]


def run_pairs(prop, pairs, std, tmp, out):
    """pairs: (label, accepted program, rejected program)"""
    d, pch = build_pch(std, tmp)

    # all valid programs in one unit first
    every = clang(std, d, pch, ''.join(f'namespace vt {{ namespace n{k} {{\n{p[1]}\n}} }}\n' for k, p in enumerate(pairs) if p[1]), f'{prop}-ok')

    def one(k):
        lab, ok, bad = pairs[k]
        a = None
        if ok:
            a = every if every.returncode == 0 else clang(std, d, pch, 'namespace vt {\n' + ok + '\n}\n', f'{prop}-{k}-ok')
        b = clang(std, d, pch, 'namespace vt {\n' + bad + '\n}\n', f'{prop}-{k}-bad') if bad else None
        return lab, a, b
    with ThreadPoolExecutor(6) as ex:
        res = list(ex.map(one, range(len(pairs))))
    groups = {}
    for (lab, a, b), (_, ok, bad) in zip(res, pairs):
        g = groups.setdefault(lab.split(':')[0], [0, 0])
        g[0] += 1
        out['inst'] += 1
        out['oblig'] += (a is not None) + (b is not None)
        v = None
        if a is not None and a.returncode:
            v = f"[type] {lab}: a valid program is rejected\n    {headline(a.stderr)}\n    program: {ok}"
        elif b is not None and b.returncode == 0:
            v = f"[type] {lab}: accepted by the compiler although it must be rejected\n    program: {bad}"
        if v:
            g[1] += 1
            out['viol'].append((lab.split(':')[0], 'type', v))
        else:
            out['proved'] += 1
    for g, (k, b) in groups.items():
        out['scen'].append({'name': g, 'instances': k, 'proved': k - b, 'bounded': 0, 'undecided': 0, 'violated': b})
    out['samples'] += [p[0] for p in pairs[:4]]


# ---------------------------------------------------------------- C15 result types

KINDS = [  # name, type, static size, static capacity
    ('Array3', 'Array<P, 3>', 3, 3), ('Array5', 'Array<P, 5>', 5, 5), ('ArrVec4', 'ArrVec<P, 4>', None, 4), ('ArrVec2', 'ArrVec<P, 2>', None, 2),
    ('Vector', 'Vector<P>', None, None), ('ArrayView3', 'ArrayView<P, 3>', 3, 3), ('ArrVecView4', 'ArrVecView<P, 4>', None, 4), ('VectorView', 'VectorView<P>', None, None),
    ('Vcb3', 'Vcb<P, 3>', 3, 3), ('Vcq3', 'Vcq<P, 3>', None, 3), ('std_array3', 'std::array<P, 3>', 3, 3), ('std_vector', 'std::vector<P>', None, None)]


def shape(r, e, size, cap):
    if size is not None:
        return f'is_array<{r}, {e}, {size}>::value'
    if cap is not None:
        return f'is_arrvec<{r}, {e}, {cap}>::value'
    return f'is_vector<{r}, {e}>::value'


def vshape(r, e, size, cap):
    if size is not None:
        return f'is_aview<{r}, {e}, {size}>::value'
    if cap is not None:
        return f'is_avview<{r}, {e}, {cap}>::value'
    return f'is_vview<{r}, {e}>::value'


def fold(xs, f):
    return None if any(x is None for x in xs) else f(xs)


def mul(xs):
    r = 1
    for x in xs:
        r *= x
    return r


def c15(tu, tier):
    big = KINDS if tier == 'thorough' else KINDS
    for k in KINDS:
        a = f'mk<const {k[1]}&>()'
        n, s, c = k[0], k[2], k[3]
        tu.check(f'map: map over {n}', shape(f'decltype(map(mk<F1>(), {a}))', 'Q', s, c))
        tu.check(f'map_with_index: map_with_index over {n}', shape(f'decltype(map_with_index(mk<FI>(), {a}))', 'Q', s, c))
        tu.check(f'filter: filter over {n}', shape(f'decltype(filter(mk<FB>(), {a}))', 'P', None, c))
        tu.check(f'indices: elem_indices of {n}', shape(f'decltype(elem_indices(mk<P>(), {a}))', 'size_t', None, c))
        tu.check(f'indices: find_indices of {n}', shape(f'decltype(find_indices(mk<FB>(), {a}))', 'size_t', None, c))
        tu.check(f'append: append of {n} alone', shape(f'decltype(append({a}))', 'P', s, c))
        tu.check(f'cartesian_map: cartesian_map over {n}', shape(f'decltype(cartesian_map(mk<F1>(), {a}))', 'Q', s, c))
        tu.check(f'fold: foldl and foldr give the accumulator type', f'std::is_same<decltype(foldl(mk<Q (*)(const Q&, const P&)>(), mk<Q>(), {a})), Q>::value && '
                 f'std::is_same<decltype(foldr(mk<Q (*)(const P&, const Q&)>(), mk<Q>(), {a})), Q>::value')
        tu.check(f'element: Element, CtSize, CtCapacity of {n}', f'std::is_same<Element<{k[1]}>, P>::value && CtSize<{k[1]}>::value == {"dyn" if s is None else s} && '
                 f'CtCapacity<{k[1]}>::value == {"dyn" if c is None else c}')
        tu.check(f'element: traits see through const and reference of {n}', f'std::is_same<Element<const {k[1]}&>, P>::value && CtSize<const {k[1]}&>::value == CtSize<{k[1]}>::value && '
                 f'CtCapacity<{k[1]}&&>::value == CtCapacity<{k[1]}>::value')
        for q, arg in (('const', f'mk<const {k[1]}&>()'), ('mutable', f'mk<{k[1]}&>()')):
            tu.check(f'views: tail of {q} {n}', vshape(f'decltype(tail({arg}))', 'P', None if s is None else s - 1, None if c is None else c - 1))
            tu.check(f'views: init of {q} {n}', vshape(f'decltype(init({arg}))', 'P', None if s is None else s - 1, None if c is None else c - 1))
            for m in (1, 2, 7):
                tu.check(f'views: take Size<{m}> of {q} {n}', vshape(f'decltype(take(mk<Size<{m}>>(), {arg}))', 'P', None if s is None else min(s, m), min(m, c) if c is not None else m))
                tu.check(f'views: drop Size<{m}> of {q} {n}', vshape(f'decltype(drop(mk<Size<{m}>>(), {arg}))', 'P', None if s is None else max(s - m, 0), None if c is None else max(c - m, 0)))
            for fn in ('take', 'drop'):
                tu.check(f'views: {fn} n of {q} {n}', vshape(f'decltype({fn}(mk<size_t>(), {arg}))', 'P', None, c))
            tu.check(f'views: slice of {q} {n}', vshape(f'decltype(slice(mk<size_t>(), mk<size_t>(), {arg}))', 'P', None, c))
        for fn in ('take_while', 'drop_while'):
            tu.check(f'views: {fn} of {n}', vshape(f'decltype({fn}(mk<FB>(), {a}))', 'P', None, c))
    for k, l in itertools.product(big, big):
        a, b = f'mk<const {k[1]}&>()', f'mk<const {l[1]}&>()'
        n = f'{k[0]} and {l[0]}'
        ss, cc = [k[2], l[2]], [k[3], l[3]]
        # the shorter argument bounds the result as soon as every argument is bounded
        tu.check(f'map: map over {n}', shape(f'decltype(map(mk<F2>(), {a}, {b}))', 'Q', fold(ss, min), fold(cc, min)))
        tu.check(f'map_with_index: map_with_index over {n}', shape(f'decltype(map_with_index(mk<FI2>(), {a}, {b}))', 'Q', fold(ss, min), fold(cc, min)))
        tu.check(f'append: append of {n}', shape(f'decltype(append({a}, {b}))', 'P', fold(ss, sum), fold(cc, sum)))
        tu.check(f'cartesian_map: cartesian_map over {n}', shape(f'decltype(cartesian_map(mk<F2>(), {a}, {b}))', 'Q', fold(ss, mul), fold(cc, mul)))
    three = [KINDS[0], KINDS[2], KINDS[4], KINDS[5]]
    for k, l, m in itertools.product(three, three, three):
        args = ', '.join(f'mk<const {x[1]}&>()' for x in (k, l, m))
        n = f'{k[0]}, {l[0]} and {m[0]}'
        ss, cc = [k[2], l[2], m[2]], [k[3], l[3], m[3]]
        tu.check(f'map: map over {n}', shape(f'decltype(map(mk<F3>(), {args}))', 'Q', fold(ss, min), fold(cc, min)))
        tu.check(f'append: append of {n}', shape(f'decltype(append({args}))', 'P', fold(ss, sum), fold(cc, sum)))
        tu.check(f'cartesian_map: cartesian_map over {n}', shape(f'decltype(cartesian_map(mk<F3>(), {args}))', 'Q', fold(ss, mul), fold(cc, mul)))
    inner = [('Array<P, 3>', 3, 3), ('ArrVec<P, 4>', None, 4), ('Vector<P>', None, None)]
    for (it, isz, ic) in inner:
        for (ot, os_, oc) in ((f'Array<{it}, 2>', 2, 2), (f'ArrVec<{it}, 5>', None, 5), (f'Vector<{it}>', None, None)):
            a = f'mk<const {ot}&>()'
            tu.check(f'concat: concat of {ot}', shape(f'decltype(concat({a}))', 'P', fold([isz, os_], mul), fold([ic, oc], mul)))
            for (dt, ds, dc) in inner:
                tu.check(f'intercalate: intercalate {dt} into {ot}',
                         shape(f'decltype(intercalate(mk<const {dt}&>(), {a}))', 'P', fold([isz, os_, ds], lambda x: x[1] * x[0] + (x[1] - 1) * x[2]),
                               fold([ic, oc, dc], lambda x: x[1] * x[0] + (x[1] - 1) * x[2])))
    for m in (0, 1, 5):
        if m:
            tu.check(f'from_function: from_function Size<{m}>', shape(f'decltype(from_function(mk<Size<{m}>>(), mk<FN>()))', 'Q', m, m))
    tu.check('from_function: from_function n', shape('decltype(from_function(mk<size_t>(), mk<FN>()))', 'Q', None, None))
    # element types of mixed arguments
    tu.check('append: element type of mixed arithmetic sequences', 'std::is_same<decltype(append(mk<const Array<int, 2>&>(), mk<const Vector<double>&>())), Vector<double>>::value')
    # sizes beyond 32 bits
    tu.check('sizes: sums of sizes are computed in size_t', '_sum({3000000000ul, 3000000000ul}) == 6000000000ul')
    tu.check('sizes: products of sizes are computed in size_t', '_product({3000000000ul, 2ul}) == 6000000000ul')
    tu.check('sizes: minimum of sizes', '_minimum({5ul, 3000000000ul, 4ul}) == 4ul && _minimum({3000000000ul}) == 3000000000ul')
    tu.check('sizes: maximum of sizes', '_maximum({5ul, 3000000000ul, 4ul}) == 3000000000ul && _maximum({1ul}) == 1ul')


# ---------------------------------------------------------------- C20 read-only access

def c20(tu, tier):
    for n, t, s, c in KINDS:
        for v, q in ((f'mk<const {t}&>()', 'a const'),) + (((f'mk<{t}&>()', 'a'),) if 'View' in n else ()):
            tu.check(f'{n}: element of {q} {n}', f'read_only_ref<decltype({v}[size_t(0)])>::value')
            tu.check(f'{n}: data() of {q} {n}', f'read_only_ptr<decltype({v}.data())>::value')
            if not n.startswith('std_vec') and not n.startswith('std_arr'):
                tu.check(f'{n}: begin() and end() of {q} {n}', f'read_only_ptr<decltype({v}.begin())>::value && read_only_ptr<decltype({v}.end())>::value')
            tu.check(f'{n}: nth of {q} {n}', f'read_only_ref<decltype(nth(size_t(0), {v}))>::value')
            tu.check(f'{n}: data of {q} {n}', f'read_only_ptr<decltype(data({v}))>::value')
            tu.check(f'{n}: head and last of {q} {n}', f'read_only_ref<decltype(head({v}))>::value && read_only_ref<decltype(last({v}))>::value')
            for fn in ('tail({})', 'init({})', 'take(size_t(1), {})', 'drop(size_t(1), {})', 'slice(size_t(0), size_t(1), {})', 'take(mk<Size<1>>(), {})', 'drop(mk<Size<1>>(), {})',
                       'take_while(mk<FB>(), {})', 'drop_while(mk<FB>(), {})'):
                e = fn.format(v)
                tu.check(f'{n}: elements of {fn.format(q + " " + n)}', f'read_only_ref<decltype({e}[size_t(0)])>::value && read_only_ptr<decltype({e}.data())>::value && '
                         f'read_only_ptr<decltype({e}.begin())>::value && read_only_ref<decltype(nth(size_t(0), mk<decltype({e})&>()))>::value')
    for t in ('Array<P, 3>', 'ArrVec<P, 4>', 'Vector<P>', 'Vcb<P, 3>', 'Vcq<P, 3>'):
        tu.check(f'writable: a mutable {t} stays writable', f'std::is_same<decltype(mk<{t}&>()[size_t(0)]), P&>::value && std::is_same<decltype(mk<{t}&>().data()), P*>::value && '
                 f'std::is_same<decltype(nth(size_t(0), mk<{t}&>())), P&>::value')
    for t in ('String', 'BasicString<wchar_t>'):
        ch = 'char' if t == 'String' else 'wchar_t'
        v = f'mk<const {t}&>()'
        tu.check(f'string: characters of a const {t}', f'!std::is_assignable<decltype({v}[size_t(0)]), {ch}>::value && !std::is_assignable<decltype({v}.at(0)), {ch}>::value && '
                 f'!std::is_convertible<decltype({v}.data()), {ch}*>::value && !std::is_convertible<decltype({v}.c_str()), {ch}*>::value && '
                 f'!std::is_convertible<decltype({v}.begin()), {ch}*>::value')
        tu.check(f'string: characters of a const {t} (front, back)', f'!std::is_assignable<decltype({v}.front()), {ch}>::value && !std::is_assignable<decltype({v}.back()), {ch}>::value')
    for t, ch in (('StringView', 'char'), ('BasicStringView<wchar_t>', 'wchar_t')):
        for v in (f'mk<const {t}&>()', f'mk<{t}&>()'):
            tu.check(f'string: characters of {t}', f'!std::is_assignable<decltype({v}[size_t(0)]), {ch}>::value && !std::is_convertible<decltype({v}.data()), {ch}*>::value && '
                     f'!std::is_convertible<decltype({v}.begin()), {ch}*>::value')
    for e in ('Enum<P, Q>', 'Maybe<P>'):
        tu.check(f'enum: get of a const {e}', f'!std::is_assignable<decltype(mk<const {e}&>().template get<P>()), P>::value')
        i = 0 if e[0] == 'E' else 1
        tu.check(f'enum: get by index of a const {e}', f'!std::is_assignable<decltype(mk<const {e}&>().template get<{i}>()), P>::value')
        tu.check(f'enum: move of a const {e}', f'!std::is_assignable<decltype(mk<const {e}&>().{'template move<P>' if i == 0 else 'move'}()), P>::value')
    # owning things that must not be copied
    tu.check('unique: File can be moved and not copied', '!std::is_copy_constructible<File>::value && !std::is_copy_assignable<File>::value && '
             'std::is_move_constructible<File>::value && std::is_move_assignable<File>::value')
    tu.check('unique: BlockingQ can not be copied', '!std::is_copy_constructible<BlockingQ<P, 3>>::value && !std::is_copy_assignable<BlockingQ<P, 3>>::value')
    tu.check('unique: NonBlockingQ can not be copied', '!std::is_copy_constructible<NonBlockingQ<P, 3>>::value && !std::is_copy_assignable<NonBlockingQ<P, 3>>::value')
    tu.check('unique: DoubleBuffer can not be copied', '!std::is_copy_constructible<DoubleBuffer<P, 3>>::value && !std::is_copy_assignable<DoubleBuffer<P, 3>>::value')


def c20_pairs(tier):
    out = []
    for t in ('Array<P, 3>', 'ArrVec<P, 4>', 'Vector<P>', 'ArrayView<P, 3>', 'VectorView<P>', 'Vcb<P, 3>', 'Vcq<P, 3>'):
        for fn, ok, bad in (('for_each', 'const P&', 'P&'), ('for_each_with_index', 'const P&', 'P&')):
            ix = 'size_t, ' if 'index' in fn else ''
            out.append((f'callbacks: {fn} over {t} hands out read-only elements', f'struct G {{ void operator()({ix}{ok}) const; }}; void t({t}& v) {{ {fn}(G {{}}, v); }}',
                        f'struct G {{ void operator()({ix}{bad}) const; }}; void t({t}& v) {{ {fn}(G {{}}, v); }}'))
        out.append((f'callbacks: map over {t} hands out read-only elements', f'struct G {{ Q operator()(const P&) const; }}; void t({t}& v) {{ map(G {{}}, v); }}',
                    f'struct G {{ Q operator()(P&) const; }}; void t({t}& v) {{ map(G {{}}, v); }}'))
        out.append((f'callbacks: filter over {t} hands out read-only elements', f'struct G {{ bool operator()(const P&) const; }}; void t({t}& v) {{ filter(G {{}}, v); }}',
                    f'struct G {{ bool operator()(P&) const; }}; void t({t}& v) {{ filter(G {{}}, v); }}'))
        out.append((f'callbacks: foldl over {t} hands out read-only elements', f'struct G {{ Q operator()(const Q&, const P&) const; }}; void t({t}& v) {{ foldl(G {{}}, Q(), v); }}',
                    f'struct G {{ Q operator()(const Q&, P&) const; }}; void t({t}& v) {{ foldl(G {{}}, Q(), v); }}'))
    for t in ('ArrayView<P, 3>', 'ArrVecView<P, 4>', 'VectorView<P>'):
        out.append((f'callbacks: for_each_mut cannot write through {t}', f'struct G {{ void operator()(P&) const; }}; void t(Vector<P>& v) {{ for_each_mut(G {{}}, v); }}',
                    f'struct G {{ void operator()(P&) const; }}; void t({t}& v) {{ for_each_mut(G {{}}, v); }}'))
    for t in ('Array<P, 3>', 'ArrVec<P, 4>', 'Vector<P>', 'Vcb<P, 3>', 'Vcq<P, 3>'):
        out.append((f'callbacks: for_each_mut cannot write to a const {t}', f'struct G {{ void operator()(P&) const; }}; void t({t}& v) {{ for_each_mut(G {{}}, v); }}',
                    f'struct G {{ void operator()(P&) const; }}; void t(const {t}& v) {{ for_each_mut(G {{}}, v); }}'))
    return out


# ---------------------------------------------------------------- C13 exhaustive matching

def alts(n):
    return ''.join(f'struct A{i} {{ int v; bool operator==(const A{i}&) const; }}; ' for i in range(n))


def branch(i):
    return f'[](const A{i}&) {{ return {i}; }}'


def c13(tier):
    out = []
    for n in (2, 3, 4, 5) if tier == 'quick' else (2, 3, 4, 5, 8, 9, 17):
        e = f'Enum<{", ".join(f"A{i}" for i in range(n))}>'
        full = ', '.join(branch(i) for i in range(n))
        for miss in (range(n) if n <= 5 else (0, n // 2, n - 1)):
            part = ', '.join(branch(i) for i in range(n) if i != miss)
            out.append((f'exhaustive: match on {n} alternatives without a branch for alternative {miss}',
                        alts(n) + f'int t(const {e}& e) {{ return e.match({full}); }}', alts(n) + f'int t(const {e}& e) {{ return e.match({part}); }}'))
            vf = ', '.join(f'[](const A{i}&) {{}}' for i in range(n))
            vp = ', '.join(f'[](const A{i}&) {{}}' for i in range(n) if i != miss)
            out.append((f'exhaustive: match without result on {n} alternatives without a branch for alternative {miss}',
                        alts(n) + f'void t(const {e}& e) {{ e.match({vf}); }}', alts(n) + f'void t(const {e}& e) {{ e.match({vp}); }}'))
            out.append((f'wildcard: match on {n} alternatives with a wild card for alternative {miss}',
                        alts(n) + f'int t(const {e}& e) {{ return e.match({part}, [] {{ return -1; }}); }}', None))
        out.append((f'order: wild card before another branch, {n} alternatives', alts(n) + f'int t(const {e}& e) {{ return e.match({branch(0)}, [] {{ return -1; }}); }}',
                    alts(n) + f'int t(const {e}& e) {{ return e.match([] {{ return -1; }}, {full}); }}'))
        out.append((f'irrelevant: branch for a type that is no alternative, {n} alternatives', alts(n + 1) + f'int t(const {e}& e) {{ return e.match({full}); }}',
                    alts(n + 1) + f'int t(const {e}& e) {{ return e.match({full}, {branch(n)}); }}'))
        out.append((f'get: get of a type that is no alternative, {n} alternatives', alts(n + 1) + f'const A0& t(const {e}& e) {{ return e.template get<A{n - 1}>(), e.template get<A0>(); }}',
                    alts(n + 1) + f'const A{n}& t(const {e}& e) {{ return e.template get<A{n}>(); }}'))
        out.append((f'get: move of a type that is no alternative, {n} alternatives', alts(n + 1) + f'A0 t({e}& e) {{ return e.template move<A0>(); }}',
                    alts(n + 1) + f'A{n} t({e}& e) {{ return e.template move<A{n}>(); }}'))
        out.append((f'construct: Enum of {n} alternatives from another type', alts(n + 1) + f'{e} t(const A{n - 1}& a) {{ return a; }}',
                    alts(n + 1) + f'{e} t(const A{n}& a) {{ return a; }}'))
    m = 'struct A0 {}; struct A1 {}; '
    out.append(('exhaustive: match on a Maybe without a branch for nothing', m + 'int t(const Maybe<A0>& e) { return e.match([](const A0&) { return 1; }, [](const Nothing&) { return 0; }); }',
                m + 'int t(const Maybe<A0>& e) { return e.match([](const A0&) { return 1; }); }'))
    out.append(('exhaustive: match on a Maybe without a branch for the value', m + 'int t(const Maybe<A0>& e) { return e.match([](const A0&) { return 1; }, [] { return 0; }); }',
                m + 'int t(const Maybe<A0>& e) { return e.match([](const Nothing&) { return 1; }); }'))
    out.append(('construct: Maybe from an unrelated type', m + 'Maybe<A0> t(const A0& a) { return a; }', m + 'Maybe<A0> t(const A1& a) { return a; }'))
    out.append(('narrowing: an Enum of arithmetic types is not made from another arithmetic type', 'Enum<int, double> t(int x) { return x; }', 'Enum<int, double> t(long x) { return x; }'))
    out.append(('narrowing: a Maybe<int> is not made from a double', 'Maybe<int> t(int x) { return x; }', 'Maybe<int> t(double x) { return x; }'))
    return out


# ---------------------------------------------------------------- C30 storage layout

def c30(tu, tier):
    for a in (1, 2, 4, 8, 16, 32, 64):
        t = f'Al{a}'
        tu.decl(f'struct alignas({a}) {t} {{ unsigned char b[{a}]; bool operator==(const {t}&) const; }};')
        for n in (1, 3, 4):
            for c in (f'Array<{t}, {n}>', f'ArrVec<{t}, {n}>', f'Vcb<{t}, {n}>', f'Vcq<{t}, {n}>'):
                k = 2 * n if c[:3] == 'Vcb' else n
                tu.check(f'align: {c} is aligned for its elements', f'alignof({c}) >= {a}')
                tu.check(f'size: {c} has room for its elements', f'sizeof({c}) >= {a} * {k}')
        for c in (f'Enum<char, {t}>', f'Enum<{t}, char>', f'Maybe<{t}>', f'Enum<char, {t}, long>'):
            tu.check(f'align: {c} is aligned for its alternatives', f'alignof({c}) >= {a}')
            tu.check(f'size: {c} has room for each alternative and its tag', f'sizeof({c}) > {a}')
    tu.decl('struct Big1 { unsigned char b[100]; bool operator==(const Big1&) const; }; struct Big2 { unsigned char b[1]; bool operator==(const Big2&) const; };')
    for c in ('Enum<Big1, Big2>', 'Enum<Big2, Big1>', 'Enum<char, Big1, int>', 'Enum<char, int, Big1>', 'Maybe<Big1>'):
        tu.check(f'size: {c} has room for its largest alternative and its tag', f'sizeof({c}) > 100')


# ---------------------------------------------------------------- C33 compile-time values and traits

def c33(tu, tier):
    for a in (-3, 0, 2, 5, 7):
        for b in (-2, 1, 2, 7):
            for op, w in (('+', a + b), ('-', a - b), ('*', a * b), ('/', int(a / b))):
                tu.check(f'arithmetic of constants: {a} {op} {b}', f'std::is_same<decltype(CtConst<int, {a}> {{}} {op} CtConst<int, {b}> {{}}), CtConst<int, ({w})>>::value')
            for op, w in (('==', a == b), ('!=', a != b)):
                tu.check(f'comparison of constants: {a} {op} {b}', f'std::is_same<decltype(CtConst<int, {a}> {{}} {op} CtConst<int, {b}> {{}}), CtConst<bool, {str(w).lower()}>>::value')
    for a, b in ((5, 3), (3, 5), (4, 4), (0, 2)):
        tu.check(f'arithmetic of sizes: {a} + {b}', f'std::is_same<decltype(Size<{a}> {{}} + Size<{b}> {{}}), Size<{a + b}>>::value')
        tu.check(f'arithmetic of sizes: {a} * {b}', f'std::is_same<decltype(Size<{a}> {{}} * Size<{b}> {{}}), Size<{a * b}>>::value')
    tu.check('names of constants: Bool, True, False', 'True::value && !False::value && Bool<true>::value && !Bool<false>::value && Int<3>::value == 3 && Size<9>::value == 9')
    tu.check('names of constants: Int is int, Size is size_t', 'std::is_same<Int<3>::value_type, int>::value && std::is_same<Size<3>::value_type, size_t>::value')
    tu.check('names of constants: Negation', 'Negation<False>::value && !Negation<True>::value')
    for t, w in (('Size<3>', 1), ('Int<1>', 1), ('True', 1), ('Size<3>&', 1), ('Size<3>&&', 1), ('int', 0), ('size_t', 0), ('P', 0), ('int&', 0)):
        tu.check(f'IsCtConst: {t}', f'IsCtConst<{t}>::value == {str(bool(w)).lower()}')
    for n in (1, 2, 3):
        for bits in itertools.product((0, 1), repeat=n):
            l = ', '.join('True' if b else 'False' for b in bits)
            tu.check(f'All: {l}', f'All<{l}>::value == {str(all(bits)).lower()}')
            tu.check(f'Any: {l}', f'Any<{l}>::value == {str(any(bits)).lower()}')
    for xs in itertools.product((1, 4, 9), repeat=3):
        l = ', '.join(f'Size<{x}>' for x in xs)
        tu.check(f'Minimum: {l}', f'Mininum<{l}>::value == {min(xs)}')
        tu.check(f'Maximum: {l}', f'Maximum<{l}>::value == {max(xs)}')
    for xs in itertools.product((-5, -1, 3), repeat=2):
        l = ', '.join(f'CtConst<int, {x}>' for x in xs)
        tu.check(f'Minimum: {l}', f'Mininum<{l}>::value == {min(xs)}')
        tu.check(f'Maximum: {l}', f'Maximum<{l}>::value == {max(xs)}')
        d = ', '.join(f'{x}.5' for x in xs)
        tu.check(f'folds: minimum of {d}', f'_minimum({{{d}}}) == {min(float(f"{x}.5") for x in xs)}')
        tu.check(f'folds: maximum of {d}', f'_maximum({{{d}}}) == {max(float(f"{x}.5") for x in xs)}')
    for xs in ((1,), (2, 3), (4, 0, 7), (5, 6, 7, 8)):
        l = ', '.join(f'size_t({x})' for x in xs)
        pr = 1
        for x in xs:
            pr *= x
        tu.check(f'folds: sum of {xs}', f'_sum({{{l}}}) == {sum(xs)}')
        tu.check(f'folds: product of {xs}', f'_product({{{l}}}) == {pr}')
    ts = ['int', 'P', 'double', 'Q', 'char']
    for n in (1, 2, 3, 5):
        for i in range(n):
            l = ', '.join(ts[:n])
            tu.check(f'PackAt: {i} of {l}', f'std::is_same<PackAt<{i}, {l}>, {ts[i]}>::value')
            tu.check(f'TupleAt: {i} of {l}', f'std::is_same<TupleAt<{i}, Tuple<{l}>>, {ts[i]}>::value')
    for i in range(4):
        l = ', '.join(['P', 'Q', 'P', 'Q'][:i] + ['int'] + ['P', 'int', 'double'])
        tu.check(f'Find: first integral of {l}', f'Find<std::is_integral, {l}>::value == {i}')
    tu.decl('int f2(int, double); struct M2 { long operator()(const P&, int) const; }; struct M2n { void operator()(P&, char&&); }; struct D0 { D0() = delete; };')
    tu.check('Arguments: of a function pointer', 'std::is_same<Arguments<decltype(&f2)>, Tuple<int, double>>::value')
    tu.check('Arguments: of a const callable', 'std::is_same<Arguments<M2>, Tuple<const P&, int>>::value')
    tu.check('Arguments: of a callable', 'std::is_same<Arguments<M2n>, Tuple<P&, char&&>>::value')
    tu.check('InvokeResult: of a callable', 'std::is_same<InvokeResult<M2, const P&, int>, long>::value && std::is_same<InvokeResult<int (*)(int, double), int, double>, int>::value')
    for e, w in (('IsInvocable<M2, const P&, int>', 1), ('IsInvocable<M2, P, short>', 1), ('IsInvocable<M2, int, int>', 0), ('IsInvocable<M2, P>', 0), ('IsInvocable<M2>', 0), ('IsInvocable<M2, P, int, int>', 0),
                 ('IsInvocable<M2n, P&, char>', 1), ('IsInvocable<M2n, const P&, char>', 0), ('IsInvocable<int, int>', 0),
                 ('IsInvocableR<long, M2, P, int>', 1), ('IsInvocableR<double, M2, P, int>', 1), ('IsInvocableR<P, M2, P, int>', 0), ('IsInvocableR<long, M2, P>', 0),
                 ('HasCallOperator<M2>', 1), ('HasCallOperator<int>', 0), ('HasCallOperator<P>', 0),
                 ('IsFunction<int(int)>', 1), ('IsFunction<int (*)(int)>', 0), ('IsFunction<M2>', 0),
                 ('IsDefaultConstructible<P>', 1), ('IsDefaultConstructible<D0>', 0), ('IsConstructible<P, const P&>', 1), ('IsConstructible<P, int>', 0),
                 ('IsSame<P, P>', 1), ('IsSame<P, Q>', 0), ('IsLvalueReference<P&>', 1), ('IsLvalueReference<P&&>', 0), ('IsLvalueReference<P>', 0), ('IsConst<const P>', 1), ('IsConst<P>', 0), ('AlwaysFalse<P>', 0)):
        tu.check(f'{e.split("<")[0]}: {e}', f'{e}::value == {str(bool(w)).lower()}')
    for a, b in (('ReferenceRemoved<P&>', 'P'), ('ReferenceRemoved<P&&>', 'P'), ('ReferenceRemoved<const P&>', 'const P'), ('ConstRemoved<const P>', 'P'), ('CVRemoved<const volatile P>', 'P'),
                 ('CVRefRemoved<const volatile P&>', 'P'), ('CVRefRemoved<const P&&>', 'P'), ('PointerRemoved<P*>', 'P'), ('Decay<const P&>', 'P'), ('Decay<P[3]>', 'P*'),
                 ('Conditional<true, P, Q>', 'P'), ('Conditional<false, P, Q>', 'Q'), ('EnableIf<true, P>', 'P'), ('Void<P, Q>', 'void'), ('LvalueRefAdded<P>', 'P&'), ('RvalueRefAdded<P>', 'P&&'), ('Common<int, double>', 'double'),
                 ('FuncToFuncPtr<int(char)>', 'int (*)(char)'), ('FuncToFuncPtr<P>', 'P'), ('FuncToFuncPtr<int (M2::*)(char) const>', 'int (M2::*)(char) const'), ('Prepend<P, TypeList<Q, int>>', 'TypeList<P, Q, int>'),
                 ('Prepend<P, TypeList<>>', 'TypeList<P>'), ('MakeIndexSequence<4>', 'IndexSequence<0, 1, 2, 3>'), ('MakeIndexSequence<0>', 'IndexSequence<>'), ('IndexSequenceFor<P, Q, P>', 'IndexSequence<0, 1, 2>'),
                 ('decltype(efp::move(declval<P&>()))', 'P&&'), ('decltype(efp::move(declval<const P&>()))', 'const P&&'), ('decltype(efp::move(declval<P>()))', 'P&&'),
                 ('decltype(efp::forward<P&>(declval<P&>()))', 'P&'), ('decltype(efp::forward<P>(declval<P&>()))', 'P&&'), ('decltype(efp::forward<const P&>(declval<const P&>()))', 'const P&'), ('decltype(efp::forward<P>(declval<P>()))', 'P&&')):
        tu.check(f'type functions: {a} is {b}', f'std::is_same<{a}, {b}>::value')


def run_module(prop, std, tier, tmp, out):
    if prop == 'C15':
        tu = TU()
        c15(tu, tier)
        run_asserts(prop, tu, std, tmp, out, "the result type is not the one the rule demands")
    elif prop == 'C20':
        tu = TU()
        c20(tu, tier)
        run_asserts(prop, tu, std, tmp, out, "write access is granted (or read access lost)")
        run_pairs(prop, c20_pairs(tier), std, tmp, out)
    elif prop == 'C13':
        run_pairs(prop, c13(tier), std, tmp, out)
    elif prop == 'C30':
        tu = TU()
        c30(tu, tier)
        run_asserts(prop, tu, std, tmp, out, "the storage does not fit")
    elif prop == 'C33':
        tu = TU()
        c33(tu, tier)
        run_asserts(prop, tu, std, tmp, out, "the value or type is another one")
