"""What operations ask of the element type.  One translation unit per kind of element; each operation is one function on
one line.  The elements are declared, never defined, and every constructor or operator an operation has no business using
is deleted: a program that uses it is rejected by the compiler, which decides each obligation.  Nothing is executed."""
import os
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor
import spec

# one job per compiler and standard; g++ is the project's own compiler and differs from clang in list initialisation
STDS = {'quick': ['c++11', 'c++17'], 'thorough': ['c++11', 'c++14', 'c++17', 'c++20']}

EQ = ' bool operator==(const E&) const; bool operator!=(const E&) const; int k; };'
VAL = 'E(const E&); E(E&&) noexcept; E& operator=(const E&); E& operator=(E&&) noexcept; ~E();'
KINDS = {
    'move-only, no default constructor': ('move nodef', 'struct E { explicit E(int); E(E&&) noexcept; E& operator=(E&&) noexcept; E(const E&) = delete; E& operator=(const E&) = delete; ~E();' + EQ),
    'move-only, no comparison': ('move noeq', 'struct E { E(); explicit E(int); E(E&&) noexcept; E& operator=(E&&) noexcept; E(const E&) = delete; E& operator=(const E&) = delete; ~E(); int k; };'),
    'no default constructor': ('nodef', 'struct E { explicit E(int); ' + VAL + EQ),
    'no comparison': ('noeq', 'struct E { E(); explicit E(int); ' + VAL + ' int k; };'),
    'no assignment': ('noassign', 'struct E { E(); explicit E(int); E(const E&); E(E&&) noexcept; E& operator=(const E&) = delete; ~E();' + EQ),
    'constructible from a list': ('', 'struct X; struct E { E(); explicit E(int); ' + VAL + ' E(std::initializer_list<X>) = delete;' + EQ + ' struct X { X(const E&); };'),
    'constructible from anything': ('', 'struct E { E(); explicit E(int); ' + VAL + ' template<typename T> explicit E(T&&) = delete;' + EQ),
    'overloaded & and comma': ('', 'struct E { E(); explicit E(int); ' + VAL + ' void operator&() const = delete; template<typename T> void operator,(T&&) const = delete;' + EQ + ' template<typename T> void operator,(T&&, const E&) = delete;'),
}


def ops():
    """name -> (container type, statement, what it needs of the element)"""
    o = {}

    def add(n, t, d):
        for k, (need, v) in d.items():
            o[f'{n}.{k}'] = (t, v.replace('{T}', t), set(need.split()))
    for n, t in (('Array', 'Array<E, 2>'), ('ArrVec', 'ArrVec<E, 3>'), ('Vector', 'Vector<E>'), ('Vcb', 'Vcb<E, 2>'), ('Vcq', 'Vcq<E, 2>')):
        vec = n in ('ArrVec', 'Vector')
        ring = n in ('Vcb', 'Vcq')
        add(n, t, {
            'default': ('' if n in ('ArrVec', 'Vector', 'Vcq') else 'def', '{T} x;'),
            'copy': ('copy', '{T} x(c);'), 'move': ('', '{T} x(efp::move(m));'),
            'copy-assign': ('copy assign', 'm = c;'), 'move-assign': ('assign', 'm = efp::move(n);'),
            'read': ('', '(void)c[0].k; for (const auto& e : c) (void)e.k; (void)c.size(); (void)c.empty(); (void)c.data(); (void)length(c); (void)nth(0, c).k; (void)is_null(c);'),
            'write': ('', 'nth(0, m).k = 1; for (auto& e : m) e.k = 2; m[0].k = 1;')})
        if not ring:
            add(n, t, {'equal': ('eq', '(void)(c == c);'), 'list': ('copy', '{T} x {E(1), E(2)};')})
        if vec:
            add(n, t, {'push_back': ('copy', 'm.push_back(a);'), 'push_back&&': ('', 'm.push_back(efp::move(b));'), 'insert': ('copy assign', 'm.insert(0, a);'), 'erase': ('assign', 'm.erase(0);'),
                       'pop_back': ('', 'm.pop_back();'), 'clear': ('', 'm.clear();'), 'resize': ('def', 'm.resize(1);'), 'reserve': ('', 'm.reserve(1);')})
        if n == 'Vector':
            add(n, t, {'emplace': ('', 'm.emplace_back(1);'), 'emplace copy': ('copy', 'm.emplace_back(a);'), 'emplace move': ('', 'm.emplace_back(efp::move(b));'), 'shrink': ('', 'm.shrink_to_fit();'),
                       'from Array': ('copy', '{T} x(ar);'), 'from ArrVec': ('copy', '{T} x(av);')})
        if n == 'ArrVec':
            add(n, t, {'convert': ('copy', 'ArrVec<E, 5> x(c);')})
        if ring:
            add(n, t, {'push_back': ('copy', 'm.push_back(a);'), 'push_back&&': ('copy', 'm.push_back(efp::move(b));')})
        if n == 'Vcq':
            add(n, t, {'pop_front': ('', 'E x = m.pop_front();')})
        P = '[](const E& e) { return e.k == 1; }'
        add(n, t, {
            'map': ('', 'auto x = map([](const E& e) { return e.k; }, c); (void)x;'), 'map to E': ('def assign', 'auto x = map([](const E& e) { return E(e.k); }, c); (void)x;'),
            'for_each': ('', 'for_each([](const E& e) { (void)e.k; }, c);'), 'for_each 2': ('', 'for_each([](const E& e, const E& g) { (void)(e.k + g.k); }, c, av);'), 'for_each_mut': ('', 'for_each_mut([](E& e) { (void)e.k; }, m);'),
            'for_each_with_index': ('', 'for_each_with_index([](size_t, const E& e) { (void)e.k; }, c);'), 'for_each_with_index_mut': ('', 'for_each_with_index_mut([](size_t, E& e) { e.k = 1; }, m);'),
            'map_with_index': ('', 'auto x = map_with_index([](size_t, const E& e) { return e.k; }, c); (void)x;'),
            'foldl': ('', '(void)foldl([](int i, const E& e) { return i + e.k; }, 0, c);'), 'foldr': ('', '(void)foldr([](const E& e, int i) { return i + e.k; }, 0, c);'),
            'filter': ('copy', f'auto x = filter({P}, c); (void)x;'), 'find': ('', f'(void)find({P}, c);'), 'find_index': ('', f'(void)find_index({P}, c);'), 'find_indices': ('', f'(void)find_indices({P}, c);'),
            'elem': ('eq', '(void)elem(a, c);'), 'elem_index': ('eq', '(void)elem_index(a, c);'), 'elem_indices': ('eq', '(void)elem_indices(a, c);'),
            'head': ('', '(void)head(c).k;'), 'last': ('', '(void)last(c).k;'), 'tail': ('', '(void)tail(c)[0].k; tail(m);'), 'init': ('', '(void)init(c)[0].k; init(m);'),
            'take': ('', '(void)take((size_t)1, c)[0].k; take((size_t)1, m);'), 'drop': ('', '(void)drop((size_t)1, c)[0].k; drop((size_t)1, m);'), 'slice': ('', '(void)slice((size_t)0, (size_t)1, c)[0].k; slice((size_t)0, (size_t)1, m);'),
            'take_while': ('', f'(void)take_while({P}, c)[0].k;'), 'drop_while': ('', f'(void)drop_while({P}, c)[0].k;'),
            'append': ('copy def assign', 'auto x = append(c, c); (void)x;'),
            'cartesian_for_each': ('copy', 'cartesian_for_each([](const E& e, const E& g) { (void)(e.k + g.k); }, c, c);'), 'cartesian_for_each_mut': ('', 'cartesian_for_each_mut([](E& e, E& g) { (void)(e.k + g.k); }, m, n);')})
    for n, t, first in (('Enum', 'Enum<int, E>', 'int'), ('Maybe', 'Maybe<E>', 'Nothing')):
        add(n, t, {
            'default': ('', '{T} x;'), 'value': ('copy', '{T} x(a);'), 'value&&': ('', '{T} x(efp::move(b));'), 'copy': ('copy', '{T} x(c);'), 'move': ('', '{T} x(efp::move(m));'),
            'copy-assign': ('copy', 'm = c;'), 'move-assign': ('', 'm = efp::move(n);'), 'equal': ('eq', '(void)(c == c); (void)(c != c);'),
            'get': ('', '(void)c.template get<E>().k; m.template get<E>().k = 1; (void)c.template get<1>().k;'), 'index': ('', '(void)c.index();'),
            'match': ('', f'(void)c.match([](const {first}&) {{ return 0; }}, [](const E& e) {{ return e.k; }});'), 'wildcard': ('', '(void)c.match([](const E& e) { return e.k; }, []() { return 0; });')})
    add('Enum', 'Enum<int, E>', {'move out': ('', 'E x(m.template move<1>()); E y(m.template move<E>());')})
    add('Enum', 'Enum<int, E, char>', {'three alternatives': ('', '{T} x(efp::move(m)); m = efp::move(x);')})
    add('Maybe', 'Maybe<E>', {
        'held value': ('copy', '(void)c.value().k;'), 'move out': ('', 'E x(m.move());'), 'empty': ('', '(void)c.has_value(); (void)c.is_nothing(); (void)(bool)c; {T} x(nothing); m = nothing;'),
        'assign value': ('copy', 'm = a;'), 'assign value&&': ('', 'm = efp::move(b);'), 'fmap': ('copy', '(void)fmap([](const E& e) { return e.k; }, c); (void)m.fmap([](const E& e) { return e.k; });'),
        'bind': ('copy', '(void)bind(c, [](const E& e) { return Maybe<int>(e.k); }); (void)m.bind([](const E& e) { return Maybe<int>(e.k); });')})
    add('Tuple', 'Tuple<int, E>', {
        'construct': ('copy', '{T} x(1, a);'), 'make': ('copy', 'auto x = tuple(1, a); (void)x;'), 'copy': ('copy', '{T} x(c);'), 'copy-assign': ('copy assign', 'm = c;'), 'equal': ('eq', '(void)(c == c);'),
        'component': ('', '(void)p<1>(c).k; p<1>(m).k = 1; (void)snd(c).k;'), 'match': ('', '(void)c.match([](int, const E& e) { return e.k; });')})
    for n, t in (('BlockingQ', 'BlockingQ<E, 2>'), ('BlockingQ dyn', 'BlockingQ<E>'), ('NonBlockingQ', 'NonBlockingQ<E, 2>'), ('NonBlockingQ dyn', 'NonBlockingQ<E>'), ('DoubleBuffer', 'DoubleBuffer<E, 2>')):
        add(n, t, {'enqueue': ('copy', 'm.enqueue(a);'), 'dequeue': ('copy' if 'dyn' in n else '', 'auto x = m.dequeue(); (void)x;'), 'default': ('', '{T} x;')})
    add('swap', 'Unit', {'elements': ('assign', 'swap(b, b2);')})
    add('sort', 'Vector<E>', {'sort_by': ('copy assign', 'sort_by(m, [](const E& x, const E& y) { return x.k < y.k; });'), 'sort_unstable_by': ('copy assign', 'sort_unstable_by(m, [](const E& x, const E& y) { return x.k < y.k; });')})
    return o


PRE = ('#include "efp.hpp"\n#include "efp/io.hpp"\n#include "efp/concurrency.hpp"\n#include <initializer_list>\n#include <utility>\nusing namespace efp;\n')
LACK = {'move': 'copy', 'nodef': 'def', 'noeq': 'eq', 'noassign': 'assign'}


def line(i, t, b):
    return f'void f{i}(const E& a, E& b, E& b2, const {t}& c, {t}& m, {t}& n, const ArrVec<E, 3>& av, const Array<E, 2>& ar) {{ {b} }}'


def run_module(prop, std, tier, tmp, out):
    O = ops()
    comps = {'c++11': [spec.CLANG], 'c++17': ['g++']}.get(std) if tier == 'quick' else ['g++', spec.CLANG]
    inc = os.path.join(spec.REPO, 'include')

    def run(c, d, name, text):
        f = os.path.join(d, name + '.cpp')
        with open(f, 'w') as h:
            h.write(('#include "pre.hpp"\n' if c == 'g++' else '\n') + text)
        return subprocess.run([c, f'-std={std}', '-w', '-fsyntax-only', '-I', inc, f] + ([] if c == 'g++' else ['-include-pch', d + '/pre.hpp.pch', '-ferror-limit=0']),
                              capture_output=True, text=True)
    for c in comps:
        d = os.path.join(tmp, f"own-{os.path.basename(c).replace('+', 'x')}-{std.replace('+', 'x')}")
        os.makedirs(d, exist_ok=True)
        with open(d + '/pre.hpp', 'w') as f:
            f.write(PRE)
        r = subprocess.run([c, f'-std={std}', '-w', '-I', inc, '-x', 'c++-header', d + '/pre.hpp', '-o', d + ('/pre.hpp.gch' if c == 'g++' else '/pre.hpp.pch')], capture_output=True, text=True)
        if r.returncode:
            raise spec.BuildError(r.stderr[-3000:])

        def kind(kn):
            lacks, decl = KINDS[kn]
            lacks = {LACK[x] for x in lacks.split()}
            sel = [(n, t, b) for n, (t, b, need) in O.items() if not need & lacks]
            name = re.sub(r'\W+', '_', kn)
            r = run(c, d, name, decl + '\n' + '\n'.join(line(i, t, b) for i, (_, t, b) in enumerate(sel)) + '\n')
            bad = []
            if r.returncode:
                cand = sorted({int(x) - 3 for x in re.findall(re.escape(name + '.cpp') + r':(\d+)', r.stderr)})
                cand = [x for x in cand if 0 <= x < len(sel)] or range(len(sel))
                for i in list(cand)[:24]:
                    q = run(c, d, f'{name}-{i}', decl + '\n' + line(i, sel[i][1], sel[i][2]) + '\n')
                    if q.returncode:
                        bad.append((sel[i], next((l for l in q.stderr.splitlines() if 'error' in l), '')))
                if not bad:
                    raise spec.BuildError(r.stderr[-3000:])
            return kn, sel, bad
        with ThreadPoolExecutor(5) as ex:
            res = list(ex.map(kind, KINDS))
        for kn, sel, bad in res:
            out['inst'] += len(sel)
            out['oblig'] += len(sel)
            out['proved'] += len(sel) - len(bad)
            out['scen'].append({'name': kn, 'instances': len(sel), 'proved': len(sel) - len(bad), 'bounded': 0, 'undecided': 0, 'violated': len(bad), 'compiler': os.path.basename(c)})
            for (n, t, b), first in bad:
                out['viol'].append((n, 'type', f"[type] {n} with an element type that is {kn} ({t}): the operation uses something it has no need of\n    {spec.short(first)}\n    program: {b}"))
        out['samples'] += [f'{kn}: {sel[0][0]}' for kn, sel, _ in res[:3]]
