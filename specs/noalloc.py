"""No dynamic memory on the fixed-capacity path: reachability over the call graph of the LLVM IR.

Every operation of the fixed-capacity part of the library is instantiated; from each instance the call graph is followed
through the blocks from which a normal return can be reached (blocks that only lead to a throw do not count); reaching an
allocation function is the violation, reported with the call path."""
import os
import re
import tempfile
import spec
import ir as IR

STDS = {'quick': ['c++11', 'c++17'], 'thorough': ['c++11', 'c++14', 'c++17', 'c++20']}
ALLOC = re.compile(r'^(_Zn[wa][mj].*|malloc|calloc|realloc|reallocarray|aligned_alloc|posix_memalign|memalign|valloc|pvalloc|strdup|strndup|wcsdup|'
                   r'_ZNSt15__new_allocator.*allocate.*|_ZNSt7__cxx1112basic_string\S*_M_create\S*|_ZNSt7__cxx1112basic_stringI[cw]\S*C[12]E\S*|asprintf|getline|open_memstream|mmap)$')

SEQS = [('Array', 'Array<{e}, 3>'), ('ArrVec', 'ArrVec<{e}, 4>'), ('ArrayView', 'ArrayView<{e}, 3>'), ('ArrVecView', 'ArrVecView<{e}, 4>'), ('VectorView', 'VectorView<{e}>'),
        ('Vcb', 'Vcb<{e}, 3>'), ('Vcq', 'Vcq<{e}, 3>')]
FIX = [s for s in SEQS if s[0] != 'VectorView']
PRE = '''
#include "probe.hpp"
using namespace efp; using namespace vp;
extern "C" { Q vp_f1(const P&); Q vp_f2(const P&, const P&); Q vp_f3(const P&, const P&, const P&); Q vp_fi(size_t, const P&); bool vp_fb(const P&); void vp_fv(const P&); void vp_fm(P&);
 void vp_fiv(size_t, const P&); void vp_fim(size_t, P&); void vp_fv2(const P&, const P&); void vp_fm2(P&, P&); Q vp_fl(const Q&, const P&); Q vp_fr(const P&, const Q&); Q vp_fn(size_t); void vp_ix(size_t); void vp_ix2(size_t, size_t);
 int vp_m1(const P&); int vp_m2(const Q&); int vp_m3(const int&); int vp_m0(); Q vp_q(const P&); }
#define FN(w, f) struct w##_ { template<typename... A> auto operator()(A&&... a) const -> decltype(f(std::forward<A>(a)...)) { return f(std::forward<A>(a)...); } };
FN(F1, vp_f1) FN(F2, vp_f2) FN(F3, vp_f3) FN(FI, vp_fi) FN(FB, vp_fb) FN(FV, vp_fv) FN(FM, vp_fm) FN(FIV, vp_fiv) FN(FIM, vp_fim) FN(FV2, vp_fv2) FN(FM2, vp_fm2) FN(FL, vp_fl) FN(FR, vp_fr) FN(FN1, vp_fn) FN(IX, vp_ix) FN(IX2, vp_ix2)
'''


class B:
    def __init__(self):
        self.out = [PRE]
        self.label = {}

    def fn(self, label, body, params=''):
        n = f'na_{len(self.label)}'
        self.label[n] = label
        self.out.append(f'S_FN void {n}({params}) {{ {body} }}')


def build(tier):
    b = B()
    for ek, e in (('P', 'P'), ('int', 'int')):
        for k, t in SEQS:
            T = t.format(e=e)
            lab = f'{k}<{e}>'
            view = k.endswith('View')
            p1 = f'{T}& v'
            p2 = f'{T}& v, {T}& w'
            b.fn(f'{lab}: default construction and destruction', f'{T} x; (void)x;')
            b.fn(f'{lab}: copy construction', f'{T} x(v); (void)x;', p1)
            b.fn(f'{lab}: move construction', f'{T} x(efp::move(v)); (void)x;', p1)
            b.fn(f'{lab}: copy assignment', 'v = w;', p2)
            b.fn(f'{lab}: move assignment', 'v = efp::move(w);', p2)
            if k not in ('Vcb', 'Vcq'):
                b.fn(f'{lab}: comparison', '(void)(v == w);', p2)
            b.fn(f'{lab}: access', '(void)v[0]; (void)v.data(); (void)v.begin(); (void)v.end(); (void)v.size(); (void)nth(size_t(0), v); (void)length(v); (void)data(v);', p1)
            if k in ('ArrVec', 'Vcb', 'Vcq'):
                b.fn(f'{lab}: push_back', 'v.push_back(x);', p1 + f', const {e}& x')
            if k == 'ArrVec':
                b.fn(f'{lab}: push_back of a temporary', 'v.push_back(efp::move(x));', p1 + f', {e}& x')
                b.fn(f'{lab}: insert', 'v.insert(i, x);', p1 + f', const {e}& x, size_t i')
                b.fn(f'{lab}: erase', 'v.erase(i);', p1 + ', size_t i')
                b.fn(f'{lab}: pop_back', 'v.pop_back();', p1)
                b.fn(f'{lab}: clear', 'v.clear();', p1)
                b.fn(f'{lab}: resize', 'v.resize(i);', p1 + ', size_t i')
                b.fn(f'{lab}: reserve', 'v.reserve(i);', p1 + ', size_t i')
                b.fn(f'{lab}: construction from elements', f'{T} x {{a, a}}; (void)x;', f'const {e}& a')
                b.fn(f'{lab}: construction from a smaller ArrVec', f'{T} x(a); (void)x;', f'const ArrVec<{e}, 2>& a')
            if k == 'Array':
                b.fn(f'{lab}: construction from elements', f'{T} x {{a, a, a}}; (void)x;', f'const {e}& a')
                b.fn(f'{lab}: resize to its own size', 'v.resize(3); v.reserve(3);', p1)
            if k == 'Vcb':
                b.fn(f'{lab}: push_back of a temporary', 'v.push_back(efp::move(x));', p1 + f', {e}& x')
            if k == 'Vcq':
                b.fn(f'{lab}: push_back of a temporary', 'v.push_back(efp::move(x));', p1 + f', {e}& x')
                b.fn(f'{lab}: pop_front', 'v.pop_front();', p1)
    # functions over sequences
    one = ['map(F1_{}, v)', 'filter(FB_{}, v)', 'foldl(FL_{}, q, v)', 'foldr(FR_{}, q, v)', 'for_each(FV_{}, v)', 'for_each_with_index(FIV_{}, v)', 'map_with_index(FI_{}, v)',
           'cartesian_for_each(FV_{}, v)', 'cartesian_map(F1_{}, v)', 'append(v)', 'head(v)', 'tail(v)', 'init(v)', 'last(v)', 'is_null(v)', 'take(n, v)', 'drop(n, v)', 'slice(n, m, v)',
           'take(Size<1> {}, v)', 'drop(Size<1> {}, v)', 'slice(Size<0> {}, Size<1> {}, v)', 'take_while(FB_{}, v)', 'drop_while(FB_{}, v)', 'elem(p, v)', 'elem_index(p, v)', 'elem_indices(p, v)', 'find(FB_{}, v)',
           'find_index(FB_{}, v)', 'find_indices(FB_{}, v)']
    mut = ['for_each_mut(FM_{}, v)', 'for_each_with_index_mut(FIM_{}, v)', 'cartesian_for_each_mut(FM_{}, v)']
    two = ['map(F2_{}, v, w)', 'append(v, w)', 'cartesian_map(F2_{}, v, w)', 'for_each(FV2_{}, v, w)', 'cartesian_for_each(FV2_{}, v, w)']
    mut2 = ['for_each_mut(FM2_{}, v, w)', 'cartesian_for_each_mut(FM2_{}, v, w)']
    free_of_result = re.compile(r'^(map|filter|append|cartesian_map|map_with_index|elem_indices|find_indices)\(')
    for k, t in SEQS:
        T = t.format(e='P')
        for x in one:
            if k == 'VectorView' and free_of_result.match(x):
                continue
            b.fn(f'{x.replace("_{}", "")} over {k}', f'{x};', f'const {T}& v, const P& p, const Q& q, size_t n, size_t m')
        if not k.endswith('View'):
            for x in mut:
                b.fn(f'{x.replace("_{}", "")} over {k}', f'{x};', f'{T}& v')
    for k, t in FIX:
        for l, u in FIX:
            T, U = t.format(e='P'), u.format(e='P')
            for x in two:
                b.fn(f'{x.replace("_{}", "")} over {k} and {l}', f'{x};', f'const {T}& v, const {U}& w')
            if not k.endswith('View') and not l.endswith('View'):
                for x in mut2:
                    b.fn(f'{x.replace("_{}", "")} over {k} and {l}', f'{x};', f'{T}& v, {U}& w')
    inner = ['Array<P, 3>', 'ArrVec<P, 4>']
    for i in inner:
        for o in (f'Array<{i}, 2>', f'ArrVec<{i}, 5>'):
            b.fn(f'concat over {o}', 'concat(v);', f'const {o}& v')
            for d in inner:
                b.fn(f'intercalate of {d} into {o}', 'intercalate(d, v);', f'const {d}& d, const {o}& v')
    b.fn('from_function(Size<5>)', 'from_function(Size<5> {}, FN1_{});')
    b.fn('for_index', 'for_index(IX_{}, n);', 'size_t n')
    b.fn('cartesian_for_index', 'cartesian_for_index(IX2_{}, n, m);', 'size_t n, size_t m')
    # sum types and tuples
    for E in ('Enum<P, Q, int>', 'Maybe<P>'):
        b.fn(f'{E}: default construction', f'{E} x; (void)x;') if E[0] == 'M' else None
        b.fn(f'{E}: construction from a value', f'{E} x(p); (void)x;', 'const P& p')
        b.fn(f'{E}: copy construction', f'{E} x(v); (void)x;', f'const {E}& v')
        b.fn(f'{E}: move construction', f'{E} x(efp::move(v)); (void)x;', f'{E}& v')
        b.fn(f'{E}: copy assignment', 'v = w;', f'{E}& v, const {E}& w')
        b.fn(f'{E}: move assignment', 'v = efp::move(w);', f'{E}& v, {E}& w')
        b.fn(f'{E}: assignment of a value', 'v = p;', f'{E}& v, const P& p')
        b.fn(f'{E}: comparison', '(void)(v == w);', f'const {E}& v, const {E}& w')
        b.fn(f'{E}: get', '(void)v.template get<P>(); (void)v.index();'.replace('template ', ''), f'{E}& v')
    b.fn('Enum<P, Q, int>: match', 'v.match([](const P& p) { return vp_m1(p); }, [](const Q& q) { return vp_m2(q); }, [](const int& i) { return vp_m3(i); });', 'const Enum<P, Q, int>& v')
    b.fn('Enum<P, Q, int>: match with a wild card', 'v.match([](const P& p) { return vp_m1(p); }, []() { return vp_m0(); });', 'const Enum<P, Q, int>& v')
    b.fn('Maybe<P>: match', 'v.match([](const P& p) { return vp_m1(p); }, [](const Nothing&) { return vp_m0(); });', 'const Maybe<P>& v')
    b.fn('Maybe<P>: value', '(void)v.value(); (void)v.has_value(); (void)v.is_nothing();', 'Maybe<P>& v')
    b.fn('Maybe<P>: fmap', 'v.fmap([](const P& p) { return vp_q(p); }); fmap([](const P& p) { return vp_q(p); }, v);', 'Maybe<P>& v')
    b.fn('Maybe<P>: bind', 'v.bind([](const P& p) { return Maybe<Q>(vp_q(p)); }); bind(v, [](const P& p) { return Maybe<Q>(vp_q(p)); });', 'Maybe<P>& v')
    b.fn('Tuple<P, Q>: construction, copy and access', 'Tuple<P, Q> t(p, q); Tuple<P, Q> u(t); u = t; (void)fst(u); (void)snd(u); (void)(t == u); (void)tuple(p, q);', 'const P& p, const Q& q')
    b.fn('Tuple<P, Q>: match', 't.match([](const P& p, const Q&) { return vp_m1(p); });', 'const Tuple<P, Q>& t')
    # numbers
    for k, t in FIX:
        T = t.format(e='double')
        b.fn(f'reductions over {k}<double>', '(void)sum(v); (void)product(v); (void)max_elem(v); (void)min_elem(v); (void)max_min(v);', f'const {T}& v')
        if k in ('Array', 'ArrVec'):
            b.fn(f'statistics over {k}<double>', '(void)mean<double>(v); (void)rms<double>(v); (void)variance<double>(v); (void)standard_deviation<double>(v); (void)covariance<double>(v, v); (void)correlation<double>(v, v);'
                 '(void)autocovariance<double>(v, 1); (void)remove_dc<double>(v); (void)linear_regression<double>(v, v); (void)linear_regression_with_index<double>(v); (void)detrend<double>(v); (void)mse<double>(v, v);', f'const {T}& v')
    b.fn('DoubleBuffer: enqueue', 'v.enqueue(p);', 'DoubleBuffer<P, 3>& v, const P& p')
    b.fn('DoubleBuffer: dequeue', 'v.dequeue();', 'DoubleBuffer<P, 3>& v')
    b.fn('DoubleBuffer: swap_buffer and empty', 'v.swap_buffer(); v.empty();', 'DoubleBuffer<P, 3>& v')
    return b


def funcs_of(v, out):
    """functions named in a constant operand"""
    if v is None:
        return
    if v.kind == 'func':
        out.append(v.v)
    elif v.kind == 'agg':
        for x in v.v:
            funcs_of(x, out)
    elif v.kind == 'cexpr':
        for x in v.v[1]:
            funcs_of(x, out)


def names_in(i):
    out = []
    if i.op in ('call', 'invoke'):
        funcs_of(i.x['callee'], out)
    if i.op == 'phi':
        for v in i.x.values():
            funcs_of(v, out)
    for v in i.ops or []:
        funcs_of(v, out)
    return out


def call_edges(F):
    """callees (and functions whose address is taken) in blocks from which the function can return normally"""
    succ, pred = {}, {b.id: [] for b in F.blocks}
    rets = []
    for b in F.blocks:
        t = b.instrs[-1]
        s = b.succs
        succ[b.id] = s
        for x in s:
            pred[x].append(b.id)
        if t.op == 'ret':
            rets.append(b.id)
    fwd, work = set(), [F.blocks[0].id]
    while work:
        x = work.pop()
        if x not in fwd:
            fwd.add(x)
            work += succ[x]
    bwd, work = set(), list(rets)
    while work:
        x = work.pop()
        if x not in bwd:
            bwd.add(x)
            work += pred[x]
    out = []
    for b in F.blocks:
        if b.id in fwd and b.id in bwd:
            for i in b.instrs:
                for n in names_in(i):
                    out.append((n, i))
    return out, len(fwd & bwd)


def run_module(prop, std, tier, tmp, out):
    b = build(tier)
    tmp = tempfile.mkdtemp(dir=tmp)
    src = os.path.join(tmp, 'noalloc.cpp')
    with open(src, 'w') as f:
        f.write('\n'.join(b.out))
    m = spec.compile_ir(src, os.path.join(tmp, 'noalloc.bc'), std)
    edges, fns = {}, set()

    def get(n):
        if n not in edges:
            F = m.fn(n)
            edges[n] = call_edges(F)[0] if F is not None and not F.decl else []
        return edges[n]
    groups = {}
    for e, lab in b.label.items():
        g = groups.setdefault(re.split(r'[:( ]', lab)[0], [0, 0])
        g[0] += 1
        out['inst'] += 1
        seen, work, bad = {e: None}, [e], None
        while work and not bad:
            x = work.pop(0)
            for n, ins in get(x):
                out['oblig'] += 1
                if ALLOC.match(n):
                    bad = (x, n, ins)
                    break
                if n not in seen:
                    seen[n] = (x, ins)
                    work.append(n)
        fns |= {x for x in seen if get(x)}
        if bad:
            x, n, ins = bad
            path = [f"{spec.demangle(n)} called at {spec.short(ins.loc())} in {spec.demangle(x)}"]
            while seen[x]:
                y, i = seen[x]
                path.append(f"from {spec.demangle(y)} at {spec.short(i.loc())}")
                x = y
            g[1] += 1
            out['viol'].append((lab, 'alloc', f"[alloc] {lab}: reaches dynamic allocation on a path that returns normally\n    " + '\n    '.join(path)))
        else:
            out['proved'] += 1
    for g, (k, v) in groups.items():
        out['scen'].append({'name': g, 'instances': k, 'proved': k - v, 'bounded': 0, 'undecided': 0, 'violated': v})
    out['functions'] = sorted(fns)
    out['samples'] += list(b.label.values())[:3]
