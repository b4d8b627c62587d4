"""The allocator of freestanding builds: storage of the right size, released once; elements constructed and destroyed in place."""
from spec import *
from enu import alive
from tup import rets

TYPES = {}
SC = []
TS = {'P': 24, 'Q': 40, 'S': 16}


def source(tier):
    s = ['#define VP_ALONE', '#include <new>', '#include <utility>', '#include <cstddef>', '#include "efp/cpp_core.hpp"', '#include "efp/allocator.hpp"', '#include "probe.hpp"',
         'using namespace efp; using namespace vp;']
    for t in TS:
        a = f'Allocator<{t}>'
        for n, al, de, co, dt, mx in (
                ('d', 'a.allocate(n)', 'a.deallocate(p, n)', 'a.construct(p, x)', 'a.destroy(p)', 'a.max_size()'),
                ('t', f'AllocatorTraits<{a}>::allocate(a, n)', f'AllocatorTraits<{a}>::deallocate(a, p, n)', f'AllocatorTraits<{a}>::construct(a, p, x)',
                 f'AllocatorTraits<{a}>::destroy(a, p)', f'AllocatorTraits<{a}>::max_size(a)')):
            s += [f'S_FN {t}* alloc{n}_{t}(unsigned long n) {{ {a} a; return {al}; }}',
                  f'S_FN void dealloc{n}_{t}({t}* p, unsigned long n) {{ {a} a; {de}; }}',
                  f'S_FN void construct{n}_{t}({t}* p, const {t}& x) {{ {a} a; {co}; }}',
                  f'S_FN void destroy{n}_{t}({t}* p) {{ {a} a; {dt}; }}',
                  f'S_FN unsigned long max{n}_{t}() {{ {a} a; return {mx}; }}']
    return '\n'.join(s)


def life(c):
    t = c.case('type', list(TS))
    n = c.case('through', ['allocator', 'traits'])[0].replace('a', 'd')
    z = TS[t]
    k = c.num('k', 1)
    for o in rets(c, c.run(f'alloc{n}_{t}', k), 'allocate'):
        p = o.val
        c.oblig += 1
        ob = o.st.mem.get(p.obj) if isinstance(p, Ptr) else None
        if ob is None or ob.kind != 'heap':
            c.fail(o, 'storage', "allocate does not return fresh storage")
            continue
        if not c.must(o, ob.size - p.off - k * z, 'storage', f"allocate(k) gives {ob.size} bytes, {k * z} are needed"):
            continue
        c.must_eq(o, p.off, 'storage', "allocate returns a pointer into the middle of its storage")
        for x in rets(c, c.run_at(o.st, f'dealloc{n}_{t}', p, k), 'deallocate'):
            c.oblig += 1
            if x.st.mem[p.obj].alive:
                c.fail(x, 'leak', "deallocate does not release the storage")


def place(c):
    t = c.case('type', list(TS))
    n = c.case('through', ['allocator', 'traits'])[0].replace('a', 'd')
    z = TS[t]
    k = c.num('k', 1)
    i = c.num('i', 0, k - 1)
    b = c.obj(k * z, 'storage')
    x = c.elem('x', t)
    q = Ptr(b.obj, i * z)
    for o in rets(c, c.run(f'construct{n}_{t}', q, x), 'construct'):
        if not alive(c, o, q, t, z, elt('x'), 'the constructed element'):
            continue
        alive(c, o, x, t, z, elt('x'), 'the source of the element')
        for o2 in rets(c, c.run_at(o.st, f'destroy{n}_{t}', q), 'destroy'):
            c.oblig += 1
            for g in norm_segs(o2.st.mem[b.obj].segs, o2.st.cons):
                if g.st == 'live' and g.typ == t and not entails_eq(o2.st.cons, g.hi - g.lo):
                    c.fail(o2, 'lifetime', "the element is alive after destroy")


def most(c):
    t = c.case('type', list(TS))
    n = c.case('through', ['allocator', 'traits'])[0].replace('a', 'd')
    for o in rets(c, c.run(f'max{n}_{t}'), 'max_size'):
        c.oblig += 1
        v = o.val
        if not (isinstance(v, Lin) and v.isc()):
            c.unsure.append('max_size')
            continue
        m = v.c % (1 << 64)
        if m * TS[t] >= 1 << 64:
            c.fail(o, 'storage', f"max_size() is {m}: that many elements of {TS[t]} bytes overflow the size type")
        elif m == 0:
            c.fail(o, 'storage', "max_size() is 0")


for _n, _f in (('allocate', life), ('construct', place), ('max_size', most)):
    SC.append(Scenario(_n, ('C34',), _f, 'alc'))
