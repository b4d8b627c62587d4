"""BlockingQ, NonBlockingQ and DoubleBuffer of elements whose copies and moves may throw: however an operation ends, the
lock it took is no longer held."""
import re
from spec import *
import conc

PINT = {'BT': ('BlockingQ<vpt::X, 2>', 2), 'BU': ('BlockingQ<vpt::X>', None), 'NT': ('NonBlockingQ<vpt::X, 2>', 2),
        'NU': ('NonBlockingQ<vpt::X>', None), 'DT': ('DoubleBuffer<vpt::X, 2>', 2)}
TYPES = {}
SC = []
SZ = 8
SPECIAL = re.compile(r'^_ZN3vpt1X(C[12]E(?!v)|aSE|D[12]Ev|C[12]Ev)')


def source(tier):
    s = ['''#include "probe.hpp"
#include "efp/concurrency.hpp"
using namespace efp;
namespace vpt { struct X { X() noexcept; X(const X&); X(X&&); X& operator=(const X&); X& operator=(X&&); ~X() noexcept; unsigned long w_; }; }
''']
    for t, (d, _) in PINT.items():
        s.append(f'''using {t} = {d};
S_FN unsigned long sizeof_{t}() {{ return sizeof({t}); }}
S_FN void ctor_{t}(void* p) {{ new (p) {t}(); }}
S_FN void enq_{t}({t}& q, const vpt::X& x) {{ q.enqueue(x); }}''')
        s.append(f'S_FN void deq_{t}({t}& q) {{ auto r = q.dequeue(); (void)r; }}')
    return '\n'.join(s)


QUEUE = re.compile(r'^_ZNK?St5queueIN3vpt1XESt5dequeI.*?EE(C[12]|D[12]|4push|7emplace|3pop|5front|5empty|4size)')


def hook_call(ip, st, name, a, ins):
    m = SPECIAL.match(name)
    if m:
        r = a[0] if m.group(1).startswith('aS') else None
        out = [('ret', st, r)]
        if (m.group(1).startswith('aS') or not m.group(1).endswith('Ev')) and m.group(1)[0] != 'D' and st.ex.get('throws'):
            s = st.fork()
            s.ex['throws'] = False
            out.append(('throw', s, None))
        return out
    m = QUEUE.match(name)
    if m:
        op = re.sub(r'^\d+', '', m.group(1))
        n = st.ex.get('qn', 0)
        if op == 'empty':
            return [('ret', st, n == 0)]
        if op == 'size':
            return [('ret', st, Lin(n))]
        if op == 'front':
            i = ip.new_obj(st, 'ext', SZ, 'front')
            return [('ret', st, Ptr(i, ZERO))]
        out = [('ret', st, None)]
        if op in ('push', 'emplace'):
            if st.ex.get('throws'):
                s = st.fork()
                s.ex['throws'] = False
                out.append(('throw', s, None))
            st.ex['qn'] = n + 1
        elif op == 'pop':
            st.ex['qn'] = max(n - 1, 0)
        return out
    return conc.hook_call(ip, st, name, a, ins)


HOOKS = dict(conc.HOOKS, call=hook_call)


def mk(t):
    def f(c):
        op = c.case('op', ['enqueue', 'dequeue'])
        k = c.case('elements', [0, 1, 2] if op == 'enqueue' else [1, 2])
        c.ip.world = w = conc.World()
        p = c.obj(c.call(f'sizeof_{t}')[0].val.c, 'queue')
        x = c.raw(SZ, 'x')
        w.mode = 'env'
        w.ctor = True
        for o in [o for o in c.run(f'ctor_{t}', p) if o.kind == 'ret'][:1]:
            c.st = o.st
            w.ctor = False
            for _ in range(k):
                outs = [o for o in c.run(f'enq_{t}', p, x) if o.kind == 'ret']
                if len(outs) != 1:
                    c.unsure.append('queue not filled')
                    return
                c.st = outs[0].st
            c.st.ex['throws'] = True
            w.op = op
            outs = c.run(f'enq_{t}', p, x) if op == 'enqueue' else c.run(f'deq_{t}', p)
            for r in outs:
                c.oblig += 1
                if r.st.ex.get('held', ()):
                    c.fail(r, 'held', f"{op} " + ("returns" if r.kind == 'ret' else "ends with the exception of an element's copy") + " and still holds the lock")
            if not any(r.kind == 'throw' for r in outs):
                c.unsure.append('no exception reaches the caller')
    SC.append(Scenario(f'{t}.throwing_element', ('C23' if t[0] == 'D' else 'C21',), f, 'conct', unroll=True))


for _t in PINT:
    mk(_t)
