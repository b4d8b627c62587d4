"""BlockingQ, NonBlockingQ and DoubleBuffer: locksets, atomicity, hand-off and wake-up.

Every operation is analysed from every state its queue can reach, with the synchronisation primitives interpreted as
protocol events.  Interference is modelled at the points where another thread can run: whenever a lock is taken again
after having been released, and while waiting, other threads may perform the queue's own operations."""
from spec import *
import models

PINT = {'BB': ('BlockingQ<P, 2>', 2), 'BC': ('BlockingQ<P, 3>', 3), 'BD': ('BlockingQ<P>', None), 'NB': ('NonBlockingQ<P, 2>', 2),
        'NC': ('NonBlockingQ<P, 3>', 3), 'ND': ('NonBlockingQ<P>', None), 'DB': ('DoubleBuffer<P, 2>', 2), 'DC': ('DoubleBuffer<P, 3>', 3)}
TYPES = {}
SC = []
SHARDS = 4
SZ = 24


def source(tier):
    s = ['''#include "probe.hpp"
#include "efp/concurrency.hpp"
#include <type_traits>
using namespace vp;
using namespace efp;
template<typename T, bool b> struct Cp { static int go(void*, const T&) { return 0; } };
template<typename T> struct Cp<T, true> { static int go(void* r, const T& t) { new (r) T(t); return 1; } };
template<typename T, bool b> struct Mv { static int go(void*, T&) { return 0; } };
template<typename T> struct Mv<T, true> { static int go(void* r, T& t) { new (r) T(efp::move(t)); return 1; } };
''']
    for t, (d, _) in PINT.items():
        s.append(f'''using {t} = {d};
S_FN unsigned long sizeof_{t}() {{ return sizeof({t}); }}
S_FN void ctor_{t}(void* p) {{ new (p) {t}(); }}
S_FN void dtor_{t}({t}& q) {{ q.~{t}(); }}
S_FN int copy_{t}(void* r, const {t}& q) {{ return Cp<{t}, std::is_copy_constructible<{t}>::value>::go(r, q); }}
S_FN int move_{t}(void* r, {t}& q) {{ return Mv<{t}, std::is_move_constructible<{t}>::value>::go(r, q); }}
S_FN void enq_{t}({t}& q, const P& x) {{ q.enqueue(x); }}''')
        if t[0] in 'BD':
            s.append(f'S_FN void deq_{t}(void* r, {t}& q) {{ new (r) P(q.dequeue()); }}')
        if t[0] == 'N':
            s.append(f'''S_FN int deq_{t}(void* r, {t}& q) {{ auto m = q.dequeue(); if (m.has_value()) {{ new (r) P(m.value()); return 1; }} return 0; }}
S_FN bool empty_{t}({t}& q) {{ return q.is_empty(); }}''')
        if t[0] == 'D':
            s.append(f'''S_FN void swap_{t}({t}& q) {{ q.swap_buffer(); }}
S_FN bool empty_{t}({t}& q) {{ return q.empty(); }}''')
    return '\n'.join(s)


class World:
    """protocol bookkeeping of one scenario"""

    def __init__(self):
        self.mode = 'off'
        self.acc = []
        self.shared = set()
        self.env = None
        self.op = ''
        self.max_waits = 2
        self.ctor = False


def W(ip):
    return ip.world


def lock(ip, st, key, ins, strong=True):
    w = W(ip)
    if w.mode == 'off':
        return [st]
    held = st.ex.get('held', ())
    if key in held:
        ip.report('deadlock', "the lock is taken again by the thread that already holds it", st, ins)
        return []
    st.ex['held'] = held + (key,)
    if not strong:
        st.ex['weak'] = st.ex.get('weak', ()) + (key,)
    n = st.ex.get('acq', 0)
    st.ex['acq'] = n + 1
    out = [st]
    if w.mode == 'main' and n > 0 and w.env and n < 4:
        # other threads may have run since the lock was last released
        out = interfere(ip, st, ins)
    return out


def unlock(ip, st, key, ins):
    w = W(ip)
    if w.mode == 'off':
        return [st]
    held = st.ex.get('held', ())
    if key not in held:
        ip.report('unlock', "a lock is released that is not held", st, ins)
        return []
    st.ex['held'] = tuple(k for k in held if k != key)
    st.ex['weak'] = tuple(k for k in st.ex.get('weak', ()) if k != key)
    return [st]


def interfere(ip, st, ins, least=0):
    """states after zero or more operations of other threads"""
    w = W(ip)
    out = []
    for steps in w.env:
        cur = [st.fork()]
        ok = True
        for name, fn, args in steps(ip):
            nx = []
            for s in cur:
                saved = (w.mode, s.ex.get('held', ()), s.ex.get('acq', 0), s.ex.get('waits', 0), s.ex.get('notes', ()), s.ex.get('weak', ()))
                w.mode = 'env'
                s.ex['held'] = ()
                s.ex['weak'] = ()
                s.ex['waits'] = 99
                try:
                    for kind, s2, v in ip.call(s, fn, args(s), ins):
                        if kind != 'ret':
                            continue
                        (_, s2.ex['held'], s2.ex['acq'], s2.ex['waits'], s2.ex['notes'], s2.ex['weak']) = saved
                        s2.ex['env'] = s2.ex.get('env', ()) + (name,)
                        nx.append(s2)
                finally:
                    w.mode = saved[0]
            cur = nx
        out += cur
    return out


def loc_of(ip, p):
    return ('lock', p.obj, p.off.c if p.off.isc() else str(p.off))


NOTIFY1 = '_ZNSt18condition_variable10notify_oneEv'
NOTIFYA = '_ZNSt18condition_variable10notify_allEv'
WAIT = re.compile(r'^_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE$|^pthread_cond_(wait|timedwait|clockwait)$')
QUEUE = re.compile(r'^_ZNK?St5queueIN2vp1PESt5dequeI.*?EE(C[12]|D[12]|4push|7emplace|3pop|5front|4back|5empty|4size)')


def adt(st, p):
    return dict(st.ex.get('adt', ())).get((p.obj, str(p.off)))


def set_adt(st, p, v):
    d = dict(st.ex.get('adt', ()))
    d[(p.obj, str(p.off))] = v
    st.ex['adt'] = tuple(sorted(d.items()))


def touch(ip, st, p, rw, ins):
    ip.guard_access(st, p, 8, ins, rw)


def hook_call(ip, st, name, a, ins):
    w = W(ip)
    if name in ('pthread_mutex_lock', 'pthread_mutex_trylock'):
        out = []
        n = st.ex.get('spin', 0)
        if name.endswith('trylock') and w.mode != 'off' and n < 1:
            s = st.fork()
            s.ex['spin'] = n + 1
            out.append(('ret', s, Lin(16)))
        return out + [('ret', s, ZERO) for s in lock(ip, st, loc_of(ip, a[0]), ins)]
    if name == 'pthread_mutex_unlock':
        return [('ret', s, ZERO) for s in unlock(ip, st, loc_of(ip, a[0]), ins)]
    if name in ('_ZNSt18condition_variableC1Ev', '_ZNSt18condition_variableD1Ev', '_ZNSt18condition_variableC2Ev', '_ZNSt18condition_variableD2Ev',
                'pthread_mutex_init', 'pthread_mutex_destroy'):
        return [('ret', st, ZERO)]
    if name in (NOTIFY1, NOTIFYA, 'pthread_cond_signal', 'pthread_cond_broadcast'):
        if w.mode == 'main':
            st.ex['notes'] = st.ex.get('notes', ()) + (('all' if name == NOTIFYA or name.endswith('cast') else 'one', st.ex.get('acq', 0), str(a[0].off)),)
        return [('ret', st, ZERO)]
    m = WAIT.match(name)
    if m:
        if m.group(1):
            cond, mux = a[0], a[1]
        else:
            cond = a[0]
            r = ip.load(st, a[1], 8, ins, True)
            if len(r) != 1 or not isinstance(r[0][1], Ptr):
                raise Undecided("lock passed to wait")
            st, mux = r[0]
        key = loc_of(ip, mux)
        if w.mode == 'off':
            return []
        if key not in st.ex.get('held', ()):
            ip.report('wait', "the wait is entered without holding the lock", st, ins)
            return []
        n = st.ex.get('waits', 0)
        if n >= w.max_waits:
            return []
        st.ex['waits'] = n + 1
        st.ex['cond'] = st.ex.get('cond', ()) + (str(cond.off),)
        st.ex['acq'] = st.ex.get('acq', 0) + 1
        out = []
        for s in interfere(ip, st, ins):
            out.append(('ret', s, ZERO))
            if m.group(1) and m.group(1) != 'wait':
                out.append(('ret', s.fork(), Lin(110)))
        return out
    if re.match(r'^_ZNSt6chrono3_V21\d(steady|system)_clock3nowEv$', name):
        return [('ret', st, ip.opq_num(st, ('now', name)))]
    if name in ('sched_yield', 'nanosleep', 'usleep'):
        return [('ret', st, ZERO)]
    m = QUEUE.match(name)
    if m:
        return std_queue(ip, st, m.group(1).lstrip('0123456789') if m.group(1)[0].isdigit() else m.group(1), a, ins)
    return None


def std_queue(ip, st, op, a, ins):
    """std::queue as the abstract data type its standard describes"""
    p = a[0]
    q = adt(st, p)
    if op[0] == 'C':
        if q is None and len(a) == 1:
            set_adt(st, p, ())
            return [('ret', st, None)]
        raise Undecided("copy of a std::queue")
    if q is None:
        raise Undecided("std::queue in an unknown state")
    if op == 'empty':
        touch(ip, st, p, 'r', ins)
        return [('ret', st, len(q) == 0)]
    if op == 'size':
        touch(ip, st, p, 'r', ins)
        return [('ret', st, Lin(len(q)))]
    if op in ('front', 'back'):
        touch(ip, st, p, 'r', ins)
        if not q:
            ip.report('read_dead', f"{op}() of an empty queue", st, ins)
            return []
        return [('ret', st, Ptr(q[0] if op == 'front' else q[-1], ZERO))]
    if op == 'pop':
        touch(ip, st, p, 'w', ins)
        if not q:
            ip.report('read_dead', "pop() of an empty queue", st, ins)
            return []
        st.mem[q[0]] = st.mem[q[0]]._replace(alive=False, segs=())
        set_adt(st, p, q[1:])
        return [('ret', st, None)]
    if op in ('push', 'emplace'):
        touch(ip, st, p, 'w', ins)
        if len(a) != 2:
            raise Undecided("emplace")
        out = []
        moved = ins is not None and 'EO' in ins.x['callee'].v.rsplit('push', 1)[-1] and op == 'push'
        for s, v in ip.p_content(st, 'P', SZ, a[1], ins, 'element pushed', 'read_dead'):
            if moved:
                rs = ip.p_set(s, 'P', SZ, a[1], MOVED, ins, 'element moved from', 'live')
            else:
                rs = [s]
            for s2 in rs:
                i = ip.new_obj(s2, 'ext', SZ, 'element', None, [Seg(ZERO, Lin(SZ), 'live', 'P', SZ, v)])
                s2.mem[i] = s2.mem[i]._replace(frame=0)
                set_adt(s2, p, adt(s2, p) + (i,))
                out.append(('ret', s2, Ptr(i, ZERO) if op == 'emplace' else None))
        return out
    if op[0] == 'D':
        for i in q:
            st.mem[i] = st.mem[i]._replace(alive=False, segs=())
        d = dict(st.ex['adt'])
        d.pop((p.obj, str(p.off)))
        st.ex['adt'] = tuple(sorted(d.items()))
        return [('ret', st, None)]
    raise Undecided("std::queue::" + op)


def hook_access(ip, st, p, size, ins, rw):
    w = W(ip)
    if w.mode != 'main' or not isinstance(p, Ptr):
        return
    if p.obj not in w.shared:
        return
    lo = p.off.c if p.off.isc() else None
    sz = size if isinstance(size, int) else (size.c if isinstance(size, Lin) and size.isc() else None)
    weak = st.ex.get('weak', ())
    held = frozenset(k for k in st.ex.get('held', ()) if k not in weak)
    if rw == 'w':
        st.ex['wsec'] = st.ex.get('acq', 0)
    w.acc.append((w.op, p.obj, lo, None if lo is None or sz is None else lo + sz, rw, held, ins.loc() if ins is not None else '',
                  tuple(i.loc() for i in ip.stack if i is not None), st.exact, st.cons))


ACQ = ('acquire', 'acq_rel', 'seq_cst')
REL = ('release', 'acq_rel', 'seq_cst')


def hook_rmw(ip, st, ins):
    """test-and-set on a lock flag"""
    w = W(ip)
    p, v = ip.val(st, ins.ops[0]), ip.val(st, ins.ops[1])
    if w.mode == 'off' or not isinstance(p, Ptr) or p.obj not in w.shared and w.mode == 'main':
        st.regs[ins.id] = ZERO
        return ip.store(st, p, ins.ty.size, v, ins) if isinstance(p, Ptr) else None
    if ins.x['rmw'] not in (0, 5) or not (isinstance(v, Lin) and v.isc() and v.c != 0):     # xchg, or
        if ins.x['rmw'] == 0 and isinstance(v, Lin) and v.isc() and v.c == 0:
            return release_flag(ip, st, p, ins.x['ord'], ins, lambda s: s.regs.__setitem__(ins.id, Lin(1)))
        raise Undecided("atomic update")
    return acquire_flag(ip, st, p, ins.x['ord'], ins, v)


def acquire_flag(ip, st, p, order, ins, v):
    key = loc_of(ip, p)
    out = []
    if key in st.ex.get('held', ()):
        # already ours: the flag is set
        st.regs[ins.id] = Lin(1)
        n = st.ex.get('waits', 0)
        if n > 3:
            ip.report('deadlock', "the lock is taken again by the thread that already holds it", st, ins)
            return []
        st.ex['waits'] = n + 1
        return [st]
    g = [g for g in st.mem[p.obj].segs if p.off.isc() and g.lo.isc() and g.hi.isc() and g.lo.c <= p.off.c < g.hi.c] if p.obj in st.mem else []
    if g and g[0].st == 'live' and isinstance(g[0].val, Lin) and g[0].val.isc() and g[0].val.c and not st.ex.get('acq'):
        # the flag is never written by this model: this is the value it was made with
        ip.report('deadlock', "the lock is taken from the start: nobody can ever acquire it", st, ins)
        return []
    n = st.ex.get('spin', 0)
    if n < 1 and W(ip).mode == 'main':
        s = st.fork()
        s.ex['spin'] = n + 1
        s.regs[ins.id] = Lin(1)
        out.append(s)
    for s in lock(ip, st, key, ins, order in ACQ):
        s.regs[ins.id] = ZERO
        out.append(s)
    return out


def release_flag(ip, st, p, order, ins, fin=None):
    if order not in REL:
        ip.report('order', f"the lock is released with {order} ordering: what was written under it is not published", st, ins)
    out = []
    for s in unlock(ip, st, loc_of(ip, p), ins):
        if fin:
            fin(s)
        out.append(s)
    return out


def hook_atomic_store(ip, st, p, v, ins):
    w = W(ip)
    if w.mode == 'off' or not isinstance(p, Ptr):
        return None
    if w.ctor:
        return None
    if isinstance(v, Lin) and v.isc() and v.c == 0:
        return release_flag(ip, st, p, ins.x['ord'], ins)
    raise Undecided("atomic store")


def hook_atomic_load(ip, st, p, ins):
    w = W(ip)
    if w.mode == 'off' or not isinstance(p, Ptr):
        return None
    held = loc_of(ip, p) in st.ex.get('held', ())
    out = []
    n = st.ex.get('spin', 0)
    if not held and n < 1 and w.mode == 'main':
        s = st.fork()
        s.ex['spin'] = n + 1
        s.regs[ins.id] = Lin(1)
        out.append(s)
    st.regs[ins.id] = Lin(1) if held else ZERO
    out.append(st)
    if ins.ty.kind == 'int' and ins.ty.w == 1:
        for s in out:
            s.regs[ins.id] = s.regs[ins.id].c != 0
    return out


def hook_cmpxchg(ip, st, ins):
    w = W(ip)
    p = ip.val(st, ins.ops[0])
    want, new = ip.val(st, ins.ops[1]), ip.val(st, ins.ops[2])
    if w.mode == 'off' or not isinstance(p, Ptr) or not isinstance(want, Lin) or want.c != 0 or not isinstance(new, Lin) or new.c == 0:
        raise Undecided("compare-exchange")
    out = acquire_flag(ip, st, p, ins.x['ord'], ins, new)
    for s in out:
        old = s.regs[ins.id]
        s.regs[ins.id] = ('agg', old, old.c == 0)
    return out


HOOKS = {'call': hook_call, 'access': hook_access, 'atomicrmw': hook_rmw, 'atomic_store': hook_atomic_store,
         'atomic_load': hook_atomic_load, 'cmpxchg': hook_cmpxchg}


# ---------------------------------------------------------------- reachable states

class Q:
    def __init__(self, c, tn):
        self.c, self.tn, self.cap = c, tn, PINT[tn][1]
        self.kind = tn[0]
        c.ip.world = self.w = World()
        self.total = c.call(f'sizeof_{tn}')[0].val.c
        self.n = 0

    def fresh(self):
        self.n += 1
        return f'x{self.n}'

    def explore(self):
        """[(state, model)] at the points where no operation is in progress"""
        c, tn, w = self.c, self.tn, self.w
        w.mode = 'env'
        self.p = c.obj(self.total, 'queue')
        self.states, seen = [], set()
        self.partial = None
        work = []

        def clean(st):
            st = st.fork()
            adts = st.ex.get('adt', ())
            st.ex = {'adt': adts} if adts else {}
            st.trace, st.tlen, st.sig, st.note = (), ZERO, (), ()
            return st

        def add(st, model):
            k = self.key(st, model)
            if k not in seen:
                if len(seen) > 400:
                    self.partial = "too many queue states"
                    work.clear()
                    return
                seen.add(k)
                self.states.append((clean(st), model))
                work.append((clean(st), model))
        w.ctor = True
        for o in self.run(f'ctor_{tn}', self.p):
            add(o.st, self.empty_model())
        w.ctor = False
        while work and not c.viol and not self.partial:
            st, model = work.pop(0)
            if self.cap is None and len(model) >= 2:
                pass
            else:
                c.st = st.fork()
                x = c.elem(self.fresh())
                v = c.st.mem[x.obj].segs[0].val
                for o in self.run(f'enq_{tn}', self.p, x):
                    add(self.drop(o.st, x), self.m_enq(model, v))
            if self.kind == 'D':
                c.st = st.fork()
                for o in self.run(f'swap_{tn}', self.p):
                    add(o.st, self.m_swap(model))
            if self.front(model) is not None:
                c.st = st.fork()
                c.st.ex['waits'] = 99
                r = c.raw(SZ, 'result')
                outs = self.run(f'deq_{tn}', r, self.p)
                for o in outs:
                    add(self.drop(o.st, r), self.m_deq(model))
                if not outs:
                    self.partial = "dequeue never returns although the queue holds elements"
        w.mode = 'off'
        if c.viol:
            raise Undecided("reachable states not available")

    def drop(self, st, p):
        st.mem = {i: o for i, o in st.mem.items() if i != p.obj}
        return st

    def run(self, fn, *a):
        outs = self.c.run(fn, *a)
        return [o for o in outs if o.kind == 'ret']

    def key(self, st, model):
        m = {}
        for i, v in enumerate(self.flat(model)):
            m[v] = ('Elt', 'q', Lin(i))
        ids = {}

        def f(v):
            if isinstance(v, Ptr):
                return ('ptr', ids.setdefault(v.obj, len(ids)), str(v.off))
            if isinstance(v, tuple):
                v = subst_val(v, {K: ZERO})
                return m.get(v, ('Stale',) if v and v[0] == 'Elt' else v)
            return v
        out = []
        todo = [self.p.obj]
        ids[self.p.obj] = 0
        done = set()
        while todo:
            i = todo.pop(0)
            if i in done or i not in st.mem:
                continue
            done.add(i)
            for g in norm_segs(st.mem[i].segs, st.cons):
                out.append((ids[i], str(g.lo), str(g.hi), g.st, g.typ, str(f(g.val)) if g.st == 'live' else ''))
                if isinstance(g.val, Ptr) and g.val.obj:
                    todo.append(g.val.obj)
        q = adt(st, self.p)
        out.append(len(st.ex.get('adt', ())) and [len(v) for _, v in st.ex['adt']].__str__())
        return (tuple(out), str([m.get(v) for v in self.flat(model)]), str(self.shape(model)))

    # the sequence model
    def empty_model(self):
        return ((), ()) if self.kind == 'D' else ()

    def flat(self, m):
        return m[0] + m[1] if self.kind == 'D' else m

    def shape(self, m):
        return (len(m[0]), len(m[1])) if self.kind == 'D' else len(m)

    def push(self, l, v):
        l = l + (v,)
        return l[-self.cap:] if self.cap else l

    def m_enq(self, m, v):
        return (self.push(m[0], v), m[1]) if self.kind == 'D' else self.push(m, v)

    def m_deq(self, m):
        return (m[0], m[1][1:]) if self.kind == 'D' else m[1:]

    def m_swap(self, m):
        return (m[1], m[0])

    def front(self, m):
        l = m[1] if self.kind == 'D' else m
        return l[0] if l else None

    def apply(self, m, step):
        """(model, result)"""
        if step[0] == 'enq':
            return self.m_enq(m, step[1]), None
        if step[0] == 'swap':
            return self.m_swap(m), None
        if step[0] == 'deq':
            f = self.front(m)
            return (m, None) if f is None else (self.m_deq(m), f)
        if step[0] == 'empty':
            return m, self.front(m) is None
        raise KeyError(step)

    # contents by draining
    def contents(self, o):
        c, tn = self.c, self.tn
        out = []
        cur = o.st.fork()
        cur.ex = {k: v for k, v in cur.ex.items() if k == 'adt'}
        lists = []
        self.w.mode = 'env'
        try:
            for rnd in range(2 if self.kind == 'D' else 1):
                got = []
                while True:
                    if len(got) > 8:        # more than was ever put in
                        return (tuple(got), tuple(got)) if self.kind == 'D' else tuple(got)
                    cur.ex['waits'] = 99
                    if self.kind == 'D':
                        outs, rep = c.quiet_call(f'empty_{tn}', self.p, st=cur)
                        if len(outs) != 1 or rep:
                            return None
                        e = outs[0].val
                        e = e if isinstance(e, bool) else (bool(e.c) if isinstance(e, Lin) and e.isc() else None)
                        if e is None:
                            return None
                        if e:
                            break
                    save, c.st = c.st, cur
                    r = c.raw(SZ, 'drain')
                    c.st = save
                    outs, rep = c.quiet_call(f'deq_{tn}', r, self.p, st=cur)
                    if rep or len(outs) > 1:
                        return None
                    if not outs:
                        break
                    if self.kind == 'N':
                        if not (isinstance(outs[0].val, Lin) and outs[0].val.isc()):
                            return None
                        if outs[0].val.c == 0:
                            break
                    cur = outs[0].st
                    g = cur.mem[r.obj].segs
                    if len(g) != 1 or g[0].st != 'live':
                        return None
                    got.append(at(g[0], 0))
                lists.append(tuple(got))
                if self.kind == 'D' and rnd == 0:
                    outs, rep = c.quiet_call(f'swap_{tn}', self.p, st=cur)
                    if rep or len(outs) != 1:
                        return None
                    cur = outs[0].st
        finally:
            self.w.mode = 'off'
        return (lists[1], lists[0]) if self.kind == 'D' else lists[0]


def show(m):
    if m is None:
        return 'unknown'
    if m and isinstance(m[0], tuple) and (not m[0] or isinstance(m[0][0], tuple)):
        return f"write {show(m[0])} read {show(m[1])}"
    return '[' + ' '.join(f"{v[1]}" if isinstance(v, tuple) and v and v[0] == 'Elt' else str(v) for v in m) + ']'


def env_steps(q, c):
    """what other threads may do in between"""
    tn = q.tn

    def enq(nm):
        def args(s, nm=nm):
            i = c.ip.new_obj(s, 'ext', SZ, nm, None, [Seg(ZERO, Lin(SZ), 'live', 'P', SZ, ('Elt', nm, ZERO))])
            s.mem[i] = s.mem[i]._replace(frame=0)
            return [q.p, Ptr(i, ZERO)]
        return (('enq', ('Elt', nm, ZERO)), f'enq_{tn}', args)

    def deq():
        def args(s):
            i = c.ip.new_obj(s, 'ext', SZ, 'other', None, [raw_seg(ZERO, Lin(SZ))])
            s.mem[i] = s.mem[i]._replace(frame=0)
            return [Ptr(i, ZERO), q.p]
        return (('deq',), f'deq_{tn}', args)
    if q.kind == 'D':
        sw = (('swap',), f'swap_{tn}', lambda s: [q.p])
        if q.w.op == 'enq':
            return [lambda ip: [], lambda ip: [sw], lambda ip: [enq('e1')]]
        return [lambda ip: [], lambda ip: [enq('e1')]]
    return [lambda ip: [], lambda ip: [enq('e1')], lambda ip: [enq('e1'), enq('e2')], lambda ip: [deq()], lambda ip: [enq('e1'), deq()]]


def analyse(c, tn, check):
    q = Q(c, tn)
    q.explore()
    ops = {'B': ('enq', 'deq'), 'N': ('enq', 'deq', 'empty'), 'D': ('enq', 'swap', 'deq', 'empty')}[q.kind]
    recs = {}
    notes = []
    for si, (st, model) in enumerate(q.states):
        for op in ops:
            if q.kind == 'D' and op == 'deq' and q.front(model) is None:
                continue
            c.st = st.fork()
            q.w.shared = {i for i, o in c.st.mem.items()}
            x = c.elem('x') if op == 'enq' else None
            r = c.raw(SZ, 'result') if op == 'deq' else None
            a = {'enq': [q.p, x], 'deq': [r, q.p], 'empty': [q.p], 'swap': [q.p]}[op]
            q.w.op, q.w.acc = op, []
            q.w.env = env_steps(q, c)
            q.w.mode = 'main'
            outs = c.run(f'{op}_{tn}', *a)
            q.w.mode = 'off'
            recs[(si, op)] = q.w.acc
            yield q, si, model, op, outs, r
    race(c, q, ops, recs)
    if q.partial and not c.viol:
        raise Undecided(q.partial)


def race(c, q, ops, recs):
    """two operations that may run at the same time touch the same memory, one of them writing, without a common lock"""
    pairs = [(a, b) for i, a in enumerate(ops) for b in ops[i:]] if q.kind != 'D' else [('enq', b) for b in ops]
    seen = set()
    for si in range(len(q.states)):
        for a, b in pairs:
            for ra in recs.get((si, a), ()):
                for rb in recs.get((si, b), ()):
                    if ra[1] != rb[1] or (ra[4] != 'w' and rb[4] != 'w'):
                        continue
                    c.oblig += 1
                    if ra[5] & rb[5]:
                        continue
                    if ra[2] is None or rb[2] is None or ra[3] is None or rb[3] is None:
                        c.unsure.append("race at unknown offset")
                        continue
                    if ra[3] <= rb[2] or rb[3] <= ra[2]:
                        continue
                    k = (ra[6], rb[6])
                    if k in seen:
                        continue
                    seen.add(k)
                    if not (ra[8] and rb[8]):
                        c.unsure.append("race on an approximate path")
                        continue
                    # report the unprotected side
                    u, v = (ra, rb) if not ra[5] else (rb, ra)
                    c.viol.append(Violation('race', f"{NAMES[u[0]]} {'writes' if u[4] == 'w' else 'reads'} shared state "
                                            f"{'without a lock' if not u[5] else 'under another lock'} while {NAMES[v[0]]} may {'write' if v[4] == 'w' else 'read'} it "
                                            f"(at {short(v[6])})", u[6], u[7], c.inst, {}))


NAMES = {'enq': 'enqueue', 'deq': 'dequeue', 'empty': 'the emptiness test', 'swap': 'swap_buffer'}


def mk(tn):
    kind = tn[0]
    D = PINT[tn][0].split('<')[0]

    def discipline(c):
        for q, si, model, op, outs, r in analyse(c, tn, 'lock'):
            for o in outs:
                c.oblig += 1
                if o.st.ex.get('held'):
                    c.fail(o, 'held', f"{D}::{NAMES[op]} {'throws' if o.kind == 'throw' else 'returns'} without releasing its lock")
            if c.viol:
                return
    SC.append(Scenario(f'{tn}.lock_discipline', ('C21' if kind != 'D' else 'C23',), discipline, 'conc', unroll=True))

    def linear(c):
        empties = []
        for q, si, model, op, outs, r in analyse(c, tn, 'values'):
            got_any = False
            for o in outs:
                if o.kind != 'ret':
                    if 'libthrow' not in o.st.note:
                        c.fail(o, 'throws', f"{NAMES[op]} throws")
                    continue
                got_any = True
                c.oblig += 1
                me = {'enq': ('enq', ('Elt', 'x', ZERO)), 'deq': ('deq',), 'empty': ('empty',), 'swap': ('swap',)}[op]
                res = result(c, o, op, q, r)
                if res == 'unknown':
                    c.unsure.append("result not determined")
                    continue
                env = list(o.st.ex.get('env', ()))
                fin = q.contents(o)
                if fin is None:
                    c.unsure.append("contents not determined")
                    continue
                ok, want = False, []
                for pos in range(len(env) + 1):
                    m, mine, good = model, None, True
                    for k, e in enumerate(env[:pos] + [me] + env[pos:]):
                        m2, v = q.apply(m, e)
                        if k == pos:
                            mine = v
                            # a blocking dequeue takes effect only when there is an element
                            if kind == 'B' and op == 'deq' and v is None:
                                good = False
                        m = m2
                    if good:
                        want.append((mine, m))
                        if mine == res and m == fin:
                            ok = True
                if not ok:
                    w = want[-1] if want else None
                    c.fail(o, 'fifo', f"{D}::{NAMES[op]} on {show(model)}" + (f" with interference {[e[0] for e in env]}" if env else '') +
                           f" gives {sv(res)} and leaves {show(fin)}" +
                           (f", expected {sv(w[0])} and {show(w[1])}" if w else ", expected to wait for an element"))
                    return
            if kind == 'B' and op == 'deq' and q.front(model) is not None and not got_any and not c.viol:
                c.fail(Outcome('ret', c.st, None), 'wait', f"dequeue waits although the queue holds {show(model)}")
            if kind != 'B' and not got_any and not c.viol and outs is not None and not c.unsure:
                c.fail(Outcome('ret', c.st, None), 'wait', f"{NAMES[op]} never returns")
            if c.viol:
                return
    SC.append(Scenario(f'{tn}.fifo', ('C22' if kind != 'D' else 'C23',), linear, 'conc', unroll=True))

    def wake(c):
        paths = []
        conds = set()
        for q, si, model, op, outs, r in analyse(c, tn, 'wake'):
            for o in outs:
                if o.kind != 'ret':
                    continue
                if op == 'deq':
                    conds |= set(o.st.ex.get('cond', ()))
                if op == 'enq':
                    sec = o.st.ex.get('wsec', 0)
                    notes = [n for n in o.st.ex.get('notes', ()) if n[1] >= sec and n[1] > 0]
                    paths.append((o, model, notes))
            if op == 'deq' and q.front(model) is None:
                c.oblig += 1
                if not any(o.st.ex.get('env') for o in outs) and not c.viol and not c.unsure:
                    c.fail(Outcome('ret', c.st, None), 'wake', "a dequeue that found the queue empty does not return after an element has arrived")
            if c.viol:
                return
        empties_all = all(any(k == 'all' for k, _, cd in notes) for o, m, notes in paths if not m)
        for o, m, notes in paths:
            c.oblig += 1
            if [n for n in notes if not conds or n[2] in conds]:
                continue
            if m and (empties_all or (PINT[tn][1] and len(m) >= PINT[tn][1])):
                continue
            c.fail(o, 'wake', f"enqueue on {show(m)} does not notify a waiting consumer" +
                   (" (the notification precedes the insertion)" if o.st.ex.get('notes') else ''))
            return
    if kind == 'B':
        SC.append(Scenario(f'{tn}.wakeup', ('C22',), wake, 'conc', unroll=True))

    def ends(c):
        q = Q(c, tn)
        q.explore()
        for st, model in q.states:
            for op in ('destroy', 'copy', 'move'):
                c.st = st.fork()
                other = c.raw(q.total, 'copy')
                q.w.mode = 'off'
                sts = [(c.st.fork(), [q.p])]
                if op != 'destroy':
                    sts = []
                    for o in c.run(f'{op}_{tn}', other, q.p):
                        if o.kind == 'ret' and isinstance(o.val, Lin) and o.val.isc():
                            if o.val.c:
                                sts.append((o.st, [q.p, other]))
                            c.oblig += 1
                for s, ps in sts:
                    cur = [s]
                    for p in ps:
                        nx = []
                        for s1 in cur:
                            outs = c.call(f'dtor_{tn}', p, st=s1)
                            c.collect()
                            nx += [o.st for o in outs if o.kind == 'ret']
                        cur = nx
                    for s1 in cur:
                        c.oblig += 1
                        for i, ob in s1.mem.items():
                            if ob.kind == 'heap' and ob.alive:
                                c.fail(Outcome('ret', s1, None), 'leak', f"storage of {D} is not released by its destructor")
                            if i in [p.obj for p in ps] and any(g.st == 'live' and g.typ == 'P' for g in norm_segs(ob.segs, s1.cons)):
                                c.fail(Outcome('ret', s1, None), 'leak_elem', f"elements of {D} are not destroyed")
                if c.viol:
                    return
        if q.partial:
            raise Undecided(q.partial)
    SC.append(Scenario(f'{tn}.destruction', ('C21' if kind != 'D' else 'C23', 'C01'), ends, 'conc', unroll=True))


def result(c, o, op, q, r):
    if op in ('enq', 'swap'):
        return None
    if op == 'empty':
        v = o.val
        if isinstance(v, bool):
            return v
        return bool(v.c) if isinstance(v, Lin) and v.isc() else 'unknown'
    if q.kind == 'N':
        if not (isinstance(o.val, Lin) and o.val.isc()):
            return 'unknown'
        if o.val.c == 0:
            return None
    g = norm_segs(o.st.mem[r.obj].segs, o.st.cons)
    if len(g) != 1 or g[0].st != 'live' or g[0].typ != 'P':
        return 'unknown'
    return at(g[0], 0)


def sv(v):
    return 'nothing' if v is None else (show((v,))[1:-1] if not isinstance(v, bool) else str(v))


for _t in PINT:
    mk(_t)
