"""Vcb and Vcq: collecting semantics.  For a fixed capacity the representation of a ring has finitely many
states up to renaming of the (opaque) elements; they are enumerated to a fixpoint by abstract execution of the
public operations, and every operation is checked in every reachable state against the sequence model."""
from spec import *

DRIVER = 'cyc.cpp'
TYPES = {}
SC = []
SHARDS = 4
SZ = 24
_name = [0]


def nm():
    _name[0] += 1
    return f'x{_name[0]}'


class Ring:
    def __init__(self, c, tn, cap, queue):
        self.c, self.tn, self.cap, self.queue = c, tn, cap, queue
        self.total = c.call(f'sizeof_{tn}')[0].val.c
        self.T, self.sz, self.D = ('int', 4, ZERO) if tn.endswith('i') else ('P', SZ, DEFAULT)
        self.seen = {}
        self.order = []

    def observe(self, o, p, model, what):
        """every accessor agrees with the model sequence"""
        c, tn = self.c, self.tn
        n = len(model)
        for fn in (f'size_{tn}', f'length_{tn}'):
            for r in self.acc(o, fn, p):
                v = r.val
                c.oblig += 1
                if v == UNDEF:
                    c.fail(o, 'content', f"{what}: {fn.split('_')[0]}() is uninitialised")
                    return False
                if not (isinstance(v, Lin) and v.isc()):
                    c.unsure.append('size not determined')
                    return False
                if v.c != n:
                    c.fail(o, 'content', f"{what}: {fn.split('_')[0]}() is {v.c}, expected {n} ({show(model)})")
                    return False
        for r in self.acc(o, f'empty_{tn}', p):
            for s, b in c.ip.resolve(r.st, r.val, None):
                c.oblig += 1
                if b != (n == 0):
                    c.fail(o, 'content', f"{what}: empty() is {b} with {n} elements")
                    return False
        ok = True
        for i in range(n):
            for fn in ('at', 'cat', 'nth', 'cnth'):
                for r in self.acc(o, f'{fn}_{tn}', p, Lin(i)):
                    ok &= self.at(o, r.val, model[i], f"{what}: element {i} of {show(model)}")
                if not ok:
                    return False
        its = []
        for fn in ('begin', 'cbegin', 'data', 'cdata', 'tdata', 'end', 'cend'):
            rs = self.acc(o, f'{fn}_{tn}', p)
            if len(rs) == 1 and rs[0].val == UNDEF:
                c.fail(o, 'content', f"{what}: {fn}() is uninitialised")
                return False
            if len(rs) != 1 or not isinstance(rs[0].val, Ptr):
                c.unsure.append(f'{fn} not determined')
                return False
            its.append(rs[0].val)
        for a in its[:5]:
            if n:
                for i in range(n):
                    ok &= self.at(o, Ptr(a.obj, a.off + i * self.sz), model[i], f"{what}: iteration, element {i}")
                    if not ok:
                        return False
        for b, e in ((its[0], its[5]), (its[1], its[6])):
            c.oblig += 1
            if b.obj != e.obj or not entails_eq(o.st.cons, e.off - b.off - n * self.sz):
                c.fail(o, 'content', f"{what}: iteration covers {(e.off - b.off).div(self.sz)} elements, expected {n}")
                return False
        return ok

    def acc(self, o, fn, *a):
        outs, rep = self.c.quiet_call(fn, *a, st=o.st)
        for r in rep:
            if r.exact:
                self.c.viol.append(Violation(r.kind, r.msg, r.loc, r.stack, self.c.inst, {}))
        return outs

    def at(self, o, ptr, want, what):
        c = self.c
        c.oblig += 1
        if self.T == 'int':
            if ptr == UNDEF:
                c.fail(o, 'content', f"{what} is uninitialised")
                return False
            if not isinstance(ptr, Ptr):
                c.unsure.append(what)
                return False
            A = c.slice_obj(o, ptr.obj, ptr.off, ptr.off + 4)
            return A is not None and c.match(o, A, [Seg(ptr.off, ptr.off + 4, 'live', 's', 4, want)], 'content', what) is not False
        s = o.st.fork()
        with c.ip.capture() as rep:
            r = c.ip.p_content(s, 'P', SZ, ptr, None, what, 'read_dead')
        if rep:
            c.fail(o, 'content', f"{what}: {rep[0].msg}")
            return False
        if len(r) != 1:
            c.unsure.append(what)
            return False
        if r[0][1] != want:
            c.fail(o, 'content', f"{what} is {short_v(r[0][1])}, expected {short_v(want)}")
            return False
        return True

    def canon(self, segs, oid, model):
        """rename the model's elements to q[0..)"""
        m = {}
        for i, v in enumerate(model):
            if isinstance(v, tuple) and v[0] == 'Elt':
                m[v] = ('Elt', 'q', Lin(i))

        def f(v):
            if isinstance(v, Ptr):
                return Ptr('self', v.off) if v.obj == oid else v
            v = subst_val(v, {K: ZERO})
            return m.get(v, ('Stale',) if isinstance(v, tuple) and v and v[0] == 'Elt' else v)
        out = []
        for g in segs:
            n = 1
            if g.st == 'live' and g.typ == 'P':
                n = (g.hi.c - g.lo.c) // SZ
                for k in range(n):
                    out.append(Seg(Lin(g.lo.c + k * SZ), Lin(g.lo.c + (k + 1) * SZ), 'live', 'P', SZ, f(at(g, k))))
            elif self.T == 'int' and g.st == 'live' and g.stride == 4 and g.hi.c - g.lo.c > 4:
                for k in range((g.hi.c - g.lo.c) // 4):
                    out.append(Seg(Lin(g.lo.c + k * 4), Lin(g.lo.c + (k + 1) * 4), 'live', g.typ, 4, f(at(g, k))))
            elif g.st == 'raw' and out and out[-1].st == 'raw':
                out[-1] = out[-1]._replace(hi=g.hi)
            else:
                out.append(g._replace(val=f(g.val)))
        return tuple(out), [m.get(v, v) for v in model]

    def add(self, o, p, model):
        segs = o.st.mem[p.obj].segs
        if any(not g.lo.isc() or not g.hi.isc() for g in segs):
            raise Undecided("ring state not concrete")
        key, model = self.canon(norm_segs(segs, frozenset()), p.obj, model)
        k = (key, tuple(model))
        if k not in self.seen:
            if len(self.seen) > 1500:
                raise Undecided("too many ring states")
            self.seen[k] = len(self.order)
            self.order.append(k)

    def place(self, k, name, tag='q'):
        """recreate state k in the scenario's state; returns (pointer, model)"""
        c = self.c
        p = c.obj(self.total, name)
        segs = []

        def f(v):
            if isinstance(v, Ptr):
                return Ptr(p.obj, v.off) if v.obj == 'self' else v
            if isinstance(v, tuple) and len(v) == 3 and v[0] == 'Elt' and v[1] == 'q':
                return ('Elt', tag, v[2])
            return v
        for g in k[0]:
            segs.append(g._replace(val=f(g.val)))
        c.st.mem[p.obj] = c.st.mem[p.obj]._replace(segs=norm_segs(segs, frozenset()))
        return p, [f(v) for v in k[1]]

    def reset(self):
        self.c.st = State()
        self.c.ip.globals = {}

    def rets(self, outs, what):
        for o in outs:
            if o.kind != 'ret':
                self.c.fail(o, 'throws', f"{what} throws")
        return [o for o in outs if o.kind == 'ret']

    def after_push(self, model, x):
        m = model + [x]
        return m[-self.cap:]

    def explore(self, check):
        c, tn = self.c, self.tn
        self.reset()
        p = c.obj(self.total, 'ring')
        for o in self.rets(c.run(f'ctor_{tn}', p), 'construction'):
            model = [] if self.queue else [self.D] * self.cap
            if check and not self.observe(o, p, model, 'after construction'):
                return False
            self.add(o, p, model)
        i = 0
        while i < len(self.order):
            k = self.order[i]
            i += 1
            self.reset()
            p, model = self.place(k, 'ring')
            x = c.elem('x', self.T)
            for o in self.rets(c.run(f'push_{tn}', p, x), 'push_back'):
                m2 = self.after_push(model, elt('x'))
                if check and not self.observe(o, p, m2, f'push_back on {show(model)}'):
                    return False
                self.add(o, p, m2)
            if c.viol:
                return False
            if self.queue and model:
                self.reset()
                p, model = self.place(k, 'ring')
                r = c.raw(self.sz, 'result')
                for o in self.rets(c.run(f'pop_{tn}', r, p), 'pop_front'):
                    if check:
                        if not self.at(o, r, model[0], f'pop_front on {show(model)}: result'):
                            return False
                        if not self.observe(o, p, model[1:], f'pop_front on {show(model)}'):
                            return False
                    self.add(o, p, model[1:])
                if c.viol:
                    return False
        return True


def short_v(v):
    if v == DEFAULT:
        return 'default'
    if v == MOVED:
        return 'moved-from'
    if isinstance(v, tuple) and v and v[0] == 'Elt':
        return f"{v[1]}{v[2]}"
    return str(v)


def show(model):
    return '[' + ' '.join(short_v(v) for v in model) + ']'


def mk(tn, cap, queue):
    kind = 'C09' if queue else 'C08'

    def history(c):
        Ring(c, tn, cap, queue).explore(True)
    SC.append(Scenario(f'{tn}.history', (kind,), history, DRIVER, unroll=True))

    def states(c):
        r = Ring(c, tn, cap, queue)
        with_v = c.viol
        r.explore(False)
        if c.viol:
            # the transition itself is broken: reported by the history scenario as well
            raise Undecided("reachable states not available")
        return r

    def lifetime(c):
        r = states(c)
        for k in list(r.order):
            r.reset()
            p, model = r.place(k, 'ring')
            for o in r.rets(c.run(f'dtor_{tn}', p), 'destruction'):
                c.oblig += 1
                if any(g.st == 'live' and g.typ == 'P' for g in norm_segs(o.st.mem[p.obj].segs, o.st.cons)):
                    c.fail(o, 'leak_elem', f"destroying {show(model)} leaves elements alive")
                    return
            if c.viol:
                return
    SC.append(Scenario(f'{tn}.destroy', (kind, 'C01'), lifetime, DRIVER, unroll=True))

    def own(c):
        r = states(c)
        for k in list(r.order):
            for i in range(len(k[1])):
                r.reset()
                p, model = r.place(k, 'ring')
                o0 = Outcome('ret', c.st, None)
                a = r.acc(o0, f'cat_{tn}', p, Lin(i))[0].val
                for o in r.rets(c.run(f'push_{tn}', p, a), 'push_back'):
                    if not r.observe(o, p, r.after_push(model, model[i]), f'push_back of own element {i} on {show(model)}'):
                        return
                if c.viol:
                    return
    SC.append(Scenario(f'{tn}.push_own_element', (kind, 'C06'), own, DRIVER, unroll=True))

    def write(c):
        r = states(c)
        for k in list(r.order):
            for i in range(len(k[1])):
                r.reset()
                p, model = r.place(k, 'ring')
                for o in r.rets(c.run(f'set_{tn}', p, Lin(i), c.elem('z', r.T)), 'assignment'):
                    if not r.observe(o, p, model[:i] + [elt('z')] + model[i + 1:], f'assigning element {i} of {show(model)}'):
                        return
                if c.viol:
                    return
    SC.append(Scenario(f'{tn}.write', (kind,), write, DRIVER, unroll=True))

    def write_survives(c):
        """an assigned element keeps its value while newer elements are pushed"""
        r = states(c)
        for k in list(r.order):
            for i in range(len(k[1])):
                r.reset()
                p, model = r.place(k, 'ring')
                todo = [(o, model[:i] + [elt('z')] + model[i + 1:]) for o in r.rets(c.run(f'set_{tn}', p, Lin(i), c.elem('z', r.T)), 'assignment')]
                for n in range(cap):
                    nx = []
                    for o, m in todo:
                        c.st = o.st
                        x = c.elem(f'y{n}', r.T)
                        for o2 in r.rets(c.run(f'push_{tn}', p, x), 'push_back'):
                            m2 = r.after_push(m, elt(f'y{n}'))
                            if elt('z') in m2:
                                j = m2.index(elt('z'))
                                outs = r.acc(o2, f'cat_{tn}', p, Lin(j))
                                with c.ip.capture() as rep:
                                    v = c.ip.p_content(o2.st.fork(), 'P', SZ, outs[0].val, None, '', 'read_dead')
                                c.oblig += 1
                                if rep or v[0][1] != elt('z'):
                                    c.fail(o2, 'content', f"an element assigned through operator[] loses its new value when the ring wraps (capacity {cap})")
                                    return
                            nx.append((o2, m2))
                    todo = nx
                if c.viol:
                    return
    if not tn.endswith('i'):
        SC.append(Scenario(f'{tn}.write_survives', (kind,), write_survives, DRIVER, unroll=True))

    def copies(c):
        r = states(c)
        base = len(r.order)
        for k in r.order[:base]:
            for op in ('copy', 'move', 'selfc', 'selfm'):
                r.reset()
                p, model = r.place(k, 'source')
                if op in ('selfc', 'selfm'):
                    for o in r.rets(c.run(f'{"c" if op == "selfc" else "m"}assign_{tn}', p, p), 'self-assignment'):
                        if not r.observe(o, p, model, f'self-assignment of {show(model)}'):
                            return
                        if not destroy(c, r, o, [p]):
                            return
                else:
                    q = c.obj(r.total, 'target')
                    for o in r.rets(c.run(f'{op}_{tn}', q, p), op):
                        if not r.observe(o, q, model, f'{op} construction from {show(model)}'):
                            return
                        if op == 'copy' and not r.observe(o, p, model, f'source of a copy of {show(model)}'):
                            return
                        if not usable(c, r, o, q, model) or not destroy(c, r, o, [q, p]):
                            return
                if c.viol:
                    return
    SC.append(Scenario(f'{tn}.copy_move', ('C10', 'C01'), copies, DRIVER, unroll=True))

    def assigns(c):
        r = states(c)
        base = len(r.order)
        ks = r.order[:base]
        for k in ks:
            for k2 in ks:
                for op in ('cassign', 'massign'):
                    r.reset()
                    p, model = r.place(k, 'source')
                    q, m2 = r.place(k2, 'target', 'w')
                    for o in r.rets(c.run(f'{op}_{tn}', q, p), op):
                        w = 'copy' if op == 'cassign' else 'move'
                        if not r.observe(o, q, model, f'{w} assignment of {show(model)} to {show(m2)}'):
                            return
                        if op == 'cassign' and not r.observe(o, p, model, 'source of an assignment'):
                            return
                        if not usable(c, r, o, q, model):
                            return
                        if not destroy(c, r, o, [q, p]):
                            return
                    if c.viol:
                        return
    SC.append(Scenario(f'{tn}.assign', ('C10', 'C01'), assigns, DRIVER, unroll=True, tier='thorough' if cap > 3 else 'quick'))


def usable(c, r, o, p, model):
    """further pushes on the new object behave"""
    for n in range(r.cap + 1):
        c.st = o.st.fork()
        x = c.elem(f'y{n}', r.T)
        outs = r.rets(c.run(f'push_{r.tn}', p, x), 'push_back')
        m2 = r.after_push(model, elt(f'y{n}'))
        for o2 in outs:
            if not r.observe(o2, p, m2, f'push_back on a copy of {show(model)}'):
                return False
        if c.viol or len(outs) != 1:
            return not c.viol
        o, model = outs[0], m2
    return not c.viol


def destroy(c, r, o, ps):
    sts = [o.st]
    for p in ps:
        nx = []
        for s in sts:
            outs = c.call(f'dtor_{r.tn}', p, st=s)
            c.collect()
            nx += [x.st for x in outs if x.kind == 'ret']
        sts = nx
    for s in sts:
        for p in ps:
            c.oblig += 1
            if any(g.st == 'live' and g.typ == 'P' for g in norm_segs(s.mem[p.obj].segs, s.cons)):
                c.fail(Outcome('ret', s, None), 'leak_elem', "elements are alive after destruction")
                return False
    return not c.viol


def long(tn, cap, queue):
    kind = 'C09' if queue else 'C08'

    def run(c):
        """a ring larger than an 8-bit index reaches, through several turns"""
        c.ip.unroll = 4 * cap + 40
        r = Ring(c, tn, cap, queue)
        p = c.obj(r.total, 'ring')
        model = [] if queue else [DEFAULT] * cap
        outs = r.rets(c.run(f'ctor_{tn}', p), 'construction')
        total = cap + cap * 9 // 10
        looks = {1, 2, cap - 1, cap, cap + 1, total}

        def look(o, what):
            n = len(model)
            for fn, v in ((f'size_{tn}', n), (f'length_{tn}', n)):
                for x in r.acc(o, fn, p):
                    c.oblig += 1
                    if not (isinstance(x.val, Lin) and x.val.isc()):
                        c.unsure.append('size not determined')
                    elif x.val.c != v:
                        c.fail(o, 'content', f"{what}: {fn.split('_')[0]}() is {x.val.c}, expected {v}")
                        return False
            for i in sorted({0, 1, n // 2, n - 2, n - 1} & set(range(n))):
                for x in r.acc(o, f'cat_{tn}', p, Lin(i)):
                    if not r.at(o, x.val, model[i], f'{what}: element {i}'):
                        return False
            return True
        def copied(o1, what):
            nonlocal p
            for fn in ('copy', 'move', 'cassign', 'massign'):
                c.st = o1.st.fork()
                q = c.obj(r.total, fn)
                if fn.endswith('assign'):
                    c.st = r.rets(c.run(f'ctor_{tn}', q), 'construction')[0].st
                for o in r.rets(c.run(f'{fn}_{tn}', q, p), fn):
                    p0, p = p, q
                    ok = look(o, f'{fn} {what}')
                    p = p0
                    if not ok:
                        return False
            return not c.viol

        for k in range(total):
            if len(outs) != 1:
                if not c.viol:
                    raise Undecided('ring operation with several outcomes')
                return
            c.st = outs[0].st
            x = c.elem(f'x{k}')
            outs = r.rets(c.run(f'push_{tn}', p, x), 'push_back')
            for o in outs:
                o.st.mem.pop(x.obj, None)
            model = r.after_push(model, elt(f'x{k}'))
            if c.viol:
                return
            if k + 1 in looks and not all(look(o, f'after {k + 1} elements') for o in outs):
                return
        if not copied(outs[0], f'after {total} elements'):
            return
        if queue:
            for k in range(cap):
                c.st = outs[0].st
                d = c.raw(SZ, 'result')
                outs = r.rets(c.run(f'pop_{tn}', d, p), 'pop_front')
                if len(outs) != 1 or c.viol or not r.at(outs[0], d, model[0], f'pop_front of element {k}'):
                    return
                outs[0].st.mem.pop(d.obj, None)
                model = model[1:]
                if k + 1 in (1, 10, cap // 2, cap) and not look(outs[0], f'after removing {k + 1} of {cap} elements'):
                    return
                if k + 1 == 10 and not copied(outs[0], f'after removing {k + 1} of {cap} elements'):
                    return
    SC.append(Scenario(f'{tn}.long', (kind, 'C10'), run, DRIVER, unroll=True))


long('CBL', 300, False)
long('CQL', 300, True)
mk('CB3i', 3, False)
mk('CQ3i', 3, True)
for _n in (1, 2, 3, 5):
    mk(f'CB{_n}', _n, False)
    mk(f'CQ{_n}', _n, True)
