"""Scenarios: a public operation is analysed from an arbitrary well-formed abstract state and its outcomes are
compared with a specification over sequences."""
import os
import re
import subprocess
import sys
import time
import traceback
from dom import *
from state import *
from interp import Interp, PROBE_SIZE
import ir as IR

CLANG = '/usr/lib/llvm-18/bin/clang++'
OPT = '/usr/lib/llvm-18/bin/opt'
if not os.path.exists(CLANG):
    CLANG = 'clang++'
if not os.path.exists(OPT):
    OPT = 'opt'

REPO = os.environ.get('VP_REPO', '/repo')
DRIVERS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'drivers')


class BuildError(Exception):
    pass


def driver_source(M, tmp, tier):
    if hasattr(M, 'source'):
        p = os.path.join(tmp, M.__name__ + '.cpp')
        with open(p, 'w') as f:
            f.write(M.source(tier))
        return p
    return os.path.join(DRIVERS, M.DRIVER)


def compile_ir(src, out, std='c++17', defs=()):
    cmd = [CLANG, f'-std={std}', '-O1', '-fsized-deallocation', '-Xclang', '-disable-llvm-passes', '-gline-tables-only', '-fno-discard-value-names',
           '-w', '-I', os.path.join(REPO, 'include'), '-I', DRIVERS, '-emit-llvm', '-c', src, '-o', out + '.raw']
    cmd += [f'-D{d}' for d in defs]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError(r.stderr[-3000:])
    r = subprocess.run([OPT, '-passes=function(sroa)', out + '.raw', '-o', out], capture_output=True, text=True)
    if r.returncode:
        raise BuildError(r.stderr[-3000:])
    os.unlink(out + '.raw')
    return IR.Module(out)


class Fail(Exception):
    """a definite mismatch"""


class Violation:
    def __init__(self, kind, msg, loc, stack, inst, model=None, fn='', op=''):
        self.kind, self.msg, self.loc, self.stack, self.inst, self.model, self.fn = kind, msg, loc, stack, inst, model, fn
        self.op = op

    def text(self):
        s = f"[{self.kind}] {self.msg}"
        if self.loc:
            s += f"\n    at {short(self.loc)}"
        for x in reversed(self.stack):
            if x:
                s += f"\n    from {short(x)}"
        if self.op:
            s += f"\n    operation {self.op}"
        s += f"\n    scenario {self.inst}"
        if self.model:
            s += "\n    e.g. " + ", ".join(f"{k.split('#')[0]}={v}" for k, v in sorted(self.model.items()))
        return s


def demangle(n):
    for t in ('c++filt', '/usr/lib/llvm-18/bin/llvm-cxxfilt', 'llvm-cxxfilt-18'):
        try:
            return subprocess.run([t, n], capture_output=True, text=True).stdout.strip() or n
        except OSError:
            continue
    return n


def short(l):
    return l.replace(REPO + '/', '')


def run_elt(name, lo, hi):
    """run of hi-lo elements name[lo..hi)"""
    return (L(hi) - L(lo), ('Elt', name, KAPPA + L(lo)))


def one(v):
    return (ONE, v)


def rep(n, v):
    return (L(n), v)


def elt(name, i=0):
    return ('Elt', name, L(i))


def strip_refs(v):
    if isinstance(v, Lin) or isinstance(v, Ptr):
        return v
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == 'ref':
            return strip_refs(v[2])
        return tuple(strip_refs(x) if isinstance(x, tuple) else x for x in v)
    return v


def runs_len(runs):
    n = ZERO
    for w, _ in runs:
        n = n + w
    return n


def runs_segs(runs, T, sz, base=ZERO):
    out = []
    p = base
    for w, v in runs:
        out.append(Seg(p, p + w * sz, 'live', T, sz, v))
        p = p + w * sz
    return out, p


def concretize(segs, m, sz=None):
    """explicit list of the contents under a model (elements), or None"""
    out = []
    mm = {k: Lin(v) for k, v in m.items()}
    for s in segs:
        lo, hi = s.lo.subst(mm), s.hi.subst(mm)
        if not lo.isc() or not hi.isc():
            return None
        st = s.stride if isinstance(s, Seg) else 1
        w = hi.c - lo.c
        if w <= 0:
            continue
        if isinstance(s, Seg) and s.st != 'live':
            out.append((s.st, lo.c, w))
            continue
        n = w // st
        if n > 70000:
            return None
        for k in range(n):
            out.append((s.typ if isinstance(s, Seg) else '', lo.c + k * st, subst_val(subst_val(s.val, {K: Lin(k)}), mm)))
    # merge raw
    res = []
    for x in out:
        if res and x[0] in ('raw', 'any') and res[-1][0] == x[0]:
            res[-1] = (x[0], res[-1][1], res[-1][2] + x[2])
        else:
            res.append(x)
    return res


def has_sym(v):
    s = set()
    val_syms(v, s)
    s.discard(K)
    return bool(s)


class Outcome:
    def __init__(self, kind, st, val):
        self.kind, self.st, self.val = kind, st, val


class Ctx:
    def __init__(self, eng, name, script, const, want=None):
        self.want = want
        self.eng = eng
        self.mod = eng.mod
        self.name = name
        self.script = list(script)
        self.pos = 0
        self.const = const
        self.picked = []
        self.alts = []          # number of alternatives at each choice
        self.kinds = []
        self.ip = Interp(eng.mod, dict(eng.hooks), unroll=40 if const else 0)
        self.st = State()
        self.viol = []
        self.unsure = []
        self.oblig = 0
        self.labels = []
        self.last_fn = ''
        self.sampled = False     # some size was enumerated up to a bound only
        self.big = eng.big       # (i, k, p): the i-th size is k, the others are small, predicates answer as p says
        self.nums = 0
        if self.big:
            self.ip.unroll = 4 * self.big[1] + 40
            self.ip.oracle = self.big[2]
            self.ip.bigk = self.big[1]

    # ------------------------------------------------------------ choices
    def _choose(self, opts, kind):
        if self.pos < len(self.script):
            i = self.script[self.pos]
        else:
            i = 0
            self.script.append(0)
        self.alts.append(len(opts))
        self.kinds.append(kind)
        self.pos += 1
        return opts[i]

    def case(self, name, opts):
        v = self._choose(list(opts), 'case')
        self.labels.append(f"{name}={v}")
        if self.want is not None:
            i = sum(k == 'case' for k in self.kinds) - 1
            if i < len(self.want) and self.want[i] != self.labels[-1]:
                raise Skip()
        return v

    def num(self, name, lo=0, hi=None, span=3):
        """an arbitrary integer lo <= x (<= hi)"""
        lo = L(lo)
        hi = L(hi) if hi is not None else None
        if self.const and self.big:
            self.nums += 1
            i, k = self.big[:2]
            if self.nums - 1 == i or i < 0:
                if k < lo.c or hi is not None and k > hi.c:
                    raise Skip()
                self.labels.append(f"{name}={k}")
                return Lin(k)
            a = min(lo.c + 1, hi.c) if hi is not None else lo.c + 1
            v = self._choose(sorted({lo.c, a}) if self.nums - 1 < i else [a], 'num')
            self.labels.append(f"{name}={v}")
            return Lin(v)
        if self.const:
            a = lo.c
            b = hi.c if hi is not None else a + span
            if hi is not None and b - a > 8:
                vals = [a, a + 1, a + 2, b - 1, b]
            else:
                vals = list(range(a, b + 1))
            if not vals:
                raise Skip()
            if hi is None or b - a > 8:
                self.sampled = True
            v = self._choose(vals, 'num')
            self.labels.append(f"{name}={v}")
            return Lin(v)
        s = sym(fresh(name))
        self.st.assume(s - lo)
        if hi is not None:
            if not feasible_with(self.st.cons, hi - s):
                raise Skip()
            self.st.assume(hi - s)
        return s

    def assume(self, *es):
        for e in es:
            e = L(e)
            if not feasible_with(self.st.cons, e):
                raise Skip()
            self.st.assume(e)

    @property
    def inst(self):
        return self.name + ('[' + ','.join(self.labels) + ']' if self.labels else '')

    # ------------------------------------------------------------ objects
    def obj(self, size, name, segs=None, kind='ext', family=None):
        i = self.ip.new_obj(self.st, kind, size, name, family, segs)
        self.st.mem[i] = self.st.mem[i]._replace(frame=0)
        return Ptr(i, ZERO)

    def elem(self, name, T='P'):
        sz = tsize(T)
        tt = 's' if T in SCALARS else T
        return self.obj(sz, name, [Seg(ZERO, L(sz), 'live', tt, sz, ('Elt', name, ZERO))])

    def raw(self, size, name):
        return self.obj(size, name)

    def scalar(self, name, val, size):
        return self.obj(size, name, [Seg(ZERO, L(size), 'live', 's', size, val)])

    def elems(self, name, n, T='P', cname=None):
        """an external array of n live elements"""
        sz = tsize(T)
        tt = 's' if T in SCALARS else T
        return self.obj(L(n) * sz, name, [Seg(ZERO, L(n) * sz, 'live', tt, sz, ('Elt', cname or name, KAPPA))])

    # ------------------------------------------------------------ execution
    def call(self, fn, *args, st=None):
        F = self.mod.fn(fn)
        if F is None or F.decl:
            raise BuildError("driver function missing: " + fn)
        s = st if st is not None else self.st.fork()
        s.regs = {}
        nrep = len(self.ip.reports)
        outs = self.ip.exec_fn(F, list(args), s)
        return [Outcome(k, s, v) for k, s, v in outs]

    def opname(self):
        return self.eng.opname(self.last_fn) if self.last_fn else ''

    def run(self, fn, *args):
        """analyse the operation; reports become violations"""
        self.last_fn = fn
        outs = self.call(fn, *args)
        self.collect()
        if any(o.st.mem[g].segs != i for o in outs for g, i in self.ip.ginit.items() if g in o.st.mem):
            more = []
            for s in self.again(outs):
                more += self.call(fn, *args, st=s)
            self.collect()
            outs = outs + more
        return outs

    def again(self, outs, most=4):
        """start states of a further, independent call: static variables as an earlier call has left them"""
        seen, res = set(), []
        for o in outs:
            st, new, todo = o.st, {}, []
            for g, init in self.ip.ginit.items():
                if g in st.mem and st.mem[g].segs != (self.st.mem[g].segs if g in self.st.mem else init):
                    todo.append(g)
            while todo:
                g = todo.pop()
                if g in new:
                    continue
                new[g] = st.mem[g]
                objs = set()
                for x in st.mem[g].segs:
                    val_objs(x.val, objs)
                todo += [x for x in objs if x in st.mem and x not in new and st.mem[x].kind not in ('const', 'func')]
            new = {g: x for g, x in new.items() if x.kind != 'const'}
            if not new or any(x.kind != 'global' and (g in self.st.mem or x.kind != 'heap') for g, x in new.items()):
                continue
            syms = set()
            for c in st.cons:
                val_syms(c, syms)
            for x in new.values():
                val_syms(x.size, syms)
                for y in x.segs:
                    for v in (y.lo, y.hi, y.val):
                        val_syms(v, syms)
            syms.discard(K)
            m = {k: sym(fresh(k.split('#')[0])) for k in syms}

            def old(v):
                if isinstance(v, Ptr):
                    return v
                if isinstance(v, tuple):
                    if len(v) == 3 and v[0] in ('Elt', 'Ret', 'Chr'):
                        return (v[0], f'earlier {v[1]}') + tuple(old(x) for x in v[2:])
                    return tuple(old(x) for x in v)
                return v
            key = tuple(sorted((g, tuple((y.st, y.typ, str(y.val)) for y in x.segs)) for g, x in new.items()))
            if key in seen or len(res) >= most:
                continue
            seen.add(key)
            s = self.st.fork()
            s.exact = s.exact and st.exact
            for c in st.cons:
                c = subst_val(c, m)
                if not feasible_with(s.cons, c):
                    s = None
                    break
                s.assume(c)
            if s is None:
                continue
            for g, x in new.items():
                s.mem[g] = x._replace(size=subst_val(x.size, m), frame=0, segs=tuple(
                    y._replace(lo=subst_val(y.lo, m), hi=subst_val(y.hi, m), val=old(subst_val(y.val, m))) for y in x.segs))
            res.append(s)
        return res

    def run_at(self, st, fn, *args):
        """analyse a further operation from state st"""
        keep, self.st = self.st, st.fork()
        try:
            return self.run(fn, *args)
        finally:
            self.st = keep

    def collect(self):
        for r in self.ip.reports:
            self.oblig += 1
            if r.exact:
                m = find_model(r.cons)
                if m is not None:
                    self.viol.append(Violation(r.kind, r.msg, r.loc, r.stack, self.inst, m, r.fn, self.opname()))
                    continue
            self.unsure.append(f"{r.kind}: {r.msg} at {short(r.loc)}")
        self.ip.reports = []

    def quiet_call(self, fn, *args, st):
        """accessor on a copy of the state; (value, state) or None"""
        with self.ip.capture() as rep:
            outs = self.call(fn, *args, st=st.fork())
        return outs, rep

    # ------------------------------------------------------------ verdicts
    def fail(self, o, kind, msg, extra=()):
        """the outcome o exists and violates the specification whenever o.st.cons (+extra) holds"""
        if o.st.exact:
            m = find_model(o.st.cons, extra=extra)
            if m is not None:
                self.viol.append(Violation(kind, msg, '', [], self.inst, m, op=self.opname()))
                return
        self.unsure.append(f"{kind}: {msg}")

    def must(self, o, e, kind, msg):
        """on outcome o, e >= 0 holds"""
        self.oblig += 1
        d = o.st.ge0(L(e))
        if d is True:
            return True
        self.fail(o, kind, msg, extra=(-L(e) - 1,))
        return False

    def must_eq(self, o, e, kind, msg):
        a = self.must(o, e, kind, msg)
        if a:
            return self.must(o, -L(e), kind, msg)
        return False

    def match(self, o, A, B, kind, what, typed=True):
        """segment lists denote the same contents"""
        self.oblig += 1
        cons = o.st.cons
        why = segs_equal(cons, A, B, typed)
        if why is None:
            return True
        # the same elements, cut into runs differently
        ca, cb = concretize(A, {}), concretize(B, {})
        if ca is not None and ca == cb and not any(x[0] == 'any' for x in ca):
            return True
        # witness
        if o.st.exact:
            models = []
            syms = sorted({s for e in cons for s in e.syms()} |
                          {x for g in list(A) + list(B) for x in g.lo.syms() + g.hi.syms()})
            extras = [()]
            for s in syms[:6]:
                extras += [(sym(s) - 2,), (sym(s) - 3,)]
            extras += [tuple(sym(s) - 1 for s in syms)] if syms else []
            for ex in extras:
                m = find_model(cons, extra=ex)
                if m is None:
                    continue
                for s in syms:
                    m.setdefault(s, 0)
                ca, cb = concretize(A, m), concretize(B, m)
                if ca is None or cb is None:
                    continue
                if ca != cb:
                    d = diff(ca, cb) or unwritten(A, B, m)
                    if d is None:
                        continue
                    self.viol.append(Violation(kind, f"{what}: {d}", '', [], self.inst, m, op=self.opname()))
                    return False
        self.unsure.append(f"{kind}: {what}: {why}")
        return False

    # ------------------------------------------------------------ sequences
    def layout(self, tn):
        return self.eng.layout(tn)

    def seq(self, name, tn, n=None, cap=None, null=None, cname=None, T=None, spare=None):
        """an arbitrary well-formed container object of driver type tn; T its element class"""
        lay = self.layout(tn)
        if spare is None:
            spare = self.eng.spare.get(tn, 1)
        T = T or self.eng.types[tn]
        tt, sz = ('s', SCALARS[T]) if T in SCALARS else (T, tsize(T))
        cname = cname or name
        h = Handle()
        h.name, h.tn, h.T, h.tt, h.sz, h.lay, h.cname = name, tn, T, tt, sz, lay, cname
        segs = {}
        buf = None
        if lay.kind == 'inline':
            cap = lay.cap
            if lay.size is None:
                n = L(cap)
            elif n is None:
                n = self.num('n_' + name, 0, cap)
            h.n, h.cap = L(n), L(cap)
            h.heap = None
        else:
            if lay.const_size:
                null = False
            if null is None:
                null = self.case(name, ['heap', 'null']) == 'null'
            if null:
                h.n, h.cap, h.heap = ZERO, ZERO, None
                data = NULL
            else:
                if n is not None:
                    h.n = L(n)
                elif lay.const_size is None:
                    h.n = self.num('n_' + name, 0, lay.cap)
                if lay.const_size is not None:
                    h.n = L(lay.const_size)
                if cap is None:
                    h.cap = self.num('cap_' + name, h.n + spare, None, span=2) if lay.cap_off is not None and lay.owner else h.n
                else:
                    h.cap = L(cap)
                body = [Seg(ZERO, h.n * sz, 'live', tt, sz, ('Elt', cname, KAPPA))]
                if lay.owner:
                    body.append(raw_seg(h.n * sz, h.cap * sz))
                bufp = self.obj(h.cap * sz if lay.owner else h.n * sz, name + '.data', body,
                                kind='heap' if lay.owner else 'ext', family=lay.family)
                h.heap = bufp.obj
                data = bufp
        cells = []
        if lay.kind == 'inline':
            cells.append((lay.data_off, lay.data_off + lay.cap * sz, None))
        else:
            cells.append((lay.data_off, lay.data_off + 8, data))
        if lay.size is not None:
            cells.append((lay.size, lay.size + 8, h.n))
        if lay.cap_off is not None:
            cells.append((lay.cap_off, lay.cap_off + 8, h.cap))
        cells.sort(key=lambda c: c[0])
        segs = []
        pos = 0
        for a, b, v in cells:
            if a > pos:
                segs += lay.filler(pos, a)
            if v is None:
                segs.append(Seg(Lin(a), Lin(a) + h.n * sz, 'live', tt, sz, ('Elt', cname, KAPPA)))
                segs.append(raw_seg(Lin(a) + h.n * sz, Lin(b)))
            else:
                segs.append(Seg(Lin(a), Lin(b), 'live', 's', 8, v))
            pos = b
        if pos < lay.total:
            segs += lay.filler(pos, lay.total)
        h.ptr = self.obj(lay.total, name, norm_segs(segs, self.st.cons))
        h.runs = [run_elt(cname, 0, h.n)]
        h.obj = h.ptr.obj
        return h

    def fresh_seq(self, name, tn, T=None):
        """raw storage in which an operation constructs a container"""
        lay = self.layout(tn)
        T = T or self.eng.types[tn]
        h = Handle()
        tt, sz = ('s', SCALARS[T]) if T in SCALARS else (T, tsize(T))
        h.name, h.tn, h.T, h.tt, h.sz, h.lay = name, tn, T, tt, sz, lay
        h.ptr = self.obj(lay.total, name)
        h.obj = h.ptr.obj
        h.heap = None
        return h

    def view(self, o, h):
        """(n, data pointer, capacity, state) as the accessors report them after outcome o"""
        st = o.st
        outs, rep = self.quiet_call(f'size_{h.tn}', h.ptr, st=st)
        if len(outs) != 1 or rep:
            self.unsure.append(f"size() of {h.name} not determined")
            return None
        n = outs[0].val
        outs, rep2 = self.quiet_call(f'data_{h.tn}', h.ptr, st=st)
        if len(outs) != 1 or rep2:
            self.unsure.append(f"data() of {h.name} not determined")
            return None
        p = outs[0].val
        outs, rep3 = self.quiet_call(f'cap_{h.tn}', h.ptr, st=st)
        cap = outs[0].val if len(outs) == 1 and not rep3 else None
        return n, p, cap

    def expect_seq(self, o, h, runs, kind='content', strict=True, spare=0, what=None):
        """after o, h is well formed and holds exactly `runs`"""
        what = what or f"contents of {h.name}"
        st = o.st
        v = self.view(o, h)
        if v is None:
            return False
        n, p, cap = v
        if n == UNDEF:
            self.fail(o, kind, f"size of {h.name} is uninitialised")
            return False
        if not isinstance(n, Lin):
            self.unsure.append(f"size of {h.name} unknown")
            return False
        want = runs_len(runs)
        if not self.must_eq(o, n - want, kind, f"size of {h.name} is {n}, expected {want}"):
            return False
        sz = h.sz
        if p == UNDEF:
            self.fail(o, 'undef_ptr', f"data pointer of {h.name} is uninitialised")
            return False
        if cap == UNDEF:
            self.fail(o, kind, f"capacity of {h.name} is uninitialised")
            return False
        if not isinstance(p, Ptr):
            self.unsure.append(f"data() of {h.name} unknown")
            return False
        if isinstance(cap, Lin) and h.lay.owner and p.obj != 0 and h.tn not in self.eng.tight:
            if o.st.ge0(cap - n - 1) is not True:
                if o.st.exact and find_model(o.st.cons, extra=(n - cap, )) is not None:
                    self.eng.tight[h.tn] = self.inst
                else:
                    self.unsure.append("spare slot of the buffer not established")
        if isinstance(cap, Lin):
            self.must(o, cap - n - spare, 'capacity', f"capacity of {h.name} is {cap} with size {n}" + (" (no room for the terminator)" if spare else ""))
        if p.obj == 0:
            self.must(o, -n, kind, f"{h.name} has no storage but size {n}")
            if isinstance(cap, Lin):
                self.must(o, -cap, 'capacity', f"{h.name} has no storage but capacity {cap}")
            return True
        ob = st.mem.get(p.obj)
        if ob is None or not ob.alive:
            self.fail(o, 'uaf', f"{h.name} refers to released memory")
            return False
        end = None
        if isinstance(cap, Lin) and h.lay.owner_like:
            self.must(o, ob.size - p.off - cap * sz, 'capacity', f"capacity of {h.name} exceeds its storage")
            end = p.off + cap * sz
        A = self.slice_obj(o, p.obj, p.off, p.off + n * sz)
        if A is None:
            return False
        B, _ = runs_segs(runs, h.tt, sz, p.off)
        ok = self.match(o, A, B, kind, what)
        if ok and strict and end is not None and h.tt != 's':
            A = self.slice_obj(o, p.obj, p.off + n * sz, end)
            if A is not None:
                ok = self.match(o, A, [raw_seg(p.off + n * sz, end)], 'lifetime',
                                f"storage of {h.name} beyond its last element")
        return ok

    def slice_obj(self, o, oid, lo, hi):
        """segments of object oid on [lo,hi)"""
        st = o.st.fork()
        with self.ip.capture() as rep:
            if st.ge0(hi - lo - 1) is False:
                return []
            rs = self.ip.cut(st, oid, lo, hi, None, 'inspection')
        bad = [r for r in rep]
        if bad:
            for r in bad:
                self.unsure.append(f"inspection of storage: {r.msg}")
            if st.ge0(hi - lo - 1) is None:
                pass
            else:
                return None
        out = None
        if len(rs) == 1:
            s, i, j = rs[0]
            return list(s.mem[oid].segs[i:j])
        # several positions: fall back to the whole list restricted by constraints
        ob = o.st.mem[oid]
        res = []
        for g in ob.segs:
            a, b = g.lo, g.hi
            if o.st.ge0(lo - b):
                continue
            if o.st.ge0(a - hi):
                continue
            if not o.st.ge0(a - lo):
                if not o.st.ge0(lo - a):
                    # order unknown: undecided unless the segment may be empty
                    self.unsure.append("inspection: segment order unknown")
                    return None
                if not entails_eq(o.st.cons, a - lo):
                    g = split_seg(g, lo)[1]
            if not o.st.ge0(hi - b):
                if not o.st.ge0(b - hi):
                    self.unsure.append("inspection: segment order unknown")
                    return None
                if not entails_eq(o.st.cons, b - hi):
                    g = split_seg(g, hi)[0]
            res.append(g)
        return res

    def unchanged(self, o, h, kind='unchanged'):
        """h (object and buffer) is exactly as before the operation"""
        ok = True
        for oid in (h.obj, h.heap):
            if oid is None:
                continue
            a, b = self.st.mem[oid], o.st.mem.get(oid)
            if b is None or not b.alive:
                self.fail(o, 'uaf', f"storage of {h.name} released")
                ok = False
                continue
            ok = self.match(o, b.segs, a.segs, kind, f"{h.name} changed although it must not") and ok
        return ok

    def no_leak(self, o, owners, kind='leak'):
        """every heap block still allocated is owned by one of `owners` (handles)"""
        self.oblig += 1
        own = set()
        for h in owners:
            v = self.view(o, h)
            if v is None:
                return False
            if isinstance(v[1], Ptr):
                own.add(v[1].obj)
        for i, ob in o.st.mem.items():
            if ob.kind == 'heap' and ob.alive and i not in own:
                self.fail(o, kind, f"a heap block ({ob.name}) is not released and not owned by any container")
                return False
        return True

    def trace(self, o, expected, kind='trace', what='calls of the callback', names=None, raw=False):
        """events after o are exactly `expected` = [(count, (name, args, outcome))]"""
        segs = []
        p = ZERO
        for w, v in expected:
            segs.append(TSeg(p, p + w, v))
            p = p + w
        tr = o.st.trace if raw else [TSeg(s.lo, s.hi, strip_refs(s.val)) for s in o.st.trace]
        if names is not None:
            tr = self.select(tr, names)
            if tr is None:
                self.unsure.append("trace selection")
                return False
        return self.match(o, tr, segs, kind, what, typed=False)

    def select(self, tr, names):
        out = []
        p = ZERO
        for s in tr:
            if s.val[1] in names:
                w = s.hi - s.lo
                out.append(TSeg(p, p + w, s.val))
                p = p + w
        return out


def E(name, *args, out='?'):
    return ('E', name, tuple(args), out)


def unwritten(A, B, m):
    """a byte that must hold something and holds nothing in A, under the model m"""
    mm = {k: Lin(v) for k, v in m.items()}
    for a in A:
        if not isinstance(a, Seg) or a.st != 'raw':
            continue
        for b in B:
            if b.st != 'live':
                continue
            lo = max(a.lo.subst(mm).c, b.lo.subst(mm).c)
            hi = min(a.hi.subst(mm).c, b.hi.subst(mm).c)
            if lo < hi:
                return f"nothing was written at byte {lo} of the storage"
    return None


def diff(a, b):
    for i in range(max(len(a), len(b))):
        x = a[i] if i < len(a) else None
        y = b[i] if i < len(b) else None
        if x != y:
            if (x is not None and has_sym(x)) or (y is not None and has_sym(y)):
                return None
            if (x and has_any(x[2])) or (y and has_any(y[2])):
                return None
            if (x and x[0] == 'any') or (y and y[0] == 'any'):
                return None
            return f"position {i} is {fmt(x)}, expected {fmt(y)}"
    return None


def fmt(x):
    if x is None:
        return "missing"
    if x[0] == 'raw':
        return f"dead storage ({x[2]} bytes at {x[1]})"
    return f"{x[0]} {x[2]}"


class Skip(Exception):
    pass


class Handle:
    pass


SCALARS = {'int': 4, 'char': 1, 'long': 8, 'double': 8, 'float': 4, 'bool': 1, 'wchar': 4, 'c16': 2, 'c32': 4}


def tsize(T):
    if T.startswith('raw'):
        return int(T[3:])
    if T in SCALARS:
        return SCALARS[T]
    if T.startswith('Alt'):
        return 8 + 8 * (int(T[3:]) % 4)
    return PROBE_SIZE[T]


class Layout:
    """where a container keeps its size, capacity and elements; found by analysing its accessors"""

    def __init__(self):
        self.kind = None
        self.size = self.cap_off = self.data_off = self.const_size = None
        self.cap = None
        self.total = 0
        self.owner = False
        self.owner_like = False
        self.family = None
        self.unknown = []

    def filler(self, a, b):
        out = []
        pos = a
        for lo, hi in self.unknown:
            lo, hi = max(lo, a), min(hi, b)
            if lo < hi:
                if pos < lo:
                    out.append(raw_seg(Lin(pos), Lin(lo)))
                out.append(Seg(Lin(lo), Lin(hi), 'any', '', 1, ()))
                pos = hi
        if pos < b:
            out.append(raw_seg(Lin(pos), Lin(b)))
        return out


class Engine:
    def __init__(self, mod, types, hooks=None):
        """types: driver type name -> element class"""
        self.mod = mod
        self.types = types
        self.hooks = hooks or {}
        self.tier = 'quick'
        self.big = None
        self.reached = set()
        self.lays = {}
        # spare slots every allocated buffer is known to keep; lowered when an operation is found not to keep it
        self.spare = {}
        self.tight = {}

    def layout(self, tn):
        l = self.lays.get(tn)
        if l is None:
            l = self.lays[tn] = self._infer(tn)
        return l

    def opname(self, fn):
        """the library operations a driver function calls, with their source positions"""
        F = self.mod.fn(fn)
        if F is None:
            return fn
        out = []
        for b in F.blocks:
            for ins in b.instrs:
                cal = ins.x['callee'].v if ins.op in ('call', 'invoke') and ins.x['callee'].kind == 'func' else None
                G = self.mod.fn(cal) if isinstance(cal, str) else None
                if G is None or G.decl:
                    continue
                loc = ''
                for bb in G.blocks:
                    for x in bb.instrs:
                        l = x.loc()
                        if l and REPO in l:
                            loc = short(l)
                            break
                    if loc:
                        break
                if loc:
                    out.append(f"{demangle(cal)} ({loc})")
        return '; '.join(out[:3]) or fn

    def _infer(self, tn):
        l = Layout()
        c = Ctx(self, 'layout', [], False)
        T = self.types[tn]
        esz = SCALARS.get(T) or tsize(T)
        o = c.call(f'sizeof_{tn}')
        l.total = o[0].val.c
        words = {}
        segs = []
        for k in range(0, l.total - l.total % 8, 8):
            w = sym(fresh('w'))
            words[w] = k
            segs.append(Seg(Lin(k), Lin(k + 8), 'live', 's', 8, w))
        if l.total % 8:
            segs.append(raw_seg(Lin(l.total - l.total % 8), Lin(l.total)))

        def role(fn):
            s = State()
            c.st = s
            p = c.obj(l.total, 'probe', segs)
            with c.ip.capture() as rep:
                r = c.call(fn, p, st=s)
            if len(r) != 1 or rep:
                raise Undecided(f"cannot infer the representation of {tn} from {fn}")
            return p, r[0].val
        p, v = role(f'size_{tn}')
        if isinstance(v, Lin) and v.isc():
            l.const_size = v.c
        elif v in words:
            l.size = words[v]
        else:
            raise Undecided(f"representation of {tn}: size() is not a stored value")
        p, v = role(f'data_{tn}')
        if isinstance(v, Ptr) and v.obj == p.obj:
            l.kind = 'inline'
            l.data_off = v.off.c
        elif v in words:
            l.kind = 'pointer'
            l.data_off = words[v]
        else:
            raise Undecided(f"representation of {tn}: data() is not a stored value")
        p, v = role(f'cap_{tn}')
        if isinstance(v, Lin) and v.isc():
            l.cap = v.c
        elif v in words:
            l.cap_off = words[v]
        else:
            raise Undecided(f"representation of {tn}: capacity() is not a stored value")
        if l.kind == 'inline':
            if l.cap is None:
                raise Undecided("inline storage without fixed capacity")
            l.owner_like = True
        else:
            l.owner = self.mod.fn(f'dtor_{tn}') is not None
            l.owner_like = l.owner
            l.family = 'new' if l.owner else None
        # words written by the default constructor but playing no known role
        if self.mod.fn(f'ctor_{tn}') is not None:
            s = State()
            c.st = s
            p = c.obj(l.total, 'fresh')
            with c.ip.capture():
                r = c.call(f'ctor_{tn}', p, st=s)
            known = set()
            for off, n in ((l.size, 8), (l.cap_off, 8), (l.data_off, 8 if l.kind == 'pointer' else l.cap * esz)):
                if off is not None:
                    known.update(range(off, off + n))
            for x in r:
                for g in x.st.mem[p.obj].segs:
                    if g.st != 'raw' and g.lo.isc() and g.hi.isc():
                        if not (set(range(g.lo.c, g.hi.c)) <= known):
                            l.unknown.append((g.lo.c, g.hi.c))
        return l


class Scenario:
    def __init__(self, name, props, fn, driver, unroll=False, tier='quick'):
        self.name, self.props, self.fn, self.driver = name, props, fn, driver
        self.unroll = unroll        # every size in the scenario is a constant: loops end by themselves
        self.tier = tier


class Result:
    def __init__(self):
        self.viol = []
        self.proved = 0
        self.bounded = 0
        self.undecided = []
        self.oblig = 0
        self.inst = 0
        self.functions = set()
        self.loops = 0
        self.phases = 0
        self.events = 0
        self.steps = 0

    def add(self, c):
        self.oblig += c.oblig
        self.functions |= c.ip.visited
        self.loops += c.ip.loops_n
        self.phases += c.ip.phases_n
        self.steps += c.ip.steps


def next_script(c, const_from):
    """next choice script in depth-first order (only choices at or after const_from vary)"""
    s = c.script[:c.pos]
    al = c.alts
    i = c.pos - 1
    while i >= const_from:
        if s[i] + 1 < al[i]:
            return s[:i] + [s[i] + 1]
        i -= 1
    return None


def run_one(eng, sc, script, const, want=None):
    c = Ctx(eng, sc.name, script, const, want)
    try:
        sc.fn(c)
        c.collect()
    except Skip:
        c.skipped = True
        return c, None
    except Undecided as u:
        c.collect()
        return c, str(u)
    except Mismatch as u:
        return c, 'mismatch ' + str(u)
    except Exception as u:
        if os.environ.get('VP_DEBUG'):
            traceback.print_exc()
        return c, f"internal {type(u).__name__}: {u}"
    return c, None


def run_scenario(eng, sc, res=None, max_inst=600, budget=240):
    res = res or Result()
    t0 = time.time()
    if Interp.DEADLINE:
        budget = min(budget, Interp.DEADLINE - t0)
        if budget <= 0:
            res.undecided.append(f"{sc.name}: time budget")
            return res
    script = []
    eng.reached = set()
    while script is not None:
        c, why = run_one(eng, sc, script, sc.unroll)
        eng.reached |= c.ip.visited
        nxt = next_script(c, 0)
        if getattr(c, 'skipped', False):
            script = nxt
            continue
        res.inst += 1
        res.add(c)
        if c.viol:
            res.viol += c.viol
        elif why is None and not c.unsure:
            if c.sampled:
                res.bounded += 1
            else:
                res.proved += 1
        else:
            reason = why or c.unsure[0]
            if sc.unroll or not sub_const(eng, sc, c, res, max_inst, t0 + budget, reason):
                res.undecided.append(f"{c.inst}: {reason}")
        script = nxt
        if time.time() - t0 > budget:
            res.undecided.append(f"{sc.name}: time budget")
            break
    if sc.unroll and res.bounded and not res.viol:
        larger(eng, sc, res, None, t0 + budget)
    return res


WIDE = {'llvm', '_Znw', '_Zna', '_Zdl', '_Zda', 'memcp', 'memmo', 'memse', '__cxa', 'mallo', 'calloc', 'reallo', 'free'}


def thresholds(mod, names):
    """sizes at which the code of these functions may change its behaviour: constants it compares, selects, divides or
    shifts by, and the range of an 8-bit counter"""
    ks = set()
    for f in names:
        if f.startswith(('_ZNSt', '_ZSt', '_ZNKSt', '_ZN9__gnu')):
            continue
        F = mod.fn(f)
        if F is None or F.decl:
            continue
        for b in F.blocks:
            for i in b.instrs:
                if i.op in ('call', 'invoke'):
                    cal = i.x['callee']
                    if cal.kind == 'func' and cal.v.startswith(tuple(WIDE)):
                        continue
                if i.op in ('icmp', 'select', 'phi', 'call', 'invoke', 'switch', 'urem', 'udiv', 'srem', 'sdiv', 'and'):
                    ks |= {k for o in i.ops if o.kind == 'int' and o.ty.w > 8 and 4 <= o.v <= 1024 for k in (o.v, o.v + 1, 2 * o.v + 1)}
                elif i.op in ('shl', 'lshr', 'ashr') and i.ops[1].kind == 'int' and 2 <= i.ops[1].v <= 10:
                    ks.add((1 << i.ops[1].v) + 1)
                elif i.op in ('trunc', 'add', 'sub') and i.ty.w in (8, 16):
                    ks |= {257, 520} if i.ty.w == 8 else {37}
    return ks


def larger(eng, sc, res, want, deadline):
    """sizes beyond the enumerated ones where the code itself names a threshold; only violations count"""
    if eng.big or not eng.reached:
        return
    ks = sorted(thresholds(eng.mod, eng.reached) - set(range(4)), reverse=True)
    if not ks:
        return
    deadline = min(deadline, time.time() + 60)
    hard, Interp.DEADLINE = Interp.DEADLINE, deadline
    try:
        for k in ks[:6]:
            for pol in (True, False):
                called = False

                def oracle(name, _p=pol):
                    nonlocal called
                    if name in ('p', 'P_eq'):
                        called = True
                        return _p
                    return None
                i = 0
                while True:
                    eng.big = (i, k, oracle)
                    script = []
                    most = 0
                    n = 0
                    while script is not None and n < 40:
                        c, why = run_one(eng, sc, script, True, want)
                        script = next_script(c, 0)
                        most = max(most, c.nums)
                        if getattr(c, 'skipped', False):
                            continue
                        if i >= 0 and c.nums <= i:
                            break
                        n += 1
                        res.oblig += c.oblig
                        if c.viol:
                            res.viol += c.viol
                            return
                        if time.time() > deadline:
                            return
                    if i < 0:
                        break
                    i += 1
                    if i >= most or i > 6:
                        if most != 2:
                            break
                        i = -1      # both sizes large
                if not called:
                    break
    finally:
        eng.big = None
        Interp.DEADLINE = hard


def sub_const(eng, sc, c0, res, max_inst, deadline, reason):
    """the same scenario with its sizes partitioned into small constants (loops then end by themselves)"""
    want = [l for l in c0.labels]
    script = []
    reached = set()
    n = 0
    ok = True
    cnt = 0
    while script is not None:
        if n >= max_inst or time.time() > deadline:
            ok = False
            break
        c, why = run_one(eng, sc, script, True, want)
        nxt = next_script(c, 0)
        script = nxt
        if getattr(c, 'skipped', False):
            continue
        n += 1
        res.add(c)
        reached |= c.ip.visited
        if c.viol:
            res.viol += c.viol
            res.bounded += 1
            return True
        if why is not None or c.unsure:
            ok = False
            if os.environ.get('VP_DEBUG'):
                print('   const undecided', c.inst, why, c.unsure[:1], file=sys.stderr)
        else:
            cnt += 1
    if ok and cnt:
        eng.reached = reached
        larger(eng, sc, res, want, deadline)
        res.bounded += 1
        return True
    return False
