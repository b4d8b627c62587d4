"""Abstract interpreter over LLVM IR: typestate of memory segments + linear constraints + event trace.
Straight-line code is evaluated on abstract states with trace partitioning; every loop is summarised by
an inductive parametric invariant (see loops.py)."""
import time
import re
import contextlib
from dom import *
from state import *
from ir import loops_of
import ir as IR

PROBE_SIZE = {'P': 24, 'Q': 40, 'R': 8, 'S': 16}
_PRE = re.compile(r'^_ZNK?2vp(1[PQRS]|3AltILi(\d+)EE)(C[12]|D[12]|aS|eq|ne|lt|gt|le|ge)E(.*)$')
_EV = re.compile(r'^vp_(r([PQRS])|b|v|i|m)_(\w+)$')


def probe_of(name):
    m = _PRE.match(name)
    if not m:
        return None
    if m.group(2) is not None:
        k = int(m.group(2))
        t, sz = f"Alt{k}", 8 + 8 * (k % 4)
    else:
        t = m.group(1)[1]
        sz = PROBE_SIZE[t]
    op, rest = m.group(3), m.group(4)
    if op[0] == 'C':
        op = 'ctor' if rest == 'v' else ('move' if rest.startswith('OS') else 'copy')
    elif op[0] == 'D':
        op = 'dtor'
    elif op == 'aS':
        op = 'massign' if rest.startswith('OS') else 'assign'
    return t, sz, op


class Report:
    def __init__(self, kind, msg, ins, stack, st, extra=None):
        self.kind, self.msg = kind, msg
        self.loc = ins.loc() if ins is not None else ''
        self.stack = list(stack)
        self.exact = st.exact
        self.cons = st.cons
        self.extra = extra
        self.fn = ins.fn.name if ins is not None else ''
        self.note = st.note

    def key(self):
        return (self.kind, self.loc, self.msg)


class Interp:
    MAX_STEPS = 2000000
    DEADLINE = None

    def __init__(self, mod, hooks=None, unroll=0):
        self.mod = mod
        self.reports = []
        self.stack = []          # call sites (instr)
        self.active = {}         # function -> entries of its active frames
        self.frames = []         # caller register files (for reachability)
        self.steps = 0
        self.hooks = hooks or {}
        self.unroll = unroll
        self.maxdepth = 60
        self.fid = 0
        self.globals = {}
        self.ginit = {}
        self.allocs = []         # (family, loc) seen
        self.visited = set()     # functions analysed
        self.oracle = None       # fixes the answers of predicates
        self.bigk = 0            # the size that is large in this run
        self.calls = 0
        self.loops_n = 0
        self.phases_n = 0
        self.splits = 0
        self.opaque = set()
        self.loop_why = ''
        self.exc_notes = []

    # ------------------------------------------------------------ reporting
    def report(self, kind, msg, st, ins=None, extra=None):
        self.reports.append(Report(kind, msg, ins, [i.loc() for i in self.stack], st, extra))

    @contextlib.contextmanager
    def capture(self):
        old = self.reports
        buf = []
        self.reports = buf
        try:
            yield buf
        finally:
            self.reports = old

    # ------------------------------------------------------------ objects
    def new_obj(self, st, kind, size, name='', family=None, segs=None):
        i = fresh_id()
        size = L(size) if size is not None else None
        if segs is None:
            segs = (raw_seg(ZERO, size),) if size is not None else ()
        st.mem[i] = Obj(i, kind, name, size, tuple(segs), True, family, self.fid)
        return i

    def _obj(self, st, p, ins, what):
        """object of a pointer, reporting misuse; None when reported"""
        if not isinstance(p, Ptr):
            if p == UNDEF:
                self.report('undef_ptr', f"{what} through an uninitialised pointer", st, ins)
                return None
            raise Undecided(f"{what} through unknown pointer {p}")
        if p.obj == 0:
            self.report('null', f"{what} through a null pointer (offset {p.off})", st, ins)
            return None
        o = st.mem.get(p.obj)
        if o is None:
            self.report('uaf', f"{what} of an object whose storage is gone", st, ins)
            return None
        if not o.alive:
            self.report('uaf', f"{what} of freed memory ({o.name})", st, ins)
            return None
        return o

    def cut(self, st, oid, lo, hi, ins, what):
        """list of (state, i, j): segs[i:j] of the object tile [lo,hi)"""
        o = st.mem[oid]
        if o.size is None:
            raise Undecided("object of unknown size")
        starts = []
        cur = None
        for s, ok in st.split(lo):
            if ok:
                cur = s
            else:
                self.report('oob', f"{what} before the start of {o.name or o.kind}: offset {lo}", s, ins,
                            (oid, lo, hi))
        if cur is None:
            return []
        for k, sg in enumerate(o.segs):
            nxt = None
            for s, ok in cur.split(sg.hi - lo - 1):
                if ok:
                    starts.append((s, k))
                else:
                    nxt = s
            cur = nxt
            if cur is None:
                break
        if cur is not None:
            self.report('oob', f"{what} past the end of {o.name or o.kind}: offset {lo} of size {o.size}", cur, ins,
                        (oid, lo, hi))
        out = []
        for s, k in starts:
            cur = s
            m = k
            ends = []
            while cur is not None:
                if m >= len(o.segs):
                    self.report('oob', f"{what} past the end of {o.name or o.kind}: range [{lo},{hi}) of size {o.size}",
                                cur, ins, (oid, lo, hi))
                    break
                nxt = None
                for s2, ok in cur.split(o.segs[m].hi - hi):
                    if ok:
                        ends.append((s2, m))
                    else:
                        nxt = s2
                cur = nxt
                m += 1
            for s2, m in ends:
                segs = list(o.segs)
                i, j = k, m + 1
                if not (segs[k].lo == lo or entails_eq(s2.cons, segs[k].lo - lo)):
                    a, b = split_seg(segs[k], lo)
                    segs[k:k + 1] = [a, b]
                    i += 1
                    j += 1
                if not (segs[j - 1].hi == hi or entails_eq(s2.cons, segs[j - 1].hi - hi)):
                    a, b = split_seg(segs[j - 1], hi)
                    segs[j - 1:j] = [a, b]
                s2.mem[oid] = o._replace(segs=tuple(segs))
                out.append((s2, i, j))
        return out

    def put(self, st, oid, i, j, news):
        o = st.mem[oid]
        st.mem[oid] = o._replace(segs=o.segs[:i] + tuple(news) + o.segs[j:])

    def guard_access(self, st, p, size, ins, rw):
        h = self.hooks.get('access')
        if h:
            h(self, st, p, size, ins, rw)

    def load(self, st, p, size, ins, isptr=False):
        """[(state, value)]"""
        o = self._obj(st, p, ins, 'read')
        if o is None:
            return []
        self.guard_access(st, p, size, ins, 'r')
        if o.kind == 'opaque':
            return [(st, ANY)]
        out = []
        for s, i, j in self.cut(st, p.obj, p.off, p.off + size, ins, 'read'):
            segs = s.mem[p.obj].segs[i:j]
            out.append((s, self._segval(segs, size, isptr)))
        return out

    def _segval(self, segs, size, isptr):
        if len(segs) == 1:
            g = segs[0]
            if g.st == 'raw':
                return UNDEF
            if g.st == 'live':
                if g.typ == 's' and g.stride == size:
                    v = at(g, 0)
                    if isptr:
                        if isinstance(v, tuple) and v and v[0] == 'pi':
                            return Ptr(v[1], v[2])
                        if isinstance(v, Lin) and v == ZERO:
                            return NULL
                    elif isinstance(v, Ptr):
                        return ('pi', v.obj, v.off)
                    return v
                if g.typ == 'zero':
                    return NULL if isptr else ZERO
            return ANY
        if segs and all(g.st == 'raw' for g in segs):
            return UNDEF
        if segs and all(g.st == 'live' and g.typ == 'zero' for g in segs):
            return NULL if isptr else ZERO
        return ANY

    def store(self, st, p, size, val, ins):
        o = self._obj(st, p, ins, 'write')
        if o is None:
            return []
        self.guard_access(st, p, size, ins, 'w')
        if o.kind == 'opaque':
            return [st]
        if o.kind == 'const':
            self.report('const_write', f"write to constant object {o.name}", st, ins)
            return []
        out = []
        for s, i, j in self.cut(st, p.obj, p.off, p.off + size, ins, 'write'):
            segs = s.mem[p.obj].segs[i:j]
            if any(g.st == 'live' and g.typ not in ('s', 'zero') for g in segs):
                self.report('construct_live', "plain write over a live element", s, ins)
                continue
            if val == UNDEF:
                n = raw_seg(p.off, p.off + size)
            else:
                n = Seg(p.off, p.off + size, 'live', 's', size, val)
            self.put(s, p.obj, i, j, [n])
            out.append(s)
        return out

    def memcopy(self, st, dst, src, n, ins, overlap_ok=True):
        if not isinstance(n, Lin):
            raise Undecided("memcpy of unknown length")
        out = []
        if not overlap_ok and isinstance(src, Ptr) and isinstance(dst, Ptr) and src.obj == dst.obj:
            # memcpy within one object: the ranges must be disjoint (or the very same range, which is what
            # the compiler emits for a self-assignment of a trivially copyable class)
            d = dst.off - src.off
            for s, fwd in st.split(d - 1):
                for s1, near in s.split(n - 1 - d if fwd else n - 1 + d):
                    if not near:
                        out += self.memcopy(s1, dst, src, n, ins)
                        continue
                    if fwd:
                        self.report('overlap', "memcpy between overlapping ranges of one object", s1, ins)
                        continue
                    for s2, back in s1.split(-d - 1):
                        if back:
                            self.report('overlap', "memcpy between overlapping ranges of one object", s2, ins)
                        else:
                            out += self.memcopy(s2, dst, src, n, ins)
            return out
        for s, pos in st.split(n - 1):
            if not pos:
                out.append(s)
                continue
            so = self._obj(s, src, ins, 'read (block copy)')
            if so is None:
                continue
            if self._obj(s, dst, ins, 'write (block copy)') is None:
                continue
            self.guard_access(s, src, n, ins, 'r')
            self.guard_access(s, dst, n, ins, 'w')
            for s1, i, j in self.cut(s, src.obj, src.off, src.off + n, ins, 'read (block copy)'):
                srcsegs = s1.mem[src.obj].segs[i:j]
                if any(g.st == 'live' and g.typ not in ('s', 'zero') for g in srcsegs):
                    self.report('bitcopy', "bitwise copy of a non-trivially-copyable element", s1, ins)
                    continue
                d = dst.off - src.off
                news = [g._replace(lo=g.lo + d, hi=g.hi + d) for g in srcsegs]
                for s2, a, b in self.cut(s1, dst.obj, dst.off, dst.off + n, ins, 'write (block copy)'):
                    old = s2.mem[dst.obj].segs[a:b]
                    if any(g.st == 'live' and g.typ not in ('s', 'zero') for g in old):
                        self.report('construct_live', "block copy over a live element", s2, ins)
                        continue
                    self.put(s2, dst.obj, a, b, news)
                    out.append(s2)
        return out

    def memset(self, st, dst, val, n, ins):
        if not isinstance(n, Lin):
            raise Undecided("memset of unknown length")
        out = []
        for s, pos in st.split(n - 1):
            if not pos:
                out.append(s)
                continue
            if self._obj(s, dst, ins, 'write (fill)') is None:
                continue
            self.guard_access(s, dst, n, ins, 'w')
            for s2, a, b in self.cut(s, dst.obj, dst.off, dst.off + n, ins, 'write (fill)'):
                old = s2.mem[dst.obj].segs[a:b]
                if any(g.st == 'live' and g.typ not in ('s', 'zero') for g in old):
                    self.report('construct_live', "fill over a live element", s2, ins)
                    continue
                if val == ZERO:
                    g = Seg(dst.off, dst.off + n, 'live', 'zero', 1, ZERO)
                else:
                    g = Seg(dst.off, dst.off + n, 'live', 's', 1, val)
                self.put(s2, dst.obj, a, b, [g])
                out.append(s2)
        return out

    # ------------------------------------------------------------ opaque elements
    def p_content(self, st, T, sz, p, ins, what, kind):
        """[(state, content)] of a live element at p"""
        o = self._obj(st, p, ins, what)
        if o is None:
            return []
        self.guard_access(st, p, sz, ins, 'r')
        out = []
        for s, i, j in self.cut(st, p.obj, p.off, p.off + sz, ins, what):
            segs = s.mem[p.obj].segs[i:j]
            if len(segs) == 1 and segs[0].st == 'live' and segs[0].typ == T and segs[0].stride == sz:
                out.append((s, at(segs[0], 0)))
            elif any(g.st == 'any' for g in segs):
                raise Undecided(f"{what}: unknown element state")
            else:
                d = 'no live element there' if all(g.st == 'raw' for g in segs) else \
                    f"storage holds {[(g.st, g.typ) for g in segs]}"
                self.report(kind, f"{what}: {d} ({o.name or o.kind}+{p.off})", s, ins)
        return out

    def p_set(self, st, T, sz, p, content, ins, what, expect):
        """construct (expect='raw'), or overwrite/destroy (expect='live')"""
        o = self._obj(st, p, ins, what)
        if o is None:
            return []
        self.guard_access(st, p, sz, ins, 'w')
        out = []
        for s, i, j in self.cut(st, p.obj, p.off, p.off + sz, ins, what):
            segs = s.mem[p.obj].segs[i:j]
            if any(g.st == 'any' for g in segs):
                raise Undecided(f"{what}: unknown element state")
            live = [g for g in segs if g.st == 'live' and g.typ not in ('s', 'zero')]
            if expect == 'raw':
                if live:
                    self.report('construct_live', f"{what}: a live element already occupies {o.name or o.kind}+{p.off}",
                                s, ins)
                    continue
            else:
                if not (len(segs) == 1 and live and live[0].typ == T and live[0].stride == sz):
                    k = 'destroy_dead' if content is None else 'assign_dead'
                    self.report(k, f"{what}: no live element of that type at {o.name or o.kind}+{p.off}", s, ins)
                    continue
            if content is None:
                n = raw_seg(p.off, p.off + sz)
            else:
                n = Seg(p.off, p.off + sz, 'live', T, sz, content)
            self.put(s, p.obj, i, j, [n])
            out.append(s)
        return out

    def same_place(self, st, a, b):
        if a.obj != b.obj:
            return False
        return st.eq0(a.off - b.off)

    def probe_call(self, st, T, sz, op, args, ins):
        a = args[0]
        if op == 'ctor':
            return [(s, None) for s in self.p_set(st, T, sz, a, DEFAULT, ins, 'construction', 'raw')]
        if op == 'dtor':
            return [(s, None) for s in self.p_set(st, T, sz, a, None, ins, 'destruction', 'live')]
        b = args[1]
        out = []
        if op in ('copy', 'move'):
            for s, v in self.p_content(st, T, sz, b, ins, f'{op} construction from', 'read_dead'):
                if op == 'move':
                    for s1 in self.p_set(s, T, sz, b, MOVED, ins, 'move from', 'live'):
                        for s2 in self.p_set(s1, T, sz, a, v, ins, f'{op} construction', 'raw'):
                            out.append((s2, None))
                else:
                    for s2 in self.p_set(s, T, sz, a, v, ins, f'{op} construction', 'raw'):
                        out.append((s2, None))
            return out
        if op in ('assign', 'massign'):
            for s, v in self.p_content(st, T, sz, b, ins, 'assignment from', 'read_dead'):
                if a.obj == b.obj:
                    for s1, same in s.split_eq(a.off - b.off):
                        if same:
                            out.append((s1, a))
                        else:
                            out += self._assign(s1, T, sz, a, b, v, op, ins)
                else:
                    out += self._assign(s, T, sz, a, b, v, op, ins)
            return out
        # comparison
        for s, v in self.p_content(st, T, sz, a, ins, 'comparison reads', 'read_dead'):
            for s1, w in self.p_content(s, T, sz, b, ins, 'comparison reads', 'read_dead'):
                if op == 'ne':
                    out.append((s1, self.event(s1, 'P_eq', (v, w), neg=True)))
                elif op in ('gt', 'le'):
                    out.append((s1, self.event(s1, 'P_lt', (w, v), neg=(op == 'le'))))
                else:
                    out.append((s1, self.event(s1, 'P_' + ('lt' if op in ('lt', 'ge') else op), (v, w), neg=(op == 'ge'))))
        return out

    def _assign(self, st, T, sz, a, b, v, op, ins):
        out = []
        for s in self.p_set(st, T, sz, a, v, ins, 'assignment to', 'live'):
            if op == 'massign':
                for s1 in self.p_set(s, T, sz, b, MOVED, ins, 'move from', 'live'):
                    out.append((s1, a))
            else:
                out.append((s, a))
        return out

    # ------------------------------------------------------------ trace
    def event(self, st, name, args, neg=False):
        """append an opaque event; returns the condition 'its result is true'"""
        h = self.hooks.get('event')
        if h:
            r = h(self, st, name, args)
            if r is not None:
                return (not r) if neg else r
        i = st.tlen
        st.trace = st.trace + (TSeg(i, i + 1, ('E', name, tuple(args), '?')),)
        st.tlen = i + 1
        return ('ev', i, not neg)

    def event_name(self, st, idx):
        for s in reversed(st.trace):
            if st.ge0(idx - s.lo) and st.ge0(s.hi - idx - 1):
                return s.val[1] if s.val[3] == '?' else None
        return None

    def set_outcome(self, st, idx, val):
        """record that event idx returned val; False if contradictory"""
        tr = list(st.trace)
        for n in range(len(tr) - 1, -1, -1):
            s = tr[n]
            if st.ge0(idx - s.lo) and st.ge0(s.hi - idx - 1):
                e = subst_val(s.val, {K: idx - s.lo})
                if e[3] != '?':
                    if e[3] == '*':
                        return True
                    return e[3] == ('T' if val else 'F')
                new = []
                if not entails_eq(st.cons, idx - s.lo):
                    new.append(TSeg(s.lo, idx, s.val))
                new.append(TSeg(idx, idx + 1, e[:3] + (('T' if val else 'F'),)))
                if not entails_eq(st.cons, s.hi - idx - 1):
                    new.append(TSeg(idx + 1, s.hi, shift(s.val, idx + 1 - s.lo)))
                tr[n:n + 1] = new
                st.trace = tuple(tr)
                return True
        raise Undecided("event index outside the trace")

    # ------------------------------------------------------------ conditions
    def resolve(self, st, c, ins):
        """[(state, bool)]"""
        if c is True or c is False:
            return [(st, c)]
        if isinstance(c, Lin):
            if c.isc():
                return [(st, bool(c.c & 1))]
            r = []
            for s, b in st.split_eq(c):
                r.append((s, not b))
            return r
        if c == UNDEF:
            self.report('branch_undef', "control flow depends on an uninitialised value", st, ins)
            return []
        if c == ANY:
            a = st.fork()
            a.exact = False
            st.exact = False
            return [(a, True), (st, False)]
        if c[0] == 'c':
            k, e = c[1], c[2]
            if k == 'ge':
                return st.split(e)
            r = st.split_eq(e)
            return r if k == 'eq' else [(s, not b) for s, b in r]
        if c[0] == 'ev' and self.oracle is not None:
            b = self.oracle(self.event_name(st, c[1]))
            if b is not None and self.set_outcome(st, c[1], b):
                st.sig = st.sig + (('ev', b),)
                return [(st, c[2] if b else not c[2])]
        if c[0] == 'ev':
            out = []
            a = st.fork()
            if self.set_outcome(a, c[1], True):
                a.sig = a.sig + (('ev', True),)
                out.append((a, c[2]))
            if self.set_outcome(st, c[1], False):
                st.sig = st.sig + (('ev', False),)
                out.append((st, not c[2]))
            return out
        if c[0] == 'not':
            return [(s, not b) for s, b in self.resolve(st, c[1], ins)]
        # an opaque boolean value: compare with zero through an event
        return self.resolve(st, self.event(st, 'truth', (c,)), ins)

    def negate(self, c):
        if c is True or c is False:
            return not c
        if c in (UNDEF, ANY):
            return c
        if isinstance(c, Lin):
            return ('c', 'eq', c)
        if c[0] == 'c':
            if c[1] == 'ge':
                return ('c', 'ge', -c[2] - 1)
            return ('c', 'ne' if c[1] == 'eq' else 'eq', c[2])
        if c[0] == 'ev':
            return ('ev', c[1], not c[2])
        return ('not', c)

    # ------------------------------------------------------------ operands
    def val(self, st, v):
        k = v.kind
        if k == 'reg':
            r = st.regs.get(v.v)
            if r is None:
                raise Undecided(f"unset register {v.v}")
            return r
        if k == 'int':
            if v.ty.w == 1:
                return bool(v.v)
            return Lin(v.v)
        if k == 'null':
            return NULL
        if k == 'undef':
            return UNDEF
        if k == 'func':
            return ('fn', v.v)
        if k == 'gvar':
            return Ptr(self.gobj(st, v), ZERO)
        if k == 'zero':
            if v.ty.kind in ('struct', 'array'):
                n = len(v.ty.elems) if v.ty.kind == 'struct' else v.ty.n
                return ('agg',) + tuple(ZERO for _ in range(n))
            return ZERO
        if k == 'fp':
            return ('Fp', repr(v.v))
        if k == 'agg':
            return ('agg',) + tuple(self.val(st, x) for x in v.v)
        if k == 'cexpr':
            op, ops = v.v
            if op == 'gep':
                return self.gep(st, self.val(st, ops[0]), v.x, [self.val(st, o) for o in ops[1:]])
            if op in ('bitcast', 'addrspacecast'):
                return self.val(st, ops[0])
        return ANY

    def gobj(self, st, v):
        """object of a global variable (created on first use, id fixed)"""
        i = self.globals.get(v.v)
        if i is None:
            i = fresh_id()
            self.globals[v.v] = i
        if i not in st.mem:
            t, ini, const = self.mod.global_init(v.v, v.x)
            size = Lin(t.size)
            segs = None
            if ini is not None:
                segs = []
                if not self._init_segs(st, ini, t, 0, segs):
                    segs = None
            kind = 'const' if const else 'global'
            if segs is None:
                segs = (Seg(ZERO, size, 'any', '', 1, ()),) if t.size else ()
            st.mem[i] = Obj(i, kind, v.v, size, tuple(segs), True, None, 0)
            if kind == 'global':
                self.ginit[i] = st.mem[i].segs
        return i

    def _init_segs(self, st, c, t, off, segs):
        if t.size > 512:
            return False
        if c.kind == 'zero':
            if t.size:
                segs.append(Seg(Lin(off), Lin(off + t.size), 'live', 'zero', 1, ZERO))
            return True
        if c.kind == 'agg':
            pos = off
            for n, x in enumerate(c.v):
                et = t.elems[n] if t.kind == 'struct' else t.elems[0]
                o = off + (t.offs[n] if t.kind == 'struct' else n * et.size)
                if o > pos:
                    segs.append(raw_seg(Lin(pos), Lin(o)))
                if not self._init_segs(st, x, et, o, segs):
                    return False
                pos = o + et.size
            if pos < off + t.size:
                segs.append(raw_seg(Lin(pos), Lin(off + t.size)))
            return True
        if c.kind == 'undef':
            if t.size:
                segs.append(raw_seg(Lin(off), Lin(off + t.size)))
            return True
        v = self.val(st, c)
        if isinstance(v, bool):
            v = Lin(int(v))
        if v == ZERO and t.kind == 'int':
            segs.append(Seg(Lin(off), Lin(off + t.size), 'live', 'zero', 1, ZERO))
            return True
        segs.append(Seg(Lin(off), Lin(off + t.size), 'live', 's', t.size, v))
        return True

    def gep(self, st, base, ty, idx):
        if base == UNDEF:
            return UNDEF
        if not isinstance(base, Ptr):
            return ANY
        off = base.off
        i0 = idx[0]
        if not isinstance(i0, Lin):
            return UNDEF if i0 == UNDEF else ANY
        off = off + i0 * ty.size
        t = ty
        for i in idx[1:]:
            if not isinstance(i, Lin):
                return ANY
            if t.kind == 'struct':
                off = off + t.offs[i.c]
                t = t.elems[i.c]
            else:
                t = t.elems[0]
                off = off + i * t.size
        return Ptr(base.obj, off)

    # ------------------------------------------------------------ function execution
    def exec_fn(self, F, args, st, ins=None):
        """[('ret', st, val) | ('throw', st, None)]"""
        if F.decl:
            raise Undecided("call of undefined function " + F.name)
        if len(self.stack) > self.maxdepth:
            raise Undecided("call depth")
        self.visited.add(F.name)
        self.calls += 1
        act = self.active.setdefault(F.name, [])
        if act and st.exact:
            # the function is active already: the same arguments in the same state would recur for ever
            live = {i: o for i, o in st.mem.items() if o.alive}
            key = (list(args), st.trace, st.cons, {k: v for k, v in st.ex.items() if k != 'ncmp'})
            for k, m in act:
                if k == key and all(live.get(i) == o for i, o in m.items()) and all(i in m or o.kind == 'alloca' for i, o in live.items()):
                    self.report('hang', f"{F.name} calls itself with the same arguments in the same state: it never ends", st, ins)
                    return []
            act.append((key, live))
        else:
            act.append((None, {}))
        saved = self.fid
        self.fid = fresh_id()
        my = self.fid
        caller_regs = st.regs
        self.frames.append(caller_regs)
        if ins is not None:
            self.stack.append(ins)
        try:
            st.regs = {i: a for (i, _), a in zip(F.params, args)}
            if any(v is None for v in args):
                raise Undecided("bad argument")
            outs = self.explore(F, [(st, 0, None)], None)
        finally:
            act.pop()
            self.frames.pop()
            self.fid = saved
            if ins is not None:
                self.stack.pop()
        res = []
        for o in outs:
            s = o[1]
            s.regs = dict(caller_regs)
            dead = [i for i, ob in s.mem.items() if ob.frame == my and ob.kind == 'alloca']
            for i in dead:
                for g in s.mem[i].segs:
                    if g.st == 'live' and g.typ not in ('s', 'zero') and not entails_eq(s.cons, g.hi - g.lo) \
                            and o[0] == 'ret':
                        self.report('leak_elem', f"a local {g.typ} element is never destroyed in {F.name}", s, ins)
                del s.mem[i]
            res.append((o[0], s, o[2] if len(o) > 2 else None))
        return res

    def explore(self, F, work, loop):
        outs = []
        lps = loops_of(F)
        while work:
            st, b, p = work.pop()
            if loop is not None:
                if b == loop.header:
                    self.enter(F, st, b, p)
                    outs.append(('back', st))
                    continue
                if b not in loop.blocks:
                    outs.append(('exit', st, b, p))
                    continue
            lp = lps.get(b)
            if lp is not None:
                self.enter(F, st, b, p)
                for o in self.analyze_loop(F, lp, st):
                    if o[0] == 'exit':
                        work.append((o[1], o[2], o[3]))
                    else:
                        outs.append(o)
                continue
            self.enter(F, st, b, p)
            self.run_block(F, st, b, work, outs)
        return outs

    def enter(self, F, st, b, p):
        phis = F.blocks[b].phis
        if phis:
            vals = [(ph.id, self.val(st, ph.x[p])) for ph in phis]
            for i, v in vals:
                st.regs[i] = v

    def run_block(self, F, st, b, work, outs):
        instrs = F.blocks[b].instrs
        pend = [(st, len(F.blocks[b].phis))]
        while pend:
            st, i = pend.pop()
            while True:
                ins = instrs[i]
                self.steps += 1
                if self.steps > self.MAX_STEPS:
                    raise Undecided("analysis budget")
                if self.steps & 1023 == 0 and self.DEADLINE and time.time() > self.DEADLINE:
                    raise Undecided("time budget")
                op = ins.op
                if op == 'br':
                    if not ins.ops:
                        work.append((st, ins.x['succs'][0], b))
                    else:
                        c = self.val(st, ins.ops[0])
                        rs = self.resolve(st, c, ins)
                        if len(rs) > 1:
                            self.splits += 1
                        for s, v in rs:
                            s.sig = s.sig + ((F.name, b, v),)
                            work.append((s, ins.x['succs'][0 if v else 1], b))
                    break
                if op == 'switch':
                    self.do_switch(st, ins, b, work)
                    break
                if op == 'ret':
                    outs.append(('ret', st, self.val(st, ins.ops[0]) if ins.ops else None))
                    break
                if op == 'unreachable':
                    break
                if op == 'resume':
                    outs.append(('throw', st, None))
                    break
                if op == 'invoke':
                    for kind, s, v in self.do_call(st, ins):
                        if kind == 'ret':
                            if v is not None:
                                s.regs[ins.id] = v
                            work.append((s, ins.x['normal'], b))
                        else:
                            work.append((s, ins.x['unwind'], b))
                    break
                if op == 'call':
                    rs = []
                    for kind, s, v in self.do_call(st, ins):
                        if kind == 'ret':
                            if v is not None:
                                s.regs[ins.id] = v
                            rs.append(s)
                        else:
                            outs.append(('throw', s, None))
                    if not rs:
                        break
                    st = rs[0]
                    i += 1
                    for s in rs[1:]:
                        pend.append((s, i))
                    continue
                r = self.step(st, ins)
                if r is None:
                    i += 1
                    continue
                if not r:
                    break
                st = r[0]
                i += 1
                for s in r[1:]:
                    pend.append((s, i))

    def do_switch(self, st, ins, b, work):
        v = self.val(st, ins.ops[0])
        if isinstance(v, bool):
            v = Lin(int(v))
        if v == UNDEF:
            self.report('branch_undef', "switch on an uninitialised value", st, ins)
            return
        if not isinstance(v, Lin):
            raise Undecided("switch on opaque value")
        w = ins.ops[0].ty.w
        cur = [st]
        for cv, dest in ins.x['cases']:
            nxt = []
            for s in cur:
                # constants are sign-extended; compare modulo 2^w using the non-negative representative
                e = v - cv
                if cv < 0 and s.ge0(v):
                    e = v - (cv + (1 << w))
                for s1, eq in s.split_eq(e):
                    if eq:
                        s1.sig = s1.sig + ((ins.fn.name, b, cv),)
                        work.append((s1, dest, b))
                    else:
                        nxt.append(s1)
            cur = nxt
        for s in cur:
            s.sig = s.sig + ((ins.fn.name, b, 'default'),)
            work.append((s, ins.x['default'], b))

    # ------------------------------------------------------------ instructions
    def step(self, st, ins):
        """None: state updated in place.  Otherwise list of successor states."""
        op = ins.op
        R = st.regs
        if op == 'alloca':
            n = self.val(st, ins.ops[0])
            if not isinstance(n, Lin):
                raise Undecided("alloca")
            i = self.new_obj(st, 'alloca', n * ins.x.size, name=f"local{ins.id}")
            R[ins.id] = Ptr(i, ZERO)
            return None
        if op == 'gep':
            R[ins.id] = self.gep(st, self.val(st, ins.ops[0]), ins.x, [self.val(st, o) for o in ins.ops[1:]])
            return None
        if op == 'load':
            p = self.val(st, ins.ops[0])
            if ins.x['ord'] not in ('na', None):
                h = self.hooks.get('atomic_load')
                if h:
                    r = h(self, st, p, ins)
                    if r is not None:
                        return r
            t = ins.ty
            if t.kind == 'int' or t.kind == 'ptr' or t.kind in ('float', 'double', 'x86fp80'):
                out = []
                for s, v in self.load(st, p, t.size, ins, t.kind == 'ptr'):
                    if t.kind == 'int' and t.w == 1 and isinstance(v, Lin):
                        v = ('c', 'ne', v) if not v.isc() else bool(v.c)
                    s.regs[ins.id] = v
                    out.append(s)
                return out
            if t.kind in ('struct', 'array', 'vector'):
                return self._load_agg(st, p, t, ins)
            raise Undecided("load type")
        if op == 'store':
            v = self.val(st, ins.ops[0])
            p = self.val(st, ins.ops[1])
            t = ins.ops[0].ty
            if ins.x['ord'] not in ('na', None):
                h = self.hooks.get('atomic_store')
                if h:
                    r = h(self, st, p, v, ins)
                    if r is not None:
                        return r
            if t.kind == 'int' and (isinstance(v, bool) or (isinstance(v, tuple) and v and v[0] in ('c', 'ev', 'not'))):
                out = []
                for s, b in self.resolve(st, v, ins):
                    out += self.store(s, p, t.size, Lin(int(b)), ins)
                return out
            if t.kind in ('struct', 'array'):
                if isinstance(v, tuple) and v and v[0] == 'agg':
                    sts = [st]
                    for n, x in enumerate(v[1:]):
                        et = t.elems[n] if t.kind == 'struct' else t.elems[0]
                        o = t.offs[n] if t.kind == 'struct' else n * et.size
                        nx = []
                        for s in sts:
                            nx += self.store(s, Ptr(p.obj, p.off + o), et.size, x, ins)
                        sts = nx
                    return sts
                if v == UNDEF:
                    return self.store(st, p, t.size, UNDEF, ins)
                raise Undecided("aggregate store")
            return self.store(st, p, t.size, v, ins)
        if op == 'icmp':
            if self.bigk:
                self.narrow_bound(st, ins)
            return self.icmp(st, ins)
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            return self.arith(st, ins)
        if op == 'zext' or op == 'sext':
            v = self.val(st, ins.ops[0])
            if ins.ops[0].ty.w == 1:
                if v in (UNDEF, ANY):
                    R[ins.id] = v
                    return None
                out = []
                for s, b in self.resolve(st, v, ins):
                    s.regs[ins.id] = Lin((1 if op == 'zext' else -1) if b else 0)
                    out.append(s)
                return out
            if isinstance(v, Lin) and op == 'zext':
                d = st.ge0(v)
                w = ins.ops[0].ty.w
                if d is False:
                    v = v + (1 << w)
                elif d is None:
                    out = []
                    for s, b in st.split(v):
                        s.regs[ins.id] = v if b else v + (1 << w)
                        out.append(s)
                    return out
            if op == 'zext' and ins.ops[0].ty.w in (8, 16) and isinstance(v, tuple) and v not in (UNDEF, ANY):
                v = ('App', 'zext', ins.ops[0].ty.w, v)
            R[ins.id] = v
            return None
        if op == 'trunc':
            v = self.val(st, ins.ops[0])
            w = ins.ty.w
            if isinstance(v, tuple) and len(v) == 4 and v[:3] == ('App', 'zext', w):
                R[ins.id] = v[3]
                return None
            if isinstance(v, Lin):
                if v.isc():
                    x = v.c & ((1 << w) - 1)
                    if w == 16 and v.c == self.bigk and st.exact and not self.guarded16(ins.fn):
                        self.report('narrow', f"{ins.fn.name} keeps a length in 16 bits: it is wrong from 65536 elements on", st, ins)
                    if w == 1:
                        R[ins.id] = bool(x)
                    else:
                        R[ins.id] = Lin(x - (1 << w) if x >> (w - 1) else x)
                    return None
                if w == 1:
                    R[ins.id] = ('c', 'ne', v)
                    return None
                if entails(st.cons, v) and entails(st.cons, Lin((1 << w) - 1) - v):
                    R[ins.id] = v
                    return None
                if entails(st.cons, v):
                    out = []
                    for s, fits in st.split(Lin((1 << w) - 1) - v):
                        if fits:
                            s.regs[ins.id] = v
                        elif w >= 32 and not self.long_ok(s):
                            continue
                        else:
                            # v = q * 2^w + rest: exact, q is determined by v
                            ex = s.exact
                            q = self.opq_num(s, ('div', v, 1 << w), 1)
                            s.exact = ex
                            rest = v - q * (1 << w)
                            s.assume(rest)
                            s.assume(Lin((1 << w) - 1) - rest)
                            s.regs[ins.id] = rest
                            s.ex['wrap'] = s.ex.get('wrap', ()) + ((ins.fn.name, ins.id, w),)
                        out.append(s)
                    return out
                R[ins.id] = self.opq_num(st, ('App', 'trunc', w, v), 0, (1 << w) - 1)
                return None
            R[ins.id] = v if v in (UNDEF, ANY) else (('App', 'trunc', w, v) if w > 1 else v)
            return None
        if op == 'ptrtoint':
            v = self.val(st, ins.ops[0])
            if isinstance(v, Ptr):
                R[ins.id] = ('pi', v.obj, v.off) if v.obj else v.off
            else:
                R[ins.id] = v
            return None
        if op == 'inttoptr':
            v = self.val(st, ins.ops[0])
            if isinstance(v, tuple) and v and v[0] == 'pi':
                R[ins.id] = Ptr(v[1], v[2])
            elif isinstance(v, Lin) and v == ZERO:
                R[ins.id] = NULL
            else:
                R[ins.id] = ANY
            return None
        if op in ('bitcast', 'addrspacecast', 'freeze'):
            R[ins.id] = self.val(st, ins.ops[0])
            return None
        if op == 'select':
            c = self.val(st, ins.ops[0])
            a, b = self.val(st, ins.ops[1]), self.val(st, ins.ops[2])
            if a == b and not isinstance(a, bool):
                R[ins.id] = a
                return None
            out = []
            for s, v in self.resolve(st, c, ins):
                s.regs[ins.id] = a if v else b
                s.sig = s.sig + ((ins.fn.name, ins.id, v),)
                out.append(s)
            return out
        if op == 'extractvalue':
            v = self.val(st, ins.ops[0])
            for k in ins.x:
                if isinstance(v, tuple) and v and v[0] == 'agg':
                    v = v[1 + k]
                elif v in (UNDEF, ANY):
                    pass
                else:
                    v = ANY
            R[ins.id] = v
            return None
        if op == 'insertvalue':
            a = self.val(st, ins.ops[0])
            v = self.val(st, ins.ops[1])
            if len(ins.x) != 1:
                R[ins.id] = ANY
                return None
            n = len(ins.ty.elems) if ins.ty.kind == 'struct' else ins.ty.n
            if not (isinstance(a, tuple) and a and a[0] == 'agg'):
                a = ('agg',) + (a if a in (UNDEF,) else ANY,) * n
            k = ins.x[0] + 1
            R[ins.id] = a[:k] + (v,) + a[k + 1:]
            return None
        if op == 'landingpad':
            R[ins.id] = ('agg', ANY, ANY)
            return None
        if op in ('fence',):
            return None
        if op == 'cmpxchg':
            h = self.hooks.get('cmpxchg')
            if h:
                return h(self, st, ins)
            raise Undecided("compare-exchange")
        if op == 'atomicrmw':
            h = self.hooks.get('atomicrmw')
            if h:
                r = h(self, st, ins)
                if r is not None:
                    return r
            p = self.val(st, ins.ops[0])
            out = []
            for s in self.store(st, p, ins.ty.size, ANY, ins):
                s.regs[ins.id] = ANY
                out.append(s)
            return out
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            a, b = self.val(st, ins.ops[0]), self.val(st, ins.ops[1])
            R[ins.id] = UNDEF if UNDEF in (a, b) else ('App', op, a, b)
            return None
        if op == 'fneg':
            R[ins.id] = ('App', op, self.val(st, ins.ops[0]))
            return None
        if op in ('fptoui', 'fptosi', 'uitofp', 'sitofp', 'fptrunc', 'fpext'):
            a = self.val(st, ins.ops[0])
            R[ins.id] = a if a in (UNDEF, ANY) else ('App', op, ins.ty.kind, a)
            return None
        if op == 'fcmp':
            a, b = self.val(st, ins.ops[0]), self.val(st, ins.ops[1])
            R[ins.id] = UNDEF if UNDEF in (a, b) else self.event(st, f'fcmp{ins.x}', (a, b))
            return None
        raise Undecided("instruction " + op)

    def _load_agg(self, st, p, t, ins):
        sts = [(st, ('agg',))]
        n = len(t.elems) if t.kind == 'struct' else t.n
        if n > 64:
            raise Undecided("aggregate load")
        for k in range(n):
            et = t.elems[k] if t.kind == 'struct' else t.elems[0]
            o = t.offs[k] if t.kind == 'struct' else k * et.size
            nx = []
            for s, acc in sts:
                for s1, v in self.load(s, Ptr(p.obj, p.off + o), et.size, ins, et.kind == 'ptr'):
                    nx.append((s1, acc + (v,)))
            sts = nx
        out = []
        for s, v in sts:
            s.regs[ins.id] = v
            out.append(s)
        return out

    def opq_num(self, st, key, lo=None, hi=None):
        """a numeric symbol standing for an uninterpreted term"""
        d = st.ex.get('opq', ())
        for k, v in d:
            if k == key:
                return v
        v = sym(fresh('u'))
        if lo is not None:
            st.assume(v - lo)
        if hi is not None:
            st.assume(L(hi) - v)
        st.ex['opq'] = d + ((key, v),)
        st.exact = False
        return v

    def arith(self, st, ins):
        op = ins.op
        R = st.regs
        a, b = self.val(st, ins.ops[0]), self.val(st, ins.ops[1])
        w = ins.ty.w
        if w == 1:
            if UNDEF in (a, b):
                R[ins.id] = UNDEF
                return None
            if op == 'xor':
                if b is True:
                    R[ins.id] = self.negate(a)
                    return None
                if a is True:
                    R[ins.id] = self.negate(b)
                    return None
                if b is False:
                    R[ins.id] = a
                    return None
                if a is False:
                    R[ins.id] = b
                    return None
            out = []
            for s, v in self.resolve(st, a, ins):
                if op == 'and':
                    s.regs[ins.id] = b if v else False
                elif op == 'or':
                    s.regs[ins.id] = True if v else b
                elif op == 'xor':
                    s.regs[ins.id] = self.negate(b) if v else b
                else:
                    raise Undecided("i1 arith")
                out.append(s)
            return out
        if isinstance(a, bool):
            a = Lin(int(a))
        if isinstance(b, bool):
            b = Lin(int(b))
        if a == UNDEF or b == UNDEF:
            R[ins.id] = UNDEF
            return None
        la, lb = isinstance(a, Lin), isinstance(b, Lin)
        pa = isinstance(a, tuple) and a and a[0] == 'pi'
        pb = isinstance(b, tuple) and b and b[0] == 'pi'
        if op == 'add':
            if la and lb:
                return self.narrow(st, ins, self.wrapc(a + b, w), w)
            if pa and lb:
                R[ins.id] = ('pi', a[1], a[2] + b)
                return None
            if pb and la:
                R[ins.id] = ('pi', b[1], b[2] + a)
                return None
        elif op == 'sub':
            if la and lb:
                return self.narrow(st, ins, self.wrapc(a - b, w), w)
            if pa and pb:
                if a[1] == b[1]:
                    R[ins.id] = a[2] - b[2]
                    return None
                raise Undecided("difference of unrelated pointers")
            if pa and lb:
                R[ins.id] = ('pi', a[1], a[2] - b)
                return None
        elif op == 'mul' and la and lb:
            if b.isc():
                R[ins.id] = self.wrapc(a * b.c, w)
                return None
            if a.isc():
                R[ins.id] = self.wrapc(b * a.c, w)
                return None
            R[ins.id] = self.opq_num(st, ('mul', a, b) if repr(a) < repr(b) else ('mul', b, a), 0)
            return None
        elif op == 'shl' and la and lb and b.isc() and 0 <= b.c < w:
            R[ins.id] = self.wrapc(a * (1 << b.c), w)
            return None
        elif op in ('udiv', 'sdiv', 'lshr', 'ashr') and la and lb and b.isc():
            d = b.c if op in ('udiv', 'sdiv') else (1 << b.c)
            if d == 0:
                self.report('div0', "division by zero", st, ins)
                return []
            if d > 0:
                q = a.div(d)
                if q is not None:
                    R[ins.id] = q
                    return None
                if a.isc():
                    v = a.c
                    if op in ('udiv', 'lshr'):
                        v %= (1 << w)
                        R[ins.id] = Lin(v // d)
                    elif op == 'ashr':
                        R[ins.id] = Lin(v >> b.c)
                    else:
                        R[ins.id] = Lin(abs(v) // d * (1 if v >= 0 else -1))
                    return None
                out = []
                for s, nn in st.split(a):
                    if not nn:
                        raise Undecided("division of a negative value")
                    ex = s.exact
                    q = self.opq_num(s, ('div', a, d), 0)
                    s.exact = ex
                    s.assume(a - q * d)
                    s.assume(q * d + (d - 1) - a)
                    s.regs[ins.id] = q
                    out.append(s)
                return out
        elif op in ('urem', 'srem') and la and lb and b.isc() and b.c > 0:
            d = b.c
            if a.isc():
                v = a.c if op == 'srem' else a.c % (1 << w)
                R[ins.id] = Lin(v % d)
                return None
            # a in [0,d) / [d,2d): split, which keeps it linear
            out = []
            for s, nn in st.split(a):
                if not nn:
                    raise Undecided("remainder of a negative value")
                for s1, lt in s.split(L(d - 1) - a):
                    if lt:
                        s1.regs[ins.id] = a
                        out.append(s1)
                    else:
                        for s2, lt2 in s1.split(L(2 * d - 1) - a):
                            if lt2:
                                s2.regs[ins.id] = a - d
                                out.append(s2)
                            else:
                                ex = s2.exact
                                q = self.opq_num(s2, ('div', a, d), 0)
                                s2.exact = ex
                                s2.assume(a - q * d)
                                s2.assume(q * d + (d - 1) - a)
                                s2.regs[ins.id] = a - q * d
                                out.append(s2)
            return out
        elif la and lb and a.isc() and b.isc():
            x, y = a.c, b.c
            if op == 'and':
                R[ins.id] = Lin(x & y)
                return None
            if op == 'or':
                R[ins.id] = Lin(x | y)
                return None
            if op == 'xor':
                R[ins.id] = Lin(x ^ y)
                return None
        elif op == 'and' and lb and b.isc() and la:
            # mask of a power of two minus one on a value known small
            m = b.c
            if m >= 0 and (m & (m + 1)) == 0 and entails(st.cons, a) and entails(st.cons, L(m) - a):
                R[ins.id] = a
                return None
        elif op == 'xor' and la and lb and b.isc() and b.c == -1:
            R[ins.id] = -a - 1
            return None
        if la and lb:
            R[ins.id] = self.opq_num(st, (op, a, b))
            return None
        if a == ANY or b == ANY:
            R[ins.id] = ANY
            return None
        R[ins.id] = ('App', op, a, b)
        return None

    def long_ok(self, st):
        """the state is possible with stored sequences of fewer than 2^31 elements"""
        names = {x for c in st.cons for x in c.syms() if x.startswith('n_')}
        return feasible_with(st.cons, *(Lin((1 << 31) - 1) - sym(x) for x in names))

    @staticmethod
    def guarded16(fn):
        return any(i.op == 'icmp' and any(o.kind == 'int' and 32000 < o.v < 66000 for o in i.ops) for b in fn.blocks for i in b.instrs)

    def narrow_bound(self, st, ins):
        """a 16-bit counter compared with a length"""
        for a, b in (ins.ops, ins.ops[::-1]):
            if a.kind != 'reg' or b.kind == 'int':
                continue
            d = next((i for k in ins.fn.blocks for i in k.instrs if i.id == a.v and i.op in ('zext', 'sext')), None)
            if d is None or d.ops[0].ty.w != 16 or d.ops[0].kind != 'reg':
                continue
            if not any(p.id == d.ops[0].v for k in ins.fn.blocks for p in k.phis):
                continue
            v = self.val(st, b)
            if isinstance(v, Lin) and v.isc() and v.c == self.bigk and st.exact and not self.guarded16(ins.fn):
                self.report('narrow', f"{ins.fn.name} counts to a length in 16 bits: it never gets there from 65536 elements on", st, ins)
                return

    def narrow(self, st, ins, v, w):
        """the result v of an addition in w bits; additions in 8 and 16 bits may wrap around"""
        if v.isc() and w in (8, 16):
            a, b = (self.val(st, o) for o in ins.ops)
            if ins.op == 'add' and isinstance(a, Lin) and isinstance(b, Lin) and a.isc() and b.isc() and 0 < b.c < 16:
                ext = {i.op for k in ins.fn.blocks for i in k.instrs if i.op in ('zext', 'sext') and i.ops[0].ty.w == w}
                top = (1 << w - 1) if ext == {'sext'} else 1 << w
                x = a.c % (1 << w)
                if top == 1 << w or x < top:
                    if x + b.c >= top:
                        st.ex['wrap'] = st.ex.get('wrap', ()) + ((ins.fn.name, ins.id, w),)
        if v.isc() or w not in (8, 16):
            st.regs[ins.id] = v
            return None
        out = []
        for s, fits in st.split(L((1 << w) - 1) - v):
            if not fits:
                s.regs[ins.id] = v - (1 << w)
                s.ex['wrap'] = s.ex.get('wrap', ()) + ((ins.fn.name, ins.id, w),)
                out.append(s)
                continue
            for s1, ok in s.split(v + (1 << (w - 1))):
                s1.regs[ins.id] = v if ok else v + (1 << w)
                out.append(s1)
        return out

    def wrapc(self, e, w):
        if not e.t:
            m = 1 << w
            v = e.c % m
            return Lin(v - m if v >> (w - 1) else v)
        return e

    def icmp(self, st, ins):
        a, b = self.val(st, ins.ops[0]), self.val(st, ins.ops[1])
        pred = ins.x
        R = st.regs
        id = ins.id
        if isinstance(a, bool):
            a = Lin(int(a))
        if isinstance(b, bool):
            b = Lin(int(b))
        if a == UNDEF or b == UNDEF:
            R[id] = UNDEF
            return None
        if isinstance(a, tuple) and a and a[0] in ('c', 'ev', 'not') and isinstance(b, Lin):
            # comparison of a condition with 0/1
            truth = (b.c != 0) == (pred == 'eq')
            R[id] = a if truth else self.negate(a)
            return None
        if isinstance(a, tuple) and a and a[0] == 'pi' and isinstance(b, tuple) and b and b[0] == 'pi':
            a, b = Ptr(a[1], a[2]), Ptr(b[1], b[2])
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj == b.obj:
                a, b = a.off, b.off
                if pred[0] == 'u':
                    pred = 's' + pred[1:]
            elif pred in ('eq', 'ne'):
                R[id] = (pred == 'ne')
                return None
            else:
                R[id] = ANY
                return None
        if isinstance(a, tuple) and a and a[0] == 'fn' and isinstance(b, Ptr):
            R[id] = (pred == 'ne')
            return None
        if isinstance(a, Lin) and isinstance(b, Lin):
            if pred in ('eq', 'ne'):
                R[id] = ('c', pred, a - b) if not (a - b).isc() else (((a - b).c == 0) == (pred == 'eq'))
                return None
            if pred[0] == 'u':
                w = ins.ops[0].ty.w if ins.ops[0].ty.kind == 'int' else 64
                m = 1 << w
                states = [(st, a, b)]
                for pos in (0, 1):
                    nx = []
                    for t in states:
                        s, v = t[0], t[1 + pos]
                        for s1, nn in s.split(v):
                            v1 = v if nn else v + m
                            nx.append((s1, v1, t[2]) if pos == 0 else (s1, t[1], v1))
                    states = nx
            else:
                states = [(st, a, b)]
            out = []
            for s, x, y in states:
                k = pred[1:]
                e = {'lt': y - x - 1, 'le': y - x, 'gt': x - y - 1, 'ge': x - y}[k]
                s.regs[id] = (e.c >= 0) if e.isc() else ('c', 'ge', e)
                out.append(s)
            return out
        if a == ANY or b == ANY:
            R[id] = ANY
            return None
        # opaque scalar comparison: an event
        if pred in ('eq', 'ne'):
            if a == b:
                R[id] = (pred == 'eq')
                return None
            R[id] = self.event(st, 'eq', (a, b), neg=(pred == 'ne'))
            return None
        if pred[1:] in ('gt', 'le'):
            x, y, neg = b, a, pred[1:] == 'le'
        else:
            x, y, neg = a, b, pred[1:] == 'ge'
        R[id] = self.event(st, pred[0] + 'lt', (x, y), neg=neg)
        return None

    # ------------------------------------------------------------ calls
    def do_call(self, st, ins):
        cal = ins.x['callee']
        if cal.kind == 'func':
            name = cal.v
        else:
            v = self.val(st, cal) if cal.kind != 'other' else ANY
            if isinstance(v, tuple) and v and v[0] == 'fn':
                name = v[1]
            else:
                raise Undecided("indirect call")
        args = [self.val(st, o) for o in ins.ops if o.kind != 'other' or o.ty is None or o.ty.kind != 'metadata']
        h = self.hooks.get('call')
        if h:
            r = h(self, st, name, args, ins)
            if r is not None:
                return r
        return self.call(st, name, args, ins)

    def call(self, st, name, args, ins):
        p = probe_of(name)
        if p:
            return [('ret', s, v) for s, v in self.probe_call(st, p[0], p[1], p[2], args, ins)]
        m = _EV.match(name)
        if m:
            return self.opaque_call(st, m, args, ins)
        if name.startswith('llvm.'):
            return self.intrinsic(st, name, args, ins)
        import models
        f = models.MODELS.get(name)
        if f:
            return f(self, st, args, ins)
        for pat, g in models.PATTERNS:
            if pat.match(name):
                return g(self, st, args, ins)
        F = self.mod.fn(name)
        if F is None or F.decl:
            raise Undecided("no model for " + name)
        return self.exec_fn(F, args, st, ins)

    def content_of(self, st, p, ins, what):
        """[(state, content)] for whatever live thing p refers to"""
        o = self._obj(st, p, ins, what)
        if o is None:
            return []
        self.guard_access(st, p, 1, ins, 'r')
        out = []
        cur = st
        # locate the containing segment without disturbing it
        for k, sg in enumerate(o.segs):
            if cur is None:
                break
            nxt = None
            for s, ok in cur.split(sg.hi - p.off - 1):
                if not ok:
                    nxt = s
                    continue
                s.mem[p.obj] = o
                if sg.st == 'raw':
                    self.report('read_dead', f"{what}: no live element at {o.name or o.kind}+{p.off}", s, ins)
                    continue
                if sg.st == 'any':
                    out.append((s, ANY))
                    continue
                d = (p.off - sg.lo).div(sg.stride)
                out.append((s, at(sg, d) if d is not None else ANY))
            cur = nxt
        if cur is not None:
            self.report('oob', f"{what}: past the end of {o.name or o.kind}", cur, ins)
        return out

    def opaque_call(self, st, m, args, ins):
        kind, T, nm = m.group(1), m.group(2), m.group(3)
        rest = args[1:] if T else args
        sts = [(st, ())]
        for a in rest:
            nx = []
            for s, acc in sts:
                if isinstance(a, Ptr):
                    for s1, v in self.content_of(s, a, ins, f"argument of callback {nm}"):
                        nx.append((s1, acc + (('ref', a, v),)))
                elif a == UNDEF:
                    self.report('read_dead', f"uninitialised argument of callback {nm}", s, ins)
                else:
                    nx.append((s, acc + (a,)))
            sts = nx
        out = []
        for s, av in sts:
            idx = s.tlen
            c = self.event(s, nm, av)
            if T:
                for s1 in self.p_set(s, T, PROBE_SIZE[T], args[0], ('Ret', nm, idx), ins, 'result of callback', 'raw'):
                    out.append(('ret', s1, None))
            elif kind == 'b':
                out.append(('ret', s, c))
            elif kind == 'i':
                out.append(('ret', s, ('Ret', nm, idx)))
            elif kind == 'm':
                ss = [s]
                for n, a in enumerate(rest):
                    if not isinstance(a, Ptr):
                        continue
                    n2 = []
                    for s1 in ss:
                        o = s1.mem[a.obj]
                        n2 += self._update(s1, a, ('Upd', nm, idx, n), ins)
                    ss = n2
                out += [('ret', s1, None) for s1 in ss]
            else:
                out.append(('ret', s, None))
        return out

    def _update(self, st, a, content, ins):
        o = st.mem[a.obj]
        for sg in o.segs:
            if st.ge0(a.off - sg.lo) and st.ge0(sg.hi - a.off - 1) and sg.st == 'live':
                if sg.typ in ('s', 'zero'):
                    return self.store(st, a, sg.stride, content, ins)
                return self.p_set(st, sg.typ, sg.stride, a, content, ins, 'update by callback', 'live')
        raise Undecided("update")

    def intrinsic(self, st, name, args, ins):
        R = [('ret', st, None)]
        if name.startswith('llvm.lifetime.start') or name.startswith('llvm.lifetime.end'):
            p = args[1]
            if isinstance(p, Ptr) and p.obj in st.mem:
                o = st.mem[p.obj]
                if o.kind == 'alloca':
                    if name.startswith('llvm.lifetime.end'):
                        for g in o.segs:
                            if g.st == 'live' and g.typ not in ('s', 'zero') and not entails_eq(st.cons, g.hi - g.lo):
                                self.report('leak_elem', f"local element ({g.typ}) goes out of scope without being destroyed",
                                            st, ins)
                    st.mem[p.obj] = o._replace(segs=(raw_seg(ZERO, o.size),))
            return R
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            return [('ret', s, None) for s in self.memcopy(st, args[0], args[1], args[2], ins,
                                                                name.startswith('llvm.memmove'))]
        if name.startswith('llvm.memset'):
            v = args[1]
            return [('ret', s, None) for s in self.memset(st, args[0], v, args[2], ins)]
        if name.startswith('llvm.expect'):
            return [('ret', st, args[0])]
        if name.startswith('llvm.assume') or name.startswith('llvm.invariant') or name.startswith('llvm.prefetch') \
                or name.startswith('llvm.stack') or name.startswith('llvm.donothing') or name.startswith('llvm.va_'):
            return [('ret', st, ANY)]
        if name.startswith('llvm.is.constant'):
            return [('ret', st, False)]
        if name.startswith('llvm.objectsize'):
            return [('ret', st, Lin(-1))]
        if name.startswith('llvm.eh.typeid.for'):
            return [('ret', st, ANY)]
        if name.startswith('llvm.trap'):
            return []
        m = re.match(r'llvm\.(u|s)(min|max)\.i(\d+)', name)
        if m:
            a, b = args
            if isinstance(a, Lin) and isinstance(b, Lin):
                out = []
                for s, ge in st.split(a - b):
                    if m.group(2) == 'max':
                        out.append(('ret', s, a if ge else b))
                    else:
                        out.append(('ret', s, b if ge else a))
                return out
        m = re.match(r'llvm\.(u|s)(add|sub|mul)\.with\.overflow\.i(\d+)', name)
        if m:
            a, b = args
            if isinstance(a, Lin) and isinstance(b, Lin):
                o = m.group(2)
                if o == 'mul':
                    if b.isc():
                        r = a * b.c
                    elif a.isc():
                        r = b * a.c
                    else:
                        r = self.opq_num(st, ('mul', a, b), 0)
                    return [('ret', st, ('agg', r, False))]
                r = a + b if o == 'add' else a - b
                if m.group(1) == 'u' and o == 'sub':
                    return [('ret', s, ('agg', r, not ok)) for s, ok in st.split(r)]
                return [('ret', st, ('agg', r, False))]
        m = re.match(r'llvm\.usub\.sat', name)
        if m:
            a, b = args
            return [('ret', s, a - b if ok else ZERO) for s, ok in st.split(a - b)]
        raise Undecided("intrinsic " + name)

    # ------------------------------------------------------------ loops
    def analyze_loop(self, F, lp, st):
        import loops
        return loops.analyze(self, F, lp, st)
