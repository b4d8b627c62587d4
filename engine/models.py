"""Effects of functions whose bodies are outside the analysed sources (C and C++ runtime)."""
import re
from dom import *
from state import *

MODELS = {}
PATTERNS = []


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def pattern(rx):
    def d(f):
        PATTERNS.append((re.compile(rx), f))
        return f
    return d


def R(st, v=None):
    return [('ret', st, v)]


def allocate(ip, st, n, ins, family):
    if not isinstance(n, Lin):
        raise Undecided("allocation of unknown size")
    out = []
    for s, ok in st.split(n):
        if not ok:
            ip.report('bad_alloc_size', f"allocation of a negative number of bytes {n}", s, ins)
            continue
        i = ip.new_obj(s, 'heap', n, name='heap', family=family)
        s.mem[i] = s.mem[i]._replace(frame=0)
        s.ex = dict(s.ex)
        ip.allocs.append((family, ins.loc() if ins else ''))
        h = ip.hooks.get('alloc')
        if h:
            h(ip, s, i, ins)
        out.append(('ret', s, Ptr(i, ZERO)))
    return out


def release(ip, st, p, ins, family):
    if p == UNDEF:
        ip.report('undef_ptr', "release of an uninitialised pointer", st, ins)
        return []
    if not isinstance(p, Ptr):
        raise Undecided("release of unknown pointer")
    if p.obj == 0:
        return R(st)
    o = st.mem.get(p.obj)
    if o is None or not o.alive:
        ip.report('double_free', "memory is released twice", st, ins)
        return []
    if o.kind != 'heap':
        ip.report('bad_free', f"release of memory that was not allocated ({o.name or o.kind})", st, ins)
        return []
    if not entails_eq(st.cons, p.off):
        ip.report('bad_free', f"release of an interior pointer (offset {p.off})", st, ins)
        return []
    if o.family != family:
        ip.report('bad_free', f"memory from {o.family} released by {family}", st, ins)
        return []
    for g in norm_segs(o.segs, st.cons):
        if g.st == 'live' and g.typ not in ('s', 'zero'):
            if st.ge0(g.hi - g.lo - 1) is not False:
                s2 = st.fork()
                s2.assume(g.hi - g.lo - 1)
                ip.report('leak_elem', f"memory released while elements [{g.lo},{g.hi}) (bytes) are still alive", s2, ins)
    st.mem[p.obj] = o._replace(alive=False, segs=())
    return R(st)


@model('_Znwm', '_ZnwmSt11align_val_t')
def _new(ip, st, a, ins):
    return allocate(ip, st, a[0], ins, 'new')


@model('_Znam')
def _newa(ip, st, a, ins):
    return allocate(ip, st, a[0], ins, 'new[]')


@model('malloc')
def _malloc(ip, st, a, ins):
    return allocate(ip, st, a[0], ins, 'malloc')


@model('_ZdlPv', '_ZdlPvSt11align_val_t')
def _del(ip, st, a, ins):
    return release(ip, st, a[0], ins, 'new')


@model('_ZdlPvm', '_ZdlPvmSt11align_val_t')
def _dels(ip, st, a, ins):
    p, n = a[0], a[1]
    o = st.mem.get(p.obj) if isinstance(p, Ptr) and p.obj != 0 else None
    if o is not None and o.alive and o.kind == 'heap':
        if n == UNDEF:
            ip.report('bad_free', "memory released with an uninitialised size", st, ins)
        elif not isinstance(n, Lin) or o.size is None:
            pass
        elif not entails_eq(st.cons, n - o.size):
            for e in (n - o.size - 1, o.size - n - 1):
                if st.ge0(e) is not False:
                    s2 = st.fork()
                    s2.assume(e)
                    ip.report('bad_free', f"{o.size} bytes were allocated, the release states {n}", s2, ins)
                    break
    return release(ip, st, p, ins, 'new')


@model('_ZdaPv', '_ZdaPvm')
def _dela(ip, st, a, ins):
    return release(ip, st, a[0], ins, 'new[]')


@model('free')
def _free(ip, st, a, ins):
    return release(ip, st, a[0], ins, 'malloc')


@model('__cxa_allocate_exception')
def _cxa_alloc(ip, st, a, ins):
    i = ip.new_obj(st, 'opaque', 64, name='exception')
    st.mem[i] = st.mem[i]._replace(frame=0)
    return R(st, Ptr(i, ZERO))


@model('__cxa_free_exception', '__cxa_end_catch')
def _nop(ip, st, a, ins):
    return R(st)


@model('__cxa_begin_catch')
def _bc(ip, st, a, ins):
    return R(st, ANY)


@model('__cxa_throw', '__cxa_rethrow')
def _throw(ip, st, a, ins):
    return [('throw', st, None)]


@model('_ZSt17__throw_bad_allocv', '_ZSt28__throw_bad_array_new_lengthv', '_ZSt20__throw_length_errorPKc',
       '_ZSt20__throw_system_errori')
def _throwlib(ip, st, a, ins):
    st.note = st.note + ('libthrow',)
    return [('throw', st, None)]


@model('abort', '_ZSt9terminatev', '__clang_call_terminate', 'exit', '__assert_fail', '__cxa_pure_virtual')
def _abort(ip, st, a, ins):
    ip.report('terminate', "the program is terminated here", st, ins)
    return []


@pattern(r'^_ZNSt13runtime_error(C[12]|D[012]).*')
def _rt(ip, st, a, ins):
    return R(st)


@pattern(r'^_ZNSt(9exception|11logic_error|12out_of_range)(C[12]|D[012]).*')
def _rt2(ip, st, a, ins):
    return R(st)


def _textlen(w):
    def f(ip, st, a, ins):
        p = a[0]
        o = ip._obj(st, p, ins, 'read (length of text)')
        if o is None:
            return []
        # first NUL at or after p in a run of non-NUL content
        for g in norm_segs(o.segs, st.cons):
            if st.ge0(p.off - g.hi):
                continue
            if st.ge0(g.lo - g.hi):
                continue
            if g.st == 'raw':
                ip.report('read_dead', "the length of a text is taken that runs into uninitialised memory", st, ins)
                return []
            if g.st == 'live' and (g.typ == 'zero' or (g.typ == 's' and g.stride == w and g.val == ZERO)):
                if st.ge0(g.hi - g.lo - 1) is not True:
                    raise Undecided("strlen")
                d = (g.lo - p.off) if st.ge0(g.lo - p.off) else ZERO
                return R(st, d.div(w) if w != 1 else d)
            if g.st == 'live' and g.typ == 's' and g.stride == w and isinstance(g.val, tuple) and g.val[0] in ('Chr',):
                continue
            if g.st == 'live' and g.typ == 's' and g.stride == w and isinstance(g.val, Lin) and g.val.isc() and g.val.c % (1 << 8 * w):
                continue
            raise Undecided("strlen over unknown content")
        ip.report('oob', "the length of a text is taken that is not NUL-terminated", st, ins)
        return []
    return f


MODELS['strlen'] = _textlen(1)
MODELS['_ZNSt11char_traitsIcE6lengthEPKc'] = _textlen(1)
MODELS['wcslen'] = _textlen(4)


def _memcmp(w):
    def f(ip, st, a, ins):
        """compares element by element: every comparison is an event, as in a hand-written loop"""
        p, q, n = a
        if not isinstance(n, Lin) or not n.isc():
            raise Undecided("comparison of a symbolic number of characters")
        if n.c == 0:
            return R(st, ZERO)
        out = []
        cur = [st]
        for i in range(n.c):
            nxt = []
            for s0 in cur:
                if not isinstance(p, Ptr) or not isinstance(q, Ptr):
                    raise Undecided("comparison of unknown memory")
                for s1, x in ip.load(s0, Ptr(p.obj, p.off + i * w), w, ins):
                    for s2, y in ip.load(s1, Ptr(q.obj, q.off + i * w), w, ins):
                        if x == UNDEF or y == UNDEF:
                            ip.report('read_dead', "uninitialised characters are compared", s2, ins)
                            continue
                        if x == ANY or y == ANY:
                            raise Undecided("comparison of unknown characters")
                        if x == y:
                            nxt.append(s2)
                            continue
                        if isinstance(x, Lin) and isinstance(y, Lin):
                            if not (x - y).isc():
                                raise Undecided("comparison of unknown characters")
                            out.append(('ret', s2, Lin(-1 if (x - y).c < 0 else 1)))
                            continue
                        for s3, eq in ip.resolve(s2, ip.event(s2, 'eq', (x, y)), ins):
                            if eq:
                                nxt.append(s3)
                                continue
                            for s4, lt in ip.resolve(s3, ip.event(s3, 'ult', (x, y)), ins):
                                r = sym(fresh('cmp'))
                                s4.assume(-r - 1 if lt else r - 1)
                                out.append(('ret', s4, r))
            cur = nxt
        return out + [('ret', s, ZERO) for s in cur]
    return f


MODELS['memcmp'] = MODELS['bcmp'] = _memcmp(1)
MODELS['wmemcmp'] = _memcmp(4)


@model('memcpy')
def _memcpy(ip, st, a, ins):
    return [('ret', s, a[0]) for s in ip.memcopy(st, a[0], a[1], a[2], ins, False)]


@model('memmove')
def _memmove(ip, st, a, ins):
    return [('ret', s, a[0]) for s in ip.memcopy(st, a[0], a[1], a[2], ins)]


@model('memset')
def _memset(ip, st, a, ins):
    return [('ret', s, a[0]) for s in ip.memset(st, a[0], a[1], a[2], ins)]


@model('__dso_handle', '__cxa_atexit')
def _atexit(ip, st, a, ins):
    return R(st, ZERO)


@model('_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_createERmm')
def _string_create(ip, st, a, ins):
    """std::string::_M_create(capacity, old): storage for capacity characters and the terminator"""
    out = []
    for s, n in ip.load(st, a[1], 8, ins, True):
        if not isinstance(n, Lin):
            raise Undecided("capacity of a std::string")
        out += allocate(ip, s, n + 1, ins, 'new')
    return out


@model('__cxa_guard_acquire')
def _guard(ip, st, a, ins):
    """a static local variable that is not initialised yet (the caller has read the guard as zero)"""
    return R(st, ONE)


@model('__cxa_guard_release')
def _guard_end(ip, st, a, ins):
    return [('ret', s, None) for s in ip.store(st, a[0], 1, ONE, ins)]


@model('__cxa_guard_abort')
def _guard_abort(ip, st, a, ins):
    return R(st)
