"""File: ownership of the stream, exact delivery of what is written, exact lines read.

The C stream functions are interpreted as the protocol the C standard describes: fopen makes a stream or fails, every
other function needs an open stream, fclose ends it whether or not it reports success, and every transfer may fail at
every character."""
import itertools
from spec import *
from strs import text, trun, is_text
from seq import outcomes

TYPES = {'S8': 'char'}
SC = []
SHARDS = 6
EOF = Lin(-1)


def source(tier):
    return '''#include "probe.hpp"
#include "efp/io.hpp"
using namespace efp;
using S8 = String;
VP_SEQ(S8, S8) VP_OWN(S8, S8)
using VS = Vector<String>;
S_FN unsigned long sizeof_F() { return sizeof(File); }
S_FN int open_F(void* r, const char* p, const char* m) { auto f = File::open(p, m); if (!f) return 0; new (r) File(f.move()); return 1; }
S_FN int opens_F(void* r, const String& p, const char* m) { auto f = File::open(p, m); if (!f) return 0; new (r) File(f.move()); return 1; }
S_FN int opend_F(const char* p, const char* m) { auto f = File::open(p, m); return f.has_value(); }
S_FN void dtor_F(File& f) { f.~File(); }
S_FN void move_F(void* r, File& f) { new (r) File(efp::move(f)); }
S_FN void massign_F(File& a, File& b) { a = efp::move(b); }
S_FN bool close_F(File& f) { return f.close(); }
S_FN bool wp_F(File& f, const char* s) { return f.write(s); }
S_FN bool wpn_F(File& f, const char* s, unsigned long n) { return f.write(s, n); }
S_FN bool ws_F(File& f, const String& s) { return f.write(s); }
S_FN int flush_F(File& f) { return f.flush(); }
S_FN bool seek_F(File& f, long o) { return f.seek(o); }
S_FN long tell_F(File& f) { return f.tell(); }
S_FN int rl_F(void* r, File& f) { auto m = f.read_line(); if (!m) return 0; new (r) String(m.move()); return 1; }
S_FN void rls_F(void* r, File& f) { new (r) VS(f.read_lines()); }
S_FN void rlsd_F(File& f) { f.read_lines(); }
S_FN unsigned long sizeof_VS() { return sizeof(VS); }
S_FN unsigned long n_VS(const VS& v) { return v.size(); }
S_FN const String* at_VS(const VS& v, unsigned long i) { return &v[i]; }
S_FN void dtor_VS(VS& v) { v.~VS(); }
'''


# ---------------------------------------------------------------- streams

def streams(st):
    return dict(st.ex.get('streams', ()))


def set_stream(st, i, v):
    d = streams(st)
    d[i] = v
    st.ex['streams'] = tuple(sorted(d.items()))


def stream(ip, st, p, ins, name):
    """the open stream p denotes; None after reporting"""
    if p == UNDEF:
        ip.report('stream', f"{name} is called with an uninitialised stream", st, ins)
        return None
    if not isinstance(p, Ptr):
        raise Undecided("unknown stream")
    if p.obj == 0:
        ip.report('stream', f"{name} is called with a null stream", st, ins)
        return None
    s = streams(st).get(p.obj)
    if s is None:
        raise Undecided("not a stream")
    if s == 'closed':
        ip.report('stream', f"{name} is called with a stream that is already closed", st, ins)
        return None
    return p.obj


def strip(v):
    while isinstance(v, tuple) and v and v[0] == 'App':
        v = v[-1]
    return v


def cbytes(ip, st, p, ins, what, most=64):
    """the concrete C text at p: [bytes before NUL], or None after reporting"""
    out = []
    for i in range(most):
        rs = ip.load(st, Ptr(p.obj, p.off + i), 1, ins)
        if not rs:
            return None
        if len(rs) != 1:
            raise Undecided(what)
        v = rs[0][1]
        if v == UNDEF:
            ip.report('read_dead', f"{what} runs into uninitialised memory", st, ins)
            return None
        if not isinstance(v, Lin) or not v.isc():
            raise Undecided(what)
        if v.c % 256 == 0:
            return out
        out.append(v.c % 256)
    raise Undecided(what)


def put_run(ip, st, sid, p, n, ins):
    """n characters from p are handed to stream sid: outcomes [(state, number accepted, all accepted)]"""
    out = []
    for s, e in st.split(-n):
        if e:
            out.append((s, ZERO, True))
            continue
        if ip._obj(s, p, ins, 'read (data to be written)') is None:
            continue
        rs = ip.cut(s, p.obj, p.off, p.off + n, ins, 'read (data to be written)')
        for s2, i, j in rs:
            segs = s2.mem[p.obj].segs[i:j]
            for g in segs:
                if g.st == 'raw':
                    ip.report('read_dead', "uninitialised data are written to the file", s2, ins)
                    segs = None
                    break
                if g.typ not in ('s', 'zero') or (g.typ == 's' and g.stride != 1):
                    raise Undecided("data to be written")
            if segs is None:
                continue
            for full in (True, False):
                s3 = s2.fork()
                k = n
                if not full:
                    k = sym(fresh('acc'))
                    s3.assume(k)
                    s3.assume(n - k - 1)
                rest = [(s3, ZERO)]
                for g in segs:
                    nx = []
                    for s4, dn in rest:
                        w = g.hi - g.lo
                        val = ZERO if g.typ == 'zero' else g.val
                        for s5, fit in s4.split(k - dn - w):
                            m = w if fit else k - dn
                            if s5.ge0(m - 1) is not False:
                                t = s5.tlen
                                s5.trace = s5.trace + (TSeg(t, t + m, ('E', 'put', (sid, val), 'T')),)
                                s5.tlen = t + m
                            nx.append((s5, dn + m))
                    rest = nx
                for s4, dn in rest:
                    if not full:
                        t = s4.tlen
                        s4.trace = s4.trace + (TSeg(t, t + 1, ('E', 'putfail', (sid,), 'F')),)
                        s4.tlen = t + 1
                    out.append((s4, k, full))
    return out


def next_char(st, sid):
    """the next character of the input, or None at its end; advances"""
    inp = st.ex.get('input', ())
    k = st.ex.get('pos', 0)
    if k >= len(inp):
        return None
    st.ex['pos'] = k + 1
    return inp[k]


def wide(c):
    """the character as an unsigned char converted to int"""
    return ('App', 'zext', 8, c) if is_text(c) else c


def hook_call(ip, st, name, a, ins):
    R = lambda s, v=None: [('ret', s, v)]
    if name in ('fopen', 'fopen64'):
        f = st.fork()
        out = R(f, NULL)
        i = ip.new_obj(st, 'opaque', 216, 'stream')
        st.mem[i] = st.mem[i]._replace(frame=0)
        set_stream(st, i, 'open')
        st.ex['opened'] = st.ex.get('opened', ()) + ((a[0], a[1]),)
        f.ex['refused'] = f.ex.get('refused', 0) + 1
        return out + R(st, Ptr(i, ZERO))
    if name == 'fclose':
        s = stream(ip, st, a[0], ins, name)
        if s is None:
            return []
        set_stream(st, s, 'closed')
        f = st.fork()
        f.ex['closefail'] = f.ex.get('closefail', 0) + 1
        return R(st, ZERO) + R(f, EOF)
    if name in ('fputc', 'putc', '_IO_putc', 'putc_unlocked', 'fputc_unlocked'):
        s = stream(ip, st, a[1], ins, name)
        if s is None:
            return []
        v = strip(a[0])
        if v == UNDEF:
            ip.report('read_dead', "uninitialised data are written to the file", st, ins)
            return []
        if isinstance(v, Lin) and v.isc():
            v = Lin((v.c + 128) % 256 - 128)
        f = st.fork()
        t = st.tlen
        st.trace = st.trace + (TSeg(t, t + 1, ('E', 'put', (s, v), 'T')),)
        st.tlen = t + 1
        f.trace = f.trace + (TSeg(t, t + 1, ('E', 'putfail', (s,), 'F')),)
        f.tlen = t + 1
        if isinstance(v, Lin) and v.isc():
            rv = Lin(v.c % 256)
        elif is_text(v):
            rv = wide(v)
        else:
            rv = ip.opq_num(st, ('putc', fresh('p')), 0, 255)
        return R(st, rv) + R(f, EOF)
    if name in ('fwrite', 'fwrite_unlocked'):
        s = stream(ip, st, a[3], ins, name)
        if s is None:
            return []
        size, cnt = a[1], a[2]
        if not isinstance(size, Lin) or not isinstance(cnt, Lin) or not (size.isc() or cnt.isc()):
            raise Undecided("fwrite of unknown size")
        if cnt.isc() and not size.isc() and cnt.c == 1:
            return [('ret', s2, Lin(1) if full else ZERO) for s2, k, full in put_run(ip, st, s, a[0], size, ins)]
        if size.c != 1:
            raise Undecided("fwrite of larger items")
        return [('ret', s2, k) for s2, k, full in put_run(ip, st, s, a[0], cnt, ins)]
    if name == 'fputs':
        s = stream(ip, st, a[1], ins, name)
        if s is None:
            return []
        out = []
        for kind, s2, n in ip.call(st, 'strlen', [a[0]], ins):
            for s3, k, full in put_run(ip, s2, s, a[0], n, ins):
                out.append(('ret', s3, Lin(1) if full else EOF))
        return out
    if name in ('fgetc', 'getc', '_IO_getc', 'getc_unlocked', 'fgetc_unlocked'):
        s = stream(ip, st, a[0], ins, name)
        if s is None:
            return []
        c = next_char(st, s)
        return R(st, EOF if c is None else wide(c))
    if name == 'ungetc':
        s = stream(ip, st, a[1], ins, name)
        if s is None:
            return []
        if a[0] == EOF:
            return R(st, EOF)
        k = st.ex.get('pos', 0)
        if k == 0 or st.ex['input'][k - 1] != strip(a[0]):
            raise Undecided("ungetc of another character")
        st.ex['pos'] = k - 1
        return R(st, a[0])
    if name == 'feof':
        s = stream(ip, st, a[0], ins, name)
        if s is None:
            return []
        raise Undecided("feof")
    if name in ('fgets', 'fgets_unlocked'):
        s = stream(ip, st, a[2], ins, name)
        if s is None:
            return []
        if not isinstance(a[1], Lin) or not a[1].isc():
            raise Undecided("fgets")
        got = []
        while len(got) < a[1].c - 1:
            ch = next_char(st, s)
            if ch is None:
                break
            got.append(ch)
            if ch == Lin(10):
                break
        if not got:
            return R(st, NULL)
        cur = [st]
        for i, ch in enumerate(got + [ZERO]):
            cur = [s3 for s2 in cur for s3 in ip.store(s2, Ptr(a[0].obj, a[0].off + i), 1, ch, ins)]
        return [('ret', s2, a[0]) for s2 in cur]
    if name in ('fread', 'fread_unlocked'):
        s = stream(ip, st, a[3], ins, name)
        if s is None:
            return []
        if a[1] != Lin(1) or not isinstance(a[2], Lin) or not a[2].isc():
            raise Undecided("fread")
        got = []
        while len(got) < a[2].c:
            ch = next_char(st, s)
            if ch is None:
                break
            got.append(ch)
        cur = [st]
        for i, ch in enumerate(got):
            cur = [s3 for s2 in cur for s3 in ip.store(s2, Ptr(a[0].obj, a[0].off + i), 1, ch, ins)]
        return [('ret', s2, Lin(len(got))) for s2 in cur]
    if name == 'fflush':
        if isinstance(a[0], Ptr) and a[0].obj == 0:
            ip.report('stream', "fflush is called with a null stream: every stream of the program is flushed", st, ins)
            return []
        s = stream(ip, st, a[0], ins, name)
        if s is None:
            return []
        f = st.fork()
        st.ex['did'] = st.ex.get('did', ()) + (('flush', True),)
        f.ex['did'] = f.ex.get('did', ()) + (('flush', False),)
        return R(st, ZERO) + R(f, EOF)
    if name in ('fseek', 'fseeko', 'fseeko64'):
        s = stream(ip, st, a[0], ins, name)
        if s is None:
            return []
        f = st.fork()
        st.ex['did'] = st.ex.get('did', ()) + (('seek', a[1], a[2], True),)
        f.ex['did'] = f.ex.get('did', ()) + (('seek', a[1], a[2], False),)
        return R(st, ZERO) + R(f, EOF)
    if name in ('ftell', 'ftello', 'ftello64'):
        s = stream(ip, st, a[0], ins, name)
        if s is None:
            return []
        v = sym(fresh('at'))
        f = st.fork()
        st.assume(v)
        st.ex['did'] = st.ex.get('did', ()) + (('tell', v),)
        f.ex['did'] = f.ex.get('did', ()) + (('tell', EOF),)
        g = f.fork()
        far = Lin((1 << 33) + 5)
        g.ex['did'] = g.ex['did'][:-1] + (('tell', far),)
        return R(st, v) + R(f, EOF) + R(g, far)
    if name in ('strncpy', 'strcpy', '__strncpy_chk', '__strcpy_chk'):
        b = cbytes(ip, st, a[1], ins, "the text copied")
        if b is None:
            return []
        if 'n' in name:
            if not isinstance(a[2], Lin) or not a[2].isc() or a[2].c > 4096:
                raise Undecided(name)
            b = (b + [0] * a[2].c)[:a[2].c]
        else:
            b = b + [0]
        cur = [st]
        for i, x in enumerate(b):
            cur = [s3 for s2 in cur for s3 in ip.store(s2, Ptr(a[0].obj, a[0].off + i), 1, Lin((x + 128) % 256 - 128), ins)]
        return [('ret', s2, a[0]) for s2 in cur]
    if name in ('strchr', 'strrchr', 'index'):
        b = cbytes(ip, st, a[0], ins, "the text searched")
        if b is None:
            return []
        if not isinstance(a[1], Lin) or not a[1].isc():
            raise Undecided(name)
        want = a[1].c % 256
        idx = [i for i, x in enumerate(b + [0]) if x == want]
        if not idx:
            return R(st, NULL)
        return R(st, Ptr(a[0].obj, a[0].off + (idx[-1] if name == 'strrchr' else idx[0])))
    if name in ('strstr', 'strcmp'):
        x = cbytes(ip, st, a[0], ins, "the text searched")
        y = cbytes(ip, st, a[1], ins, "the text searched")
        if x is None or y is None:
            return []
        if name == 'strcmp':
            return R(st, Lin((x > y) - (x < y)))
        k = bytes(x).find(bytes(y))
        return R(st, NULL if k < 0 else Ptr(a[0].obj, a[0].off + k))
    return None


def on_event(ip, st, name, args):
    """the characters of a text (and the ordinary ones of the input) are neither NUL, newline, nor EOF"""
    if name == 'eq' and len(args) == 2:
        a, b = args
        if isinstance(a, Lin):
            a, b = b, a
        if is_text(a) and isinstance(b, Lin) and b.isc() and b.c in (0, 10, -1, 255, 13):
            return False
    return None


HOOKS = {'call': hook_call, 'event': on_event}
MODES = {'w': b'w', 'wb': b'wb', 'r+': b'r+', 'long': b'wb+,ccs=UTF-8'}


def mode_text(c, m):
    b = MODES[m] + b'\0'
    return c.obj(len(b), 'mode', [Seg(Lin(i), Lin(i + 1), 'live', 's', 1, Lin(x)) for i, x in enumerate(b)])


def add(name, f, unroll=False, tier='quick', props=('C24',)):
    SC.append(Scenario('File.' + name, props, f, 'fil', unroll=unroll, tier=tier))


def open_states(o):
    return sorted(i for i, v in streams(o.st).items() if v == 'open')


def setup(c, name='f', mode='w'):
    """an open File in c.st; (object, stream)"""
    total = c.call('sizeof_F')[0].val.c
    p = c.obj(total, name)
    path = text(c, 'path_' + name, 3, 1)
    before = set(streams(c.st))
    for o in c.run('open_F', p, path, mode_text(c, mode)):
        if o.kind == 'ret' and o.val == Lin(1) and 'refused' not in o.st.ex and o.st.ex.get('opened'):
            c.st = o.st
            c.st.ex['opened'] = ()
            c.st.trace, c.st.tlen = (), ZERO
            new = set(streams(o.st)) - before
            if len(new) == 1:
                return p, new.pop()
    raise Undecided("no open file")


def truth(c, o, what):
    v = o.val
    if isinstance(v, bool):
        return v
    if isinstance(v, Lin) and v.isc():
        return v.c != 0
    if isinstance(v, tuple) and v and v not in (UNDEF, ANY):
        rs = c.ip.resolve(o.st, v, None)
        if len(rs) == 1:
            return rs[0][1]
    if v == UNDEF:
        c.fail(o, 'content', what + " returns an uninitialised value")
        return None
    c.unsure.append(what + ": result not determined")
    return None


def same(c, o, a, b, kind, msg):
    c.oblig += 1
    if a != b:
        c.fail(o, kind, msg)
        return False
    return True


def end_of_life(c, o, p, sid=None):
    """after o the File at p ends: afterwards no stream is open, none was closed twice"""
    c.st = o.st.fork()
    for o2 in outcomes(c, c.run('dtor_F', p), 'destruction'):
        same(c, o2, open_states(o2), [], 'leak', "a stream is still open after its File was destroyed")


def op_open(c):
    how = c.case('path', ['text', 'String'])
    mode = c.case('mode', list(MODES))
    total = c.call('sizeof_F')[0].val.c
    p = c.obj(total, 'f')
    m = mode_text(c, mode)
    if how == 'text':
        n = c.num('n_path', 0)
        path = text(c, 'path', n, 1)
        outs = c.run('open_F', p, path, m)
        v = None
    else:
        v = c.seq('path', 'S8', spare=1)
        n = v.n
        outs = c.run('opens_F', p, v.ptr, m)
    seen = set()
    for o in outcomes(c, outs, 'open'):
        r = truth(c, o, 'open')
        if r is None:
            continue
        seen.add(r)
        same(c, o, len(open_states(o)), 1 if r else 0, 'leak', "open() gives a File without a stream, or loses a stream")
        if r:
            for pp, mm in o.st.ex['opened']:
                same(c, o, mm, m, 'content', "fopen is not given the mode passed to open()")
                if how == 'text':
                    same(c, o, pp, path, 'content', "fopen is not given the path passed to open()")
                    continue
                c.oblig += 1
                if not isinstance(pp, Ptr) or pp.obj not in o.st.mem or not o.st.mem[pp.obj].alive:
                    c.unsure.append("path given to fopen")
                    continue
                A = c.slice_obj(o, pp.obj, pp.off, pp.off + n + 1)
                if A is None:
                    continue
                A = [g._replace(typ='s', stride=1, val=ZERO) if g.typ == 'zero' else g for g in A]
                B, e = runs_segs(v.runs, 's', 1, pp.off)
                B.append(Seg(e, e + 1, 'live', 's', 1, ZERO))
                c.match(o, A, B, 'content', "the path given to fopen is not the String passed to open()")
            end_of_life(c, o, p)
            if v is not None:
                c.no_leak(Outcome('ret', o.st, None), [v])
    c.oblig += 1
    if not c.viol and not c.unsure and seen != {True, False}:
        c.viol.append(Violation('content', f"open() answers {seen} over all outcomes of fopen", '', [], c.inst, {}, op=c.opname()))


add('open', op_open)


def op_open_drop(c):
    n = c.num('n_path', 1)
    for o in outcomes(c, c.run('opend_F', text(c, 'path', n, 1), mode_text(c, 'w')), 'open'):
        same(c, o, open_states(o), [], 'leak', "a stream is still open after the result of open() was destroyed")


add('open_and_drop', op_open_drop)


def op_dtor(c):
    p, sid = setup(c)
    for o in outcomes(c, c.run('dtor_F', p), 'destruction'):
        same(c, o, open_states(o), [], 'leak', "a stream is still open after its File was destroyed")


add('dtor', op_dtor)


def op_move(c):
    p, sid = setup(c)
    q = c.obj(c.call('sizeof_F')[0].val.c, 'g')
    for o in outcomes(c, c.run('move_F', q, p), 'move construction'):
        same(c, o, open_states(o), [sid], 'leak', "moving a File closes its stream")
        owner_is(c, o, q, sid)
        moved_from(c, o, p)
        for first, second in ((p, q), (q, p)):
            c.st = o.st.fork()
            for o2 in outcomes(c, c.run('dtor_F', first), 'destruction'):
                if first == p:
                    same(c, o2, open_states(o2), [sid], 'leak', "destroying a moved-from File closes the stream of its new owner")
                c.st = o2.st.fork()
                for o3 in outcomes(c, c.run('dtor_F', second), 'destruction'):
                    same(c, o3, open_states(o3), [], 'leak', "a stream is still open after its File was destroyed")


def owner_is(c, o, p, sid):
    """writes through p reach stream sid"""
    keep = c.st
    c.st = o.st.fork()
    c.st.trace, c.st.tlen = (), ZERO
    s = text(c, 'probe', 2, 1)
    for o2 in outcomes(c, c.run('wp_F', p, s), 'write'):
        for ev in o2.st.trace:
            same(c, o2, ev.val[2][0], sid, 'content', "a write reaches another stream than the one the File owns")
        c.oblig += 1
        if not o2.st.trace:
            c.fail(o2, 'content', "a write through the File that owns the stream does not reach it")
    c.st = keep


def moved_from(c, o, p):
    keep = c.st
    c.st = o.st.fork()
    dead_ops(c, p, ('wp', 'close'))
    c.st = keep


add('move_ctor', op_move)


def op_massign(c):
    a, sa = setup(c, 'f', 'w')
    b, sb = setup(c, 'g', 'wb')
    state = c.case('target', ['open', 'closed', 'moved_from'])
    if state == 'closed':
        outs = [o for o in outcomes(c, c.run('close_F', a), 'close')]
        outs[0].st.ex['closefail'] = 0
        c.st = outs[0].st
    elif state == 'moved_from':
        q = c.obj(c.call('sizeof_F')[0].val.c, 'h')
        outs = outcomes(c, c.run('move_F', q, a), 'move')
        c.st = outs[0].st
        outs = outcomes(c, c.run('dtor_F', q), 'destruction')
        c.st = outs[0].st
    for o in outcomes(c, c.run('massign_F', a, b), 'move assignment'):
        same(c, o, open_states(o), [sb], 'leak', "after move assignment the stream of the target is open, or the one of the source closed")
        owner_is(c, o, a, sb)
        moved_from(c, o, b)
        c.st = o.st.fork()
        for o2 in outcomes(c, c.run('dtor_F', b), 'destruction'):
            same(c, o2, open_states(o2), [sb], 'leak', "destroying a moved-from File closes the stream of its new owner")
            end_of_life(c, o2, a)


add('move_assign', op_massign)


def op_selfassign(c):
    a, sa = setup(c)
    for o in outcomes(c, c.run('massign_F', a, a), 'self-assignment'):
        same(c, o, open_states(o), [sa], 'leak', "self-assignment closes the stream")
        owner_is(c, o, a, sa)
        end_of_life(c, o, a)


add('self_assign', op_selfassign)


def op_close(c):
    a, sa = setup(c)
    for o in outcomes(c, c.run('close_F', a), 'close'):
        same(c, o, open_states(o), [], 'leak', "the stream is open after close()")
        r = truth(c, o, 'close')
        if r is not None:
            same(c, o, r, not o.st.ex.get('closefail'), 'content', "close() does not report whether fclose succeeded")
        end_of_life(c, o, a)
        c.st = o.st.fork()
        dead_ops(c, a, ('close', 'wp', 'wpn', 'ws', 'flush', 'seek', 'tell', 'rl', 'rls'))


add('close', op_close)


def dead_ops(c, p, ops):
    """operations of a File without a stream fail and touch no stream"""
    base = c.st
    for op in ops:
        c.st = base.fork()
        c.st.ex['did'] = ()
        c.st.trace, c.st.tlen = (), ZERO
        before = streams(c.st)
        if op in ('wp', 'wpn'):
            n = c.num('n_data', 1, 3)
            args = [p, text(c, 'data', n, 1)] + ([n] if op == 'wpn' else [])
        elif op == 'ws':
            v = c.seq('v', 'S8', spare=1, null=False)
            args = [p, v.ptr]
        elif op == 'seek':
            args = [p, ZERO]
        elif op == 'rl':
            args = [c.fresh_seq('s', 'S8').ptr, p]
        elif op == 'rls':
            vs = c.obj(c.call('sizeof_VS')[0].val.c, 'lines')
            args = [vs, p]
        else:
            args = [p]
        for o in outcomes(c, c.run(op + '_F', *args), op):
            same(c, o, streams(o.st), before, 'stream', f"{op} of a closed File touches a stream")
            if op == 'rls':
                n = c.call('n_VS', vs, st=o.st.fork())
                same(c, o, n[0].val, ZERO, 'content', "read_lines of a closed File gives lines")
                continue
            if op in ('flush', 'tell'):
                c.oblig += 1
                if isinstance(o.val, Lin) and o.val.isc():
                    if o.val.c == 0 or (op == 'tell' and o.val.c > 0):
                        c.fail(o, 'content', f"{op} of a closed File reports success")
                else:
                    c.unsure.append(op + " of a closed File: result not determined")
                continue
            r = truth(c, o, op)
            if r is not None:
                same(c, o, r, False, 'content', f"{op} of a closed File reports success")
    c.st = base


def op_write(c):
    mode = c.case('mode', ['w', 'wb', 'r+', 'long'])
    how = c.case('data', ['text', 'text_and_length', 'String', 'NUL_inside', 'String_NUL_inside', 'newlines'])
    p, sid = setup(c, 'f', mode)
    v = None
    if how == 'text':
        n = c.num('len', 0)
        want = [(n, ('Chr', 'data', KAPPA))]
        outs = c.run('wp_F', p, text(c, 'data', n, 1))
    elif how == 'text_and_length':
        n = c.num('len', 0)
        want = [(n, ('Chr', 'data', KAPPA))]
        outs = c.run('wpn_F', p, text(c, 'data', n, 1, nul=False), n)
    elif how in ('NUL_inside', 'newlines'):
        ch = [('Chr', 'data', ZERO), ZERO if how == 'NUL_inside' else Lin(10), ('Chr', 'data', Lin(2)), Lin(-1), ('Chr', 'data', Lin(4))]
        d = c.obj(5, 'data', [Seg(Lin(i), Lin(i + 1), 'live', 's', 1, x) for i, x in enumerate(ch)])
        want = [(Lin(1), x) for x in ch]
        outs = c.run('wpn_F', p, d, Lin(5))
    elif how == 'String':
        v = c.seq('v', 'S8', spare=1)
        n = v.n
        want = [(n, ('Elt', 'v', KAPPA))]
        outs = c.run('ws_F', p, v.ptr)
    else:
        v = c.seq('v', 'S8', spare=1, null=False, n=3, cap=5)
        ob = c.st.mem[v.heap]
        ch = [('Chr', 'data', ZERO), ZERO, ('Chr', 'data', Lin(2))]
        c.st.mem[v.heap] = ob._replace(segs=tuple([Seg(Lin(i), Lin(i + 1), 'live', 's', 1, x) for i, x in enumerate(ch)] + [raw_seg(Lin(3), Lin(5))]))
        want = [(Lin(1), x) for x in ch]
        outs = c.run('ws_F', p, v.ptr)
    for o in outcomes(c, outs, 'write'):
        same(c, o, open_states(o), [sid], 'stream', "write() closes the stream")
        if v is not None and how == 'String':
            c.expect_seq(o, v, v.runs)
        r = truth(c, o, 'write')
        if r is None:
            continue
        failed = any(t.val[1] == 'putfail' for t in o.st.trace)
        c.oblig += 1
        if r and failed:
            c.fail(o, 'content', "write() reports success although the stream refused data")
        elif not r and not failed:
            c.fail(o, 'content', "write() reports failure although the stream accepted everything")
        elif r:
            c.trace(o, [(w, ('E', 'put', (sid, x), 'T')) for w, x in want], 'content', 'data delivered to the stream', raw=True)


add('write', op_write)


def op_misc(c):
    p, sid = setup(c)
    op = c.case('op', ['flush', 'seek', 'tell'])
    off = c.num('offset', 0, 1 << 50)
    for o in outcomes(c, c.run(op + '_F', *([p, off] if op == 'seek' else [p])), op):
        did = o.st.ex.get('did', ())
        c.oblig += 1
        if len(did) != 1 or did[0][0] != op:
            c.fail(o, 'content', f"{op} does not reach the stream exactly once")
            continue
        d = did[0]
        if op == 'flush':
            c.oblig += 1
            if not (isinstance(o.val, Lin) and o.val.isc()):
                c.unsure.append("flush: result")
            elif (o.val.c == 0) != d[1]:
                c.fail(o, 'content', "flush() does not report whether fflush succeeded")
        elif op == 'seek':
            if isinstance(d[1], Lin):
                c.must_eq(o, d[1] - off, 'content', "seek() moves to another offset")
            else:
                c.unsure.append("seek: offset")
            same(c, o, d[2], ZERO, 'content', "seek() is not relative to the start of the file")
            r = truth(c, o, op)
            if r is not None:
                same(c, o, r, d[3], 'content', "seek() does not report whether fseek succeeded")
        else:
            c.oblig += 1
            if not isinstance(o.val, Lin):
                c.fail(o, 'content', "tell() is not the offset ftell gives") if o.val == UNDEF else c.unsure.append("tell: result")
            else:
                c.must_eq(o, o.val - d[1], 'content', "tell() is not the offset ftell gives")
        same(c, o, open_states(o), [sid], 'stream', f"{op}() closes the stream")


add('flush_seek_tell', op_misc)

ALPHA = {'c': None, 'n': Lin(10), 'f': Lin(255), '0': ZERO, 'r': Lin(13)}


def content(s):
    return tuple(('Chr', 'in', Lin(i)) if x == 'c' else ALPHA[x] for i, x in enumerate(s))


def as_char(v):
    return Lin((v.c + 128) % 256 - 128) if isinstance(v, Lin) else v


def patterns(k):
    return [''.join(x) for n in range(k + 1) for x in itertools.product('cnf0', repeat=n)]


LONG = ['c' * 300 + 'n' + 'c' * 3, 'c' * 1100 + 'n' + 'c' * 300]


def lines_of(s):
    """[(chars)] as text editors see it: a newline ends a line; a last line may lack it"""
    out, cur = [], []
    for v in content(s):
        if v == Lin(10):
            out.append(cur)
            cur = []
        else:
            cur.append(as_char(v))
    if cur:
        out.append(cur)
    return out


def expect_text(c, o, h, chars, what):
    runs = []
    for x in chars:
        if runs and isinstance(x, tuple) and runs[-1][2] is not None and runs[-1][2] + 1 == x[2].c:
            runs[-1][0] += 1
            runs[-1][2] += 1
        elif isinstance(x, tuple) and x[0] == 'Chr':
            runs.append([1, ('Chr', x[1], KAPPA + x[2]), x[2].c])
        else:
            runs.append([1, x, None])
    runs = [(Lin(r[0]), r[1]) for r in runs]
    c.expect_seq(o, h, runs, what=what)


def handle(c, p, name):
    h = c.fresh_seq(name, 'S8')
    h.ptr, h.obj = p, p.obj
    return h


def op_read_line(c):
    s = c.case('input', patterns(2 if c.eng.tier == 'quick' else 3) + LONG[:1 if c.eng.tier == 'quick' else 2])
    p, sid = setup(c, 'f', 'r+')
    c.st.ex['input'] = content(s)
    c.sampled = True
    c.ip.unroll = len(s) + 40
    want = lines_of(s)
    cur = [c.st]
    for k in range(min(len(want), 2) + 1):
        nx = []
        for st in cur:
            c.st = st.fork()
            r = c.fresh_seq(f'line{k}', 'S8')
            for o in outcomes(c, c.run('rl_F', r.ptr, p), 'read_line'):
                same(c, o, open_states(o), [sid], 'stream', "read_line() closes the stream")
                t = truth(c, o, 'read_line')
                if t is None:
                    continue
                if not same(c, o, t, k < len(want), 'content',
                            f"read_line() number {k + 1} of an input with {len(want)} lines gives {'a line' if t else 'nothing'}"):
                    continue
                if t:
                    expect_text(c, o, r, want[k], f"line {k + 1}")
                    for o2 in c.run_at(o.st, 'dtor_S8', r.ptr):
                        c.no_leak(o2, [])
                        nx.append(o2.st)
                else:
                    c.no_leak(o, [])
        cur = nx


add('read_line', op_read_line, unroll=True)


def op_read_lines(c):
    s = c.case('input', [x for x in patterns(3) if 'f' not in x and '0' not in x] + ['cnfn', 'fnc', 'ncn', 'cncnc'])
    p, sid = setup(c, 'f', 'r+')
    c.st.ex['input'] = content(s)
    c.sampled = True
    c.ip.unroll = len(s) + 40
    want = lines_of(s)
    vs = c.obj(c.call('sizeof_VS')[0].val.c, 'lines')
    for o in outcomes(c, c.run('rls_F', vs, p), 'read_lines'):
        same(c, o, open_states(o), [sid], 'stream', "read_lines() closes the stream")
        n = c.call('n_VS', vs, st=o.st.fork())
        if len(n) != 1 or not isinstance(n[0].val, Lin):
            c.unsure.append("number of lines")
            continue
        if not same(c, o, n[0].val, Lin(len(want)), 'content', f"read_lines() gives {n[0].val} lines, expected {len(want)}"):
            continue
        for k, w in enumerate(want):
            q = c.call('at_VS', vs, Lin(k), st=o.st.fork())
            if len(q) != 1 or not isinstance(q[0].val, Ptr):
                c.unsure.append("line")
                continue
            expect_text(c, o, handle(c, q[0].val, f'line{k + 1}'), w, f"line {k + 1}")
        for o2 in c.run_at(o.st, 'dtor_VS', vs):
            c.no_leak(o2, [])


add('read_lines', op_read_lines, unroll=True)
