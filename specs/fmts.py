"""Formatting: a sequence is formatted as its elements in order between brackets; format hands its arguments over and
returns the text it gets.

What the embedded formatting engine does with one element or argument is not analysed: its entry points are interpreted
as 'append this literal', 'append this element', 'append these elements with this separator'."""
from spec import *
from seq import outcomes
from cyc import Ring
from strs import trun

TYPES = {'AR': 'P', 'AV': 'P', 'VE': 'P', 'AR40': 'P', 'AV40': 'P', 'S8': 'char', 'S8v': 'char'}
DECL = {'AR': 'Array<P, 3>', 'AV': 'ArrVec<P, 4>', 'VE': 'Vector<P>', 'CB3': 'Vcb<P, 3>', 'CQ3': 'Vcq<P, 3>',
        'AR40': 'Array<P, 40>', 'AV40': 'ArrVec<P, 40>', 'CB18': 'Vcb<P, 18>', 'CQ20': 'Vcq<P, 20>'}
SC = []
SZ = 24


def source(tier):
    s = ['#include "probe.hpp"', '#include "efp/format.hpp"', 'using namespace efp; using namespace vp;',
         '''template<> struct efp_fmt::formatter<vp::P> {
    template<typename C> constexpr auto parse(C& c) const -> efp_fmt::format_parse_context::iterator { return c.begin(); }
    template<typename C> auto format(const vp::P& p, C& c) const -> efp_fmt::format_context::iterator { return c.out(); }
};''']
    for t, d in DECL.items():
        s.append(f'using {t} = {d};')
        if t in TYPES:
            s.append(f'VP_SEQ({t}, {t}) VP_OWN({t}, {t})')
        else:
            s.append(f'S_FN unsigned long sizeof_{t}() {{ return sizeof({t}); }} S_FN void ctor_{t}(void* p) {{ new (p) {t}(); }} S_FN void push_{t}({t}& v, const P& x) {{ v.push_back(x); }}')
            if t[:2] == 'CQ':
                s.append(f'S_FN void pop_{t}(void* r, {t}& v) {{ new (r) P(v.pop_front()); }}')
        s.append(f'S_FN void fmt_{t}(const {t}& v, efp_fmt::format_context& c) {{ efp_fmt::formatter<{t}>{{}}.format(v, c); }}')
    s.append('''using S8 = String; VP_SEQ(S8, S8) VP_OWN(S8, S8) using S8v = StringView; VP_SEQ(S8v, S8v)
S_FN void format_PL(void* r, const P& a, unsigned long b) { new (r) String(efp::format("<{} {}>", a, b)); }
S_FN void format_LP(void* r, unsigned long b, const P& a) { new (r) String(efp::format("<{} {}>", b, a)); }
S_FN void format_S(void* r, const String& a, const String& b) { new (r) String(efp::format("{}={}", a, b)); }
#if __cplusplus >= 201703L
S_FN void format_V(void* r, const String& a, const StringView& b) { new (r) String(efp::format("{}={}", a, b)); }
#endif
S_FN void print_PL(const P& a, unsigned long b) { efp::print("<{} {}>", a, b); }
S_FN void println_PL(const P& a, unsigned long b) { efp::println("<{} {}>", a, b); }
S_FN void format_0(void* r) { new (r) String(efp::format("text")); }''')
    return '\n'.join(s)


# ---------------------------------------------------------------- the formatting engine

OWN = re.compile(r'_ZNK?7efp_fmt3v10(9formatterIN3efp|19basic_format_string|17basic_string_view|20basic_format_context\w*3outEv$|4joinI|9join_view|8appender'
                 r'|16make_format_args|8make_arg|16format_arg_store|17basic_format_args|7vformatE|9to_stringI|19basic_memory_buffer|9monostate'
                 r'|6vprintE|5printI|7printlnI|6formatI|6detail(5printEP|12fwrite_fully|7is_utf8|8arg_data|10arg_mapper|5value|6bufferI|10locale_ref|14to_string_view|8make_arg|19make_arg|12string_value|19check_format_string|12custom_value|6assume|9make_valueI|11make_format|6get_buf))')
ALIAS = re.compile(r'_ZN7efp_fmt3v106detail')


def byts(ip, st, p, n, ins):
    if not isinstance(n, Lin) or not n.isc() or not isinstance(p, Ptr):
        raise Undecided("text of the format")
    out = []
    for i in range(n.c):
        r = ip.load(st, Ptr(p.obj, p.off + i), 1, ins)
        if len(r) != 1 or not isinstance(r[0][1], Lin) or not r[0][1].isc():
            raise Undecided("text of the format")
        out.append(r[0][1].c % 256)
    return bytes(out)


def field(ip, st, p, off, ins, ptr=True):
    r = ip.load(st, Ptr(p.obj, p.off + off), 8, ins, ptr)
    if len(r) != 1:
        raise Undecided("field")
    return r[0][1]


def chars(ip, st, x):
    """the characters a string argument refers to, as (name, offset)"""
    if len(x) == 2 and isinstance(x[0], Ptr) and x[0].obj in st.mem:
        for g in norm_segs(st.mem[x[0].obj].segs, st.cons):
            if g.st == 'live' and isinstance(g.val, tuple) and g.val[0] == 'Chr' and st.ge0(x[0].off - g.lo) is True and st.ge0(g.hi - x[0].off - 1) is not False:
                return (g.val[1], subst_val(g.val[2], {K: ZERO}) + x[0].off - g.lo)
    return None


def emit(st, *items):
    st.ex['text'] = st.ex.get('text', ()) + items


def hook_call(ip, st, name, a, ins):
    if name.startswith('_ZN7efp_fmt3v109format_toI'):
        lit = byts(ip, st, a[1], a[2], ins)
        args = list(a[3:])
        i = 0
        items = []
        while i < len(lit):
            two = lit[i:i + 2]
            if two == b'{}':
                if not args:
                    raise Undecided("format string")
                x = args.pop(0)
                if 'join_view' in name and len(a) == 4:
                    sep = byts(ip, st, field(ip, st, x, 16, ins), field(ip, st, x, 24, ins, False), ins)
                    items.append(('join', field(ip, st, x, 0, ins), field(ip, st, x, 8, ins), sep))
                elif re.search(r'8appenderEJ(RK|R)?N2vp1PEET', name) or re.search(r'appenderEJ((RK|R)?N2vp1PE|RKS[0-9A-Z_]*)+ET', name):
                    with ip.capture() as rep:
                        r = ip.p_content(st, 'P', SZ, x, ins, 'formatted element', 'read_dead')
                    if rep or len(r) != 1:
                        ip.report('content', "an object that is not an element is formatted", st, ins)
                        return []
                    items.append(('elem', r[0][1]))
                else:
                    raise Undecided("argument of format_to")
                i += 2
            elif two in (b'{{', b'}}'):
                items.append(two[:1])
                i += 2
            elif lit[i:i + 1] in b'{}':
                raise Undecided("format string")
            else:
                items.append(lit[i:i + 1])
                i += 1
        emit(st, *items)
        return [('ret', st, a[0])]
    if re.match(r'_ZNSt20back_insert_iteratorIN7efp_fmt\w*aSE', name):
        r = ip.load(st, a[1], 1, ins)
        if len(r) != 1 or not isinstance(r[0][1], Lin) or not r[0][1].isc():
            raise Undecided("character")
        emit(st, bytes([r[0][1].c % 256]))
        return [('ret', st, a[0])]
    if name.startswith('_ZN7efp_fmt3v106detail10vformat_toIcEEvRNS1_6bufferI'):
        # some text is appended to the (empty) buffer, or the format is refused
        num = sum(x[0] == 'vformat' for x in st.ex.get('text', ()))
        out = []
        args = []
        desc = a[3]
        if not isinstance(a[4], Ptr) or not isinstance(desc, Lin) or not desc.isc():
            raise Undecided("arguments")
        for i in range(4):
            kind = desc.c >> (4 * i) & 15
            if not kind:
                break
            v = []
            for w in (0, 8):
                with ip.capture():
                    r = ip.load(st.fork(), Ptr(a[4].obj, a[4].off + 16 * i + w), 8, ins, True)
                v.append(r[0][1] if len(r) == 1 else None)
            args.append(tuple(v))
        n = sym(fresh('len'))
        emit(st, ('vformat', byts(ip, st, a[1], a[2], ins), tuple(args), n, tuple(chars(ip, st, x) for x in args)))
        st.assume(n)
        for s, fits in st.split(500 - n):
            if fits:
                p = field(ip, s, a[0], 8, ins)
            else:
                p = Ptr(ip.new_obj(s, 'heap', n, 'formatted text', 'new'), ZERO)
                ip.store(s, Ptr(a[0].obj, a[0].off + 8), 8, p, ins)
                ip.store(s, Ptr(a[0].obj, a[0].off + 24), 8, n, ins)
            if s.ge0(n - 1) is not False:
                s = put(ip, s, p, n, ins, f'text{num}')
            rs = ip.store(s, Ptr(a[0].obj, a[0].off + 16), 8, n, ins) or [s]
            out.append(('ret', s, None))
        return out
    if name == 'fwrite':
        n = a[2]
        if a[1] != Lin(1) or not isinstance(n, Lin):
            raise Undecided("fwrite")
        r = chars(ip, st, (a[0], n))
        emit(st, ('write', r, n, a[3]))
        return [('ret', st, n)]
    if '7efp_fmt3v10' in name[:18] and not OWN.match(name):
        raise Undecided("formatting engine: " + name[:80])
    return None


def put(ip, s, p, n, ins, name):
    r = ip.cut(s, p.obj, p.off, p.off + n, ins, 'write')
    if len(r) != 1:
        raise Undecided("buffer")
    s2, i, j = r[0]
    ob = s2.mem[p.obj]
    s2.mem[p.obj] = ob._replace(segs=ob.segs[:i] + (Seg(p.off, p.off + n, 'live', 's', 1, ('Chr', name, KAPPA)),) + ob.segs[j:])
    return s2


HOOKS = {'call': hook_call}


# ---------------------------------------------------------------- checks

def context(c):
    buf = c.obj(Lin(64), 'output')
    return c.obj(Lin(32), 'context', [Seg(ZERO, Lin(8), 'live', 's', 8, buf), Seg(Lin(8), Lin(32), 'raw', None, 1, None)])


def shown(text):
    return ' '.join(x.decode('latin1') if isinstance(x, bytes) else x[0] + str(x[1:]) for x in text)


def bracketed(c, o, what, begin, n, contents):
    text = list(o.st.ex.get('text', ()))
    c.oblig += 1
    js = [i for i, x in enumerate(text) if isinstance(x, tuple) and x[0] == 'join']
    if len(js) == 1 and all(isinstance(x, bytes) for i, x in enumerate(text) if i != js[0]):
        pre, post = b''.join(text[:js[0]]), b''.join(text[js[0] + 1:])
        _, b, e, sep = text[js[0]]
        if pre != b'[' or post != b']':
            c.fail(o, 'text', f"{what} is formatted between {pre.decode('latin1')!r} and {post.decode('latin1')!r}")
            return
        if not isinstance(b, Ptr) or not isinstance(e, Ptr):
            c.unsure.append('range of elements')
            return
        if b.obj != e.obj:
            c.fail(o, 'text', f"{what}: the ends of the formatted range belong to different objects")
            return
        if not c.must_eq(o, e.off - b.off - n * SZ, 'text', f"{what} has {n} elements, {(e.off - b.off).div(SZ)} are formatted"):
            return
        for s, many in o.st.split(L(n) - 2):
            if many and sep != b', ':
                c.fail(Outcome('ret', s, None), 'text', f"{what}: the elements are separated by {sep.decode('latin1')!r}")
                return
        for s, some in o.st.split(L(n) - 1):
            if some:
                contents(Outcome('ret', s, None), b)
        return
    if not isinstance(n, Lin) or not n.isc():
        c.unsure.append('text of unknown length')
        return
    if any(isinstance(x, tuple) and x[0] != 'elem' for x in text):
        c.unsure.append('text')
        return
    want = [b'[']
    for i in range(n.c):
        want += ([b',', b' '] if i else []) + [('elem', contents(None, i))]
    want.append(b']')
    if text != want:
        c.fail(o, 'text', f"{what} is formatted as {shown(text)}, expected {shown(want)}")


def mk(t):
    def seq(c):
        v = c.seq('v', t)
        ctx = context(c)
        for o in outcomes(c, c.run('fmt_' + t, v.ptr, ctx), 'formatting'):
            c.unchanged(o, v)

            def contents(oo, b):
                if oo is None:
                    return elt('v', b)
                vw = c.view(oo, v)
                if vw and isinstance(vw[1], Ptr) and (vw[1].obj != b.obj or not entails_eq(oo.st.cons, vw[1].off - b.off)):
                    c.fail(oo, 'text', "the elements formatted are not those of the sequence")
            bracketed(c, o, 'the sequence', None, v.n, contents)
    SC.append(Scenario(f'{t}.format', ('C36',), seq, 'fmts'))


def ring(t, cap, queue):
    def f(c):
        r = Ring(c, t, cap, queue)
        r.explore(False)
        if c.viol:
            raise Undecided("reachable states not available")
        for k in list(r.order):
            r.reset()
            p, model = r.place(k, 'ring')
            ctx = context(c)

            def contents(oo, b):
                if oo is None:
                    return model[b]
                for i, x in enumerate(model):
                    if not r.at(oo, Ptr(b.obj, b.off + i * SZ), x, f'formatted element {i}'):
                        return
            for o in r.rets(c.run('fmt_' + t, p, ctx), 'formatting'):
                bracketed(c, o, f'a ring of {len(model)} elements', None, Lin(len(model)), contents)
            if c.viol:
                return
    SC.append(Scenario(f'{t}.format', ('C36',), f, 'fmts', unroll=True))


def wide(t, cap, queue):
    """rings of a larger capacity, along one history instead of in every state"""
    def f(c):
        r = Ring(c, t, cap, queue)
        p = c.obj(r.total, 'ring')
        outs = c.run(f'ctor_{t}', p)
        model = [] if queue else [DEFAULT] * cap
        for k in range(cap + 3):
            if len(outs) != 1 or outs[0].kind != 'ret':
                c.unsure.append('ring')
                return
            c.st = outs[0].st
            if k in (0, 1, cap - 1, cap, cap + 2):
                st = c.st.fork()
                ctx = context(c)

                def contents(oo, b):
                    if oo is None:
                        return model[b]
                    for i, x in enumerate(model):
                        if not r.at(oo, Ptr(b.obj, b.off + i * SZ), x, f'formatted element {i}'):
                            return
                for o in c.run('fmt_' + t, p, ctx):
                    if o.kind == 'ret':
                        bracketed(c, o, f'a ring of {len(model)} elements', None, Lin(len(model)), contents)
                if c.viol:
                    return
                c.st = st
            x = c.elem(f'y{k}')
            model = (model + [elt(f'y{k}')])[-cap:]
            outs = c.run(f'push_{t}', p, x)
    SC.append(Scenario(f'{t}.format', ('C36',), f, 'fmts', unroll=True))


for _t in ('AR', 'AV', 'VE', 'AR40', 'AV40'):
    mk(_t)
ring('CB3', 3, False)
ring('CQ3', 3, True)
wide('CB18', 18, False)
wide('CQ20', 20, True)


def passed(c, o, item, want, exp, strs=False):
    """the format and the arguments handed to the engine"""
    if item[1] != want:
        c.fail(o, 'text', f"the format used is {item[1].decode('latin1')!r}, expected {want.decode('latin1')!r}")
        return False
    got = item[2]
    if len(got) != len(exp):
        c.fail(o, 'text', f"{len(got)} arguments are formatted, expected {len(exp)}")
        return False
    for i, (g, e) in enumerate(zip(got, exp)):
        if e is None:
            c.unsure.append('string')
            continue
        for x, y in zip(g, e):
            if y is None or (strs and isinstance(y, Ptr) and isinstance(e[1], Lin) and entails_eq(o.st.cons, e[1])):
                continue
            x, y = (z.off if isinstance(z, Ptr) and z.obj == 0 else z for z in (x, y))
            if x is None or type(x) is not type(y):
                c.unsure.append('argument')
            elif isinstance(x, Ptr):
                if x.obj != y.obj or not entails_eq(o.st.cons, x.off - y.off):
                    c.fail(o, 'text', f"argument {i} handed to the formatter is not argument {i} of the call")
            elif not entails_eq(o.st.cons, x - y):
                if strs:
                    c.must_eq(o, x - y, 'text', f"length of argument {i}")
                else:
                    c.fail(o, 'text', f"argument {i} handed to the formatter is not argument {i} of the call")
    return True


def whole(c):
    op = c.case('arguments', ['PL', 'LP', 'S', '0'] + (['V'] if 'format_V' in c.mod._fnptr else []))
    r = c.fresh_seq('r', 'S8')
    own = [r]
    strs = op in 'SV'
    if strs:
        s, v = c.seq('s', 'S8', spare=1), c.seq('v', 'S8', spare=1) if op == 'S' else c.seq('v', 'S8v')
        own += [s] + [v] * (op == 'S')
        outs = c.run('format_' + op, r.ptr, s.ptr, v.ptr)
    elif op == '0':
        outs = c.run('format_0', r.ptr)
    else:
        a, b = c.elem('a'), c.num('b', 0)
        outs = c.run('format_' + op, r.ptr, *((a, b) if op == 'PL' else (b, a)))
    for o in outcomes(c, outs, 'format'):
        text = o.st.ex.get('text', ())
        c.oblig += 1
        if len(text) != 1 or text[0][0] != 'vformat':
            c.unsure.append('how the text is made')
            continue
        if strs:
            exp = []
            for h in (s, v):
                w = c.view(o, h)
                exp.append((w[1], w[0]) if w else None)
        else:
            exp = [] if op == '0' else [(a, None), (b, None)] if op == 'PL' else [(b, None), (a, None)]
        if passed(c, o, text[0], b'{}={}' if strs else b'text' if op == '0' else b'<{} {}>', exp, strs):
            c.expect_seq(o, r, [trun('text0', 0, text[0][3])], spare=1)
            c.no_leak(o, own)


SC.append(Scenario('format', ('C36',), whole, 'fmts'))


def prints(c):
    op = c.case('op', ['print', 'println'])
    a, b = c.elem('a'), c.num('b', 0)
    for o in outcomes(c, c.run(op + '_PL', a, b), op):
        text = o.st.ex.get('text', ())
        c.oblig += 1
        form, wr = [x for x in text if x[0] == 'vformat'], [x for x in text if x[0] == 'write']
        if len(form) + len(wr) != len(text) or not form:
            c.unsure.append('how the text is made')
            continue
        if not passed(c, o, form[0], b'<{} {}>', [(a, None), (b, None)]):
            continue
        last = form[-1]
        if op == 'print' and len(form) != 1:
            c.unsure.append('how the text is made')
            continue
        if op == 'println':
            if len(form) == 1 and len(wr) <= 1:
                c.fail(o, 'text', "println writes no newline")
                continue
            if len(form) != 2 or last[1] not in (b'{}\n', b'{}'):
                c.unsure.append('how the line is made')
                continue
            if last[1] == b'{}':
                c.fail(o, 'text', "println writes no newline")
                continue
            n = last[2][0][1]
            n = n.off if isinstance(n, Ptr) and n.obj == 0 else n
            if not isinstance(n, Lin):
                c.unsure.append('line')
                continue
            if not c.must_eq(o, n - form[0][3], 'text', f"the line has {n} characters, expected {form[0][3]}"):
                continue
            if entails_eq(o.st.cons, n) is not True and last[4][0] != ('text0', ZERO):
                c.unsure.append('line')
                continue
        rest = [x for x in wr]
        if len(rest) != 1:
            if not rest:
                c.fail(o, 'text', f"{op} writes nothing")
            else:
                c.unsure.append('writes')
            continue
        c.must_eq(o, rest[0][2] - last[3], 'text', f"{op} writes {rest[0][2]} characters of {last[3]}")


SC.append(Scenario('print', ('C36',), prints, 'fmts'))
