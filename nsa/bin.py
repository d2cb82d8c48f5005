"""Binary codec: exploration of decoders over arbitrary buffers and of encoders over arbitrary values."""
import struct
from . import lin as N
from . import models as M
from .lin import add, sub, mul, neg, is_num, single
from .own import Owned
from .interp import Engine, State, Frame, UNIT, Dead, Undecided, Split, ISIZE_MAX


def tname(e, i):
    return e.T(i)['s']


def find_type(prog, pred):
    for i, t in enumerate(prog.types):
        if pred(t):
            return i
    return None


class BinDec(Engine):
    """abstract interpretation of one decoder body: any buffer, any start offset inside it"""

    def __init__(self, prog, inline_local=False):
        super().__init__(prog)
        self.conts['root'] = self.root_ret
        self.allocs = 0
        self.ghost = {}
        self.ghostty = {}
        self.accs = 0
        self.childcalls = 0
        self.inline_local = inline_local

    # ---- set-up
    def start(self, body):
        st = State()
        self.body = body
        self.rootself = body.root.get('self')
        u8 = find_type(self.p, lambda t: t['k'] == 'slice' and self.p.types[t['t']]['s'] == 'u8')
        self.dsym = next(self.nsym)
        self.symty[self.dsym] = u8
        self.sorig[self.dsym] = ('buffer',)
        self.L = self.num(0, ISIZE_MAX, ('buffer length',))
        self.O = self.num(0, ISIZE_MAX, ('start offset',))
        st.cons = (sub(self.L, self.O),)
        self.ocell = next(self.ncell)
        st.mem[self.ocell] = self.O
        dc = next(self.ncell)
        st.mem[dc] = ('seq', 'v', (('run', self.dsym, 0, self.L),))
        st.x['o'] = ('ref', self.ocell, (), None)
        st.x['d'] = ('ref', dc, (), None)
        st.x['pend'] = None
        st.x['O'] = self.O
        st.x['L'] = self.L
        st.x['k'] = 0
        args = []
        for l in range(1, body.argc + 1):
            t = self.T(body.locals[l])
            u = self.T(t['t']) if t['k'] == 'ref' else t
            if t['k'] == 'ref' and u['s'] == 'usize':
                args.append(('ref', self.ocell, (), None))
            else:
                args.append(('ref', dc, (), None))
        if body.root['name'] == 'deserialize_bin' and body.argc == 1:
            st.mem[self.ocell] = 0
            self.O = 0
        st.stack.append(Frame(None, 0, 0, 0, 'root'))
        self.push(st, body, args)
        self.run([st], None)
        return self

    # ---- contracts for the parts of a generic value
    def is_child(self, cal):
        tr = cal.get('tr') or ''
        if not (tr.endswith('::DeBin') and cal['n'] == 'de_bin'):
            return False
        return component(self, cal, self.body)

    def hook_call(self, st, cal, args):
        if self.is_child(cal):
            self.childcalls += 1
            self.child(st, cal, args)
            return True
        return None

    def child(self, st, cal, args):
        if st.x['pend'] is not None:
            self.report(st, 'swallowed', 'decoding continues after a component failed')
            raise Dead()
        o = args[0]
        o = M.deep(self, st, o)
        cur = self.norm(st, self.read(st, o[1], o[2]))
        if not self.prove(st, sub(self.L, cur)):
            self.report(st, 'offset', 'component decoded with an offset that may be past the end of the buffer')
        outs = []
        for ok in (True, False):
            s = st.clone()
            n = self.num(0, ISIZE_MAX, ('offset after component',))
            s.cons = s.cons + (sub(self.L, n), sub(n, cur))
            self.write(s, o[1], o[2], n)
            if ok:
                v = self.decoded(s, cal)
                r = M.OK(v)
            else:
                ety = find_type(self.p, lambda t: t['k'] == 'adt' and t['p'].endswith('::DeBinErr'))
                v = self.opaque(ety, ('component error',))
                s.x['pend'] = v
                r = M.ERR(v)
            s.steps += 1
            saved, self.moves = self.moves, list(self.moves)
            self.deliver(s, r)
            self.moves = saved
            outs.append(s)
        self.moves = []
        raise Split(outs)

    def decoded(self, st, cal):
        """the next element of the ghost sequence of decoded values of this type"""
        ty = cal['self']
        src = self.ghost.get(ty)
        if src is None:
            src = next(self.nsym)
            self.ghost[ty] = src
            self.ghostty[src] = ty
            self.symty[src] = None
            self.sorig[src] = ('decoded', self.T(ty)['s'])
        k = st.x.get('k%d' % src, 0)
        st.x['k%d' % src] = self.norm(st, add(k, 1))
        return self.elem(st, src, k)

    def elemty(self, sid):
        t = self.ghostty.get(sid) if isinstance(sid, int) else None
        return t if t is not None else super().elemty(sid)

    # ---- checks
    def variant(self, st, v):
        if v[0] == 'sym':
            self.discr(st, v)
            v = self.force(st, v)
        return v[2] if v[0] == 'agg' else None

    def root_ret(self, st, data, v):
        st.stack.append(Frame(None, 0, 0, 0, 'root'))
        vi = self.variant(st, v)
        self.stats['paths'] += 1
        o = self.norm(st, st.mem[self.ocell])
        self.stats['obligations'] += 2
        isres = True
        if vi is None:
            st.taint = True
        if is_num(o):
            if not self.prove(st, sub(o, self.O)):
                self.report(st, 'offset', 'returns with the offset moved backwards', (self.body.path, self.body.j['span']))
            elif not self.prove(st, sub(self.L, o)):
                self.report(st, 'offset', 'returns with the offset past the end of the buffer', (self.body.path, self.body.j['span']))
            else:
                self.stats['discharged'] += 2
        pend = st.x['pend']
        if pend is not None:
            self.stats['obligations'] += 1
            if vi == 0:
                self.report(st, 'swallowed', 'a component failed but the whole value decoded successfully', (self.body.path, self.body.j['span']))
            elif vi == 1 and self.same_err(st, v[3][0], pend) is False:
                self.report(st, 'replaced', "a component's error was replaced by another one", (self.body.path, self.body.j['span']))
            else:
                self.stats['discharged'] += 1
        if vi == 1 and pend is None:
            self.check_err(st, v[3][0], o)
        if vi == 0:
            self.check_ok(st, v[3][0], o)
        raise Dead()

    def same_err(self, st, e, pend):
        e2 = e
        if e2 == pend:
            return True
        if e2[0] == 'sym':
            return e2[1] == pend[1]
        x = st.tab.get(pend[1])
        if x is not None and x == e2:
            return True
        return False

    def check_err(self, st, e, o):
        if e[0] != 'agg' or e[1] is None:
            return
        t = self.T(e[1])
        if 'v' not in t:
            return
        for f, x in zip(t['v'][0]['f'], e[3]):
            if f[0] == 'o':
                self.stats['obligations'] += 1
                if not is_num(x):
                    return
                if self.norm(st, sub(x, o)) != 0 and not (self.prove(st, sub(x, o)) and self.prove(st, sub(o, x))):
                    self.report(st, 'erroffset', 'error does not carry the offset at which decoding stopped')
                else:
                    self.stats['discharged'] += 1

    def check_ok(self, st, v, o):
        """a value is made of the bytes between the start offset and the final one only"""
        if not is_num(o):
            return
        self.stats['obligations'] += 1
        site = (self.body.path, self.body.j['span'])
        bad = []

        def span(a, b):
            if not self.prove(st, sub(a, self.O)) or not self.prove(st, sub(o, b)):
                bad.append((a, b))
        for k in st.tab:
            if isinstance(k, tuple) and k[0] == 'el' and k[1] == self.dsym:
                span(k[2], add(k[2], 1))

        def walk(x, n=0):
            if not isinstance(x, tuple) or n > 12:
                return
            if x and x[0] == 'run' and len(x) == 4 and x[1] == self.dsym:
                if not self.prove(st, sub(x[2], x[3])):
                    span(x[2], x[3])
                return
            for y in x:
                walk(y, n + 1)
        walk(v)
        if bad:
            self.report(st, 'local', 'bytes outside the value that was decoded are used', site)
        else:
            self.stats['discharged'] += 1

    def on_alloc(self, st, n, what):
        self.allocs += 1
        self.stats['obligations'] += 1
        n = self.norm(st, n) if is_num(n) else n
        cur = self.norm(st, st.mem[self.ocell])
        if is_num(n):
            if self.prove(st, sub(1 << 16, n)) or self.prove(st, sub(sub(self.L, cur), n)) or self.prove(st, sub(self.L, n)):
                self.stats['discharged'] += 1
                return
        self.report(st, 'alloc', 'capacity reserved from a count read from the input')


class BinOwn(Owned, BinDec):
    """the same exploration with ownership accounting"""

    def root_ret(self, st, data, v):
        vi = self.variant(st, v)
        if vi is not None:
            self.check_owned(st, vi == 0, self.force(st, v)[3][0])
        raise Dead()


class BinSer(Engine):
    """abstract interpretation of one encoder body over any value; checks what was written
    against the documented layout of the type"""

    def __init__(self, prog, expect=None):
        super().__init__(prog)
        self.conts['root'] = self.root_ret
        self.childcalls = 0
        self.traces = []
        self.expect = expect

    def start(self, body):
        st = State()
        self.body = body
        args = []
        self.out = next(self.ncell)
        st.mem[self.out] = ('seq', 'v', ())
        st.x['out'] = ('ref', self.out, (), None)
        for l in range(1, body.argc + 1):
            t = self.T(body.locals[l])
            if t['k'] == 'ref' and self.T(t['t'])['s'] == 'alloc::vec::Vec<u8>' and l > 1:
                args.append(('ref', self.out, (), None))
            else:
                v = self.fresh(st, body.locals[l], ('self',))
                if l == 1:
                    self.selfref = v
                    st.x['self'] = v
                args.append(v)
        st.stack.append(Frame(None, 0, 0, 0, 'root'))
        self.push(st, body, args)
        self.run([st], None)
        return self

    def is_child(self, cal):
        tr = cal.get('tr') or ''
        if not (tr.endswith('::SerBin') and cal['n'] == 'ser_bin'):
            return False
        return component(self, cal, self.body)

    def hook_call(self, st, cal, args):
        if self.is_child(cal):
            self.childcalls += 1
            r = M.deep(self, st, args[1])
            s = M.getseq(self, st, r) if r[0] == 'ref' else None
            if s is None:
                raise Undecided('the output is not known')
            v = rawval(self, st, args[0])
            ps = list(s[2])
            ty = self.T(cal['self'])['s']
            if isinstance(v, int):
                self.deliver(st, UNIT)
                raise Undecided('constant component')
            # components that are consecutive elements of one source form a run
            pc = self.topiece(st, v)
            mt = (('lit', ty),)
            if pc[0] != 'run' and ps and ps[-1][1] == 'kids' and ps[-1][2][1][0] == 'e':
                pr = self.topiece(st, ('agg', None, 0, (ps[-1][2][1][1], v)))
                if pr[0] == 'run':
                    pc = pr
                    mt = ps[-1][2][0] + mt
                    ps.pop()
            q = ps[-1] if ps else None
            if pc[0] == 'run' and q and q[1] == 'kids' and q[2][0] == mt and q[2][1][0] == 'run' and q[2][1][1] == pc[1] and self.norm(st, sub(q[2][1][3], pc[2])) == 0:
                pc = ('run', pc[1], q[2][1][2], pc[3])
                ps.pop()
            ps.append(('x', 'kids', (mt, pc), self.num(0, 1 << 40, ('encoded length',))))
            M.setseq(self, st, r, tuple(ps))
            self.deliver(st, UNIT)
            return True
        return None

    def root_ret(self, st, data, v):
        st.stack.append(Frame(None, 0, 0, 0, 'root'))
        self.stats['paths'] += 1
        out = st.mem[self.out]
        if self.body.root['name'].startswith('serialize') or self.body.argc == 1:
            out = v
        self.traces.append(out)
        if self.expect:
            self.stats['obligations'] += 1
            site = (self.body.path, self.body.j['span'])
            try:
                r = layout_match(self, st, list(self.join(st, out[2])), self.expect, rawval(self, st, st.x['self']))
            except NotSure as x:
                st.taint = True
                r = 'unrecognised output: %s' % x
            if r is True:
                self.stats['discharged'] += 1
            else:
                self.report(st, 'layout', 'wire layout: ' + r, site)
        raise Dead()


class NotSure(Exception):
    pass


def rawval(e, st, a):
    """the value behind a reference, without opening it"""
    n = 0
    while isinstance(a, tuple) and a[0] in ('ref', 'cref') and n < 10:
        a = e.read(st, a[1], a[2]) if a[0] == 'ref' else a[1]
        n += 1
    return e.norm(st, a) if is_num(a) else a


def fn_marker(e, key, args=()):
    b = e.p.bodies.get(key)
    if b is None:
        raise NotSure('corpus function ' + key)
    return e.marker(b, tuple(args))


def default_value(e, f):
    """the value a skipped or absent field takes; None: there is none"""
    w = f.attr('default_with')
    if w:
        return fn_marker(e, 'nsv_corpus::' + w)
    d = f.attr('default')
    if d and d is not True:
        return literal(e, f.ty, d)
    return type_default(e, f.ty)


def type_default(e, ty):
    if ty in ('i32', 'u64', 'usize', 'i64', 'u8'):
        return 0
    if ty.startswith('Option<'):
        return M.NONE
    if ty == 'String':
        return ('seq', 's', ())
    if ty == 'bool':
        return 0
    return fn_marker(e, '<nsv_corpus::%s as core::default::Default>::default' % ty)


def literal(e, ty, d):
    if ty.startswith('Option<'):
        return M.SOME(literal(e, ty[7:-1], d))
    if ty == 'String':
        return ('seq', 's', (('l', d),)) if d else ('seq', 's', ())
    if ty == 'bool':
        return int(d == 'true')
    if ty == 'f32':
        return ('f', struct.unpack('<I', struct.pack('<f', float(d)))[0])
    if ty == 'f64':
        return ('f', struct.unpack('<Q', struct.pack('<d', float(d)))[0])
    return int(d)


def proxied(e, f, v):
    px = f.attr('proxy')
    w = fn_marker(e, '<nsv_corpus::%s as core::convert::From<&nsv_corpus::%s>>::from' % (px, f.ty), (v,))
    return fn_marker(e, '<nsv_corpus::%s as core::convert::From<&nsv_corpus::%s>>::from' % (f.ty, px), (w,))


def to_proxy(e, f, v):
    return fn_marker(e, '<nsv_corpus::%s as core::convert::From<&nsv_corpus::%s>>::from' % (f.attr('proxy'), f.ty), (v,))


def roundtrip_value(e, st, d, val):
    """what decoding gives back for an encoded value of a declared type"""
    if d.attr('proxy'):
        return proxied(e, d, val)
    if d.kind == 'e':
        if not any(f.attr('skip') or f.attr('proxy') for v in d.parts for f in v.fields):
            return val
        if val[0] == 'sym':
            e.discr(st, val)
            val = e.force(st, val)
        if val[0] != 'agg':
            raise NotSure('enum')
        fs = d.parts[val[2]].fields
    else:
        fs = d.parts
        if not any(f.attr('skip') or f.attr('proxy') for f in fs):
            return val
        if val[0] == 'sym':
            val = e.force(st, val)
    out = list(val[3])
    for i, f in enumerate(fs):
        if f.attr('skip'):
            out[i] = default_value(e, f)
        elif f.attr('proxy'):
            out[i] = proxied(e, f, out[i])
    return ('agg', val[1], val[2], tuple(out))


def component(e, cal, body):
    """is this trait call one on a component, covered by the contract of the component's own type?"""
    if cal.get('rk') == 'unresolved' or not cal.get('b'):
        return True
    t = e.T(cal['self'])
    if cal['b'] == body.key:
        return True
    if t['k'] == 'adt' and t['p'].startswith('nsv_'):
        return True
    if body.path.startswith('nsv_') or '<nsv_' in body.key[:12]:
        # parts of derived types: everything but the integers that carry tags
        return not (t['k'] == 'prim' or t['k'] == 'ref' or t['k'] == 'adt' and t['p'] == 'core::option::Option')
    return False


def layout_match(e, st, ps, spec, val):
    """does the piece list ps encode val as spec says? True or a description"""
    rest = lm(e, st, ps, spec, val)
    if isinstance(rest, str):
        return rest
    if rest:
        return 'more bytes than the layout has'
    return True


def take_num(e, st, ps, ty, val):
    n = {'usize': 64, 'isize': 64}.get(ty) or int(ty[1:])
    n //= 8
    if not ps:
        return 'bytes of %s missing' % ty
    p = ps[0]
    if p[0] == 'x' and p[1] == 'bytes':
        (_, k), (_, ty2), v = p[2]
        if p[3] != n:
            return '%d bytes where %d are due' % (p[3], n)
        if k != 'le' and n > 1:
            return 'not little-endian'
        got = M.from_bytes(e, st, [p], ty, 'le')
        ps = ps[1:]
    elif p[0] in ('e', 'run'):
        items = []
        ps = list(ps)
        while len(items) < n:
            if not ps:
                return 'bytes of %s missing' % ty
            q = ps[0]
            if q[0] != 'e':
                if n == 1 and q[0] == 'run' and e.norm(st, sub(q[3], q[2])) == 1:
                    q = ('e', e.first(st, q))
                else:
                    return 'bytes of %s missing' % ty
            items.append(q)
            ps = ps[1:]
        if n == 1:
            got = items[0][1]
            if ty == 'i8':
                got = e.wrap(st, got, (-128, 127)) if is_num(got) else got
        else:
            got = M.from_bytes(e, st, tuple(items), ty, 'le')
    else:
        if p[0] == 'unk':
            raise NotSure('unknown bytes')
        return 'another component where %s is due' % ty
    if is_num(got) and is_num(val):
        d = e.norm(st, sub(got, val))
        if d == 0 or e.prove(st, d) and e.prove(st, neg(d)):
            return ps
        return '%s holds another number' % ty
    if got == val:
        return ps
    if is_num(got) != is_num(val):
        raise NotSure('value of %s' % ty)
    if same(e, st, got, val) is True:
        return ps
    return '%s holds another value' % ty


def lm(e, st, ps, spec, val):
    k = spec[0]
    if k == 'num':
        return take_num(e, st, ps, spec[1], val)
    if k == 'bool':
        if not is_num(val):
            raise NotSure('bool')
        return take_num(e, st, ps, 'u8', val)
    if isinstance(val, tuple) and val[0] in ('ref', 'cref', 'sym') and k not in ('part', 'systime'):
        _, val = M.target(e, st, val)
    if k == 'const':
        return take_num(e, st, ps, spec[1], spec[2])
    if k == 'str':
        ps = take_num(e, st, ps, 'u64', M.strblen(e, st, e.join(st, val[2])))
        if isinstance(ps, str):
            return ps
        if e.norm(st, e.slen(st, val)) == 0:
            return ps
        if not ps or ps[0][0] != 'x' or ps[0][1] != 'sbytes':
            if e.prove(st, neg(e.slen(st, val))):
                return ps
            return 'the text of the string is missing'
        if tuple(e.join(st, ps[0][2])) != tuple(e.join(st, val[2])):
            return 'other text than the string'
        return ps[1:]
    if k in ('seq', 'map', 'arr'):
        if k != 'arr':
            ps = take_num(e, st, ps, 'u64', e.slen(st, val))
            if isinstance(ps, str):
                return ps
        want = list(e.join(st, val[2]))
        want = [w for w in want if not (e.norm(st, e.plen(st, w)) == 0 or e.prove(st, neg(e.plen(st, w))))]
        for w in want:
            if not ps:
                return 'elements missing'
            p = ps[0]
            if p[0] != 'x' or p[1] != 'kids':
                return 'something else where the elements are due'
            mt, pc = p[2]
            if len(mt) != (2 if k == 'map' else 1):
                return 'entries are not key then value'
            if sameseq(e, st, ('seq', 'v', (pc,)), ('seq', 'v', (w,)), 0) is not True:
                return 'elements missing or out of order'
            ps = ps[1:]
        return ps
    if k == 'opt':
        if val[0] != 'agg':
            raise NotSure('option')
        ps = take_num(e, st, ps, 'u8', 1 if val[2] == 1 else 0)
        if isinstance(ps, str) or val[2] == 0:
            return ps
        return lm(e, st, ps, spec[1], val[3][0])
    if k == 'part':
        if not ps:
            return 'a part is missing'
        p = ps[0]
        if p[0] != 'x' or p[1] != 'kids':
            return 'something else where a part is due'
        v = p[2][1]
        got = v[1] if v[0] == 'e' else e.first(st, v)
        if same(e, st, got, spec[2](e, val) if len(spec) > 2 else val) is not True:
            return 'parts out of order'
        if len(spec) > 1 and spec[1] and p[2][0][0][1] != spec[1]:
            raise NotSure('part written as another type')
        return ps[1:]
    if k == 'struct':
        if val[0] != 'agg':
            raise NotSure('struct')
        for i, s in spec[1]:
            ps = lm(e, st, ps, s, val[3][i])
            if isinstance(ps, str):
                return ps
        return ps
    if k == 'enum':
        if val[0] != 'agg':
            raise NotSure('enum')
        ps = take_num(e, st, ps, 'u16', val[2])
        if isinstance(ps, str):
            return ps
        for i, s in spec[1][val[2]]:
            ps = lm(e, st, ps, s, val[3][i])
            if isinstance(ps, str):
                return ps
        return ps
    if k == 'box':
        return lm(e, st, ps, P, val)
    if k == 'dur':
        ps = take_num(e, st, ps, 'u64', val[3][0])
        if isinstance(ps, str):
            return ps
        return take_num(e, st, ps, 'u32', val[3][1])
    if k == 'systime':
        key = ('since', val)
        d = st.tab.get(key)
        if d is None:
            raise NotSure('system time')
        if e.norm(st, 0) is not None and ps and ps[0] == ('e', 0):
            return 'a time after the epoch is written as none'
        ps = take_num(e, st, ps, 'u8', 1)
        if isinstance(ps, str):
            return ps
        return lm(e, st, ps, ('dur',), d)
    raise NotSure(k)


P = ('part',)


def lib_layout(s):
    """documented layout of the library types, by type name"""
    if s in ('u8', 'i8', 'u16', 'i16', 'u32', 'i32', 'u64', 'i64', 'u128', 'i128', 'f32', 'f64'):
        return ('num', s)
    if s == 'usize':
        return ('num', 'u64')
    if s == 'bool':
        return ('bool',)
    if s in ('alloc::string::String', 'str'):
        return ('str',)
    if s == '()':
        return ('struct', ())
    if s == '[T]' or s == '[T; N]':
        return ('arr',)
    if s.startswith('('):
        n = s.count(',') + 1
        return ('struct', tuple((i, P) for i in range(n)))
    if s.endswith('HashMap<K, V>') or s.endswith('BTreeMap<K, V>'):
        return ('map',)
    if s.endswith('Vec<T>') or s.endswith('List<T>') or s.endswith('Set<T>'):
        return ('seq',)
    if s.endswith('Option<T>'):
        return ('opt', P)
    if s.endswith('Box<T>'):
        return ('box',)
    if s == 'core::time::Duration':
        return ('dur',)
    if s == 'std::time::SystemTime':
        return ('systime',)
    return None


class BinRT(Engine):
    """product of an encoder and the decoder of the same type: the decoder runs over the
    bytes the encoder writes, which it pulls on demand; anything may follow them"""

    maxdepth = 80

    def __init__(self, prog):
        super().__init__(prog)
        self.conts['ser_end'] = self.ser_end
        self.conts['root'] = self.root_ret
        self.childcalls = 0
        self.oksites = 0
        self.pulls = 0
        self.decl = None

    def start(self, ser, de, ident=None):
        st = State()
        self.ser, self.body = ser, de
        self.rootself = de.root.get('self')
        st.stacks = [[], []]
        # encoder
        self.out = next(self.ncell)
        st.mem[self.out] = ('seq', 'v', ())
        st.x['out'] = ('ref', self.out, (), None)
        args = []
        self.whole = ser.root['name'].startswith('serialize')
        for l in range(1, ser.argc + 1):
            if l > 1:
                args.append(('ref', self.out, (), None))
            else:
                v = self.fresh(st, ser.locals[l], ('self',))
                st.x['self'] = v
                args.append(v)
        st.act = 0
        st.stack.append(Frame(None, 0, 0, 0, 'ser_end'))
        self.push(st, ser, args)
        # decoder
        st.act = 1
        self.O = self.num(0, 1 << 62, ('start offset',)) if not self.whole else 0
        self.dcell = next(self.ncell)
        self.ocell = next(self.ncell)
        st.mem[self.ocell] = self.O
        st.mem[self.dcell] = ('seq', 'v', (('unk', ('lit', 'before'), self.O),) + self.tail(st))
        st.x['o'] = ('ref', self.ocell, (), None)
        st.x['d'] = ('ref', self.dcell, (), None)
        st.x['more'] = True
        args = []
        for l in range(1, de.argc + 1):
            t = self.T(de.locals[l])
            u = self.T(t['t']) if t['k'] == 'ref' else t
            args.append(('ref', self.ocell if t['k'] == 'ref' and u['s'] == 'usize' else self.dcell, (), None))
        st.stack.append(Frame(None, 0, 0, 0, 'root'))
        self.push(st, de, args)
        self.run([st], None)
        return self

    def tail(self, st):
        z = self.num(0, 1 << 62, ('bytes still to come',))
        st.x['tail'] = z
        return (('unk', ('lit', 'rest'), z),)

    # ---- the encoder's side
    def step(self, st):
        if st.act == 0:
            super().step(st)
            self.ser_flush(st)
            return
        super().step(st)

    def ser_flush(self, st):
        if st.act != 0:
            return
        out = st.mem[self.out]
        if out[0] == 'seq' and out[2]:
            st.mem[self.out] = ('seq', 'v', ())
            self.emit(st, out[2])

    def emit(self, st, pieces):
        d = st.mem[self.dcell]
        old = st.x['tail']
        n = 0
        for p in pieces:
            n = add(n, self.plen(st, p))
        body = d[2]
        if st.x.get('ending'):
            self.report(st, 'leftover', 'decoding ends before everything that was written is consumed', (self.body.path, self.body.j['span']))
            raise Dead()
        assert body and body[-1][0] == 'unk' and body[-1][1] == ('lit', 'rest'), body
        t = self.tail(st)
        if not self.assume_eq(st, sub(self.norm(st, old), add(n, st.x['tail']))):
            raise Dead()
        st.mem[self.dcell] = ('seq', 'v', self.join(st, body[:-1] + tuple(pieces)) + t)
        st.act = 1

    def join(self, st, pieces):
        # the unread tail keeps its identity
        return super().join(st, pieces)

    def ser_end(self, st, data, v):
        st.stack.append(Frame(None, 0, 0, 0, 'ser_end'))
        if self.whole:
            st.mem[self.out] = v
            st.x['more'] = False
            self.ser_flush(st)
        st.x['more'] = False
        st.act = 1
        if st.x.get('ending'):
            # a split from here on starts again at the return of the decoder
            st.x['_ret'] = (1, len(st.stack) - 1, st.x['result'])
            self.finish_pair(st, st.x['result'])

    def pull(self, st):
        if not st.x['more']:
            return False
        self.pulls += 1
        s = st.clone()
        s.act = 0
        s.steps += 1
        raise Split([s])

    def hook_undecided(self, st, c):
        if st.act != 1:
            return False
        t = st.x['tail']
        sy = set(N.syms(self.norm(st, t)))
        if sy & set(self.condsyms2(st, c)):
            return self.pull(st)
        return False

    def condsyms2(self, st, c):
        if isinstance(c, int):
            return ()
        if c[0] == 'L':
            return N.syms(self.norm(st, c))
        if c[0] == 'cmp':
            return N.syms(self.norm(st, c[2]))
        if c[0] in ('rngin', 'rngout'):
            r = []
            for x in c[1:]:
                if isinstance(x, tuple):
                    r += N.syms(self.norm(st, x))
            return r
        if c[0] == 'not':
            return self.condsyms2(st, c[1])
        return ()

    # ---- components
    def hook_call(self, st, cal, args):
        tr = cal.get('tr') or ''
        if tr.endswith('::SerBin') and cal['n'] == 'ser_bin' and self.comp(cal, self.ser):
            self.childcalls += 1
            r = M.deep(self, st, args[1])
            s = M.getseq(self, st, r) if r[0] == 'ref' else None
            if s is None:
                raise Undecided('the output is not known')
            v = args[0]
            _, v = M.target(self, st, v)
            ln = st.tab.get(('enclen', v))
            if ln is None:
                ln = self.num(0, 1 << 40, ('encoded length',))
                st.tab[('enclen', v)] = ln
            M.setseq(self, st, r, s[2] + (('x', 'child', (('lit', self.T(cal['self'])['s']), self.rawval(st, args[0])), self.norm(st, ln)),))
            self.deliver(st, UNIT)
            return True
        if tr.endswith('::DeBin') and cal['n'] == 'de_bin' and self.comp(cal, self.body):
            self.childcalls += 1
            self.de_child(st, cal, args)
            return True
        return None

    def rawval(self, st, a):
        return rawval(self, st, a)

    def comp(self, cal, body):
        return component(self, cal, body)

    def de_child(self, st, cal, args):
        o = M.deep(self, st, args[0])
        cur = self.norm(st, self.read(st, o[1], o[2]))
        d = st.mem[self.dcell]
        # the piece that starts at the current offset
        pos = 0
        hit = None
        ps = self.join(st, d[2])
        for p in ps:
            if self.norm(st, sub(cur, pos)) == 0:
                hit = p
                if not (p[0] == 'run'):
                    break
                break
            pos = add(pos, self.plen(st, p))
        if hit is None:
            self.report(st, 'misaligned', 'a component is decoded at an offset where no component was written')
            raise Dead()
        if hit[0] == 'unk':
            if hit[1] == ('lit', 'rest') and st.x['more']:
                self.pull(st)
            self.report(st, 'extra', 'a component is decoded that was not written')
            raise Dead()
        if hit[0] != 'x' or hit[1] != 'child':
            self.report(st, 'mismatch', 'a component is decoded where something else was written')
            raise Dead()
        (_, ts), v = hit[2]
        want = self.T(cal['self'])['s']
        if ts != want:
            self.report(st, 'mismatch', 'a component is decoded as %s but was written as %s' % (want, ts))
            raise Dead()
        self.write(st, o[1], o[2], self.norm(st, add(cur, hit[3])))
        st.steps += 1
        self.deliver(st, M.OK(v))

    def normalize(self, st):
        """forget the part of the buffer the decoder has left behind"""
        d = st.mem.get(self.dcell)
        cur = self.norm(st, st.mem[self.ocell])
        pos = 0
        ps = self.join(st, d[2])
        for i, p in enumerate(ps):
            if self.norm(st, sub(cur, pos)) == 0:
                st.mem[self.dcell] = ('seq', 'v', (('unk', ('lit', 'before'), cur),) + ps[i:])
                return
            pos = add(pos, self.plen(st, p))

    def collapse_val(self, st, v):
        if v is st.mem.get(self.dcell):
            return v
        return super().collapse_val(st, v)

    # ---- the end
    def root_ret(self, st, data, v):
        st.stack.append(Frame(None, 0, 0, 0, 'root'))
        if st.x['more']:
            # finish the encoder first: it must have nothing left to write
            st.stack.pop()
            st.x['result'] = v
            st.stack.append(Frame(None, 0, 0, 0, 'root'))
            s = st
            s.act = 0
            s.x['ending'] = True
            raise Split([s])
        self.stats['paths'] += 1
        self.finish_pair(st, v)

    def finish_pair(self, st, v):
        site = (self.body.path, self.body.j['span'])
        if v[0] == 'sym':
            self.discr(st, v)
            v = self.force(st, v)
        if v[0] != 'agg':
            st.taint = True
            self.report(st, 'result', 'unknown result', site)
            raise Dead()
        self.stats['obligations'] += 2
        if v[2] != 0:
            self.report(st, 'rejected', 'decoding what was encoded fails', site)
            raise Dead()
        d = st.mem[self.dcell]
        cur = self.norm(st, st.mem[self.ocell])
        if not self.whole:
            end = sub(self.slen(st, d), st.x['tail'])
            if self.norm(st, sub(cur, end)) != 0:
                self.report(st, 'consumed', 'decoding does not end where encoding ended', site)
                raise Dead()
        self.stats['discharged'] += 1
        want = self.rawval(st, st.x['self'])
        if self.decl is not None:
            want = roundtrip_value(self, st, self.decl, want)
        r = self.same(st, v[3][0], want)
        if r is not True and self.decl is not None and want is not self.rawval(st, st.x['self']):
            # skip inside enum variants is not a documented attribute of the binary format:
            # carrying the field along is as good as leaving it out, as long as both sides agree
            if self.decl.kind == 'e':
                r = self.same(st, v[3][0], self.rawval(st, st.x['self']))
        if r is True:
            self.stats['discharged'] += 1
            self.oksites += 1
        else:
            self.report(st, 'value', 'the decoded value differs from the encoded one: ' + str(r), site)
        raise Dead()

    def same(self, st, a, b):
        """structural identity of two abstract values; True or a description of the difference"""
        return same(self, st, a, b)


class BinCut(BinRT):
    """the same product, with the buffer ending somewhere inside what the encoder writes: the
    decoder must fail"""

    def emit(self, st, pieces):
        if st.x.get('ending'):
            raise Dead()
        outs = []
        pieces = [p for p in pieces if self.norm(st, self.plen(st, p)) != 0]
        for i, p in enumerate(pieces):
            s = st.clone()
            n = self.plen(s, p)
            if not self.assume_ge(s, sub(n, 1)):
                continue
            m = self.num(0, 1 << 62, ('bytes before the end',))
            if not self.assume_ge(s, sub(sub(n, 1), m)):
                continue
            if p[0] == 'x' and p[1] == 'child':
                q = (('x', 'cutchild', p[2], m),)
            elif n == 1:
                s2 = self.assume_eq(s, m)
                q = ()
            else:
                q = (('unk', None, m),)
            d = s.mem[self.dcell]
            new = tuple(pieces[:i]) + q
            tot = 0
            for x in new:
                tot = add(tot, self.plen(s, x))
            if not self.assume_eq(s, sub(self.norm(s, s.x['tail']), tot)):
                continue
            s.mem[self.dcell] = ('seq', 'v', self.join(s, d[2][:-1] + new))
            s.act = 1
            s.x['tail'] = 0
            s.x['more'] = False
            s.x['cut'] = True
            outs.append(s)
        try:
            BinRT.emit(self, st, pieces)
            outs.append(st)
        except Dead:
            pass
        raise Split(outs)

    def de_child(self, st, cal, args):
        if st.x.get('cut'):
            o = M.deep(self, st, args[0])
            cur = self.norm(st, self.read(st, o[1], o[2]))
            pos = 0
            for p in self.join(st, st.mem[self.dcell][2]):
                if p[0] == 'x' and p[1] == 'cutchild' and self.norm(st, sub(cur, pos)) == 0:
                    st.steps += 1
                    ety = find_type(self.p, lambda t: t['k'] == 'adt' and t['p'].endswith('::DeBinErr'))
                    self.deliver(st, M.ERR(self.opaque(ety, ('component error',))))
                    return
                pos = add(pos, self.plen(st, p))
        super().de_child(st, cal, args)

    def report(self, st, kind, msg, site=None):
        if kind == 'truncated':
            super().report(st, kind, msg, site)

    def root_ret(self, st, data, v):
        if not st.x.get('cut'):
            raise Dead()
        self.finish_pair(st, v)

    def finish_pair(self, st, v):
        if not st.x.get('cut'):
            raise Dead()
        if v[0] == 'sym':
            self.discr(st, v)
            v = self.force(st, v)
        self.stats['obligations'] += 1
        self.stats['paths'] += 1
        if v[0] == 'agg' and v[2] == 0:
            self.report(st, 'truncated', 'a buffer that ends inside the value is accepted', (self.body.path, self.body.j['span']))
        else:
            self.stats['discharged'] += 1
        raise Dead()

    def ser_end(self, st, data, v):
        if self.whole:
            return super().ser_end(st, data, v)
        raise Dead() if st.x.get('ending') else self._fin(st)

    def _fin(self, st):
        return Dead()


def same(e, st, a, b, depth=0):
    if is_num(a) and is_num(b):
        a, b = e.norm(st, a), e.norm(st, b)
        if a == b:
            return True
        d = e.norm(st, sub(a, b))
        if d == 0 or e.prove(st, d) and e.prove(st, neg(d)):
            return True
        return 'a number is changed'
    if a == b:
        return True
    if depth > 30:
        return 'too deep'
    for x, y in ((a, b), (b, a)):
        if isinstance(x, tuple) and x and x[0] in ('cmp', 'rngin', 'rngout', 'not') and (is_num(y) or y[0] in ('cmp', 'rngin', 'rngout', 'not')):
            t = int(bool(e.decide(st, x)))
            return same(e, st, t, y, depth + 1) if is_num(y) else same(e, st, y, t, depth + 1)
    if not isinstance(a, tuple) or not isinstance(b, tuple):
        return 'different kinds'
    if a[0] == 'sym' and b[0] == 'sym' and a[1] == b[1]:
        return True
    if a[0] == 'sym':
        a2 = e.force(st, a)
        if a2 != a:
            return same(e, st, a2, b, depth + 1)
    if b[0] == 'sym':
        b2 = e.force(st, b)
        if b2 != b:
            return same(e, st, a, b2, depth + 1)
        if a[0] == 'agg':
            # not yet opened: open it as the variant the other side has
            t = e.symty.get(b[1])
            t = e.T(t) if t is not None else None
            if t and t['k'] == 'adt' and 'v' in t and len(t['v']) == 1:
                return same(e, st, a, e.force(st, b, 0), depth + 1)
        return 'a part is not the one that was written'
    if a[0] == 'ref' and b[0] == 'ref':
        return same(e, st, e.read(st, a[1], a[2]), e.read(st, b[1], b[2]), depth + 1)
    if a[0] == 'cref':
        return same(e, st, a[1], b, depth + 1)
    if b[0] == 'cref':
        return same(e, st, a, b[1], depth + 1)
    if a[0] == 'ref':
        return same(e, st, e.read(st, a[1], a[2]), b, depth + 1)
    if b[0] == 'ref':
        return same(e, st, a, e.read(st, b[1], b[2]), depth + 1)
    if a[0] == 'agg' and b[0] == 'agg':
        if a[2] != b[2]:
            return 'another variant'
        if len(a[3]) != len(b[3]):
            return 'another shape'
        for i, (x, y) in enumerate(zip(a[3], b[3])):
            r = same(e, st, x, y, depth + 1)
            if r is not True:
                return r if r.startswith('part') else 'part %d: %s' % (i, r)
        return True
    if a[0] == 'seq' and b[0] == 'seq':
        return sameseq(e, st, a, b, depth)
    if 'top' in (a[0], b[0]):
        raise Undecided('a value is not known')
    return 'different kinds (%s, %s)' % (a[0], b[0])


def sameseq(e, st, a, b, depth):
    x, y = list(e.join(st, a[2])), list(e.join(st, b[2]))
    i = 0
    while x or y:
        i += 1
        if not x or not y:
            r = x or y
            if all(e.norm(st, e.plen(st, p)) == 0 for p in r):
                return True
            if all(e.prove(st, neg(e.plen(st, p))) for p in r):
                return True
            return 'the sequences differ in length'
        p, q = x[0], y[0]
        if p == q:
            x.pop(0), y.pop(0)
            continue
        if p[0] == 'run' and q[0] == 'run' and p[1] == q[1]:
            if e.norm(st, sub(p[2], q[2])) != 0:
                return 'the elements are out of order'
            d = e.norm(st, sub(p[3], q[3]))
            if d == 0 or e.prove(st, d) and e.prove(st, neg(d)):
                x.pop(0), y.pop(0)
                continue
            if e.prove(st, d):
                x[0] = ('run', p[1], q[3], p[3])
                y.pop(0)
                continue
            if e.prove(st, neg(d)):
                y[0] = ('run', q[1], p[3], q[3])
                x.pop(0)
                continue
            return 'the sequences differ in length'
        if e.norm(st, e.plen(st, p)) == 1 and e.norm(st, e.plen(st, q)) == 1:
            r = same(e, st, e.first(st, p), e.first(st, q), depth + 1)
            if r is not True:
                return 'an element differs: ' + r
            x.pop(0), y.pop(0)
            continue
        # peel one element off the longer piece when that is possible
        pl, ql = e.norm(st, e.plen(st, p)), e.norm(st, e.plen(st, q))
        if pl == 1 and e.prove(st, sub(ql, 1)):
            l, r = e.seq_split(st, (q,), 1)
            y[0:1] = list(l) + list(r)
            continue
        if ql == 1 and e.prove(st, sub(pl, 1)):
            l, r = e.seq_split(st, (p,), 1)
            x[0:1] = list(l) + list(r)
            continue
        if p[0] == 'run' and e.prove(st, neg(pl)):
            x.pop(0)
            continue
        if q[0] == 'run' and e.prove(st, neg(ql)):
            y.pop(0)
            continue
        return 'the contents differ'
    return True
