"""Models of the standard library on the abstract values of interp.py."""
import re
import struct
import unicodedata
from . import lin as N
from .lin import add, sub, mul, neg, is_num, single
from .interp import UNIT, TOP, UNINIT, MOVED, Undecided, Dead, Split, Frame, INTR, ISIZE_MAX, SEQTY, CHARS

NONE = ('agg', None, 0, ())


def SOME(v):
    return ('agg', None, 1, (v,))


def OK(v):
    return ('agg', None, 0, (v,))


def ERR(v):
    return ('agg', None, 1, (v,))


EMPTY_S = ('seq', 's', ())

PANICS = re.compile(r'(^core::panicking::|unwrap_failed|expect_failed|slice_index|_index_fail|slice_error_fail|capacity_overflow|handle_alloc_error|^std::process::(abort|exit)|len_mismatch_fail|panic_fmt|begin_panic|panic_const|assert_failed|cold_path_panic|slice_start_index|slice_end_index|str_index_overflow|^core::intrinsics::abort)')


def target(e, st, v):
    """follow references; returns (ref-or-None, value)"""
    r = None
    n = 0
    while isinstance(v, tuple):
        n += 1
        if n > 20:
            break
        if v[0] == 'sym':
            w = e.force(st, v)
            if w[0] == 'sym':
                return r, w
            v = w
            continue
        if v[0] == 'ref':
            r = v
            v = e.read(st, v[1], v[2])
            continue
        if v[0] == 'cref':
            r = v
            v = v[1]
            continue
        break
    return r, v


def mat(e, st, v):
    """make a reference with a cell out of a value/cref"""
    if v[0] == 'ref':
        return v
    if v[0] == 'cref':
        key = ('crefcell', id(v[1]))
        c = next(e.ncell)
        st.mem[c] = v[1]
        e.constcells.add(c)
        return ('ref', c, (), v[2])
    c = next(e.ncell)
    st.mem[c] = v
    return ('ref', c, (), None)


def deep(e, st, v):
    """follow references to the last reference whose target is not a reference"""
    r = v
    n = 0
    while True:
        n += 1
        if n > 20:
            return r
        if isinstance(r, tuple) and r[0] == 'sym':
            w = e.force(st, r)
            if w[0] == 'sym':
                return r
            r = w
            continue
        if r[0] == 'cref':
            if isinstance(r[1], tuple) and r[1][0] in ('ref', 'cref'):
                r = r[1]
                continue
            return mat(e, st, r)
        if r[0] == 'ref':
            t = e.read(st, r[1], r[2])
            if isinstance(t, tuple) and t[0] == 'sym':
                t = e.force(st, t)
            if isinstance(t, tuple) and t[0] in ('ref', 'cref'):
                r = t
                continue
        return r


def pieces_of(e, st, r):
    """pieces designated by a (possibly sliced) reference to a seq"""
    m = None
    v = r
    while isinstance(v, tuple) and v[0] in ('ref', 'cref', 'sym'):
        if v[0] == 'sym':
            w = e.force(st, v)
            if w[0] == 'sym':
                return None
            v = w
            continue
        if v[0] == 'ref':
            if v[3]:
                m = v[3]
            v = e.read(st, v[1], v[2])
        else:
            if v[2]:
                m = v[2]
            v = v[1]
    if not (isinstance(v, tuple) and v[0] == 'seq'):
        return None
    ps = v[2]
    if m:
        if v[1] == 's':
            o = byte_split(e, st, ps, m[0])[1]
            return byte_split(e, st, o, m[1])[0] if m[1] is not None else o
        _, ps = e.seq_split(st, ps, m[0])
        if m[1] is not None:
            ps, _ = e.seq_split(st, ps, m[1])
    return ps


def seqkind(e, st, v):
    _, t = target(e, st, v)
    return t[1] if isinstance(t, tuple) and t[0] == 'seq' else None


def blen_piece(e, st, p):
    k = p[0]
    if k == 'l':
        return len(p[1].encode('utf-8', 'surrogatepass'))
    if k == 'e' and is_num(p[1]):
        c = e.norm(st, p[1])
        if isinstance(c, int):
            return len(chr(c).encode('utf-8', 'surrogatepass'))
        if e.prove(st, sub(127, c)):
            return 1
        key = ('bl', p)
        v = st.tab.get(key)
        if v is None:
            v = e.num(1, 4, ('bytelen',))
            st.tab[key] = v
        return e.norm(st, v)
    if k in ('x', 'unk') and k == 'x' and p[1] in ('num', 'flt', 'child', 'hex', 'fmt'):
        return p[-1]
    if k == 'run' and isinstance(p[1], tuple) and p[1][0] == 'numtxt':
        return e.plen(st, p)
    if k == 'run' and isinstance(p[1], int):
        # nested split of a string known by its bytes?
        w = st.tab.get(('blen', p[1]))
        n = st.tab.get(p[1])
        full = n is not None and n[0] == 'seq' and n[2] and n[2][0] == p
        if full:
            if w is None:
                cl = e.plen(st, p)
                w = e.num(0, ISIZE_MAX, ('strlen', p[1]), p[1] in e.staint)
                st.tab[('blen', p[1])] = w
                st.cons = st.cons + (sub(w, cl), sub(mul(cl, 4), w))
            return e.norm(st, w)
    key = ('bl', p)
    v = st.tab.get(key)
    if v is None:
        n = e.plen(st, p)
        lo, hi = e.bounds(st, n) if is_num(n) else (0, None)
        v = e.num(lo or 0, ISIZE_MAX, ('bytelen',), k == 'unk')
        st.cons = st.cons + (sub(v, n), sub(mul(n, 4), v))
        st.tab[key] = v
    return e.norm(st, v)


def strblen(e, st, pieces):
    n = 0
    for p in pieces:
        n = add(n, blen_piece(e, st, p))
    return e.norm(st, n)


def byte_split(e, st, pieces, n):
    """split string pieces at byte offset n"""
    left = []
    rest = list(pieces)
    n = e.norm(st, n)
    while rest:
        if isinstance(n, int) and n == 0:
            break
        p = rest[0]
        L = blen_piece(e, st, p)
        d = e.norm(st, sub(n, L))
        if e.decide(st, ('cmp', 'ge', d)):
            left.append(p)
            rest.pop(0)
            n = e.norm(st, d)
            continue
        if e.decide(st, ('cmp', 'eq', n)):
            break
        if p[0] == 'l' and isinstance(n, int):
            b = p[1].encode('utf-8')
            try:
                left.append(('l', b[:n].decode()))
                rest[0] = ('l', b[n:].decode())
            except UnicodeDecodeError:
                e.panic(st, 'string slice not on a character boundary')
            break
        if p[0] == 'run' and isinstance(n, int):
            c = e.elem(st, p[1], p[2])
            if e.decide(st, ('cmp', 'ge', sub(127, c))):
                left.append(('run', p[1], p[2], add(p[2], 1)))
                rest[0] = ('run', p[1], add(p[2], 1), p[3])
                n = n - 1
                continue
        raise Undecided('byte split')
    return tuple(left), tuple(rest)


def numlen(e, st, v):
    key = ('numlen', v)
    r = st.tab.get(key)
    if r is None:
        r = len(str(v)) if isinstance(v, int) else e.num(1, 40, ('numlen',))
        st.tab[key] = r
    return e.norm(st, r)


def display(e, st, v, spec=None):
    """pieces produced by Display for a value"""
    r, t = target(e, st, v)
    if isinstance(t, tuple) and t[0] in ('cmp', 'rngin', 'rngout', 'not'):
        t = e.boolnum(st, t)
    if is_num(t):
        t = e.norm(st, t)
        return None, t
    if isinstance(t, tuple) and t[0] == 'seq' and t[1] == 's':
        return pieces_of(e, st, v), None
    return None, None


def fmt_value(e, st, v, tr, ty, spec):
    """pieces for one format argument; ty = type of the argument (string)"""
    ps, n = display(e, st, v)
    if ps is not None:
        if tr == 'display' and not spec:
            return tuple(ps)
        if tr == 'debug' and all(p[0] == 'l' for p in ps):
            pass
        return (('x', 'fmt', (('lit', tr),) + tuple(ps), e.num(0, ISIZE_MAX, ('fmtlen',))),)
    if n is not None:
        ty = ty or ''
        ty = ty.replace('&', '').strip()
        if ty == 'char':
            if isinstance(n, int) and tr == 'display':
                return (('l', chr(n)),)
            if tr == 'display':
                return (e.strpiece(st, n),)
        elif ty == 'bool':
            if tr in ('display', 'debug'):
                return (('l', 'true' if e.decide(st, ('cmp', 'ne', n)) else 'false'),)
        elif tr in ('display', 'debug'):
            if spec:
                n = enum_small(e, st, n)
            if isinstance(n, int) and not spec:
                return (('l', str(n)),)
            if not spec:
                return (('x', 'num', n, numlen(e, st, n)),)
        elif tr in ('hex', 'HEX'):
            n = enum_small(e, st, n)
            if isinstance(n, int):
                s = '%x' % n if tr == 'hex' else '%X' % n
                w, zero = 0, False
                if spec:
                    w, zero = spec.get('width') or 0, spec.get('zero')
                    if spec.get('alt'):
                        s = '0x' + s
                return (('l', s.rjust(w, '0' if zero else ' ')),)
            return (('x', 'fmt', (('lit', tr + repr(sorted((spec or {}).items()))), n), e.num(1, 64, ('fmtlen',))),)
        if isinstance(n, int) and spec and tr == 'display':
            s = str(n)
            w = spec.get('width') or 0
            return (('l', s.rjust(w, '0' if spec.get('zero') else ' ')),)
        return (('x', 'fmt', (('lit', tr + repr(sorted((spec or {}).items()))), n), e.num(1, 64, ('fmtlen',))),)
    r, t = target(e, st, v)
    if isinstance(t, tuple) and (t[0] in ('f', 'fneg', 'f2f', 'i2f') or (t[0] == 'sym' and e.symty.get(t[1]) is not None and e.T(e.symty[t[1]]).get('s') in ('f32', 'f64'))):
        return (('x', 'flt', ('flt', t, ('lit', tr + repr(sorted((spec or {}).items())))), e.num(1, 400, ('fltlen',))),)
    return (('x', 'fmt', (('lit', tr), t if isinstance(t, tuple) else 0), e.num(0, ISIZE_MAX, ('fmtlen',))),)


def enum_small(e, st, n, limit=40):
    """split a symbolic number with a small domain into its values"""
    n = e.norm(st, n)
    if isinstance(n, int):
        return n
    sg = single(n)
    if sg:
        iv = e.ivs(st, sg[0])
        if iv[0][0] is not None and iv[-1][1] is not None and N.iv_size(iv) <= limit:
            outs = []
            for lo, hi in iv:
                for x in range(lo, hi + 1):
                    s = st.clone()
                    try:
                        if e.assume_eq(s, sub(N.sym(sg[0]), x)):
                            outs.append(s)
                    except Dead:
                        pass
            if not outs:
                raise Dead()
            raise Split(outs)
    return n


def template(b):
    out = []
    i = 0
    while i < len(b):
        x = b[i]
        if x == 0:
            break
        if x < 0x80:
            out.append(bytes(b[i + 1:i + 1 + x]).decode('utf-8', 'replace'))
            i += 1 + x
        elif x == 0x80:
            n = b[i + 1] | b[i + 2] << 8
            out.append(bytes(b[i + 3:i + 3 + n]).decode('utf-8', 'replace'))
            i += 3 + n
        else:
            d = {}
            i += 1
            if x & 1:
                d['flags'] = int.from_bytes(bytes(b[i:i + 4]), 'little')
                i += 4
            if x & 2:
                d['width'] = int.from_bytes(bytes(b[i:i + 2]), 'little')
                i += 2
            if x & 4:
                d['prec'] = int.from_bytes(bytes(b[i:i + 2]), 'little')
                i += 2
            if x & 8:
                d['idx'] = int.from_bytes(bytes(b[i:i + 2]), 'little')
                i += 2
            if x & 0x30:
                d['indirect'] = x & 0x30
            if 'flags' in d:
                if d['flags'] & (1 << 24):
                    d['zero'] = True
                if d['flags'] & (1 << 23):
                    d['alt'] = True
            out.append(d)
    return out


def fmt_pieces(e, st, args):
    if args[0] == 'fmt1':
        return args[1]
    if args[0] != 'fmtargs':
        return (('unk', 'c', e.num(0, ISIZE_MAX, ('fmt',), True)),)
    tmpl, vals = args[1], args[2]
    out = []
    nxt = 0
    for p in template(tmpl):
        if isinstance(p, str):
            out.append(('l', p))
            continue
        i = p.get('idx', nxt)
        nxt = i + 1
        if p.get('indirect') or i >= len(vals):
            out.append(('unk', 'c', e.num(0, ISIZE_MAX, ('fmt',), True)))
            continue
        a = vals[i]
        if a[0] != 'fmtarg':
            out.append(('unk', 'c', e.num(0, ISIZE_MAX, ('fmt',), True)))
            continue
        spec = {k: v for k, v in p.items() if k in ('width', 'prec', 'zero', 'alt')}
        if 'flags' in p and 'width' not in p and not p.get('zero') and not p.get('alt'):
            fl = p['flags'] & 0x1FFFFFFF
            spec = {k: v for k, v in spec.items()}
        out += fmt_value(e, st, a[2], a[1], a[3], spec or None)
    return e.join(st, out)


# ---------------------------------------------------------------- equality
def str_eq(e, st, A, B):
    """equality of two piece lists: 0/1 or a symbolic boolean"""
    A, B = list(e.join(st, A)), list(e.join(st, B))
    while True:
        if not A and not B:
            return 1
        if not A or not B:
            for p in (A or B):
                L = e.norm(st, e.plen(st, p))
                if e.prove(st, add(L, -1)):
                    return 0
            for p in (A or B):
                L = e.norm(st, e.plen(st, p))
                if not e.decide(st, ('cmp', 'eq', L)):
                    return 0
            return 1
        a, b = A[0], B[0]
        if a == b and a[0] != 'unk':
            A.pop(0)
            B.pop(0)
            continue
        if a[0] == 'l' and b[0] == 'l':
            n = min(len(a[1]), len(b[1]))
            if a[1][:n] != b[1][:n]:
                return 0
            A[0], B[0] = ('l', a[1][n:]), ('l', b[1][n:])
            if not A[0][1]:
                A.pop(0)
            if not B[0][1]:
                B.pop(0)
            continue
        for X, Y in ((A, B), (B, A)):
            x, y = X[0], Y[0]
            if x[0] == 'e' and is_num(x[1]) and y[0] in ('l', 'e'):
                c = ord(y[1][0]) if y[0] == 'l' else y[1]
                if not is_num(c):
                    break
                if not e.decide(st, ('cmp', 'eq', sub(x[1], c))):
                    return 0
                X.pop(0)
                if y[0] == 'l' and len(y[1]) > 1:
                    Y[0] = ('l', y[1][1:])
                else:
                    Y.pop(0)
                break
        else:
            break
        if A and B and A[0] is a and B[0] is b:
            break
    # opaque against something
    for X, Y in ((A, B), (B, A)):
        if len(X) == 1 and X[0][0] == 'run' and all(y[0] == 'l' for y in Y) and Y:
            lit = ''.join(y[1] for y in Y)
            L = e.plen(st, X[0])
            if e.truth(st, ('cmp', 'eq', sub(L, len(lit)))) is False:
                return 0
            return lit_eq(e, st, X[0], lit)
    key = ('seqeq', tuple(A), tuple(B))
    v = st.tab.get(key)
    if v is None:
        tn = any(p[0] == 'unk' for p in A + B)
        v = e.num(0, 1, ('streq',), tn)
        st.tab[key] = v
    return e.norm(st, v)


def lit_eq(e, st, run, lit):
    key = ('litof', run)
    (_, known), (_, no) = e.textfacts(st, run)
    if known is not None:
        return int(known[1] == lit)
    no = no[1] if no else frozenset()
    if lit in no:
        return 0
    tn = isinstance(run[1], int) and run[1] in e.staint
    s1 = st.clone()
    s1.tab[key] = ('lit', lit)
    s0 = st.clone()
    s0.tab[('notlit', run)] = ('lit', no | {lit})
    outs = [s0]
    if e.assume_eq(s1, sub(e.plen(st, run), len(lit))) and e.lit_possible(s1, run, lit):
        for r in e.join(s1, (run,)):
            s1.tab[('litof', r)] = ('lit', lit)
        outs.append(s1)
    if tn:
        for s in outs:
            s.taint = True
    raise Split(outs)


def val_eq(e, st, a, b):
    """structural equality; 0/1/symbolic or None"""
    if is_num(a) and is_num(b):
        d = sub(e.norm(st, a), e.norm(st, b))
        return int(d == 0) if isinstance(d, int) else ('cmp', 'eq', d)
    return None


# ---------------------------------------------------------------- registry
METH = {}     # method name -> handler(e, st, cal, args) for native receivers
FREE = []     # (regex, handler)
EXACT = {}


def meth(*names):
    def d(f):
        for n in names:
            METH.setdefault(n, []).append(f)
        return f
    return d


def free(rx):
    def d(f):
        FREE.append((re.compile(rx), f))
        return f
    return d


STDP = re.compile(r'^<*&?(mut )?(\'a )?(core|alloc|std|hashbrown)::|^<|^core|^alloc|^std')


class Models:
    def __init__(self):
        self.cache = {}
        self.strblen = strblen

    def find(self, cal):
        k = id(cal)
        r = self.cache.get(k)
        if r is None:
            r = self._find(cal)
            self.cache[k] = (r, cal)
            return r
        return r[0]

    def _find(self, cal):
        p = cal.get('rp') or cal.get('p')
        if cal.get('tr', '').startswith(('nanoserde', 'nsv_')):
            return None
        root = p.lstrip('<&').replace("'a ", '').replace('mut ', '')
        hs = []
        for rx, f in FREE:
            if rx.search(p) or rx.search(cal['p']):
                hs.append(f)
        std = root.startswith(('core::', 'alloc::', 'std::', 'hashbrown::', '[', '(', 'T as', 'I as', '*', '&')) or cal['p'].startswith(('core::', 'alloc::', 'std::', 'hashbrown::')) or (cal.get('tr') or '').startswith(('core::', 'alloc::', 'std::'))
        if std and p.startswith('<nanoserde') and cal.get('b'):
            std = False
        if std:
            n = cal.get('n') or p.rsplit('::', 1)[-1]
            hs += METH.get(n, [])
        if not hs:
            return None
        if len(hs) == 1:
            return hs[0]

        def multi(e, st, cal, args):
            for h in hs:
                r = h(e, st, cal, args)
                if r is not NotImplemented:
                    return r
            return NotImplemented
        return multi

    def call_fn_trait(self, e, st, cal, args):
        tup = args[1] if len(args) > 1 else UNIT
        a = list(tup[3]) if isinstance(tup, tuple) and tup[0] == 'agg' else []
        e.callclosure_ref(st, args[0], a)


def install(e):
    e.models = Models()


# ---------------------------------------------------------------- generic plumbing
@free(PANICS.pattern)
def m_panic(e, st, cal, args):
    p = cal.get('rp') or cal['p']
    e.panic(st, panic_reason(e, st, p, args))


def panic_reason(e, st, p, args):
    n = p.rsplit('::', 1)[-1]
    return {'unreachable_default_msg': 'unreachable!() reached', 'panic_default_msg': 'unimplemented!/panic!() reached'}.get(n, n)


@meth('call', 'call_mut', 'call_once')
def m_fn(e, st, cal, args):
    if (cal.get('tr') or '').startswith('core::ops::function::'):
        e.models.call_fn_trait(e, st, cal, args)
        return None
    return NotImplemented


@free(r'^core::hint::must_use|^core::hint::black_box|^core::convert::identity|^core::mem::ManuallyDrop|ManuallyDrop::<T>::(new|into_inner)$')
def m_ident(e, st, cal, args):
    return args[0]


@free(r'^core::mem::(forget|drop)$')
def m_forget(e, st, cal, args):
    return NotImplemented if cal['n'] == 'drop' else UNIT


@free(r'^core::mem::(size_of|size_of_val|align_of)$|SizedTypeProperties')
def m_sizeof(e, st, cal, args):
    if cal['n'] != 'size_of':
        return e.num(1, 4096, ('size',))
    t = e.T(cal['a'][0])
    s = t['s']
    m = re.match(r'^[iuf](\d+)$', s)
    if m:
        return int(m.group(1)) // 8
    if s in ('usize', 'isize'):
        return 8
    if s in ('bool',):
        return 1
    if s == 'char':
        return 4
    if s == '()':
        return 0
    return e.memonum_size(s) if hasattr(e, 'memonum_size') else e.num(0, 1 << 20, ('size', s))


@free(r'^core::mem::swap$')
def m_swap(e, st, cal, args):
    a, b = args
    x, y = e.read(st, a[1], a[2]), e.read(st, b[1], b[2])
    e.write(st, a[1], a[2], y)
    e.write(st, b[1], b[2], x)
    return UNIT


@free(r'^core::mem::(take|replace)$')
def m_take(e, st, cal, args):
    a = args[0]
    old = e.read(st, a[1], a[2])
    if cal['n'] == 'replace':
        e.write(st, a[1], a[2], args[1])
        return old
    o = e.force(st, old) if isinstance(old, tuple) and old[0] == 'sym' else old
    if isinstance(o, tuple) and o[0] == 'seq':
        e.write(st, a[1], a[2], ('seq', o[1], ()))
        return old
    if is_num(o):
        e.write(st, a[1], a[2], 0)
        return old
    t = e.T(cal['a'][0])
    if t['k'] == 'adt' and t['p'] == 'core::option::Option':
        e.write(st, a[1], a[2], NONE)
        return old
    return NotImplemented


@free(r'^core::cmp::(min|max)$|core::cmp::Ord::(min|max)$|impls::<impl core::cmp::Ord for u\w+>::(min|max)$')
def m_minmax(e, st, cal, args):
    a, b = args
    if not (is_num(a) and is_num(b)):
        return NotImplemented
    a, b = e.norm(st, a), e.norm(st, b)
    if e.prove(st, sub(a, b)):
        return b if cal['n'] == 'min' else a
    if e.prove(st, sub(b, a)):
        return a if cal['n'] == 'min' else b
    key = (cal['n'], a, b)
    v = st.tab.get(key)
    if v is None:
        la, ha = e.bounds(st, a)
        lb, hb = e.bounds(st, b)
        f = min if cal['n'] == 'min' else max
        v = e.num(f(la, lb), f(ha, hb), (cal['n'],), e.is_tainted(N.syms(a) if not isinstance(a, int) else []) or e.is_tainted(N.syms(b) if not isinstance(b, int) else []))
        st.tab[key] = v
        if cal['n'] == 'min':
            st.cons = st.cons + (sub(a, v), sub(b, v))
        else:
            st.cons = st.cons + (sub(v, a), sub(v, b))
        st.tab[('minmax', v[2][0][0])] = ('lit', 1)
    return e.norm(st, v)


# ---------------------------------------------------------------- MaybeUninit, ptr
def uninit_of(e, st, ty):
    t = e.T(ty)
    if t['k'] == 'array':
        n = t['n']
        n = e.constp(n) if isinstance(n, str) else n
        return ('seq', 'v', e.join(st, (('rep', uninit_of(e, st, t['t']), n),)))
    return UNINIT


@free(r'maybe_uninit::MaybeUninit::<.*>::(uninit|zeroed|new|assume_init|assume_init_read|assume_init_ref|assume_init_mut|write|as_ptr|as_mut_ptr|assume_init_drop|uninit_array|array_assume_init)$')
def m_mu(e, st, cal, args):
    n = cal['n']
    if n in ('uninit', 'zeroed'):
        return uninit_of(e, st, cal['a'][0])
    if n == 'uninit_array':
        c = [x for x in cal['a'] if isinstance(x, dict)][0]['c']
        return ('seq', 'v', e.join(st, (('rep', UNINIT, e.constp(c) if isinstance(c, str) else c),)))
    if n == 'new':
        return args[0]
    if n in ('assume_init', 'array_assume_init'):
        v = args[0]
        v = v[1] if isinstance(v, tuple) and v[0] == 'un' else v
        e.on_assume_init(st, v, cal)
        return v
    if n == 'assume_init_read':
        r = args[0]
        v = e.read(st, r[1], r[2])
        v = v[1] if isinstance(v, tuple) and v[0] == 'un' else v
        e.on_assume_init(st, v, cal)
        return v
    if n == 'assume_init_drop':
        r = args[0]
        v = e.read(st, r[1], r[2])
        v = v[1] if isinstance(v, tuple) and v[0] == 'un' else v
        e.on_assume_init(st, v, cal)
        e.on_drop(st, v, None)
        e.write(st, r[1], r[2], UNINIT)
        return UNIT
    if n in ('assume_init_ref', 'assume_init_mut', 'as_ptr', 'as_mut_ptr'):
        return args[0]
    if n == 'write':
        r = args[0]
        e.write(st, r[1], r[2], args[1])
        return r
    return NotImplemented


@free(r'^core::ptr::(read|write|drop_in_place|read_unaligned|write_unaligned)$|mut_ptr::<impl \*mut T>::(read|write|add|cast|drop_in_place|sub|offset)$|const_ptr::<impl \*const T>::(read|add|cast|sub|offset)$|intrinsics::(read_via_copy|write_via_move)$')
def m_ptr(e, st, cal, args):
    n = cal['n']
    r = e.unwrap_ptr(args[0])
    if r[0] == 'cref':
        r = mat(e, st, r)
    if r[0] != 'ref':
        return NotImplemented
    if n == 'cast':
        return r
    if n in ('add', 'offset', 'sub'):
        k = args[1] if n != 'sub' else neg(args[1])
        v = e.read(st, r[1], r[2])
        if isinstance(v, tuple) and v[0] == 'seq':
            m = r[3] or (0, None)
            return ('ref', r[1], r[2], (add(m[0], k), None))
        if r[2] and isinstance(r[2][-1], tuple):
            return ('ref', r[1], r[2][:-1] + (('ix', e.norm(st, add(r[2][-1][1], k))),), None)
        return NotImplemented
    loc = elemloc(e, st, r, cal)
    if n in ('read', 'read_unaligned', 'read_via_copy'):
        v = e.read(st, loc[0], loc[1])
        v = v[1] if isinstance(v, tuple) and v[0] == 'un' else v
        e.on_assume_init(st, v, cal)
        return v
    if n in ('write', 'write_unaligned', 'write_via_move'):
        e.write(st, loc[0], loc[1], args[1])
        return UNIT
    if n == 'drop_in_place':
        v = e.read(st, loc[0], loc[1])
        v = v[1] if isinstance(v, tuple) and v[0] == 'un' else v
        ps = pieces_of(e, st, r) if isinstance(v, tuple) and v[0] == 'seq' else None
        e.on_drop(st, ('seq', 'v', ps) if ps is not None else v, None)
        if not (isinstance(v, tuple) and v[0] == 'seq'):
            e.write(st, loc[0], loc[1], UNINIT)
        return UNIT
    return NotImplemented


def elemloc(e, st, r, cal):
    v = e.read(st, r[1], r[2])
    if isinstance(v, tuple) and v[0] == 'seq':
        # pointer to the first element unless the pointee type is itself an array/slice
        ty = None
        for a in cal.get('a', []):
            if not isinstance(a, dict):
                ty = e.T(a)
                break
        if ty is not None and ty['k'] not in ('array', 'slice') and not (ty['k'] == 'adt' and ty['p'] in SEQTY) and not (ty['k'] == 'adt' and 'MaybeUninit' in ty['p'] and e.T(ty['a'][0])['k'] == 'array'):
            return r[1], r[2] + (('ix', r[3][0] if r[3] else 0),)
    elif r[3]:
        pass
    return r[1], r[2]


# ---------------------------------------------------------------- alloc
@free(r'alloc::(vec::Vec|string::String|collections::\w+::\w+|collections::\w+).*::(with_capacity|with_capacity_in)$|std::collections::hash::\w+::Hash\w+.*::(with_capacity|with_capacity_and_hasher)$|hashbrown.*::with_capacity$')
def m_withcap(e, st, cal, args):
    e.on_alloc(st, args[0], cal)
    return new_of(cal)


def new_of(cal):
    p = cal.get('rp') or cal['p']
    if 'String' in p:
        return EMPTY_S
    if 'Map' in p:
        return ('seq', 'map', ())
    if 'Set' in p:
        return ('seq', 'set', ())
    return ('seq', 'v', ())


@free(r'alloc::vec::Vec::<.*>::(new|new_in)$|alloc::string::String::new$|LinkedList::<.*>::new$|VecDeque::<.*>::new$|BTree(Map|Set)::<.*>::(new|new_in)$|Hash(Map|Set)::<.*>::(new|with_hasher)$')
def m_new(e, st, cal, args):
    return new_of(cal)


@free(r'^alloc::vec::from_elem$|vec::Vec::<.*>::resize$')
def m_fromelem(e, st, cal, args):
    n = args[1]
    e.on_alloc(st, n, cal)
    if cal['n'] == 'from_elem':
        return ('seq', 'v', e.join(st, (('rep', args[0], n),))) if is_num(n) else ('seq', 'v', (('unk', None, e.num(0, ISIZE_MAX, None, True)),))
    return NotImplemented


@meth('reserve', 'reserve_exact', 'try_reserve', 'shrink_to_fit')
def m_reserve(e, st, cal, args):
    if seqkind(e, st, args[0]):
        if len(args) > 1:
            e.on_alloc(st, args[1], cal)
        return UNIT if not cal['n'].startswith('try') else OK(UNIT)
    return NotImplemented


@free(r'as core::default::Default>::default$|core::default::Default::default$')
def m_default(e, st, cal, args):
    if cal.get('b') and not any(x in (cal.get('rp') or '') for x in ('alloc::', 'std::', 'hashbrown::')):
        return NotImplemented
    st_ = cal.get('self')
    if st_ is None:
        return NotImplemented
    t = e.T(st_)
    if t['k'] == 'adt' and t['p'] in SEQTY:
        return ('seq', SEQTY[t['p']], ())
    if t['k'] == 'prim' and t['s'] in INTR:
        return 0
    if t['k'] == 'prim' and t['s'] in ('f32', 'f64'):
        return ('f', 0)
    if t['k'] == 'adt' and t['p'] == 'core::option::Option':
        return NONE
    if t['k'] in ('param', 'alias') or cal.get('rk') == 'unresolved':
        return ('dflt', st_)
    if t['k'] == 'adt' and t['p'] == 'core::marker::PhantomData':
        return ('agg', st_, 0, ())
    if t['k'] == 'tuple':
        return ('dflt', st_) if t['ts'] else UNIT
    return NotImplemented


# ---------------------------------------------------------------- strings and vectors
def setseq(e, st, r, pieces):
    v = e.read(st, r[1], r[2])
    v = e.force(st, v) if v[0] == 'sym' else v
    e.write(st, r[1], r[2], ('seq', v[1], e.join(st, pieces)))


def getseq(e, st, r):
    v = e.read(st, r[1], r[2])
    v = e.force(st, v) if isinstance(v, tuple) and v[0] == 'sym' else v
    return v if isinstance(v, tuple) and v[0] == 'seq' else None


def wr(e, st, v):
    """reference to a mutable seq or None"""
    r = deep(e, st, v)
    if r[0] != 'ref':
        return None, None
    s = getseq(e, st, r)
    return (r, s) if s is not None else (None, None)


@meth('push', 'push_back', 'push_back_mut', 'push_mut')
def m_push(e, st, cal, args):
    r, s = wr(e, st, args[0])
    if r is None:
        return NotImplemented
    if s[1] == 's':
        c = args[1]
        p = e.strpiece(st, c) if is_num(c) else ('unk', 'c', 1)
    else:
        p = e.topiece(st, args[1])
    if cal['n'].endswith('_mut'):
        n = e.slen(st, s)
        setseq(e, st, r, s[2] + (p,))
        return ('ref', r[1], r[2] + (('ix', n),), None)
    setseq(e, st, r, s[2] + (p,))
    return UNIT


@meth('push_str', 'write_str', 'add_assign', 'extend_from_slice', 'append')
def m_pushstr(e, st, cal, args):
    r, s = wr(e, st, args[0])
    if r is None:
        return NotImplemented
    ps = pieces_of(e, st, args[1])
    if ps is None:
        _, t = target(e, st, args[1])
        ps = (('unk', 'c' if s[1] == 's' else None, e.num(0, ISIZE_MAX, ('unk',), True)),)
    setseq(e, st, r, s[2] + tuple(ps))
    if cal['n'] == 'append':
        r2, s2 = wr(e, st, args[1])
        setseq(e, st, r2, ())
    return OK(UNIT) if cal['n'] == 'write_str' else UNIT


@meth('extend')
def m_extend(e, st, cal, args):
    r, s = wr(e, st, args[0])
    if r is None:
        return NotImplemented
    a = args[1]
    while s[1] in 'sv' and isinstance(a, tuple) and a[0] == 'agg' and len(a[3]) == 1 and (e.T(a[1]).get('p') or '').endswith(('::Cloned', '::Copied')):
        a = a[3][0]
    ps = None
    if s[1] not in 'sv':
        pass
    elif isinstance(a, tuple) and a[0] == 'seq':
        ps = a[2]
    elif isinstance(a, tuple) and a[0] in ('ref', 'cref'):
        ps = pieces_of(e, st, a)
    elif isinstance(a, tuple) and a[0] == 'iter' and a[1] in ('val', 'ref'):
        t = getseq(e, st, a[2])
        if t is not None:
            _, rest = e.seq_split(st, t[2], a[3])
            ps, _ = e.seq_split(st, rest, e.norm(st, sub(a[4], a[3])))
    if ps is None:
        b = e.p.bodies.get(cal.get('ext')) if cal.get('ext') else None
        if b is None or b.opaque:
            raise Undecided('extend by an unknown iterator')
        e.push(st, b, args[::-1] if 'spec_extend_into' in b.path else args)
        return None
    setseq(e, st, r, s[2] + tuple(ps))
    return UNIT


@meth('copy_from_slice', 'clone_from_slice', 'fill', 'swap', 'reverse')
def m_slicewrite(e, st, cal, args):
    r, t = target(e, st, args[0])
    if not (isinstance(t, tuple) and t[0] == 'seq') or t[1] != 'v' or r is None or r[0] != 'ref':
        return NotImplemented
    base, n = r[3] if r[3] else (0, None)
    if n is None:
        n = e.norm(st, sub(e.slen(st, t), base))
    a, rest = e.seq_split(st, t[2], base)
    mid, b = e.seq_split(st, rest, n)
    if cal['n'] in ('copy_from_slice', 'clone_from_slice'):
        ps = pieces_of(e, st, args[1])
        if ps is None:
            return NotImplemented
        m = 0
        for p in ps:
            m = add(m, e.plen(st, p))
        obligation(e, st, ('cmp', 'eq', e.norm(st, sub(n, m))), 'slices of different lengths', False)
        mid = tuple(ps)
    elif cal['n'] == 'fill':
        mid = (('rep', args[1], n),)
    elif cal['n'] == 'reverse':
        k = e.norm(st, n)
        if not isinstance(k, int) or k > 64:
            return NotImplemented
        out = []
        for _ in range(k):
            out.append(('e', e.first(st, mid[0])))
            _, mid = e.seq_split(st, mid, 1)
        mid = tuple(out[::-1])
    else:
        i, j = args[1], args[2]
        for x in (i, j):
            obligation(e, st, ('cmp', 'ge', add(sub(n, e.norm(st, x)), -1)), 'index out of bounds', False)
        x = e.seq_get(st, ('seq', 'v', mid), i)
        y = e.seq_get(st, ('seq', 'v', mid), j)
        s2 = e.seq_set(st, e.seq_set(st, ('seq', 'v', mid), i, y), j, x)
        mid = s2[2]
    v = e.read(st, r[1], r[2])
    e.write(st, r[1], r[2], ('seq', 'v', e.join(st, tuple(a) + tuple(mid) + tuple(b))))
    return UNIT


@meth('write_char')
def m_writechar(e, st, cal, args):
    r, s = wr(e, st, args[0])
    if r is None:
        return NotImplemented
    setseq(e, st, r, s[2] + (e.strpiece(st, args[1]),))
    return OK(UNIT)


@meth('add')
def m_stradd(e, st, cal, args):
    if isinstance(args[0], tuple) and args[0][0] in ('seq', 'sym'):
        v = e.force(st, args[0])
        if v[0] == 'seq' and v[1] == 's':
            ps = pieces_of(e, st, args[1])
            return ('seq', 's', e.join(st, v[2] + tuple(ps or ())))
    return NotImplemented


@meth('push_front')
def m_pushfront(e, st, cal, args):
    r, s = wr(e, st, args[0])
    if r is None:
        return NotImplemented
    setseq(e, st, r, (e.topiece(st, args[1]),) + s[2])
    return UNIT


@meth('clear')
def m_clear(e, st, cal, args):
    r, s = wr(e, st, args[0])
    if r is None:
        return NotImplemented
    setseq(e, st, r, ())
    return UNIT


@meth('truncate')
def m_truncate(e, st, cal, args):
    r, s = wr(e, st, args[0])
    if r is None:
        return NotImplemented
    n = args[1]
    if n == 0:
        setseq(e, st, r, ())
        return UNIT
    if s[1] == 's':
        if e.decide(st, ('cmp', 'ge', sub(n, strblen(e, st, s[2])))):
            return UNIT
        setseq(e, st, r, byte_split(e, st, s[2], n)[0])
    else:
        if e.decide(st, ('cmp', 'ge', sub(n, e.slen(st, s)))):
            return UNIT
        setseq(e, st, r, e.seq_split(st, s[2], n)[0])
    return UNIT


@meth('pop', 'pop_back', 'pop_front')
def m_pop(e, st, cal, args):
    r, s = wr(e, st, args[0])
    if r is None:
        return NotImplemented
    e.touch_out(st, r)
    ps = s[2]
    if not ps:
        return NONE
    front = cal['n'] == 'pop_front'
    n = e.slen(st, s)
    if e.decide(st, ('cmp', 'eq', n)):
        return NONE
    # make sure the boundary piece is non-empty
    while True:
        p = ps[0] if front else ps[-1]
        L = e.plen(st, p)
        if e.decide(st, ('cmp', 'eq', L)):
            ps = ps[1:] if front else ps[:-1]
            continue
        break
    v, rest = (first_last(e, st, p, front))
    setseq(e, st, r, (rest + ps[1:]) if front else (ps[:-1] + rest))
    return SOME(v)


def first_last(e, st, p, front):
    k = p[0]
    if k == 'e':
        return p[1], ()
    if k == 'l':
        return (ord(p[1][0]), (('l', p[1][1:]),)) if front else (ord(p[1][-1]), (('l', p[1][:-1]),))
    if k == 'run':
        if front:
            return e.elem(st, p[1], p[2]), (('run', p[1], add(p[2], 1), p[3]),)
        return e.elem(st, p[1], add(p[3], -1)), (('run', p[1], p[2], add(p[3], -1)),)
    if k == 'rep':
        return p[1], (('rep', p[1], add(p[2], -1)),)
    if k == 'unk':
        return e.first(st, p), (('unk', p[1], add(p[2], -1)),)
    raise Undecided('pop of opaque piece')


@meth('len')
def m_len(e, st, cal, args):
    r, t = target(e, st, args[0])
    if isinstance(t, tuple) and t[0] == 'seq':
        if r is not None:
            m = r[3] if r[0] == 'ref' else r[2]
            if m and m[1] is not None:
                return m[1]
            e.touch_out(st, r)
        return strblen(e, st, t[2]) if t[1] == 's' else e.slen(st, t)
    if isinstance(t, tuple) and t[0] == 'iter' and t[1] != 'queue':
        return e.norm(st, sub(t[4], t[3])) if t[4] is not None else NotImplemented
    return NotImplemented


@meth('is_empty')
def m_isempty(e, st, cal, args):
    r, t = target(e, st, args[0])
    if isinstance(t, tuple) and t[0] == 'seq':
        if r is not None:
            m = r[3] if r[0] == 'ref' else r[2]
            if m and m[1] is not None:
                return b01(e, st, ('cmp', 'eq', e.norm(st, m[1])))
            e.touch_out(st, r)
        n = 0
        for p in t[2]:
            if p[0] == 'l':
                return 0
            n = add(n, e.plen(st, p))
        return b01(e, st, ('cmp', 'eq', e.norm(st, n)))
    return NotImplemented


def b01(e, st, c):
    r = e.truth(st, c)
    return c if r is None else int(r)


@meth('as_str', 'deref', 'as_ref', 'borrow', 'as_mut_str', 'deref_mut', 'as_mut', 'as_slice', 'as_mut_slice', 'as_bytes', 'borrow_mut', 'as_ptr', 'as_mut_ptr', 'as_bytes_mut', 'into_boxed_str', 'into_boxed_slice', 'each_ref')
def m_deref(e, st, cal, args):
    r, t = target(e, st, args[0])
    if isinstance(t, tuple) and t[0] == 'seq':
        if cal['n'] == 'as_bytes' and t[1] == 's':
            ps = pieces_of(e, st, args[0])
            return bytes_ref(e, st, ps)
        d = deep(e, st, args[0]) if isinstance(args[0], tuple) and args[0][0] != 'seq' else args[0]
        if d[0] == 'ref' and d[3] is None and r[0] == 'ref' and r[3]:
            return r
        return d
    if cal['n'] in ('deref', 'deref_mut', 'as_ref', 'as_mut', 'borrow') and (cal.get('rp') or '').startswith('<alloc::boxed::Box'):
        v = e.read(st, args[0][1], args[0][2]) if args[0][0] == 'ref' else args[0][1]
        v = e.force(st, v) if v[0] == 'sym' else v
        if v[0] in ('ref', 'cref'):
            return v
    if t is not None and isinstance(t, tuple) and t[0] == 'sym' and cal['n'] in ('as_str', 'as_bytes'):
        return NotImplemented
    return NotImplemented


def bytes_ref(e, st, ps):
    if all(p[0] == 'l' for p in ps):
        b = ''.join(p[1] for p in ps).encode('utf-8')
        v = ('seq', 'v', tuple(('e', x) for x in b))
    else:
        v = ('seq', 'v', (('x', 'sbytes', tuple(ps), strblen(e, st, ps)),))
    c = next(e.ncell)
    st.mem[c] = v
    return ('ref', c, (), None)


@meth('into_bytes')
def m_intobytes(e, st, cal, args):
    v = args[0]
    ps = pieces_of(e, st, v) if v[0] != 'seq' else v[2]
    if ps is None:
        return NotImplemented
    r = bytes_ref(e, st, ps)
    return st.mem[r[1]]


@free(r'^core::str::converts::from_utf8(_unchecked)?$|^alloc::string::String::from_utf8(_unchecked|_lossy)?$|^core::str::<impl str>::from_utf8')
def m_fromutf8(e, st, cal, args):
    v = args[0]
    ps = v[2] if v[0] == 'seq' else pieces_of(e, st, v)
    if ps is None:
        return NotImplemented
    ps = e.join(st, ps)
    owned = 'String' in (cal.get('rp') or cal['p'])
    n = cal['n']

    def mkv(sq):
        if owned:
            return sq
        c = next(e.ncell)
        st.mem[c] = sq
        return ('ref', c, (), None)
    if not ps:
        v = mkv(EMPTY_S)
        return v if 'unchecked' in n or 'lossy' in n else OK(v)
    if all(p[0] == 'x' and p[1] == 'sbytes' for p in ps):
        out = ()
        for p in ps:
            out += p[2]
        v = mkv(('seq', 's', e.join(st, out)))
        return v if 'unchecked' in n or 'lossy' in n else OK(v)
    if all(p[0] == 'e' and isinstance(p[1], int) for p in ps):
        try:
            v = mkv(('seq', 's', (('l', bytes(p[1] for p in ps).decode()),)))
            return v if 'unchecked' in n or 'lossy' in n else OK(v)
        except UnicodeDecodeError:
            return ERR(TOP)
    key = ('utf8', ps)
    r = st.tab.get(key)
    if r is None:
        sid = next(e.nsym)
        e.symty[sid] = e.strty()
        e.sorig[sid] = ('utf8', 0)
        w = e.slen(st, ('seq', 'v', ps))
        s1 = st.clone()
        s1.tab[key] = ('sym', sid)
        s1.tab[('blen', sid)] = w
        # at most one char per byte
        q = e.num(0, ISIZE_MAX, ('len', sid))
        s1.tab[sid] = ('seq', 's', (('run', sid, 0, q),))
        s1.cons = s1.cons + (sub(w, q), sub(mul(q, 4), w))
        s0 = st.clone()
        s0.tab[key] = ('lit', 'bad')
        raise Split([s0, s1] if 'unchecked' not in n and 'lossy' not in n else [s1])
    if r == ('lit', 'bad'):
        return ERR(e.utf8err(st))
    v = mkv(r)
    return v if 'unchecked' in n or 'lossy' in n else OK(v)


@meth('chars', 'char_indices', 'bytes')
def m_chars(e, st, cal, args):
    r, t = target(e, st, args[0])
    if isinstance(t, tuple) and t[0] == 'seq' and t[1] == 's':
        r = mat(e, st, r)
        m = r[3]
        if m:
            ps = pieces_of(e, st, args[0])
            c = next(e.ncell)
            st.mem[c] = ('seq', 's', ps)
            if r[1] in e.constcells:
                e.constcells.add(c)
            r = ('ref', c, (), None)
            t = st.mem[c]
        q = e.text_iter(st, r)
        if q is not None and cal['n'] == 'chars':
            return q
        mode = {'chars': 'val', 'char_indices': 'cidx', 'bytes': 'bytes'}[cal['n']]
        if mode == 'bytes':
            br = bytes_ref(e, st, t[2])
            return ('iter', 'val', br, 0, e.slen(st, st.mem[br[1]]))
        return ('iter', mode, ('ref', r[1], r[2], None), 0, e.slen(st, t))
    return NotImplemented


@meth('iter', 'iter_mut', 'keys', 'values', 'values_mut', 'into_iter', 'drain', 'into_keys', 'into_values')
def m_iter(e, st, cal, args):
    a = args[0]
    if isinstance(a, tuple) and a[0] == 'sym':
        a = e.force(st, a)
    if isinstance(a, tuple) and a[0] == 'iter' and cal['n'] == 'into_iter':
        return a
    if isinstance(a, tuple) and a[0] == 'agg' and cal['n'] == 'into_iter':
        return NotImplemented
    if isinstance(a, tuple) and a[0] == 'seq':
        # by value
        c = next(e.ncell)
        st.mem[c] = a
        return ('iter', 'val', ('ref', c, (), None), 0, e.slen(st, a))
    r, t = target(e, st, a)
    if not (isinstance(t, tuple) and t[0] == 'seq'):
        if cal['n'] in ('into_iter',) and isinstance(t, tuple) and t[0] == 'iter':
            return a
        return NotImplemented
    if t[1] == 's':
        return NotImplemented
    r = mat(e, st, r)
    lo, n = (r[3] if r[3] else (0, None))
    if n is None:
        n = sub(e.slen(st, t), lo)
    mode = 'pair' if t[1] == 'map' else 'ref'
    if cal['n'] in ('keys',):
        mode = 'key'
    if cal['n'] in ('values', 'values_mut'):
        mode = 'valr'
    if cal['n'] == 'drain':
        return NotImplemented
    return ('iter', mode, ('ref', r[1], r[2], None), lo, e.norm(st, add(lo, n)))


def iter_item(e, st, it, pos):
    mode, r = it[1], it[2]
    if mode in ('val', 'cidx'):
        v = e.proj(st, e.read(st, r[1], r[2]), ('ix', pos))
        if mode == 'cidx':
            s = getseq(e, st, r)
            l, _ = e.seq_split(st, s[2], pos)
            return ('agg', None, 0, (strblen(e, st, l), v))
        return v
    path = r[2] + (('ix', pos),)
    if mode == 'ref':
        return ('ref', r[1], path, None)
    if mode == 'pair':
        return ('agg', None, 0, (('ref', r[1], path + (0,), None), ('ref', r[1], path + (1,), None)))
    if mode == 'key':
        return ('ref', r[1], path + (0,), None)
    if mode == 'valr':
        return ('ref', r[1], path + (1,), None)
    raise Undecided('iter mode %s' % mode)


def prep_item(e, st, it, pos):
    """perform the state splits an element access may need before mutating anything"""
    s = getseq(e, st, it[2])
    if s is not None:
        e.seq_get(st, s, pos)


@meth('next', 'next_back', 'next_if_none')
def m_next(e, st, cal, args):
    r = args[0]
    rr = r
    it = None
    for _ in range(6):
        if rr[0] != 'ref':
            return NotImplemented
        it = e.read(st, rr[1], rr[2])
        if isinstance(it, tuple) and it[0] == 'sym':
            it = e.force(st, it)
        if isinstance(it, tuple) and it[0] == 'ref':
            rr = it
            continue
        break
    if isinstance(it, tuple) and it[0] == 'agg' and it[1] is not None:
        p = e.T(it[1]).get('p')
        if p == 'core::ops::range::Range' and is_num(it[3][0]):
            lo, hi = e.norm(st, it[3][0]), e.norm(st, it[3][1])
            if e.decide(st, ('cmp', 'ge', add(sub(hi, lo), -1))):
                if cal['n'] == 'next':
                    e.write(st, rr[1], rr[2], ('agg', it[1], it[2], (add(lo, 1), hi)))
                    e.progress(st, 'range')
                    return SOME(lo)
                e.write(st, rr[1], rr[2], ('agg', it[1], it[2], (lo, add(hi, -1))))
                e.progress(st, 'range')
                return SOME(add(hi, -1))
            return NONE
        if p == 'core::ops::range::RangeInclusive' and is_num(it[3][0]) and cal['n'] == 'next':
            lo, hi, ex = it[3]
            if is_num(ex) and e.decide(st, ('cmp', 'ge', add(ex, -1))):
                return NONE
            if not e.decide(st, ('cmp', 'ge', sub(hi, lo))):
                return NONE
            if e.decide(st, ('cmp', 'ge', add(sub(hi, lo), -1))):
                nv = (add(lo, 1), hi, 0)
            else:
                nv = (lo, hi, 1)
            e.write(st, rr[1], rr[2], ('agg', it[1], it[2], nv))
            e.progress(st, 'range')
            return SOME(lo)
        if p == 'core::iter::adapters::zip::Zip':
            return zip_next(e, st, rr, it)
        if p == 'core::iter::adapters::rev::Rev' and cal['n'] == 'next':
            inner = ('ref', rr[1], rr[2] + (0,), None)
            c2 = dict(cal)
            c2['n'] = 'next_back'
            return m_next(e, st, c2, [inner])
        return NotImplemented
    if not (isinstance(it, tuple) and it[0] == 'iter'):
        return NotImplemented
    if it[1] == 'queue':
        return e.queue_next(st, rr, it)
    back = cal['n'] == 'next_back'
    pos, end = e.norm(st, it[3]), e.norm(st, it[4])
    if not e.decide(st, ('cmp', 'ge', add(sub(end, pos), -1))):
        return NONE
    i = e.norm(st, add(end, -1)) if back else pos
    prep_item(e, st, it, i)
    v = iter_item(e, st, it, i)
    e.write(st, rr[1], rr[2], ('iter', it[1], it[2], pos if back else add(pos, 1), i if back else end) + it[5:])
    e.progress(st, 'iter')
    return SOME(v)


def native_next(e, st, ref):
    return m_next(e, st, {'n': 'next'}, [ref])


def zip_next(e, st, rr, it):
    a = ('ref', rr[1], rr[2] + (0,), None)
    b = ('ref', rr[1], rr[2] + (1,), None)
    s0 = st.clone()
    try:
        x = native_next(e, st, a)
        if x is NotImplemented:
            return NotImplemented
        if x == NONE:
            return NONE
        y = native_next(e, st, b)
    except Split as sp:
        # restart from the unmodified state under each refinement
        outs = []
        for s in sp.states:
            s.mem[rr[1]] = s0.mem[rr[1]]
            outs.append(s)
        raise Split(outs)
    if y is NotImplemented:
        st.mem[rr[1]] = s0.mem[rr[1]]
        return NotImplemented
    if y == NONE:
        return NONE
    return SOME(('agg', None, 0, (x[3][0], y[3][0])))


@free(r'^core::iter::traits::iterator::Iterator::zip$')
def m_zip(e, st, cal, args):
    fr = st.top
    ty = e.placety(fr, fr.b.blocks[fr.bb]['t'][3])
    b = args[1]
    if isinstance(b, tuple):
        bb = e.force(st, b) if b[0] == 'sym' else b
        if bb[0] in ('seq', 'ref', 'cref'):
            x = m_iter(e, st, {'n': 'into_iter'}, [bb])
            if x is NotImplemented:
                return NotImplemented
            b = x
    return ('agg', ty, 0, (args[0], b))


@meth('rev')
def m_rev(e, st, cal, args):
    if isinstance(args[0], tuple) and args[0][0] in ('iter', 'agg'):
        fr = st.top
        ty = e.placety(fr, fr.b.blocks[fr.bb]['t'][3])
        return ('agg', ty, 0, (args[0],))
    return NotImplemented


@meth('count')
def m_count(e, st, cal, args):
    it = args[0]
    if isinstance(it, tuple) and it[0] == 'iter' and it[4] is not None and it[1] != 'queue':
        return e.norm(st, sub(it[4], it[3]))
    return NotImplemented


@meth('size_hint')
def m_sizehint(e, st, cal, args):
    _, it = target(e, st, args[0])
    if isinstance(it, tuple) and it[0] == 'iter' and it[1] != 'queue':
        n = e.norm(st, sub(it[4], it[3]))
        return ('agg', None, 0, (n, SOME(n)))
    return NotImplemented


@meth('clone', 'to_owned', 'to_vec', 'to_string', 'into', 'from', 'into_owned', 'cloned', 'copied', 'into_string', 'into_boxed_slice', 'into_vec', 'from_iter', 'collect', 'try_into', 'try_from', 'from_str')
def m_clone(e, st, cal, args):
    n = cal['n']
    a = args[0]
    if n in ('from_iter', 'collect'):
        return m_collect(e, st, cal, args)
    if n in ('cloned', 'copied') and isinstance(a, tuple) and a[0] == 'agg':
        return NotImplemented
    r, t = target(e, st, a)
    if n == 'clone':
        if is_num(t):
            return t if r is not None else NotImplemented
        if isinstance(t, tuple) and t[0] in ('iter', 'f', 'fn'):
            return t
        if isinstance(t, tuple) and t[0] == 'seq':
            if r is not None and isinstance(a, tuple) and a[0] == 'ref':
                inner = e.read(st, a[1], a[2])
                if isinstance(inner, tuple) and inner[0] in ('ref', 'cref'):
                    return inner      # cloning a reference
            return t
        if isinstance(t, tuple) and t[0] == 'sym' and not cal.get('b'):
            return t
        if cal.get('rk') == 'clone' and isinstance(t, tuple) and t[0] == 'agg' and all(is_num(x) or x[0] in ('seq', 'f') for x in t[3]):
            return t
        return NotImplemented
    if n in ('try_into', 'try_from'):
        return m_tryinto(e, st, cal, args)
    if isinstance(t, tuple) and t[0] == 'seq':
        if n in ('to_string', 'to_owned', 'into', 'from', 'into_owned', 'into_string', 'to_vec', 'into_vec', 'from_str'):
            fr = st.top
            dty = None
            if fr.b is not None and fr.b.blocks[fr.bb]['t'][0] == 'call':
                dty = e.placety(fr, fr.b.blocks[fr.bb]['t'][3])
            if dty is not None and n in ('into', 'from'):
                dt = e.T(dty)
                if not (dt['k'] == 'adt' and dt['p'] in SEQTY):
                    if dt['k'] in ('ref', 'adt') and dt.get('p') in (None, 'alloc::boxed::Box'):
                        return mat(e, st, a) if isinstance(a, tuple) and a[0] in ('ref', 'cref') else mat(e, st, a)
                    return NotImplemented
            ps = pieces_of(e, st, a) if r is not None else t[2]
            v = ('seq', t[1], tuple(ps))
            if dty is not None and n in ('into', 'from') and t[1] == 's' and e.T(dty).get('p') == 'alloc::vec::Vec':
                rr = bytes_ref(e, st, ps)
                v = st.mem[rr[1]]
            return OK(v) if n == 'from_str' else v
    if n == 'to_string':
        return ('seq', 's', e.join(st, fmt_value(e, st, a, 'display', self_ty(e, cal), None)))
    if n in ('into', 'from') and is_num(t) and r is None:
        fr = st.top
        dty = e.placety(fr, fr.b.blocks[fr.bb]['t'][3]) if fr.b is not None else None
        if dty is not None:
            dt = e.T(dty)
            if dt['k'] == 'prim' and dt['s'] in INTR:
                return t
            if dt['k'] == 'prim' and dt['s'] in ('f32', 'f64'):
                return ('i2f', t, dt['s'])
            if dt['k'] == 'adt' and dt['p'] == 'alloc::string::String':
                return ('seq', 's', (e.strpiece(st, t),))
    return NotImplemented


def self_ty(e, cal):
    s = cal.get('self')
    if s is None:
        s = cal.get('iself')
    return e.T(s)['s'] if s is not None else None


def m_tryinto(e, st, cal, args):
    a = args[0]
    fr = st.top
    dty = e.placety(fr, fr.b.blocks[fr.bb]['t'][3]) if fr.b is not None else None
    ok = None
    if dty is not None and e.T(dty).get('p') == 'core::result::Result':
        ok = e.T(e.T(dty)['a'][0])
    if ok is None:
        return NotImplemented
    if is_num(a) and ok['k'] == 'prim' and ok['s'] in INTR:
        lo, hi = INTR[ok['s']]
        if ok['s'] == 'char':
            a = e.norm(st, a)
            if e.decide(st, ('rngin', a, 0, 0x10FFFF)) and not e.decide(st, ('rngin', a, 0xD800, 0xDFFF)):
                return OK(a)
            return ERR(('agg', None, 0, ()))
        if e.decide(st, ('rngin', e.norm(st, a), lo, hi)):
            return OK(e.norm(st, a))
        return ERR(('agg', None, 0, ()))
    r, t = target(e, st, a)
    if isinstance(t, tuple) and t[0] == 'seq' and ok['k'] in ('array', 'ref'):
        arr = ok if ok['k'] == 'array' else e.T(ok['t'])
        if arr['k'] != 'array':
            return NotImplemented
        n = e.constp(arr['n']) if isinstance(arr['n'], str) else arr['n']
        ps = pieces_of(e, st, a) if r is not None else t[2]
        L = e.slen(st, ('seq', 'v', ps))
        if e.decide(st, ('cmp', 'eq', sub(L, n))):
            v = ('seq', 'v', e.join(st, ps))
            return OK(v if ok['k'] == 'array' else mat(e, st, v))
        return ERR(('agg', None, 0, ()))
    return NotImplemented


def m_collect(e, st, cal, args):
    it = args[0]
    fr = st.top
    dty = e.placety(fr, fr.b.blocks[fr.bb]['t'][3]) if fr.b is not None else None
    dt = e.T(dty) if dty is not None else None
    if isinstance(it, tuple) and it[0] == 'iter' and it[1] in ('val', 'ref') and dt is not None and dt['k'] == 'adt' and dt['p'] in SEQTY:
        kind = SEQTY[dt['p']]
        s = getseq(e, st, it[2])
        if it[1] == 'val' and s is not None:
            _, ps = e.seq_split(st, s[2], it[3])
            if s[1] == 's' and kind == 'v':
                return ('seq', 'v', ps) if all(p[0] != 'l' for p in ps) else ('seq', 'v', tuple(x for p in ps for x in ([('e', ord(c)) for c in p[1]] if p[0] == 'l' else [p])))
            return ('seq', kind, ps)
    if dt is not None and dt['k'] == 'adt' and dt['p'] in SEQTY:
        return collect_loop(e, st, cal, it, SEQTY[dt['p']])
    return NotImplemented


def collect_loop(e, st, cal, it, kind):
    """collect: what puts the items into a collection one by one, run on an empty one"""
    b = e.p.bodies.get(cal.get('ext')) if cal.get('ext') else None
    if b is None or b.opaque:
        raise Undecided('collect over an unknown iterator')
    c = next(e.ncell)
    st.mem[c] = ('seq', kind, ())
    e.conts['collected'] = lambda st, c, v: collected(e, st, c)
    st.stack.append(Frame(None, 0, 0, 0, 'collected', c))
    a = [('ref', c, (), None), it]
    e.push(st, b, a[::-1] if 'spec_extend_into' in b.path else a)
    return None


def collected(e, st, c):
    e.popframe(st)
    e.deliver(st, st.mem[c])


# ---------------------------------------------------------------- indexing
def range_of(e, st, rng, n):
    """(start, end) of a range value for a sequence of length n, or None"""
    if rng[0] == 'sym':
        rng = e.force(st, rng)
    if rng[0] != 'agg' or rng[1] is None:
        return None
    p = e.T(rng[1]).get('p', '')
    f = rng[3]
    if p.endswith('range::Range') or p.endswith('ops::range::Range'):
        return f[0], f[1]
    if p.endswith('RangeFrom'):
        return f[0], n
    if p.endswith('RangeToInclusive'):
        return 0, add(f[0], 1)
    if p.endswith('RangeTo'):
        return 0, f[0]
    if p.endswith('RangeFull'):
        return 0, n
    if p.endswith('RangeInclusive'):
        return f[0], add(f[1], 1)
    return None


@meth('index', 'index_mut', 'get', 'get_mut', 'get_unchecked')
def m_index(e, st, cal, args):
    r, t = target(e, st, args[0])
    if not (isinstance(t, tuple) and t[0] == 'seq'):
        return NotImplemented
    if t[1] == 'map':
        return map_get(e, st, cal, args, r, t)
    r = mat(e, st, r) if r is not None else mat(e, st, t)
    base, n = (r[3] if r[3] else (0, None))
    if n is None:
        n = sub(strblen(e, st, t[2]) if t[1] == 's' else e.slen(st, t), base)
        n = e.norm(st, n)
    opt = cal['n'] in ('get', 'get_mut')
    i = args[1]
    if isinstance(i, tuple) and i[0] == 'sym':
        i = e.force(st, i)
    if is_num(i):
        i = e.norm(st, i)
        ok = obligation(e, st, ('cmp', 'ge', add(sub(n, i), -1)), 'index out of bounds', opt)
        if not ok:
            return NONE
        v = ('ref', r[1], r[2] + (('ix', e.norm(st, add(base, i))),), None)
        return SOME(v) if opt else v
    se = range_of(e, st, i, n)
    if se is None:
        return NotImplemented
    a, b = se
    ok = obligation(e, st, ('cmp', 'ge', sub(b, a)), 'slice start past its end', opt)
    if not ok:
        return NONE
    ok = obligation(e, st, ('cmp', 'ge', sub(n, b)), 'slice end out of bounds', opt)
    if not ok:
        return NONE
    v = ('ref', r[1], r[2], (e.norm(st, add(base, a)), e.norm(st, sub(b, a))))
    if t[1] == 's':
        ps = pieces_of(e, st, v)
    return SOME(v) if opt else v


def obligation(e, st, c, msg, opt):
    if opt:
        return e.decide(st, c)
    e.stats['obligations'] += 1
    r = e.truth(st, c)
    if r is None:
        e.hook_undecided(st, c)
        r = e.truth(st, c)
    if r is True:
        e.stats['discharged'] += 1
        return True
    s = st.clone()
    ok = True
    if r is None:
        try:
            ok = e.assume(s, c, False)
        except Dead:
            ok = False
    if ok:
        if e.is_tainted(e.condsyms(c)):
            s.taint = True
        e.on_panic(s, msg)
    else:
        e.stats['discharged'] += 1
    if r is False:
        raise Dead()
    if not e.assume(st, c, True):
        raise Dead()
    return True


@meth('split_at', 'split_first', 'split_last', 'split_at_checked')
def m_splitat(e, st, cal, args):
    r, t = target(e, st, args[0])
    if not (isinstance(t, tuple) and t[0] == 'seq' and t[1] != 's'):
        return NotImplemented
    r = mat(e, st, r)
    base, n = (r[3] if r[3] else (0, None))
    if n is None:
        n = e.norm(st, sub(e.slen(st, t), base))
    if cal['n'].startswith('split_at'):
        i = args[1]
        opt = cal['n'].endswith('checked')
        if not obligation(e, st, ('cmp', 'ge', sub(n, i)), 'split_at out of bounds', opt):
            return NONE
        v = ('agg', None, 0, (('ref', r[1], r[2], (base, i)), ('ref', r[1], r[2], (e.norm(st, add(base, i)), e.norm(st, sub(n, i))))))
        return SOME(v) if opt else v
    if not e.decide(st, ('cmp', 'ge', add(n, -1))):
        return NONE
    if cal['n'] == 'split_first':
        return SOME(('agg', None, 0, (('ref', r[1], r[2] + (('ix', base),), None), ('ref', r[1], r[2], (add(base, 1), add(n, -1))))))
    return SOME(('agg', None, 0, (('ref', r[1], r[2] + (('ix', e.norm(st, add(base, add(n, -1)))),), None), ('ref', r[1], r[2], (base, add(n, -1))))))


@meth('first', 'last', 'last_mut', 'first_mut', 'back', 'front', 'back_mut', 'front_mut', 'peek')
def m_first(e, st, cal, args):
    r, t = target(e, st, args[0])
    if not (isinstance(t, tuple) and t[0] == 'seq' and t[1] != 's'):
        return NotImplemented
    r = mat(e, st, r)
    base, n = (r[3] if r[3] else (0, None))
    if n is None:
        n = e.norm(st, sub(e.slen(st, t), base))
    if not e.decide(st, ('cmp', 'ge', add(n, -1))):
        return NONE
    i = base if cal['n'] in ('first', 'first_mut', 'front', 'front_mut') else add(base, add(n, -1))
    return SOME(('ref', r[1], r[2] + (('ix', e.norm(st, i)),), None))


TRIMS = ('trim', 'trim_start', 'trim_end', 'trim_matches', 'trim_start_matches', 'trim_end_matches')
RECASE = ('to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'to_ascii_uppercase', 'replace')
BLANKS = ''.join(map(chr, (9, 10, 11, 12, 13, 32, 0x85, 0xa0)))


def altered(e, st, cal, args, r, t):
    """functions that cut or change a text: on a text that may hold anything, the result differs from it for some of them"""
    n = cal['n']
    if t[1] != 's':
        return NotImplemented
    ps = tuple(e.join(st, pieces_of(e, st, args[0]) if r is not None else t[2]))
    lit = BLANKS if n in ('trim', 'trim_start', 'trim_end') else None
    if len(args) > 1:
        pat = args[1]
        if is_num(pat):
            pat = e.norm(st, pat)
            lit = chr(pat) if isinstance(pat, int) else None
        elif isinstance(pat, tuple) and pat[0] in ('ref', 'cref'):
            pp = pieces_of(e, st, pat)
            if pp is not None and pp and all(x[0] == 'l' for x in pp):
                lit = ''.join(x[1] for x in pp)
                if len(lit) != 1 and n != 'replace':
                    return NotImplemented
    if n in TRIMS or n == 'replace':
        if lit is None:
            return NotImplemented
    if all(p[0] == 'l' for p in ps):
        x = ''.join(p[1] for p in ps)
        if n == 'replace':
            to = pieces_of(e, st, args[2])
            if to is None or not all(p[0] == 'l' for p in to):
                return NotImplemented
            x = x.replace(lit, ''.join(p[1] for p in to))
        elif n in TRIMS:
            x = (x.lstrip if 'start' in n else x.rstrip if 'end' in n else x.strip)(lit)
        elif x.isascii():
            x = x.lower() if 'lower' in n else x.upper()
        else:
            return NotImplemented
        v = ('seq', 's', (('l', x),) if x else ())
        return v if n not in TRIMS else ('cref', v, None)
    if len(ps) != 1 or ps[0][0] != 'run':
        return NotImplemented
    p = ps[0]
    cs = e.charset_of(p[1])
    if cs is None and not isinstance(p[1], int):
        return NotImplemented
    if cs is not None:
        few = sum(h - l for l, h in cs) < 4096
        hit = any(l <= ord(c) <= h for c in lit for l, h in cs) if lit is not None else \
            not few or any(chr(c).lower() != chr(c) or chr(c).upper() != chr(c) for l, h in cs for c in range(l, h + 1))
        if not hit:
            v = ('seq', 's', ps)
            return v if n not in TRIMS else ('cref', v, None)
        return NotImplemented
    key = ('altered', n, ps, ('lit', lit))
    x = st.tab.get(key)
    if n in TRIMS:
        ln = e.plen(st, p)
        if x is None:
            a = b = 0
            if 'end' not in n:
                a = e.num(0, ISIZE_MAX, (n,))
            if 'start' not in n:
                b = e.num(0, ISIZE_MAX, (n,))
            x = ('lit', (a, b))
            st.tab[key] = x
            st.cons = st.cons + (sub(sub(ln, a), b),)
        a, b = x[1]
        v = ('seq', 's', (('run', p[1], add(p[2], a), sub(p[3], b)),))
        return ('cref', v, None)
    if x is None:
        ty = e.p.byname.get('alloc::string::String')
        if ty is None:
            return NotImplemented
        x = e.opaque(ty, (n,))
        st.tab[key] = x
    return e.force(st, x)


@meth('starts_with', 'ends_with', 'contains', 'strip_prefix', 'strip_suffix', 'find', 'trim', 'trim_start', 'trim_end', 'split', 'lines', 'replace', 'to_lowercase', 'to_uppercase', 'rfind', 'matches', 'is_char_boundary', 'trim_matches', 'trim_start_matches', 'trim_end_matches', 'split_once', 'eq_ignore_ascii_case', 'to_ascii_lowercase', 'to_ascii_uppercase', 'repeat', 'join', 'concat', 'insert_str', 'retain', 'sort', 'dedup', 'reverse', 'sort_by', 'sort_unstable', 'rsplit', 'splitn', 'chunks', 'windows', 'split_off', 'drain', 'split_whitespace')
def m_strmisc(e, st, cal, args):
    r, t = target(e, st, args[0])
    if not (isinstance(t, tuple) and t[0] == 'seq'):
        return NotImplemented
    n = cal['n']
    if n in ('concat', 'join') and t[1] != 's':
        sep = pieces_of(e, st, args[1]) if n == 'join' else ()
        parts = []
        for p in e.join(st, pieces_of(e, st, args[0]) if r is not None else t[2]):
            x = target(e, st, p[1])[1] if p[0] == 'e' else None
            if not (isinstance(x, tuple) and x[0] == 'seq') or sep is None:
                return NotImplemented
            if parts:
                parts.extend(sep)
            parts.extend(pieces_of(e, st, p[1]) if p[1][0] in ('ref', 'cref') else x[2])
            kind = x[1]
        return ('seq', kind, e.join(st, tuple(parts))) if parts else NotImplemented
    if n == 'contains' and t[1] != 's':
        es = pieces_of(e, st, args[0]) if r is not None else t[2]
        v = target(e, st, args[1])[1]
        v = e.norm(st, v) if is_num(v) else None
        if v is None or len(es) > 64 or not all(p[0] == 'e' and isinstance(p[1], int) for p in es):
            return NotImplemented
        return int(in_set(e, st, v, tuple(sorted({(p[1], p[1]) for p in es}))))
    if n in TRIMS or n in RECASE:
        return altered(e, st, cal, args, r, t)
    if t[1] == 's' and n in ('starts_with', 'ends_with', 'contains', 'find') or n in ('starts_with', 'ends_with'):
        ps = list(e.join(st, pieces_of(e, st, args[0]) if r is not None else t[2]))
        pat = args[1]
        lit = None
        if is_num(pat):
            p2 = e.norm(st, pat)
            if isinstance(p2, int):
                lit = chr(p2)
        else:
            pp = pieces_of(e, st, pat) if isinstance(pat, tuple) and pat[0] in ('ref', 'cref', 'sym') else None
            if pp is not None and all(x[0] == 'l' for x in pp):
                lit = ''.join(x[1] for x in pp)
        if lit is not None and all(p[0] == 'l' for p in ps):
            s = ''.join(p[1] for p in ps)
            if n == 'starts_with':
                return int(s.startswith(lit))
            if n == 'ends_with':
                return int(s.endswith(lit))
            if n == 'contains':
                return int(lit in s)
            i = s.find(lit)
            return SOME(len(s[:i].encode())) if i >= 0 else NONE
        if lit is None and is_num(pat) and n in ('contains', 'find') and all(p[0] == 'l' for p in ps):
            s = ''.join(p[1] for p in ps)
            if n == 'contains':
                return int(in_set(e, st, pat, tuple(sorted({(ord(c), ord(c)) for c in s}))))
            for i, c in enumerate(s):
                if e.decide(st, ('cmp', 'eq', sub(pat, ord(c)))):
                    return SOME(len(s[:i].encode()))
            return NONE
        if lit is not None and n in ('starts_with', 'ends_with') and len(lit) == 1 and ps:
            e.touch_out(st, r)
            p = ps[0] if n == 'starts_with' else ps[-1]
            if e.truth(st, ('cmp', 'ge', add(e.plen(st, p), -1))) and p[0] in ('l', 'e', 'run'):
                v, _ = first_last(e, st, p, n == 'starts_with')
                return b01(e, st, ('cmp', 'eq', sub(v, ord(lit))))
        if n == 'contains' and t[1] == 's':
            cs = None
            if lit is not None and len(lit) == 1:
                cs = ((ord(lit), ord(lit)),)
            elif isinstance(pat, tuple):
                tp = target(e, st, pat)[1] if pat[0] in ('ref', 'cref', 'sym') else pat
                if isinstance(tp, tuple) and tp[0] == 'seq' and tp[1] != 's' and all(x[0] == 'e' and isinstance(x[1], int) for x in tp[2]):
                    cs = tuple(sorted((x[1], x[1]) for x in tp[2]))
            if cs is not None:
                open_ = False
                for p in ps:
                    if p[0] == 'l':
                        if any(l <= ord(c) <= h for c in p[1] for l, h in cs):
                            return 1
                    elif p[0] == 'run' and e.charset_of(p[1]) is not None and not N.iv_inter(tuple(sorted(e.charset_of(p[1]))), cs):
                        pass
                    elif p[0] == 'e' and is_num(p[1]):
                        if in_set(e, st, p[1], cs):
                            return 1
                    else:
                        open_ = True
                if not open_:
                    return 0
        if n in ('starts_with', 'ends_with', 'contains'):
            key = ('strq', n, tuple(ps), ('lit', lit) if lit is not None else ('lit', None))
            v = st.tab.get(key)
            if v is None:
                v = e.num(0, 1, (n,), lit is None)
                st.tab[key] = v
            return e.norm(st, v)
    if n == 'repeat' and t[1] == 's':
        k = args[1]
        e.on_alloc(st, k, cal)
        ps = pieces_of(e, st, args[0])
        if isinstance(k, int) and k * len(ps) < 64:
            return ('seq', 's', e.join(st, ps * k))
        if is_num(k) and len(ps) == 1 and ps[0][0] == 'l' and len(ps[0][1]) == 1:
            return ('seq', 's', e.join(st, (('rep', ord(ps[0][1]), k),)))
    return NotImplemented


@meth('eq', 'ne')
def m_eq(e, st, cal, args):
    ra, ta = target(e, st, args[0])
    rb, tb = target(e, st, args[1])
    neq = cal['n'] == 'ne'

    def fin(v):
        return e.negate(v) if neq else v
    if isinstance(ta, tuple) and ta[0] in ('cmp', 'rngin', 'rngout', 'not'):
        ta = e.boolnum(st, ta)
    if isinstance(tb, tuple) and tb[0] in ('cmp', 'rngin', 'rngout', 'not'):
        tb = e.boolnum(st, tb)
    if is_num(ta) and is_num(tb):
        c = ('cmp', 'eq', sub(e.norm(st, ta), e.norm(st, tb)))
        return fin(b01(e, st, c))
    if isinstance(ta, tuple) and isinstance(tb, tuple) and ta[0] == 'seq' and tb[0] == 'seq':
        pa = pieces_of(e, st, args[0])
        pb = pieces_of(e, st, args[1])
        if pa is None or pb is None:
            return NotImplemented
        return fin(str_eq(e, st, pa, pb))
    return NotImplemented


@meth('lt', 'le', 'gt', 'ge')
def m_lt(e, st, cal, args):
    ra, ta = target(e, st, args[0])
    rb, tb = target(e, st, args[1])
    if is_num(ta) and is_num(tb):
        op = {'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}[cal['n']]
        return b01(e, st, e.cmpop(op, e.norm(st, ta), e.norm(st, tb)))
    return NotImplemented


@free(r'core::ops::range::Range(Inclusive|From|To|ToInclusive)?::<.*>::contains$')
def m_rangecontains(e, st, cal, args):
    _, r = target(e, st, args[0])
    _, v = target(e, st, args[1])
    if not is_num(v) or r[0] != 'agg' or r[1] is None:
        return NotImplemented
    p = e.T(r[1])['p']
    v = e.norm(st, v)
    if p.endswith('::Range') and all(is_num(x) for x in r[3]):
        lo, hi = r[3][0], add(r[3][1], -1)
    elif p.endswith('RangeInclusive') and is_num(r[3][0]) and is_num(r[3][1]):
        lo, hi = r[3][0], r[3][1]
    else:
        return NotImplemented
    if isinstance(lo, int) and isinstance(hi, int):
        return in_set(e, st, v, ((lo, hi),))
    return int(e.decide(st, ('cmp', 'ge', sub(v, lo))) and e.decide(st, ('cmp', 'ge', sub(hi, v))))


def in_set(e, st, v, ivs):
    """decide membership of a number in a finite interval set: returns 0/1 (splits)"""
    v = e.norm(st, v)
    if isinstance(v, int):
        return int(any(l <= v <= h for l, h in ivs))
    sg = single(v)
    if sg and sg[1] == 1:
        s, _, c = sg
        cur = e.ivs(st, s)
        if cur[0][0] is not None and cur[-1][1] is not None:
            want = tuple((l - c, h - c) for l, h in ivs)
            yes = N.iv_inter(cur, want)
            no = N.iv_minus(cur, want)
            if not yes:
                return 0
            if not no:
                return 1
            s1, s0 = st.clone(), st.clone()
            outs = []
            e.setiv(s1, s, yes)
            if not s1.cons or e.feas(s1, s):
                outs.append(s1)
            e.setiv(s0, s, tuple(no))
            if not s0.cons or e.feas(s0, s):
                outs.append(s0)
            if e.is_tainted([s]):
                for x in outs:
                    x.taint = True
            raise Split(outs)
    if len(ivs) == 1:
        return int(e.decide(st, ('cmp', 'ge', sub(v, ivs[0][0]))) and e.decide(st, ('cmp', 'ge', sub(ivs[0][1], v))))
    for l, h in ivs:
        if in_set(e, st, v, ((l, h),)):
            return 1
    return 0


_uni = {}


def uniset(name):
    if name in _uni:
        return _uni[name]
    f = {
        'is_whitespace': lambda c: c.isspace() and c not in '\x1c\x1d\x1e\x1f',
        'is_alphabetic': lambda c: c.isalpha() or unicodedata.category(c) in ('Nl', 'Mn', 'Mc', 'So') and False or c.isalpha(),
        'is_alphanumeric': lambda c: c.isalpha() or unicodedata.category(c) in ('Nd', 'Nl', 'No'),
        'is_numeric': lambda c: unicodedata.category(c) in ('Nd', 'Nl', 'No'),
        'is_control': lambda c: unicodedata.category(c) == 'Cc',
        'is_uppercase': lambda c: c.isupper(),
        'is_lowercase': lambda c: c.islower(),
    }[name]
    out = []
    for lo, hi in CHARS:
        start = None
        for x in range(lo, hi + 1):
            if f(chr(x)):
                if start is None:
                    start = x
            elif start is not None:
                out.append((start, x - 1))
                start = None
        if start is not None:
            out.append((start, hi))
    _uni[name] = tuple(out)
    return _uni[name]


@free(r'char::methods::<impl char>::(is_whitespace|is_alphabetic|is_alphanumeric|is_numeric|is_control|is_uppercase|is_lowercase)$')
def m_uni(e, st, cal, args):
    c = args[0]
    if not is_num(c):
        _, c = target(e, st, c)
        if not is_num(c):
            return NotImplemented
    return in_set(e, st, c, uniset(cal['n']))


ASCII = {
    'is_ascii_digit': ((48, 57),), 'is_ascii_hexdigit': ((48, 57), (65, 70), (97, 102)),
    'is_ascii_alphabetic': ((65, 90), (97, 122)), 'is_ascii_alphanumeric': ((48, 57), (65, 90), (97, 122)),
    'is_ascii_control': ((0, 31), (127, 127)), 'is_ascii': ((0, 127),),
    'is_ascii_whitespace': ((9, 10), (12, 13), (32, 32)), 'is_ascii_uppercase': ((65, 90),), 'is_ascii_lowercase': ((97, 122),),
    'is_ascii_punctuation': ((33, 47), (58, 64), (91, 96), (123, 126)), 'is_ascii_graphic': ((33, 126),),
}


@free(r'(char::methods::<impl char>|core::num::<impl u8>)::(%s)$' % '|'.join(ASCII))
def m_ascii(e, st, cal, args):
    _, c = target(e, st, args[0])
    if not is_num(c):
        return NotImplemented
    return in_set(e, st, c, ASCII[cal['n']])


@free(r'char::methods::<impl char>::(is_digit|to_digit)$')
def m_digit(e, st, cal, args):
    c, rx = args[0], e.norm(st, args[1])
    if not is_num(c) or not isinstance(rx, int):
        return NotImplemented
    segs = [(48, 48 + min(rx, 10) - 1, 48)]
    if rx > 10:
        segs += [(97, 97 + rx - 11, 87), (65, 65 + rx - 11, 55)]
    if cal['n'] == 'is_digit':
        return in_set(e, st, c, tuple(sorted((l, h) for l, h, _ in segs)))
    for l, h, o in segs:
        if in_set(e, st, c, ((l, h),)):
            return SOME(e.norm(st, add(c, -o)))
    return NONE


@free(r'^core::char::(from_u32|convert::from_u32|from_digit|from_u32_unchecked|convert::from_u32_unchecked|convert::from_digit)$|char::methods::<impl char>::(from_u32|from_u32_unchecked|from_digit)$')
def m_fromu32(e, st, cal, args):
    c = args[0]
    if not is_num(c):
        return NotImplemented
    c = e.norm(st, c)
    if cal['n'].startswith('from_digit'):
        rx = args[1]
        if in_set(e, st, c, ((0, 9),)):
            return SOME(add(c, 48))
        return SOME(add(c, 87)) if e.decide(st, ('cmp', 'ge', sub(add(rx, -1), c))) else NONE
    if cal['n'].endswith('unchecked'):
        return c
    if in_set(e, st, c, CHARS):
        return SOME(c)
    return NONE


@free(r'char::methods::<impl char>::len_utf8$')
def m_lenutf8(e, st, cal, args):
    return blen_piece(e, st, ('e', e.norm(st, args[0])))


# ---------------------------------------------------------------- numbers
@free(r'(core::num::<impl [iu]\w+>|core::f(32|64)::<impl f\d+>)::(to_le_bytes|to_be_bytes|to_ne_bytes)$')
def m_tobytes(e, st, cal, args):
    ty = e.T(cal['iself'])['s'] if cal.get('iself') is not None else re.search(r'impl (\w+)>', cal['p']).group(1)
    n = {'usize': 64, 'isize': 64}.get(ty) or int(ty[1:])
    k = cal['n'][3:5]
    v = e.norm(st, args[0]) if is_num(args[0]) else args[0]
    if isinstance(v, int) and k in ('le', 'be'):
        b = (v & ((1 << n) - 1)).to_bytes(n // 8, 'little' if k == 'le' else 'big')
        return ('seq', 'v', tuple(('e', x) for x in b))
    return ('seq', 'v', (('x', 'bytes', (('lit', k), ('lit', ty), v), n // 8),))


@free(r'(core::num::<impl [iu]\w+>|core::f(32|64)::<impl f\d+>)::(from_le_bytes|from_be_bytes|from_ne_bytes)$')
def m_frombytes(e, st, cal, args):
    ty = e.T(cal['iself'])['s'] if cal.get('iself') is not None else re.search(r'impl (\w+)>', cal['p']).group(1)
    k = cal['n'][5:7]
    v = args[0]
    if v[0] != 'seq':
        v = e.force(st, v)
    if v[0] != 'seq':
        return NotImplemented
    ps = e.join(st, v[2])
    return from_bytes(e, st, ps, ty, k)


def wraprange(e, st, v, ty):
    if is_num(v) and ty in INTR:
        return e.wrap(st, v, INTR[ty])
    return v


def from_bytes(e, st, ps, ty, k):
    n = {'usize': 64, 'isize': 64}.get(ty) or int(ty[1:])
    if len(ps) == 1 and ps[0][0] == 'x' and ps[0][1] == 'bytes' and ps[0][3] == n // 8:
        (_, k2), (_, ty2), val = ps[0][2]
        same = k2 == k or {k, k2} <= {'le', 'ne'}
        if same:
            if ty2 == ty:
                return val
            if ty[0] in 'iu' and ty2[0] in 'iu':
                return wraprange(e, st, val, ty)
    if all(p[0] == 'e' and isinstance(p[1], int) for p in ps) and len(ps) == n // 8:
        b = bytes(p[1] for p in ps)
        x = int.from_bytes(b, 'little' if k != 'be' else 'big')
        if ty[0] == 'f':
            return ('f', x)
        return x - (1 << n) if ty[0] == 'i' and x >> (n - 1) else x
    # bytes of one value put back together
    org = []
    for p in ps:
        o = st.tab.get(('byteof', e.revkey(p[1]))) if p[0] == 'e' and isinstance(p[1], tuple) else None
        org.append(o)
    if len(org) == n // 8 and all(org) and len({o[0] for o in org}) == 1 and [o[1] for o in org] == (list(range(len(org))) if k != 'be' else list(range(len(org)))[::-1]):
        return wraprange(e, st, org[0][0], ty)
    key = ('frombytes', k, ty, ps)
    v = st.tab.get(key)
    if v is None:
        if ty[0] == 'f':
            v = e.opaque(e.p.byname[ty], ('frombytes',))
        else:
            v = e.num(INTR[ty][0], INTR[ty][1], ('frombytes', ty))
        st.tab[key] = v
        e.on_frombytes(st, v, ty, k, ps)
    return e.norm(st, v) if is_num(v) else v


@free(r'core::f(32|64)::<impl f\d+>::(to_bits|from_bits)$')
def m_bits(e, st, cal, args):
    key = ('bits', args[0])
    if cal['n'] == 'to_bits':
        v = st.tab.get(key)
        if v is None:
            w = 32 if 'f32' in cal['p'] else 64
            v = e.num(0, (1 << w) - 1, ('bits',))
            st.tab[key] = v
            st.tab[('unbits', v)] = args[0]
        return v
    v = st.tab.get(('unbits', args[0]))
    if v is not None:
        return v
    v = e.opaque(e.p.byname['f32' if 'f32' in cal['p'] else 'f64'], ('from_bits',))
    st.tab[('unbits', args[0])] = v
    st.tab[('bits', v)] = args[0]
    return v


@free(r'core::num::<impl [iu]\w+>::(checked_add|checked_sub|checked_mul|saturating_sub|saturating_add|wrapping_add|wrapping_sub|wrapping_mul|overflowing_add|overflowing_sub|checked_neg|abs|unsigned_abs|wrapping_neg|pow|saturating_mul|is_power_of_two|leading_zeros|trailing_zeros|count_ones|abs_diff|signum|rem_euclid|checked_div|checked_rem|wrapping_abs|is_negative|is_positive|checked_abs)$')
def m_numop(e, st, cal, args):
    n = cal['n']
    ty = e.T(cal['iself'])['s'] if cal.get('iself') is not None else re.search(r'impl (\w+)>', cal['p']).group(1)
    rng = INTR[ty]
    if not all(is_num(a) for a in args):
        return NotImplemented
    a = e.norm(st, args[0])
    b = e.norm(st, args[1]) if len(args) > 1 else None
    if n in ('abs', 'unsigned_abs', 'checked_neg', 'wrapping_neg', 'is_negative', 'is_positive', 'checked_abs'):
        if n == 'is_negative':
            return b01(e, st, ('cmp', 'ge', add(neg(a), -1)))
        if n == 'is_positive':
            return b01(e, st, ('cmp', 'ge', add(a, -1)))
        if n in ('abs', 'unsigned_abs', 'checked_abs'):
            v = a if e.decide(st, ('cmp', 'ge', a)) else neg(a)
            if n == 'unsigned_abs':
                return v
            if n == 'checked_abs':
                return SOME(v) if e.decide(st, ('cmp', 'ge', sub(rng[1], v))) else NONE
            obligation(e, st, ('cmp', 'ge', sub(rng[1], v)), 'Overflow(abs)', False)
            return v
        v = neg(a)
        if n == 'checked_neg':
            return SOME(v) if e.decide(st, ('rngin', v, rng[0], rng[1])) else NONE
        return e.wrap(st, v, rng)
    m = re.match(r'(checked|saturating|wrapping|overflowing)_(add|sub|mul)$', n)
    if m:
        kind, op = m.groups()
        if op == 'add':
            r = add(a, b)
        elif op == 'sub':
            r = sub(a, b)
        elif isinstance(b, int):
            r = mul(a, b)
        elif isinstance(a, int):
            r = mul(b, a)
        else:
            return NotImplemented
        if kind == 'wrapping':
            return e.wrap(st, r, rng)
        i = e.decide(st, ('rngin', r, rng[0], rng[1]))
        if kind == 'checked':
            return SOME(r) if i else NONE
        if kind == 'overflowing':
            return ('agg', None, 0, (r if i else e.wrap(st, r, rng), int(not i)))
        if i:
            return r
        return rng[1] if e.decide(st, ('cmp', 'ge', sub(r, rng[1]))) else rng[0]
    if n == 'pow' and isinstance(a, int) and isinstance(b, int):
        return a ** b
    return NotImplemented


@free(r'core::f(32|64)::<impl f\d+>::(is_nan|is_infinite|is_finite|is_sign_negative|fract|trunc|floor|abs|ceil|round)$|std::num::f(32|64)|std::f(32|64)::')
def m_float(e, st, cal, args):
    n = cal['n']
    if n in ('is_nan', 'is_infinite', 'is_finite', 'is_sign_negative'):
        v = args[0]
        if e.finite_floats and n in ('is_nan', 'is_infinite'):
            return 0
        if e.finite_floats and n == 'is_finite':
            return 1
        key = ('fq', n, v)
        r = st.tab.get(key)
        if r is None:
            r = e.num(0, 1, (n,))
            st.tab[key] = r
        return e.norm(st, r)
    return ('fop', n, args[0], args[1] if len(args) > 1 else 0)


# ---------------------------------------------------------------- parse
@free(r'core::str::<impl str>::parse$')
def m_parse(e, st, cal, args):
    ty = None
    for a in cal['a']:
        if not isinstance(a, dict):
            ty = a
    t = e.T(ty)
    ps = e.join(st, pieces_of(e, st, args[0]) or ())
    return parse_text(e, st, ps, t['s'])


@free(r'core::num::<impl [iu]\w+>::(from_str_radix|from_ascii_radix)$|core::num::<impl core::str::traits::FromStr for \w+>::from_str$|<f(32|64) as core::str::traits::FromStr>::from_str$|core::num::dec2flt.*FromStr for f\d+>::from_str$')
def m_fromstr(e, st, cal, args):
    s = cal.get('self') if cal.get('self') is not None else cal.get('iself')
    ty = e.T(s)['s'] if s is not None else re.search(r'(?:impl|for) (\w+)>', cal['p']).group(1)
    ps = e.join(st, pieces_of(e, st, args[0]) or ())
    rx = 10
    if cal['n'] == 'from_str_radix':
        rx = args[1]
        if not isinstance(rx, int):
            return NotImplemented
    return parse_text(e, st, ps, ty, rx)


def parse_text(e, st, ps, ty, radix=10):
    if ty in INTR and ty not in ('bool', 'char'):
        lo, hi = INTR[ty]
        if all(p[0] == 'l' for p in ps):
            s = ''.join(p[1] for p in ps)
            ok = re.match(r'^[+-]?[0-9a-zA-Z]+$', s) is not None and not (s[0] == '-' and lo == 0)
            try:
                v = int(s, radix) if ok else None
            except ValueError:
                v = None
            if v is None or not lo <= v <= hi:
                return ERR(e.parse_err(st, ty))
            return OK(v)
        v = e.text_number(st, ps, ty) if radix == 10 else None
        if v == 'bad':
            return ERR(e.parse_err(st, ty))
        if v is not None:
            if e.decide(st, ('rngin', v, lo, hi)):
                return OK(v)
            return ERR(e.parse_err(st, ty))
        key = ('parse', ty, radix, ps)
        r = st.tab.get(key)
        if r is None:
            s1, s0 = st.clone(), st.clone()
            v = e.text_value(st, ps, ty, radix)
            if v is None:
                v = e.num(lo, hi, ('parse', ty))
            s1.tab[key] = v
            s0.tab[key] = ('lit', 'bad')
            tn = any(p[0] == 'unk' for p in ps) and e.unk_taints
            outs = []
            if e.parse_ok_possible(s1, ps, ty, radix):
                outs.append(s1)
            if e.parse_err_possible(s0, ps, ty, radix):
                outs.append(s0)
            if tn:
                for s in outs:
                    s.taint = True
            raise Split(outs)
        if r == ('lit', 'bad'):
            return ERR(e.parse_err(st, ty))
        return OK(e.norm(st, r))
    if ty in ('f32', 'f64'):
        fl = e.text_float(st, ps, ty)
        if fl is not None:
            return OK(fl)
        if all(p[0] == 'l' for p in ps):
            s = ''.join(p[1] for p in ps)
            if re.match(r'^[+-]?(\d+(\.\d*)?([eE][+-]?\d+)?|\.\d+([eE][+-]?\d+)?|inf|infinity|nan)$', s, re.I):
                x = float(s)
                return OK(('f', struct.unpack('<Q', struct.pack('<d', x))[0] if ty == 'f64' else struct.unpack('<I', struct.pack('<f', x))[0]))
            return ERR(e.parse_err(st, ty))
        key = ('parse', ty, ps)
        r = st.tab.get(key)
        if r is None:
            s1, s0 = st.clone(), st.clone()
            s1.tab[key] = e.opaque(e.p.byname[ty], ('parse',))
            s0.tab[key] = ('lit', 'bad')
            outs = [s1] if e.parse_ok_possible(s1, ps, ty, radix) else []
            if e.parse_err_possible(s0, ps, ty, radix):
                outs.append(s0)
            if any(p[0] == 'unk' for p in ps) and e.unk_taints:
                for s in outs:
                    s.taint = True
            raise Split(outs)
        if r == ('lit', 'bad'):
            return ERR(e.parse_err(st, ty))
        return OK(r)
    return NotImplemented


# ---------------------------------------------------------------- fmt
@free(r'^core::fmt::(rt::)?Arguments::<.*>::(new|new_const|from_str|new_v1|from_str_nonconst)$')
def m_fmtargs(e, st, cal, args):
    if cal['n'].startswith('from_str') or cal['n'] == 'new_const':
        ps = pieces_of(e, st, args[0])
        if ps is not None:
            return ('fmt1', tuple(ps))
        return ('fmtargs?',)
    _, t = target(e, st, args[0])
    tm = None
    if isinstance(t, tuple) and t[0] == 'seq' and all(p[0] == 'e' and isinstance(p[1], int) for p in t[2]):
        tm = bytes(p[1] for p in t[2])
    _, a = target(e, st, args[1])
    if tm is None or not (isinstance(a, tuple) and a[0] == 'seq'):
        return ('fmtargs?',)
    vals = []
    for p in a[2]:
        if p[0] != 'e':
            return ('fmtargs?',)
        vals.append(p[1])
    return ('fmtargs', tm, tuple(vals))


@free(r'^core::fmt::rt::Argument::<.*>::new_(\w+)$')
def m_fmtarg(e, st, cal, args):
    k = cal['n'][4:]
    k = {'lower_hex': 'hex', 'upper_hex': 'HEX'}.get(k, k)
    ty = None
    for a in cal['a']:
        if not isinstance(a, dict):
            ty = e.T(a)['s']
    return ('fmtarg', k, args[0], ty)


@free(r'^alloc::fmt::format$|^alloc::fmt::format::format_inner$')
def m_format(e, st, cal, args):
    return ('seq', 's', fmt_pieces(e, st, args[0]))


@free(r'core::fmt::Write::write_fmt$|as core::fmt::Write>::write_fmt$|core::fmt::Formatter::<.*>::write_fmt$|^std::io::Write::write_fmt$')
def m_writefmt(e, st, cal, args):
    r, s = wr(e, st, args[0])
    if r is None:
        return OK(UNIT)
    setseq(e, st, r, s[2] + fmt_pieces(e, st, args[1]))
    return OK(UNIT)


@free(r'^core::fmt::Formatter|^std::io::stdio|^core::fmt::builders')
def m_formatter(e, st, cal, args):
    return OK(UNIT)


# ---------------------------------------------------------------- boxes
@free(r'^alloc::boxed::Box::<T>::new$|^alloc::boxed::box_new$')
def m_box(e, st, cal, args):
    c = next(e.ncell)
    st.mem[c] = args[0]
    return ('ref', c, (), None)


@free(r'alloc::slice::<impl \[T\]>::into_vec$|alloc::slice::<impl \[T\]>::to_vec$|boxed::box_assume_init_into_vec_unsafe$')
def m_intovec(e, st, cal, args):
    r, t = target(e, st, args[0])
    if isinstance(t, tuple) and t[0] == 'un':
        t = t[1]
        return t if t[0] == 'seq' else NotImplemented
    if isinstance(t, tuple) and t[0] == 'seq':
        ps = pieces_of(e, st, args[0]) if r is not None else t[2]
        return ('seq', 'v', tuple(ps))
    return NotImplemented


# ---------------------------------------------------------------- maps and sets
def mapkey_eq(e, st, a, b):
    ra, ta = target(e, st, a)
    rb, tb = target(e, st, b)
    if is_num(ta) and is_num(tb):
        return e.decide(st, ('cmp', 'eq', sub(e.norm(st, ta), e.norm(st, tb))))
    if isinstance(ta, tuple) and isinstance(tb, tuple) and ta[0] == 'seq' and tb[0] == 'seq':
        pa = pieces_of(e, st, a) if ra is not None else ta[2]
        pb = pieces_of(e, st, b) if rb is not None else tb[2]
        r = str_eq(e, st, pa, pb)
        return e.decide(st, r)
    return None


def map_find(e, st, t, key):
    """index of an entry with this key among explicit entries; -1 absent; None unknown"""
    unknown = False
    i = 0
    for p in t[2]:
        if p[0] != 'e':
            unknown = True
            break
        k = p[1][3][0] if t[1] == 'map' else p[1]
        r = mapkey_eq(e, st, k, key)
        if r is None:
            unknown = True
            break
        if r:
            return i
        i += 1
    return None if unknown else -1


@meth('insert', 'contains_key', 'contains', 'remove', 'entry', 'get_or_insert_with')
def m_map(e, st, cal, args):
    r, s = wr(e, st, args[0])
    if r is None:
        return NotImplemented
    n = cal['n']
    if s[1] not in ('map', 'set'):
        if n == 'insert' and s[1] == 'v':
            i = args[1]
            l, rr = e.seq_split(st, s[2], i)
            setseq(e, st, r, l + (e.topiece(st, args[2]),) + rr)
            return UNIT
        return NotImplemented
    if n == 'insert':
        if s[1] == 'map':
            v = ('agg', None, 0, (args[1], args[2]))
            return e.map_insert(st, r, s, v)
        setseq(e, st, r, s[2] + (e.topiece(st, args[1]),))
        return e.num(0, 1, ('inserted',))
    if n in ('contains_key', 'contains'):
        return e.map_contains(st, r, s, args[1])
    return NotImplemented


def map_get(e, st, cal, args, r, t):
    r = mat(e, st, r)
    return e.map_get(st, cal, r, t, args[1])


# ---------------------------------------------------------------- time
@free(r'core::time::Duration::(new|as_secs|subsec_nanos|from_secs|from_nanos|as_nanos|subsec_micros|subsec_millis|as_millis|from_millis)$')
def m_duration(e, st, cal, args):
    n = cal['n']
    ty = e.p.byname.get('core::time::Duration')
    if n == 'new':
        s, ns = args
        if not (is_num(s) and is_num(ns)):
            return NotImplemented
        if e.decide(st, ('cmp', 'ge', sub(999999999, ns))):
            return ('agg', ty, 0, (s, ns))
        q = e.divsym(st, e.norm(st, ns), 1000000000)
        tot = e.norm(st, add(s, q))
        obligation(e, st, ('cmp', 'ge', sub(INTR['u64'][1], tot)), 'overflow in Duration::new', False)
        return ('agg', ty, 0, (tot, e.norm(st, sub(ns, mul(q, 1000000000)))))
    if n == 'from_secs':
        return ('agg', ty, 0, (args[0], 0))
    _, d = target(e, st, args[0])
    if isinstance(d, tuple) and d[0] == 'agg':
        if n == 'as_secs':
            return d[3][0]
        if n == 'subsec_nanos':
            return d[3][1]
    return NotImplemented


@free(r'std::time::SystemTime::(duration_since|checked_add|elapsed|now)$|<std::time::SystemTime as core::ops::arith::(Add|Sub).*>::(add|sub)$')
def m_systime(e, st, cal, args):
    n = cal['n']
    if n == 'duration_since':
        _, t = target(e, st, args[0])
        key = ('since', t)
        d = st.tab.get(key)
        if d is None:
            ty = e.p.byname.get('core::time::Duration')
            d = ('agg', ty, 0, (e.num(0, e.max_epoch_secs, ('secs',)), e.num(0, 999999999, ('nanos',))))
            st.tab[key] = d
        return OK(d)
    if n in ('add', 'checked_add'):
        d = args[1]
        d = e.force(st, d) if d[0] == 'sym' else d
        for k, v in st.tab.items():
            if isinstance(k, tuple) and k[0] == 'since' and v[3] == tuple(e.norm(st, x) if is_num(x) else x for x in d[3]):
                return k[1] if n == 'add' else SOME(k[1])
        ok = e.decide(st, ('cmp', 'ge', sub(e.max_epoch_secs, d[3][0]))) if n == 'checked_add' else obligation(e, st, ('cmp', 'ge', sub(e.max_epoch_secs, d[3][0])), 'SystemTime addition overflows', False)
        if not ok:
            return NONE
        v = ('epoch+', d)
        return SOME(v) if n == 'checked_add' else v
    return NotImplemented
