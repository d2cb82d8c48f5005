"""The JSON and RON tokenizers over arbitrary characters.

The lexer starts with any current character (or at the end); each read yields any further character or the end.
A reference tokenizer runs along: it is stepped over every character the lexer leaves behind.  At each read
everything both sides agree on (text collected so far, position) is forgotten, so equal situations merge."""
from . import lin as N
from . import models as M
from .lin import add, sub, neg, is_num
from .interp import State, Frame, UNIT, Dead, Undecided, Split, ISIZE_MAX
from . import canon
from .text import TextBase, JSON, RON

BIG = 10 ** 45
DIG = ((48, 57),)
LOW, UP = ((97, 122),), ((65, 90),)
IDS = LOW + UP + ((95, 95),)
HEX = (((48, 57), 48), ((97, 102), 87), ((65, 70), 55))
ESC = {'n': '\n', 'r': '\r', 't': '\t', 'b': '\x08', 'f': '\x0c', '"': '"', '\\': '\\', '/': '/'}
PUNCT = {':': 'Colon', ',': 'Comma', '[': 'BlockOpen', ']': 'BlockClose', '{': 'CurlyOpen', '}': 'CurlyClose'}
SAMPLES = ('d9a7\\udeb5', 'DBFF\\uDFFF', '20aC')
WS = ('ws',)
BAD = ('bad',)
WHERE = {'blk': 'a comment', 'star': 'a comment', 'str': 'a string', 'esc': 'a string', 'hex': 'a string', 'lead': 'a string',
         'leadesc': 'a string', 'c0': 'a character literal', 'c1': 'a character literal', 'c2': 'a character literal', 'slash': 'a comment'}


class Free(Exception):
    """the reference has no opinion on the rest; it goes on, for its shape
    only, in the given state"""
    """the reference has no opinion from here on"""


class LexDec(TextBase):
    maxsteps = 4000000
    unk_taints = False
    collapse_at = 1 << 30
    widen_at = 12

    def __init__(self, prog, fmt):
        super().__init__(prog, fmt)
        self.conts['root'] = self.root_ret
        self.f = fmt
        self.punct = dict(PUNCT)
        self.idc = IDS
        self.numstart = DIG + ((43, 43), (45, 45))
        self.words = {'true': ('Bool', 1), 'false': ('Bool', 0)}
        if fmt is RON:
            self.punct.update({'(': 'ParenOpen', ')': 'ParenClose'})
            self.idc = IDS + DIG
            self.numstart += ((46, 46),)
        else:
            self.words['null'] = ('Null', None)
        self.okpaths = 0
        self.kinds = set()
        self.charset = {}

    def start(self, body):
        self.body = body
        inits = []
        for eof in (False, True):
            st = State()
            ref = self.newstate(st)
            c = None if eof else self.chsym(('char',))
            self.setf(st, ref, 'cur', 0 if eof else c)
            self.setf(st, ref, 'tok', self.opaque(self.tty, ('token',)))
            for k in ('line', 'col'):
                self.setf(st, ref, k, self.num(0, ISIZE_MAX, (k,)))
                st.x[k] = self.getf(st, ref, k)
            st.x['sp'] = ('lit', WS)
            st.x['last'] = c
            st.x['eof'] = ('lit', eof)
            st.x['ends'] = st.x['nbad'] = ('lit', 0)
            st.x['sample'] = ('lit', '')
            st.x['ref'] = ref
            for b in ('strbuf', 'numbuf', 'identbuf'):
                st.x['b:' + b] = self.getf(st, ref, b)
            it = next(self.ncell)
            st.mem[it] = ('iter', 'queue', ('lit', 'input'), 0, 1)
            st.x['it'] = ('ref', it, (), None)
            st.stack.append(Frame(None, 0, 0, 0, 'root'))
            self.push(st, body, [ref, st.x['it']])
            inits.append(st)
        self.run(inits, None)
        return self

    # ---- the input
    def queue_next(self, st, rr, it):
        r = st.x['it']
        if (rr[1], rr[2]) != (r[1], r[2]):
            raise Undecided('copy of the input iterator')
        nxt = st.x.pop('nxt', None)
        if nxt is not None:
            self.progress(st, 'char')
            st.x['last'] = nxt
            return M.SOME(nxt)
        self.sync(st)
        if st.x['eof'][1]:
            st.x['ends'] = ('lit', st.x['ends'][1] + 1)
            if st.x['ends'][1] > 16:
                self.fail(st, 'nonterm', 'the end of the input is read again and again')
                raise Dead()
            return M.NONE
        if st.x['sp'][1] == BAD and 'free' not in st.x:
            st.x['nbad'] = ('lit', st.x['nbad'][1] + 1)
            if st.x['nbad'][1] > 24:
                raise Undecided('tokenizer far apart from the reference')
        if st.x['sp'][1] == BAD:
            for k in ('G', 'h', 'h1', 'chr'):
                st.x.pop(k, None)
        if st.x['sample'][1]:
            # a particular case of the general one
            c, st.x['sample'] = ord(st.x['sample'][1][0]), ('lit', st.x['sample'][1][1:])
            self.progress(st, 'char')
            st.x['last'] = c
            st.x['col'] = self.norm(st, add(st.x['col'], 1))
            return M.SOME(c)
        self.forget(st)
        self.apart(st)
        self.blur(st)
        ref = st.x['ref']
        for k in ('line', 'col'):
            # positions count every character read
            if self.norm(st, sub(self.getf(st, ref, k), st.x[k])) == 0:
                st.x[k] = self.num(0, ISIZE_MAX, (k,))
                self.setf(st, ref, k, st.x[k])
        self.merge(st)
        outs = []
        for k in ('eof', 'nl', 'char') + (SAMPLES if st.x['sp'][1] == ('hex', 0, False) else ()):
            s = st.clone()
            if k in SAMPLES:
                s.x['sample'] = ('lit', k)
            elif k == 'eof':
                s.x['eof'] = ('lit', True)
            elif k == 'nl':
                s.x['nxt'] = 10
                s.x['line'] = self.norm(s, add(s.x['line'], 1))
                s.x['col'] = 0
            else:
                s.x['nxt'] = N.sym(self.newsym(origin=('char',), ivs=((0, 9), (11, 0xD7FF), (0xE000, 0x10FFFF))))
                s.x['col'] = self.norm(s, add(s.x['col'], 1))
            outs.append(s)
        raise Split(outs)

    def anytext(self, st):
        """text collected outside of the reference: any text"""
        def put(v):
            if isinstance(v, tuple) and v[:1] != ('cref',):
                if len(v) == 3 and v[0] == 'seq':
                    if v[1] == 's' and v[2]:
                        t = self.newtext(st)
                        self.assume_ge(st, add(t[2][0][3], -1))
                        return t
                    return v
                if any(isinstance(x, tuple) for x in v):
                    w = tuple(put(x) if isinstance(x, tuple) else x for x in v)
                    return v if w == v else w
            return v
        for c, v in list(st.mem.items()):
            w = put(v) if c not in self.constcells else v
            if w is not v:
                st.mem[c] = w
        self.setf(st, st.x['ref'], 'cur', self.chsym(('char',)))

    def merge(self, st):
        w = canon.Walk(self, st).walk()
        sk = ('merge',) + tuple(w.sk)
        if canon.covered(self, st, w, sk):
            self.stats['covered'] += 1
            raise Dead()
        canon.store(self, st, w.slots, sk)

    def sync(self, st):
        """step the reference over the character left behind"""
        c = st.x['last']
        if c is None:
            return
        sp, upd = self.peek(st, c)
        for k, v in upd.items():
            if v is None:
                st.x.pop(k, None)
            else:
                st.x[k] = v
        st.x['sp'] = ('lit', sp)
        st.x['last'] = None
        if 'free' in st.x:
            st.x.pop('R', None)
            if 'G' in st.x:
                st.x['G'] = ('seq', 's', ())
            self.anytext(st)

    def peek(self, st, c):
        """(state, updates) after c; may split"""
        sp = st.x['sp'][1]
        try:
            return self.advance(st, sp, c)
        except Free as f:
            # from here on only panics, termination and positions are looked at
            return f.args[0] if f.args else sp, {'free': ('lit', True)}

    def isin(self, st, c, rs):
        for lo, hi in rs:
            if self.decide(st, ('rngin', c, lo, hi)):
                return True
        return False

    def ch(self, st, c, x):
        return self.decide(st, ('rngin', c, ord(x), ord(x)))

    def advance(self, st, sp, c):
        k = sp[0]
        if k in ('bad', 'done'):
            return BAD, {}
        if k == 'ws':
            if self.isin(st, c, ((9, 10), (13, 13), (32, 32))):
                return WS, {}
            if self.ch(st, c, '/'):
                return ('slash',), {}
            for x, t in self.punct.items():
                if self.ch(st, c, x):
                    return ('done', t), {}
            if self.ch(st, c, '"'):
                return ('str',), {'G': ('seq', 's', ())}
            if self.f is RON and self.ch(st, c, "'"):
                return ('c0',), {}
            if self.isin(st, c, self.numstart):
                if self.isin(st, c, DIG):
                    s = ('num', '', True, False, 0)
                elif self.ch(st, c, '-'):
                    s = ('num', '-', False, False, 0)
                elif self.ch(st, c, '+'):
                    s = ('num', '+', False, False, 0)
                else:
                    s = ('num', '', False, True, 0)
                return s, {'G': self.grown(st, c, ())}
            if self.isin(st, c, IDS):
                return ('id',), {'G': self.grown(st, c, ())}
            return BAD, {}
        if k == 'slash':
            return (('line',) if self.ch(st, c, '/') else ('blk',) if self.ch(st, c, '*') else BAD), {}
        if k == 'line':
            if self.ch(st, c, '\0'):
                raise Free()
            return (WS if self.ch(st, c, '\n') else sp), {}
        if k in ('blk', 'star'):
            if self.ch(st, c, '\0'):
                raise Free()
            if self.ch(st, c, '*'):
                return ('star',), {}
            if k == 'star' and self.ch(st, c, '/'):
                return WS, {}
            return ('blk',), {}
        if k == 'num':
            s = self.numstep(st, sp, c)
            return s, {} if s == BAD else {'G': self.grown(st, c)}
        if k == 'id':
            if self.isin(st, c, self.idc):
                return sp, {'G': self.grown(st, c)}
            if self.isin(st, c, DIG):
                raise Free(BAD)
            return BAD, {}
        if k == 'c0':
            if self.ch(st, c, '\\'):
                return ('c1',), {}
            return ('c2',), {'chr': c}
        if k == 'c1':
            if self.isin(st, c, ((39, 39), (92, 92), (34, 34))):
                return ('c2',), {'chr': c}
            raise Free(('c2',))
        if k == 'c2':
            return (('done', 'Char') if self.ch(st, c, "'") else BAD), {}
        if k == 'str':
            if self.ch(st, c, '"'):
                return ('done', 'Str'), {}
            if self.ch(st, c, '\\'):
                return ('esc',), {}
            if self.ch(st, c, '\0'):
                raise Free()
            return sp, {'G': self.grown(st, c)}
        if k == 'esc':
            if self.ch(st, c, 'u'):
                return ('hex', 0, False), {'h': ('pair', 0, 0)}
            for x, y in ESC.items():
                if self.ch(st, c, x):
                    return ('str',), {'G': self.grown(st, ord(y))}
            if self.f is RON:
                if self.ch(st, c, "'"):
                    return ('str',), {'G': self.grown(st, 39)}
                if self.ch(st, c, '0'):
                    return ('str',), {'G': self.grown(st, 0)}
            raise Free(('str',))
        if k == 'hex':
            for (lo, hi), off in HEX:
                if self.decide(st, ('rngin', c, lo, hi)):
                    _, p, d = st.x['h']
                    p, d = self.norm(st, add(N.mul(p, 16), d)), self.norm(st, add(c, -off))
                    break
            else:
                return BAD, {}
            n = sp[1] + 1
            if n < 4:
                return ('hex', n, sp[2]), {'h': ('pair', p, d)}
            h = self.norm(st, add(N.mul(p, 16), d))
            if sp[2]:
                if self.decide(st, ('rngin', h, 0xDC00, 0xDFFF)):
                    _, p1, d1 = st.x['h1']
                    v = add(N.mul(add(add(N.mul(p1, 16), d1), -0xD800), 1024), add(h, 0x10000 - 0xDC00))
                    return ('str',), {'G': self.grown(st, self.norm(st, v)), 'h': None, 'h1': None}
                return BAD, {'h': None, 'h1': None}
            if self.decide(st, ('rngin', h, 0xD800, 0xDBFF)):
                return ('lead',), {'h1': ('pair', p, d), 'h': None}
            if self.decide(st, ('rngin', h, 0xDC00, 0xDFFF)):
                return BAD, {'h': None}
            return ('str',), {'G': self.grown(st, h), 'h': None}
        if k == 'lead':
            return (('leadesc',) if self.ch(st, c, '\\') else BAD), {}
        if k == 'leadesc':
            if self.ch(st, c, 'u'):
                return ('hex', 0, True), {'h': ('pair', 0, 0)}
            return BAD, {}
        raise Undecided('reference state')

    def numstep(self, st, sp, c):
        _, sign, md, dot, exp = sp
        if self.isin(st, c, DIG):
            return ('num', sign, md or exp == 0, dot, 'd' if exp else 0)
        if exp == 0:
            if not dot and self.ch(st, c, '.'):
                return ('num', sign, md, True, 0)
            if self.isin(st, c, ((101, 101), (69, 69))):
                return ('num', sign, md, dot, 'e')
        if exp == 'e' and self.isin(st, c, ((43, 43), (45, 45))):
            return ('num', sign, md, dot, 's')
        return BAD

    def grown(self, st, c, g=None):
        if 'free' in st.x:
            return ('seq', 's', ())
        return ('seq', 's', self.join(st, (st.x['G'][2] if g is None else g) + (self.strpiece(st, c),)))

    # ---- text being collected: forget what both sides have in common
    def forget(self, st):
        g = st.x.get('G')
        if g is None or not g[2]:
            return
        g = self.chars1(st, g[2])
        best = [0]

        def common(ps):
            ps = self.chars1(st, ps)
            i = 0
            while i < len(ps) and i < len(g) and self.samepiece(st, ps[i], g[i]):
                i += 1
            return i, ps

        def scan(v):
            if isinstance(v, tuple) and v[:1] != ('cref',):
                if len(v) == 3 and v[0] == 'seq':
                    if v[1] == 's':
                        best[0] = max(best[0], common(v[2])[0])
                    return
                for x in v:
                    if isinstance(x, tuple):
                        scan(x)
        for c, v in st.mem.items():
            if c not in self.constcells:
                scan(v)
        k = best[0]
        if not k:
            return
        cls = self.charclass(st.x['sp'][1])
        head, blk = [], []

        def flush():
            if blk:
                if len(blk) == 1 and blk[0][0] == 'run':
                    head.append(blk[0])
                else:
                    t = self.newtext(st)[2][0]
                    self.assume_ge(st, add(t[3], -1))
                    self.charset[t[1]] = cls
                    # what the code goes on to ask about this text (its length, its characters) it
                    # could have known before: no answer to that is relied upon
                    self.staint.update(N.syms(t[3]))
                    self.staint.add(t[1])
                    head.append(t)
                del blk[:]
        for p in g[:k]:
            if cls is not None and p[0] == 'l' and not any(lo <= ord(p[1]) <= hi for lo, hi in cls):
                flush()
                head.append(p)
            else:
                blk.append(p)
        flush()

        def put(v):
            if isinstance(v, tuple) and v[:1] != ('cref',):
                if len(v) == 3 and v[0] == 'seq':
                    if v[1] == 's':
                        n, ps = common(v[2])
                        if n >= k:
                            return ('seq', 's', self.join(st, tuple(head) + tuple(ps[k:])))
                    return v
                if any(isinstance(x, tuple) for x in v):
                    w = tuple(put(x) if isinstance(x, tuple) else x for x in v)
                    return v if w == v else w
            return v
        for c, v in list(st.mem.items()):
            w = put(v) if c not in self.constcells else v
            if w is not v:
                st.mem[c] = w
        st.x['G'] = ('seq', 's', self.join(st, tuple(head) + tuple(g[k:])))

    def apart(self, st):
        def big(v):
            if isinstance(v, tuple):
                if len(v) == 3 and v[0] == 'seq':
                    return len(v[2]) > 24
                return any(big(x) for x in v if isinstance(x, tuple))
            return False
        if any(big(v) for v in st.mem.values()) or 'G' in st.x and len(st.x['G'][2]) > 24:
            raise Undecided('tokenizer far apart from the reference')

    def blur(self, st):
        """hex digits so far become any digits"""
        sp = st.x['sp'][1]
        if sp[0] == 'hex' and sp[1]:
            self.rename(st, 'h', 0, 16 ** (sp[1] - 1) - 1)
        if 'h1' in st.x:
            self.rename(st, 'h1', 0xD80, 0xDBF)

    def rename(self, st, k, lo, hi):
        p, d = self.norm(st, st.x[k][1]), self.norm(st, st.x[k][2])
        H = 0 if lo == hi else self.num(lo, hi, (k,))
        D = self.num(0, 15, (k,))
        pats = [(add(N.mul(p, 16), d), add(N.mul(H, 16), D)), (p, H), (d, D), (N.mul(p, 16), N.mul(H, 16))]
        pats = [(x, y) for x, y in pats if not isinstance(x, int)]

        def put(v):
            if is_num(v):
                if not isinstance(v, int):
                    for x, y in pats:
                        r = self.norm(st, sub(v, x))
                        if isinstance(r, int):
                            return add(y, r)
                return v
            if isinstance(v, tuple) and any(isinstance(x, tuple) for x in v):
                w = tuple(put(x) if isinstance(x, tuple) else x for x in v)
                return v if w == v else w
            return v
        for c, v in list(st.mem.items()):
            w = put(v)
            if w is not v:
                st.mem[c] = w
        st.x[k] = ('pair', H, D)

    def chars1(self, st, ps):
        out = []
        for p in self.join(st, ps):
            if p[0] == 'e' and is_num(p[1]):
                c = self.norm(st, p[1])
                lo, hi = self.bounds(st, c)
                out.append(('l', chr(lo)) if lo is not None and lo == hi and not 0xD800 <= lo < 0xE000 else ('e', c))
            elif p[0] == 'l':
                out += [('l', c) for c in p[1]]
            else:
                out.append(p)
        return out

    @staticmethod
    def charclass(sp):
        return DIG if sp[0] == 'num' else IDS + DIG if sp[0] == 'id' else None

    def charset_of(self, src):
        return self.charset.get(src)

    def textchar(self, st, src, pos):
        c = self.charset.get(src)
        if c is not None:
            return N.sym(self.newsym(origin=('el', src), ivs=tuple(sorted(c))))
        return super().textchar(st, src, pos)

    def samepiece(self, st, p, q):
        if p == q:
            return True
        if p[0] != q[0]:
            return False
        if p[0] == 'e' and is_num(p[1]) and is_num(q[1]):
            return self.norm(st, sub(p[1], q[1])) == 0
        if p[0] == 'run' and p[1] == q[1]:
            return self.norm(st, sub(p[2], q[2])) == 0 and self.norm(st, sub(p[3], q[3])) == 0
        return False

    def sametext(self, st, v, ps):
        if v[0] == 'sym':
            v = self.force(st, v)
        if v[0] != 'seq':
            return False
        a, b = self.chars1(st, v[2]), self.chars1(st, ps)
        return len(a) == len(b) and all(self.samepiece(st, x, y) for x, y in zip(a, b))

    # ---- numbers
    def isnum(self, st, ps):
        return st.x['sp'][1][0] == 'num' and self.sametext(st, ('seq', 's', ps), st.x['G'][2])

    def numval(self, st):
        k = ('number', self.join(st, st.x['G'][2]))
        v = st.tab.get(k)
        if v is None:
            v = self.num(-BIG, 0, ('number',)) if st.x['sp'][1][1] == '-' else self.num(0, BIG, ('number',))
            st.tab[k] = v
        return self.norm(st, v)

    def text_number(self, st, ps, ty=None):
        if not self.isnum(st, ps):
            return None
        _, sign, md, dot, exp = st.x['sp'][1]
        if dot or exp or not md or sign == '-' and ty is not None and ty[0] == 'u':
            return 'bad'
        return self.numval(st)

    def floatok(self, st):
        _, sign, md, dot, exp = st.x['sp'][1]
        return md and exp in (0, 'd')

    def parse_ok_possible(self, st, ps, ty, radix):
        return not self.isnum(st, ps) or self.floatok(st)

    def parse_err_possible(self, st, ps, ty, radix):
        return not self.isnum(st, ps) or not self.floatok(st)

    # ---- the end
    def root_ret(self, st, data, v):
        was = dict(self.stats)
        try:
            self.judge(st, v)
        except (Split, Undecided):
            for k in ('obligations', 'discharged', 'paths'):
                self.stats[k] = was[k]
            raise

    def variant(self, st, v):
        if v[0] == 'sym':
            self.discr(st, v)
            v = self.force(st, v)
        return v if v[0] == 'agg' else None

    def fail(self, st, kind, msg):
        self.report(st, kind, msg, (self.body.path, self.body.j['span']))

    def judge(self, st, v):
        st.stack.append(Frame(None, 0, 0, 0, 'root'))
        self.stats['paths'] += 1
        r = self.variant(st, v)
        if r is None:
            st.taint = True
            raise Dead()
        ref = st.x['ref']
        sp = st.x['sp'][1]
        look = st.x['last']
        after = None
        free = False
        if look is not None and sp != BAD:
            if sp[0] == 'done':
                after = None
            elif sp[0] in ('ws', 'line', 'blk', 'star', 'str', 'esc') and self.ch(st, look, '\0'):
                # a NUL character stands for the end of the input
                look, after = None, None
            else:
                after = self.peek(st, look)[0]
        if free or 'free' in st.x:
            self.position(st, ref, r)
            raise Dead()
        self.stats['obligations'] += 1
        if r[2] == 0:
            self.okpaths += 1
            bad = self.judge_ok(st, ref, sp, look, after)
        else:
            bad = self.judge_err(st, ref, sp, look, after, self.variant(st, r[3][0]))
        if bad:
            self.fail(st, *bad)
        else:
            self.stats['discharged'] += 1
        self.position(st, ref, r)
        raise Dead()

    def position(self, st, ref, r):
        e = self.variant(st, r[3][0]) if r[2] == 1 else None
        d = None
        if e is not None and e[1] is not None:
            t = self.T(e[1])
            d = {f[0]: x for f, x in zip(t['v'][0]['f'], e[3])}
        for k, w in (('line', 'line'), ('col', 'column')):
            self.stats['obligations'] += 1
            x = self.getf(st, ref, k)
            if self.norm(st, sub(x, st.x[k])) != 0:
                self.fail(st, 'position', 'the %s does not follow the characters read' % w)
            elif d is not None and k in d and is_num(d[k]) and self.norm(st, sub(d[k], st.x[k])) != 0:
                self.fail(st, 'errpos', 'an error does not carry the %s the input has been read to' % w)
            else:
                self.stats['discharged'] += 1

    def judge_ok(self, st, ref, sp, look, after):
        name, tv = self.cur_tok(st, ref)
        k = sp[0]
        if k == 'bad':
            return 'malformed', 'text that is no token is accepted (as %s)' % name
        if k in WHERE:
            if look is None:
                return 'truncated', 'input that ends inside %s is accepted' % WHERE[k]
            return 'malformed', 'a token is returned in the middle of %s' % WHERE[k]
        cur = self.getf(st, ref, 'cur')
        if is_num(cur) and self.norm(st, sub(cur, 0 if look is None else look)) != 0:
            return 'token', 'the current character is not the one after the token'
        if k in ('ws', 'line'):
            if look is None:
                return None if name == 'Eof' else ('token', 'the end of input is read as %s' % name)
            return 'token', '%s is returned where no token has been read' % name
        if k in ('num', 'id') and after is not None and after != BAD:
            return 'token', 'a token ends before its text does'
        self.kinds.add(name)
        keep = {'strbuf', 'numbuf', 'identbuf'} - set({'Str': ('strbuf',), 'Ident': ('identbuf',)}.get(name, ('numbuf', 'identbuf') if name in self.f.classes['lit'] else ()))
        for b in sorted(keep):
            if self.getf(st, ref, b) != st.x['b:' + b] and not self.sameval(st, self.getf(st, ref, b), st.x['b:' + b]):
                return 'buffer', 'the text of an earlier token (%s) is lost' % b
        if k == 'done':
            if name != sp[1]:
                return 'token', '%s is read as %s' % (sp[1], name)
            if name == 'Str' and not self.sametext(st, self.getf(st, ref, 'strbuf'), st.x['G'][2]):
                return 'string', 'the text of a string token is not the one between the quotes'
            if name == 'Char' and self.norm(st, sub(tv[3][0], st.x['chr'])) != 0:
                return 'string', 'the character of a character literal is not the one between the quotes'
            return None
        if k == 'num':
            _, sign, md, dot, exp = sp
            want = 'F64' if dot or exp else 'I64' if sign == '-' else 'U64'
            if name != want:
                return 'token', 'a number is read as %s instead of %s' % (name, want)
            if not md or exp not in (0, 'd'):
                return 'malformed', 'an incomplete number is accepted'
            p = tv[3][0]
            if want == 'F64':
                ok = st.tab.get(('parse', 'f64', self.join(st, st.x['G'][2]))) == p
            else:
                ok = is_num(p) and self.norm(st, sub(p, self.numval(st))) == 0
            return None if ok else ('number', 'the value of a number token is not the number in the text')
        if k == 'id':
            (_, lit), (_, no) = self.idfacts(st)
            t = lit[1] if lit is not None else None
            no = no[1] if no is not None else frozenset()
            w = self.words.get(t)
            if w is not None:
                if name != w[0] or w[1] is not None and self.norm(st, sub(tv[3][0], w[1])) != 0:
                    return 'token', 'the keyword %s is read as something else' % t
                return None
            if t is None and not set(self.words) <= set(no):
                raise Undecided('keyword')
            if self.f is JSON:
                return 'malformed', 'a bare word is accepted'
            if name != 'Ident':
                return 'token', 'an identifier is read as %s' % name
            if not self.sametext(st, self.getf(st, ref, 'identbuf'), st.x['G'][2]):
                return 'string', 'the text of an identifier is not the one in the input'
            return None
        raise Undecided('reference state')

    def sameval(self, st, a, b):
        fa = self.force(st, a) if a[0] == 'sym' else a
        fb = self.force(st, b) if b[0] == 'sym' else b
        return fa[0] == 'seq' and fb[0] == 'seq' and self.sametext(st, fa, fb[2])

    def idfacts(self, st):
        ps = self.join(st, st.x['G'][2])
        if len(ps) == 1 and ps[0][0] == 'run':
            return self.textfacts(st, ps[0])
        return (0, ('lit', ps[0][1]) if len(ps) == 1 and ps[0][0] == 'l' else None), (0, ('lit', frozenset(self.words) if len(ps) > 1 else frozenset()))

    def judge_err(self, st, ref, sp, look, after, e):
        k = sp[0]
        if k == 'bad':
            return None
        if look is None and k in WHERE or look is not None and after == BAD and k not in ('num', 'id'):
            return None
        if k == 'num' and (after is None or after == BAD):
            _, sign, md, dot, exp = sp
            if not md or exp not in (0, 'd'):
                return None
            if not dot and not exp:
                lo, hi = (-(1 << 63), 0) if sign == '-' else (0, (1 << 64) - 1)
                if not self.decide(st, ('rngin', self.numval(st), lo, hi)):
                    return None
            return 'rejected', 'a number is rejected'
        if k == 'id' and self.f is JSON:
            (_, lit), (_, no) = self.idfacts(st)
            t = lit[1] if lit is not None else None
            no = no[1] if no is not None else frozenset()
            if t is None and not set(self.words) <= set(no):
                raise Undecided('keyword')
            if t not in self.words and (after is None or after == BAD):
                return None
        return 'rejected', 'text that is a token or insignificant is rejected (in state %s)' % k
