"""TOML: the tokenizer over arbitrary characters, the value reader and the document reader over arbitrary tokens."""
import re
from . import lin as N
from . import models as M
from .lin import add, sub, neg, is_num
from .interp import State, Frame, UNIT, Dead, Undecided, Split, ISIZE_MAX
from . import canon
from .text import Fmt, TextBase
from .bin import find_type, same, NotSure
from .lexer import LexDec, Free, BAD, WS, DIG, HEX

TOML = Fmt()
TOML.name = 'toml'
TOML.p = 'nanoserde::toml::'
TOML.state, TOML.tok, TOML.err = 'TomlParser', 'TomlTok', 'TomlErr'
TOML.de = TOML.ser = TOML.dem = TOML.serm = None
TOML.classes = {}
TOML.never = ()
TOML.open, TOML.close = ('BlockOpen',), ('BlockClose',)
TOML.word = 'Ident'

# unquoted key characters of TOML (ABNF of toml 1.1)
KEYC = ((0x2D, 0x2D), (0x30, 0x39), (0x41, 0x5A), (0x5F, 0x5F), (0x61, 0x7A), (0xB2, 0xB3), (0xB9, 0xB9), (0xBC, 0xBE), (0xC0, 0xD6),
        (0xD8, 0xF6), (0xF8, 0x37D), (0x37F, 0x1FFF), (0x200C, 0x200D), (0x203F, 0x2040), (0x2070, 0x218F), (0x2460, 0x24FF),
        (0x2C00, 0x2FEF), (0x3001, 0xD7FF), (0xF900, 0xFDCF), (0xFDF0, 0xFFFD), (0x10000, 0xEFFFF))
DOT = ((46, 46),)
ENDS = ((9, 10), (13, 13), (32, 32), (61, 61), (93, 93), (44, 44), (35, 35), (0, 0))
ESC = {'n': '\n', 'r': '\r', 't': '\t', 'b': '\x08', 'f': '\x0c', '"': '"', '\\': '\\'}
PUNCT = {',': 'Comma', '[': 'BlockOpen', ']': 'BlockClose', '=': 'Equals'}
WORDS = {'true': ('Bool', 1), 'false': ('Bool', 0), 'nan': ('Nan', 0), '-nan': ('Nan', 1), 'inf': ('Inf', 0), '-inf': ('Inf', 1)}
OPEN = ('q1', 'bstr', 'esc', 'hex', 'mstr')


def private(prog, name):
    """the body of a private function of the parser: by its name, or else by what it takes and gives"""
    k = TOML.p + TOML.state + '::' + name
    if k in prog.bodies:
        return prog.bodies[k]
    T = prog.types

    def has(b, what, ref=False):
        for l in range(1, b.argc + 1):
            t = T[b.locals[l]]
            if t['k'] == 'ref' and ref:
                t = T[t['t']]
            if t.get('p', '').endswith(what) and (T[b.locals[l]]['k'] == 'ref') == ref:
                return True
        return False
    out = {}
    for key, b in prog.bodies.items():
        if not key.startswith(TOML.p) or b.opaque or not has(b, '::' + TOML.state, True):
            continue
        r = T[b.locals[0]]['s']
        if name == 'next_tok' and r.startswith('core::result::Result<nanoserde::toml::TomlTok,') and not has(b, '::' + TOML.tok):
            out[key] = b
        if name == 'to_val' and r.startswith('core::result::Result<nanoserde::toml::Toml,') and has(b, '::' + TOML.tok):
            out[key] = b
        if name == 'next' and T[b.locals[0]]['s'] == '()' and has(b, '::Chars', True):
            out[key] = b
    if len(out) > 1:
        inner = {c.get('b') for b in out.values() for bl in b.blocks for c in calls(bl) if c.get('b') != b.key}
        out = {k: b for k, b in out.items() if k not in inner}
    return list(out.values())[0] if len(out) == 1 else None


def calls(bl):
    t = bl['t']
    return [x for x in walkd(t) if 'n' in x and 'p' in x]


def walkd(t):
    if isinstance(t, dict):
        yield t
        for x in t.values():
            yield from walkd(x)
    elif isinstance(t, (list, tuple)):
        for x in t:
            yield from walkd(x)


class TomlLex(LexDec):
    def __init__(self, prog):
        super().__init__(prog, TOML)
        self.punct = dict(PUNCT)
        self.words = {w: x for w, x in WORDS.items() if w[0] != '-'}
        self.rawbuf = [f for f in self.fields if f not in ('cur', 'line', 'col')]

    def newstate(self, st):
        ref = super().newstate(st)
        for b in self.rawbuf:
            if self.T(self.T(self.sty)['v'][0]['f'][self.fields[b]][1]).get('p') == 'alloc::string::String':
                self.setf(st, ref, b, self.newtext(st))
        return ref

    def start(self, body):
        self.body = body
        inits = []
        for eof in (False, True):
            st = State()
            ref = self.newstate(st)
            c = None if eof else self.chsym(('char',))
            self.setf(st, ref, 'cur', 0 if eof else c)
            for k in ('line', 'col'):
                self.setf(st, ref, k, self.num(0, ISIZE_MAX, (k,)))
                st.x[k] = self.getf(st, ref, k)
            st.x['sp'] = ('lit', WS)
            st.x['last'] = c
            st.x['eof'] = ('lit', eof)
            st.x['ends'] = st.x['nbad'] = ('lit', 0)
            st.x['sample'] = ('lit', '')
            st.x['ref'] = ref
            st.x['u'] = ('lit', '')
            it = next(self.ncell)
            st.mem[it] = ('iter', 'queue', ('lit', 'input'), 0, 1)
            st.x['it'] = ('ref', it, (), None)
            st.stack.append(Frame(None, 0, 0, 0, 'root'))
            self.push(st, body, [ref, st.x['it']])
            inits.append(st)
        self.run(inits, None)
        return self

    # ---- reference
    def droptext(self, st, ref):
        """the text of a token that is not a word or number is of no interest"""
        if 'R' in st.x:
            return
        for b in self.rawbuf:
            v = self.getf(st, ref, b)
            if v[0] == 'seq' or v[0] == 'sym':
                self.setf(st, ref, b, self.newtext(st))

    def forget(self, st):
        self.droptext(st, st.x['ref'])
        if 'R' not in st.x:
            return super().forget(st)
        st.mem[-1] = st.x['R']
        super().forget(st)
        g, st.x['G'] = st.x['G'], st.mem.pop(-1)
        st.mem[-1] = g
        self.rawcls = True
        try:
            super().forget(st)
        finally:
            self.rawcls = False
        st.x['R'], st.x['G'] = st.x['G'], st.mem.pop(-1)

    rawcls = False

    def charclass(self, sp):
        if self.rawcls:
            return None
        return DIG if sp[0] == 'num' else KEYC + DOT if sp[0] == 'id' else None

    def raw(self, st, c, first=False):
        if 'free' in st.x:
            return ('seq', 's', ())
        return ('seq', 's', self.join(st, (() if first else st.x['R'][2]) + (self.strpiece(st, c),)))

    def advance(self, st, sp, c):
        k = sp[0]
        if k in ('bad', 'done'):
            return BAD, {'R': None}
        if k == 'ws':
            if self.isin(st, c, ((9, 10), (13, 13), (32, 32))):
                return WS, {}
            if self.ch(st, c, '#'):
                return ('cmt',), {}
            for x, t in self.punct.items():
                if self.ch(st, c, x):
                    return ('done', t), {}
            if self.ch(st, c, '"'):
                return ('q1',), {'G': ('seq', 's', ())}
            R = self.raw(st, c, True)
            if self.isin(st, c, DIG):
                return ('num', '', True, False, 0), {'G': R, 'R': R}
            if self.ch(st, c, '-'):
                return ('sgn', '-'), {'G': R, 'R': R}
            if self.ch(st, c, '+'):
                return ('sgn', '+'), {'G': ('seq', 's', ()), 'R': R}
            if self.isin(st, c, KEYC):
                return ('id',), {'G': R, 'R': R}
            return BAD, {}
        if k == 'cmt':
            if self.ch(st, c, '\0'):
                raise Free()
            return (WS if self.ch(st, c, '\n') else sp), {}
        if k in ('sgn', 'num', 'date', 'id', 'word'):
            R = self.raw(st, c)
        if k == 'sgn':
            if self.isin(st, c, DIG):
                return ('num', sp[1], True, False, 0), {'G': self.grown(st, c), 'R': R}
            for x in 'ni':
                if self.ch(st, c, x):
                    return ('word', sp[1], x), {'G': self.grown(st, c), 'R': R}
            if sp[1] == '+' or self.isin(st, c, ((45, 46), (95, 95))):
                raise Free(('id',))
            if self.isin(st, c, KEYC):
                return ('id',), {'G': R, 'R': R}
            return BAD, {'R': None}
        if k == 'word':
            for w in ('nan', 'inf'):
                if w.startswith(sp[2]) and len(w) > len(sp[2]):
                    if self.ch(st, c, w[len(sp[2])]):
                        return ('word', sp[1], sp[2] + w[len(sp[2])]), {'G': self.grown(st, c), 'R': R}
            if len(sp[2]) == 3 and self.isin(st, c, ENDS):
                return BAD, {'R': None}
            raise Free(('id',))
        if k == 'num':
            _, sign, md, dot, exp = sp
            u = st.x['u'][1]
            if self.isin(st, c, DIG):
                return sp, {'G': self.grown(st, c), 'R': R, 'u': ('lit', u[:-1] if u[-1:] == '_' else 'd' if u == '.' else u)}
            if self.ch(st, c, '_'):
                if u[-1:] in ('_', '.'):
                    raise Free()
                return sp, {'R': R, 'u': ('lit', 's_' if not dot else 'd_')}
            if not dot and self.ch(st, c, '.'):
                if u[-1:] == '_':
                    raise Free()
                return ('num', sign, md, True, 0), {'G': self.grown(st, c), 'R': R, 'u': ('lit', '.')}
            if dot:
                if self.isin(st, c, KEYC + DOT + ((43, 43),)):
                    raise Free()
                return BAD, {'R': None}
            if self.ch(st, c, '-'):
                if u or sign:
                    raise Free()
                return ('date',), {'G': self.grown(st, c), 'R': R}
            if self.isin(st, c, KEYC):
                if sign == '+':
                    raise Free(('id',))
                return ('id',), {'G': R, 'R': R, 'u': ('lit', '')}
            return BAD, {'R': None}
        if k == 'date':
            if self.isin(st, c, DIG + ((58, 58), (45, 45), (84, 84))):
                return sp, {'G': self.grown(st, c), 'R': R}
            if self.isin(st, c, KEYC + DOT + ((43, 43),)):
                raise Free()
            return BAD, {'R': None}
        if k == 'id':
            if self.isin(st, c, KEYC + DOT):
                return sp, {'G': self.grown(st, c), 'R': R}
            return BAD, {'R': None}
        if k == 'q1':
            if self.ch(st, c, '"'):
                return ('q2',), {}
            return self.advance(st, ('bstr',), c)
        if k == 'q2':
            return (('mstr', True) if self.ch(st, c, '"') else BAD), {}
        if k == 'bstr':
            if self.ch(st, c, '"'):
                return ('done', 'Str'), {}
            if self.ch(st, c, '\\'):
                return ('esc', ('bstr',)), {}
            if self.isin(st, c, ((0, 0), (10, 10), (13, 13))):
                raise Free()
            return ('bstr',), {'G': self.grown(st, c)}
        if k == 'mstr':
            if self.ch(st, c, '"'):
                return ('mq', 1), {}
            if self.ch(st, c, '\\'):
                return ('esc', ('mstr', False)), {}
            if self.ch(st, c, '\0') or sp[1] and self.isin(st, c, ((10, 10), (13, 13))):
                raise Free(('mstr', False))
            return ('mstr', False), {'G': self.grown(st, c)}
        if k == 'mq':
            n = sp[1]
            if self.ch(st, c, '"'):
                if n == 4:
                    return ('done', 'Str'), {'G': self.quotes(st, 2)}
                return ('mq', n + 1), {}
            if n >= 3:
                return BAD, {}
            st.x['G'] = self.quotes(st, n)
            st.x['sp'] = ('lit', ('mstr', False))
            return self.advance(st, ('mstr', False), c)
        if k == 'esc':
            for x, n in (('u', 4), ('U', 8)):
                if self.ch(st, c, x):
                    return ('hex', 0, n, sp[1]), {'h': ('pair', 0, 0)}
            for x, y in ESC.items():
                if self.ch(st, c, x):
                    return sp[1], {'G': self.grown(st, ord(y))}
            raise Free(sp[1])
        if k == 'hex':
            for (lo, hi), off in HEX:
                if self.decide(st, ('rngin', c, lo, hi)):
                    _, p, d = st.x['h']
                    p, d = self.norm(st, add(N.mul(p, 16), d)), self.norm(st, add(c, -off))
                    break
            else:
                return BAD, {'h': None}
            n = sp[1] + 1
            if n < sp[2]:
                return ('hex', n) + sp[2:], {'h': ('pair', p, d)}
            h = self.norm(st, add(N.mul(p, 16), d))
            if self.decide(st, ('rngin', h, 0xD800, 0xDFFF)) or not self.decide(st, ('rngin', h, 0, 0x10FFFF)):
                return BAD, {'h': None}
            return sp[3], {'G': self.grown(st, h), 'h': None}
        raise Undecided('reference state')

    def quotes(self, st, n):
        g = st.x['G']
        return ('seq', 's', self.join(st, g[2] + ((('l', '"' * n),) if n else ())))

    def isnum(self, st, ps):
        return st.x['sp'][1][0] in ('num', 'sgn', 'word') and self.sametext(st, ('seq', 's', ps), st.x['G'][2])

    def text_number(self, st, ps, ty=None):
        if self.isnum(st, ps) and st.x['sp'][1][0] != 'num':
            return 'bad'
        return super().text_number(st, ps, ty)

    def floatok(self, st):
        return st.x['sp'][1][0] == 'num' and super().floatok(st)

    # ---- the end
    def judge(self, st, v):
        st.stack.append(Frame(None, 0, 0, 0, 'root'))
        self.stats['paths'] += 1
        r = self.variant(st, v)
        if r is None:
            st.taint = True
            raise Dead()
        ref = st.x['ref']
        sp = st.x['sp'][1]
        look = st.x['last']
        after = None
        free = False
        if look is not None and sp != BAD and sp[0] != 'done':
            if sp[0] in ('ws', 'cmt') + OPEN and self.ch(st, look, '\0'):
                # a NUL character stands for the end of the input
                look = None
            else:
                after, upd = self.peek(st, look)
                free = 'free' in upd
                if sp[0] == 'mq' and sp[1] < 3:
                    sp = st.x['sp'][1]
        try:
            if free or 'free' in st.x:
                raise Free()
            self.judge1(st, ref, r, sp, look, after)
        except Free:
            self.position(st, ref, r)
            raise Dead()

    def judge1(self, st, ref, r, sp, look, after):
        if r[2] == 0:
            self.okpaths += 1
            t = self.variant(st, r[3][0])
            if t is None:
                raise Undecided('token')
            bad = self.judge_tok(st, ref, sp, look, after, self.toks[t[2]], t)
        else:
            bad = self.judge_terr(st, ref, sp, look, after)
        self.stats['obligations'] += 1
        if bad:
            self.fail(st, *bad)
        else:
            self.stats['discharged'] += 1
        self.position(st, ref, r)
        raise Dead()

    def istext(self, st, t, g):
        v = self.force(st, t[3][0]) if t[3][0][0] == 'sym' else t[3][0]
        return v[0] == 'seq' and self.sametext(st, v, g[2])

    def judge_tok(self, st, ref, sp, look, after, name, t):
        k = sp[0]
        if k == 'bad':
            return 'malformed', 'text that is no token is accepted (as %s)' % name
        if k in OPEN or k == 'mq' and sp[1] < 3:
            if look is None:
                return 'truncated', 'input that ends inside a string is accepted'
            return 'malformed', 'a token is returned in the middle of a string'
        cur = self.getf(st, ref, 'cur')
        if is_num(cur) and self.norm(st, sub(cur, 0 if look is None else look)) != 0:
            return 'token', 'the current character is not the one after the token'
        if k in ('ws', 'cmt'):
            if look is None:
                self.kinds.add(name)
                return None if name == 'Eof' else ('token', 'the end of input is read as %s' % name)
            return 'token', '%s is returned where no token has been read' % name
        if k != 'done' and after is not None and after != BAD:
            return 'token', 'a token ends before its text does'
        self.kinds.add(name)
        if k in ('done', 'q2', 'mq'):
            want = sp[1] if k == 'done' else 'Str'
            if name != want:
                return 'token', '%s is read as %s' % (want, name)
            if want != 'Str':
                return None
            g = st.x['G'] if k != 'mq' else self.quotes(st, sp[1] - 3)
            return None if self.istext(st, t, g) else ('string', 'the text of a string is not the one between the quotes')
        if k == 'sgn':
            return 'malformed', 'a sign alone is accepted as %s' % name
        bad = self.judge_word(st, sp, name, t, look)
        if bad:
            return bad
        for b in self.rawbuf:
            v = self.getf(st, ref, b)
            if 'R' in st.x and not self.sametext(st, v, st.x['R'][2]):
                return 'keytext', 'the text kept for a bare key is not the one in the input'
        return None

    def judge_word(self, st, sp, name, t, look):
        k = sp[0]
        if k == 'word':
            if len(sp[2]) < 3:
                raise Free()
            w = WORDS[(sp[1] if sp[1] == '-' else '') + sp[2]]
            if name != w[0] or self.norm(st, sub(t[3][0], w[1])) != 0:
                return 'token', '%s%s is read as something else' % sp[1:]
            return None
        if k == 'date':
            if name != 'Date' or not self.istext(st, t, st.x['G']):
                return 'number', 'a date is read as something else'
            return None
        if k == 'num':
            _, sign, md, dot, exp = sp
            u = st.x['u'][1]
            if u[-1:] in ('_', '.'):
                raise Free()
            want = 'F64' if dot else 'I64' if sign == '-' else 'U64'
            if name != want:
                return 'token', 'a number is read as %s instead of %s' % (name, want)
            p = t[3][0]
            if dot:
                ok = st.tab.get(('parse', 'f64', self.join(st, st.x['G'][2]))) == p
            else:
                ok = is_num(p) and self.norm(st, sub(p, self.numval(st))) == 0
            return None if ok else ('number', 'the value of a number token is not the number in the text')
        if k == 'id':
            (_, lit), (_, no) = self.idfacts(st)
            w = lit[1] if lit is not None else None
            no = no[1] if no is not None else frozenset()
            if w in self.words:
                n, b = self.words[w]
                if name != n or self.norm(st, sub(t[3][0], b)) != 0:
                    return 'token', 'the word %s is read as something else' % w
                return None
            if w is None and not self.notwords(st, no):
                raise Undecided('keyword')
            if name != 'Ident':
                return 'token', 'a bare word is read as %s' % name
            if not self.istext(st, t, st.x['G']):
                return 'string', 'the text of a bare word is not the one in the input'
            return None
        raise Undecided('reference state')

    def notwords(self, st, no):
        ps = self.join(st, st.x['G'][2])
        if len(ps) == 1 and ps[0][0] == 'run':
            return {w for w in self.words} <= set(no)
        # pieces: only words that fit the beginning can be meant
        head = ps[0][1] if ps and ps[0][0] == 'l' else ''
        if not head:
            return False
        fit = [w for w in self.words if w.startswith(head) or head.startswith(w)]
        if not fit:
            return True
        if len(ps) == 2 and ps[1][0] == 'run':
            (_, lit), (_, n2) = self.textfacts(st, ps[1])
            if lit is not None:
                return head + lit[1] not in self.words
            n2 = n2[1] if n2 is not None else frozenset()
            return all(w[len(head):] in n2 for w in fit if w.startswith(head))
        return False

    def judge_terr(self, st, ref, sp, look, after):
        k = sp[0]
        if k in ('bad', 'sgn') or k == 'word' and len(sp[2]) < 3:
            return None
        if k in OPEN or k == 'mq' and sp[1] < 3:
            return None if look is None or after == BAD else ('rejected', 'a string is rejected')
        if k == 'id' and look is not None and after == BAD and not self.isin(st, look, ENDS):
            return None
        if k == 'num' and (after is None or after == BAD):
            _, sign, md, dot, exp = sp
            if st.x['u'][1][-1:] in ('_', '.'):
                return None
            if not dot and not self.decide(st, ('rngin', self.numval(st), -(1 << 63), (1 << 63) - 1)):
                return None
            return 'rejected', 'a number is rejected'
        if k == 'ws' and look is not None and after == BAD:
            return None
        if after is not None and after != BAD:
            return 'rejected', 'text is rejected in the middle (in state %s)' % k
        return 'rejected', 'text that is a token or insignificant is rejected (in state %s)' % k


# ---------------------------------------------------------------- over any tokens
VALUES = ('Str', 'U64', 'I64', 'F64', 'Bool', 'Nan', 'Inf', 'Date', 'BlockOpen')
WORDLIKE = ('Ident', 'U64', 'I64', 'F64', 'Bool', 'Nan', 'Inf', 'Date')


class TomlToks(TextBase):
    """the tokenizer replaced by its contract; every token kind is followed"""
    maxsteps = 3000000

    def __init__(self, prog):
        super().__init__(prog, TOML)
        self.conts['root'] = self.root_ret
        self.vty = find_type(prog, lambda t: t['k'] == 'adt' and t['p'].endswith('::toml::Toml'))
        self.vkinds = [v['n'] for v in self.T(self.vty)['v']]
        self.okpaths = 0
        self.fns = {}
        self.strs = [f for f in self.fields if f not in ('cur', 'line', 'col') and
                     self.T(self.T(self.sty)['v'][0]['f'][self.fields[f]][1]).get('p') == 'alloc::string::String']

    def fresh_pos(self, st, ref):
        super().fresh_pos(st, ref)
        for k in ('line', 'col'):
            st.x[k] = self.getf(st, ref, k)

    def is_tok_fn(self, cal, name):
        if name not in self.fns:
            b = private(self.p, name)
            self.fns[name] = b.key if b is not None else None
        return cal.get('b') is not None and cal.get('b') == self.fns[name]

    def pending(self, st):
        if st.x['pend'] is not None:
            self.report(st, 'swallowed', 'reading continues after a token or value failed')
            raise Dead()

    def variants(self, st):
        """(kind, payload, text of a bare word)"""
        for n in self.toks:
            if n in ('Bool', 'Nan', 'Inf'):
                for b in (0, 1):
                    w = {'Bool': ('false', 'true'), 'Nan': ('nan', '-nan'), 'Inf': ('inf', '-inf')}[n][b]
                    yield n, (b,), ('seq', 's', (('l', w),))
            elif n in ('Ident', 'Date', 'Str'):
                t = self.newtext(st)
                if n != 'Str':
                    self.assume_ge(st, add(t[2][0][3], -1))
                yield n, (t,), (t if n != 'Str' else None)
            elif n in ('U64', 'I64', 'F64'):
                t = self.newtext(st)
                self.assume_ge(st, add(t[2][0][3], -1))
                v = self.num(0, (1 << 63) - 1, ('number',)) if n == 'U64' else self.num(-(1 << 63), 0, ('number',)) if n == 'I64' else self.opaque(self.p.byname['f64'], ('number',))
                yield n, (v,), t
            else:
                yield n, (), None

    def tokens(self, st, ref, step):
        """any token, or a failure; step(state, kind, payload, text) moves the reference on"""
        outs = []
        for n in range(len(list(self.variants(st.clone())))):
            s = st.clone()
            s.steps += 1
            name, pay, txt = list(self.variants(s))[n]
            self.fresh_pos(s, ref)
            for b in self.strs:
                self.setf(s, ref, b, txt if txt is not None else self.newtext(s))
            step(s, name, pay, txt)
            outs.append((s, M.OK(('agg', self.tty, self.toks.index(name), pay))))
        outs.append(self.failing(st, ref))
        self.outcomes(outs)

    def failing(self, st, ref):
        s = st.clone()
        s.steps += 1
        self.fresh_pos(s, ref)
        for b in self.strs:
            self.setf(s, ref, b, self.newtext(s))
        v = self.opaque(self.ety, ('error',))
        s.x['pend'] = v
        return s, M.ERR(v)

    def outcomes(self, outs):
        ss = []
        for s, r in outs:
            saved, self.moves = self.moves, list(self.moves)
            self.deliver(s, r)
            self.moves = saved
            ss.append(s)
        self.moves = []
        raise Split(ss)

    def merge(self, st):
        w = canon.Walk(self, st).walk()
        sk = ('merge',) + tuple(w.sk)
        if canon.covered(self, st, w, sk):
            self.stats['covered'] += 1
            raise Dead()
        canon.store(self, st, w.slots, sk)

    def hook_call(self, st, cal, args):
        if self.is_tok_fn(cal, 'next_tok'):
            self.pending(st)
            self.lex(st, M.deep(self, st, args[0]))
            return True
        if self.is_tok_fn(cal, 'to_val'):
            self.pending(st)
            self.nested(st, M.deep(self, st, args[0]), args)
            return True
        return None

    def nested(self, st, ref, args):
        """a value read from the token given"""
        t = next((a for a in args if isinstance(a, tuple) and (a[0] == 'agg' and a[1] == self.tty or a[0] == 'sym' and self.symty.get(a[1]) == self.tty)), None)
        if t is None:
            raise Undecided('token of a value')
        for a in args:
            if is_num(a) and not self.prove(st, sub(add(st.x.get('depth', 0), 1), a)):
                raise Undecided('depth of a nested value')
        cur = st.x['tok']
        if cur is None or not self.sametok(st, t, cur):
            self.report(st, 'swallowed', 'a value is read from a token that is not the last one')
            raise Dead()
        name = self.toks[cur[2]]
        st.x['tok'] = None
        if name not in VALUES:
            self.outcomes([self.failing(st, ref)])
        s = st.clone()
        s.steps += 1
        self.fresh_pos(s, ref)
        for b in self.strs:
            self.setf(s, ref, b, self.newtext(s))
        v = self.onvalue(s)
        self.outcomes([(s, M.OK(v)), self.failing(st, ref)])

    def sametok(self, st, a, b):
        if a[0] == 'sym':
            a = self.force(st, a)
        return a[0] == 'agg' and a[2] == b[2] and all(same(self, st, x, y) is True for x, y in zip(a[3], b[3]))

    # ---- the end
    def variant(self, st, v):
        if v[0] == 'sym':
            self.discr(st, v)
            v = self.force(st, v)
        return v if v[0] == 'agg' else None

    def root_ret(self, st, data, v):
        was = dict(self.stats)
        try:
            self.judge(st, v)
        except (Split, Undecided):
            for k in ('obligations', 'discharged', 'paths'):
                self.stats[k] = was[k]
            raise
        except NotSure as x:
            for k in ('obligations', 'discharged', 'paths'):
                self.stats[k] = was[k]
            raise Undecided(str(x))

    def judge(self, st, v):
        st.stack.append(Frame(None, 0, 0, 0, 'root'))
        self.stats['paths'] += 1
        r = self.variant(st, v)
        if r is None:
            st.taint = True
            raise Dead()
        self.stats['obligations'] += 2
        pend = st.x['pend']
        bad = None
        if pend is not None:
            e = r[3][0]
            x = st.tab.get(pend[1])
            if r[2] == 0:
                bad = 'swallowed', 'a token or value failed but the document is accepted'
            elif not (e == pend or e[0] == 'sym' and e[1] == pend[1] or x is not None and x == e):
                bad = 'replaced', 'the error of a token or value was replaced by another one'
        elif r[2] == 0:
            self.okpaths += 1
            bad = self.judge_ok(st, r[3][0])
        else:
            bad = self.judge_err(st)
            e = self.variant(st, r[3][0])
            if e is not None and e[1] is not None:
                d = {f[0]: x for f, x in zip(self.T(e[1])['v'][0]['f'], e[3])}
                for k in ('line', 'col'):
                    if k in d and is_num(d[k]) and self.norm(st, sub(d[k], st.x[k])) != 0:
                        self.report(st, 'errpos', 'an error does not carry the position the input has been read to', self.site0())
        if bad:
            self.report(st, bad[0], bad[1], self.site0())
        else:
            self.stats['discharged'] += 2
        raise Dead()


class TomlVal(TomlToks):
    """the reader of one value, given its first token"""

    def start(self, body):
        self.body = body
        self.depth = None
        inits = []
        st0 = State()
        n = len(list(self.variants(st0)))
        for i in range(n):
            st = State()
            name, pay, txt = list(self.variants(st))[i]
            tok = ('agg', self.tty, self.toks.index(name), pay)
            ref = self.newstate(st)
            args = []
            for l in range(1, body.argc + 1):
                t = self.T(body.locals[l])
                u = self.T(t['t']) if t['k'] == 'ref' else t
                if t['k'] == 'ref' and body.locals[l] is not None and t['t'] == self.sty:
                    args.append(ref)
                elif body.locals[l] == self.tty:
                    args.append(tok)
                else:
                    v = self.fresh(st, body.locals[l], ('argument', l))
                    if is_num(v):
                        # it grows by one with each call inside another
                        self.assume_ge(st, sub(1 << 40, v))
                        st.x['depth'] = v
                    args.append(v)
            self.fresh_pos(st, ref)
            st.x['pend'] = None
            st.x['root'] = tok
            st.x['tok'] = tok
            st.x['s'] = ('lit', 'start')
            st.x['k'] = 0
            st.stack.append(Frame(None, 0, 0, 0, 'root'))
            self.push(st, body, args)
            inits.append(st)
        self.run(inits, None)
        return self

    src = None

    def elemty(self, sid):
        return self.vty if sid == self.src and sid is not None else super().elemty(sid)

    def onvalue(self, st):
        if self.src is None:
            self.src = next(self.nsym)
            self.symty[self.src] = None
            self.sorig[self.src] = ('value',)
        k = st.x['k']
        st.x['k'] = self.norm(st, add(k, 1))
        return self.elem(st, self.src, k)

    def spent(self, st):
        """the last token is left behind for another one"""
        t = st.x['tok']
        if t is None:
            return
        n = self.toks[t[2]]
        s = st.x['s'][1]
        if s == 'start':
            st.x['s'] = ('lit', 'list' if n == 'BlockOpen' else 'over')
        elif s == 'list' and n != 'Comma':
            st.x['s'] = ('lit', 'done' if n == 'BlockClose' else 'bad')
        elif s in ('done', 'over'):
            st.x['s'] = ('lit', 'over')
        st.x['tok'] = None

    def lex(self, st, ref):
        self.spent(st)
        if st.x['s'][1] in ('done', 'over'):
            self.report(st, 'overrun', 'a token is read behind the end of a value')
            raise Dead()
        if st.x['s'][1] == 'bad':
            self.report(st, 'malformed', 'an array is read on behind a token that cannot be in it')
            raise Dead()
        self.merge(st)

        def step(s, name, pay, txt):
            s.x['tok'] = ('agg', self.tty, self.toks.index(name), pay)
        self.tokens(st, ref, step)

    def judge_ok(self, st, v):
        t = st.x['root']
        name = self.toks[t[2]]
        self.spent(st)
        s = st.x['s'][1]
        v = self.variant(st, v)
        if v is None:
            raise Undecided('value')
        kind = self.vkinds[v[2]]
        if name == 'BlockOpen':
            if s != 'done':
                return 'truncated', 'an array that is not closed is accepted'
            if kind != 'SimpleArray':
                return 'value', 'an array is read as %s' % kind
            xs = v[3][0]
            xs = self.force(st, xs) if xs[0] == 'sym' else xs
            k = st.x['k']
            want = ('seq', 'v', (('run', self.src, 0, k),)) if self.src is not None and self.norm(st, k) != 0 else ('seq', 'v', ())
            r = same(self, st, want, xs)
            if self.prove(st, k) and self.prove(st, neg(k)):
                r = True if xs[0] == 'seq' and self.norm(st, self.slen(st, xs)) == 0 else r
            return None if r is True else ('value', 'the elements of an array are not the ones in the document: %s' % r)
        if name not in VALUES:
            return 'malformed', '%s is accepted as a value' % name
        want = {'U64': 'Num', 'I64': 'Num', 'F64': 'Num', 'Nan': 'Num', 'Inf': 'Num'}.get(name, name)
        if kind != want:
            return 'value', 'a value written as %s is read as %s' % (name, kind)
        x, p = v[3][0], t[3][0]
        if name in ('Str', 'Date', 'Bool'):
            r = same(self, st, p, x)
            return None if r is True else ('value', 'the content of a %s is changed: %s' % (name, r))
        if name == 'F64':
            return None if same(self, st, p, x) is True else ('value', 'a number is changed')
        if name in ('U64', 'I64'):
            if isinstance(x, tuple) and x[0] == 'i2f' and x[2] == 'f64' and self.norm(st, sub(x[1], p)) == 0:
                return None
            return 'value', 'a number is changed'
        b = self.fbits(st, x)
        if b is None:
            raise Undecided('float')
        neg_ = bool(b >> 63)
        m = b & ((1 << 63) - 1)
        inf = 0x7FF << 52
        if not (m == inf if name == 'Inf' else m > inf):
            return 'value', 'a special number is read as another number'
        if neg_ != bool(self.norm(st, p)):
            return 'value', 'the sign of a special number is changed'
        return None

    def fbits(self, st, x):
        if isinstance(x, tuple) and x[0] == 'f' and isinstance(x[1], int):
            return x[1]
        if isinstance(x, tuple) and x[0] == 'fneg':
            b = self.fbits(st, x[1])
            return None if b is None else b ^ (1 << 63)
        return None

    def judge_err(self, st):
        name = self.toks[st.x['root'][2]]
        if name not in VALUES:
            return None
        s0 = st.x['s'][1]
        self.spent(st)
        s = st.x['s'][1]
        if name == 'BlockOpen':
            if s0 == 'start':
                # nested too deeply: a matter of how deep, not of the text
                d = st.x.get('depth')
                if d is None or self.decide(st, ('cmp', 'ge', add(d, -16))):
                    return None
                return 'rejected', 'an array is rejected unread'
            return None if s == 'bad' else ('rejected', 'an array is rejected')
        return 'rejected', 'a value is rejected'


MAP = re.compile(r'^alloc::collections::btree::map::BTreeMap::<.*>::(\w+)$|^<alloc::collections::btree::map::BTreeMap<.*> as core::(?:ops::index::Index|default::Default)\b.*::(\w+)$')
ENTRY = re.compile(r'^alloc::collections::btree::map::entry::Entry::<.*>::(\w+)$')
ABSENT = ('lit', 'absent')


class TomlDoc(TomlToks):
    """the reader of documents: where keys, headers and array headers end up"""
    collapse_at = 1 << 30
    widen_at = 200

    def start(self, body):
        self.body = body
        st = State()
        st.x.update({'pend': None, 'tok': None, 's': ('lit', 'line'), 'scope': None, 'key': None, 'hkey': None, 'active': None,
                     'exp': None, 'expv': None, 'started': ('lit', False), 'primed': ('lit', 0)})
        for k in ('line', 'col'):
            st.x[k] = 0
        args = [self.fresh(st, body.locals[l], ('argument', l)) for l in range(1, body.argc + 1)]
        st.stack.append(Frame(None, 0, 0, 0, 'root'))
        self.push(st, body, args)
        self.run([st], None)
        return self

    # ---- the maps
    def ismap(self, v):
        return isinstance(v, tuple) and len(v) == 4 and v[0] == 'agg' and v[1] is None and v[3] and v[3][0] == ('lit', 'omap')

    def newmap(self, base, ents=()):
        return ('agg', None, 0, (('lit', 'omap'), base) + tuple(ents))

    def getmap(self, st, a):
        r = M.deep(self, st, a)
        v = self.read(st, r[1], r[2]) if r[0] == 'ref' else r
        if v[0] == 'sym':
            v = self.force(st, v)
        if self.ismap(v):
            return r, v
        if v[0] == 'sym':
            t = self.symty.get(v[1])
            if t is not None and 'BTreeMap' in self.T(t)['s']:
                return r, self.newmap(v)
        if v[0] == 'seq' and v[1] == 'map' and not v[2]:
            return r, self.newmap(('lit', 'new'))
        return r, None

    def putmap(self, st, r, m):
        if r[0] != 'ref':
            raise Undecided('map behind a shared reference')
        self.write(st, r[1], r[2], m)

    def text(self, st, a):
        r, t = M.target(self, st, a)
        if isinstance(t, tuple) and t[0] == 'sym':
            t = self.force(st, t)
        if not (isinstance(t, tuple) and t[0] == 'seq'):
            raise Undecided('key')
        return ('seq', 's', self.join(st, tuple(M.pieces_of(self, st, a) if r is not None else t[2])))

    def eqtext(self, st, a, b):
        if a == b:
            return True
        a, b = self.text(st, a), self.text(st, b)
        if a == b:
            return True
        k = ('eqtext',) + tuple(sorted((a, b), key=repr))
        v = st.tab.get(k)
        if v is None:
            r = M.str_eq(self, st, a[2], b[2])
            if isinstance(r, int):
                return bool(r)
            v = st.tab[k] = self.num(0, 1, ('same text',))
        return self.decide(st, ('cmp', 'eq', add(self.norm(st, v), -1)))

    def find(self, st, m, key):
        for i, e in enumerate(m[3][2:]):
            if self.eqtext(st, e[3][0], key):
                return i + 2
        return None

    def lookup(self, st, r, m, key):
        """(map, index) of the entry for key, which may be absent"""
        i = self.find(st, m, key)
        if i is not None:
            if st.x['exp'] == ('lit', 'arr') and m[3][1] == ('lit', 'top') and self.eqtext(st, key, st.x['hkey']):
                st.x['held'] = m[3][i][3][2]
            return m, i
        if m[3][1] == ('lit', 'new'):
            m = ('agg', None, 0, m[3] + (('agg', None, 0, (key, ABSENT, ABSENT)),))
            return m, len(m[3]) - 1
        if r[0] != 'ref':
            raise Undecided('map behind a shared reference')
        outs = []
        for present in (False, True):
            s = st.clone()
            if present:
                c = next(self.ncell)
                v = self.opaque(self.vty, ('stored',))
                s.mem[c] = v
                e = ('agg', None, 0, (key, ('ref', c, (), None), v))
            else:
                e = ('agg', None, 0, (key, ABSENT, ABSENT))
            self.putmap(s, r, ('agg', None, 0, m[3] + (e,)))
            outs.append(s)
        raise Split(outs)

    def setent(self, m, i, now):
        e = m[3][i]
        return ('agg', None, 0, m[3][:i] + (('agg', None, 0, (e[3][0], now, e[3][2])),) + m[3][i + 1:])

    def hook_call(self, st, cal, args):
        if self.is_tok_fn(cal, 'next'):
            st.x['primed'] = ('lit', st.x['primed'][1] + 1)
            if st.x['primed'][1] > 1 or st.x['started'][1]:
                self.report(st, 'skipchar', 'a character is read outside the tokens of the document')
                raise Dead()
            self.fresh_pos(st, M.deep(self, st, args[0]))
            self.deliver(st, UNIT)
            return True
        for nm in (cal.get('rp'), cal.get('p'), cal.get('full')):
            m = MAP.search(nm or '')
            if m:
                return self.mapop(st, cal, m.group(1) or m.group(2), args)
            m = ENTRY.search(nm or '')
            if m:
                return self.entryop(st, cal, m.group(1), args)
        return super().hook_call(st, cal, args)

    def mapop(self, st, cal, n, args):
        if n in ('new', 'default'):
            self.deliver(st, self.newmap(('lit', 'new')))
            return True
        if n not in ('insert', 'contains_key', 'get', 'get_mut', 'index', 'remove', 'entry'):
            raise Undecided('BTreeMap::' + n)
        r, m = self.getmap(st, args[0])
        if m is None:
            return None
        key = self.text(st, args[1])
        if n == 'entry':
            self.deliver(st, ('agg', None, 0, (('lit', 'oentry'), args[0], key)))
            return True
        m, i = self.lookup(st, r, m, key)
        now = m[3][i][3][1]
        if n == 'contains_key':
            out = int(now != ABSENT)
        elif n in ('get', 'get_mut'):
            self.putmap(st, r, m)
            out = M.NONE if now == ABSENT else M.SOME(now)
        elif n == 'index':
            self.stats['obligations'] += 1
            if now == ABSENT:
                self.report(st, 'panic', 'an entry that may be missing is indexed')
                raise Dead()
            self.stats['discharged'] += 1
            out = now
        elif n == 'remove':
            out = M.NONE if now == ABSENT else M.SOME(self.read(st, now[1], now[2]))
            self.putmap(st, r, self.setent(m, i, ABSENT))
        else:
            out = M.NONE if now == ABSENT else M.SOME(self.read(st, now[1], now[2]))
            c = next(self.ncell)
            st.mem[c] = args[2]
            self.putmap(st, r, self.setent(m, i, ('ref', c, (), None)))
        self.deliver(st, out)
        return True

    def entryop(self, st, cal, n, args):
        a = args[0]
        if not (a[0] == 'agg' and a[3] and a[3][0] == ('lit', 'oentry')):
            return None
        r, m = self.getmap(st, a[3][1])
        m, i = self.lookup(st, r, m, a[3][2])
        now = m[3][i][3][1]
        if n in ('or_insert', 'or_insert_with'):
            if now != ABSENT:
                self.putmap(st, r, m)
                self.deliver(st, now)
                return True
            if n == 'or_insert':
                v = args[1]
            else:
                v = self.purecall(st, args[1])
            c = next(self.ncell)
            st.mem[c] = v
            self.putmap(st, r, self.setent(m, i, ('ref', c, (), None)))
            self.deliver(st, ('ref', c, (), None))
            return True
        raise Undecided('Entry::' + n)

    def purecall(self, st, f):
        """the value of a closure without captures: an empty array of tables"""
        t = self.T(f[1]) if f[0] == 'agg' and f[1] is not None else None
        b = self.p.bodies.get(t['b']) if t and t['k'] == 'closure' else None
        if b is None:
            raise Undecided('closure')
        raise Undecided('closure')

    def entval(self, st, e, k):
        v = e[3][k]
        return v if v == ABSENT or k == 2 else self.read(st, v[1], v[2])

    # ---- comparing maps with what they were
    def changes(self, st, m):
        """entries that differ from what they were: (key, before, now)"""
        if not self.ismap(m):
            return []
        out = []
        for e in m[3][2:]:
            was, now = e[3][2], self.entval(st, e, 1)
            if not self.unchanged(st, was, now):
                out.append((e[3][0], was, now))
        return out

    def unchanged(self, st, was, now):
        if was == now:
            return True
        if ABSENT in (was, now):
            return False
        a = self.force(st, was) if was[0] == 'sym' else was
        b = self.force(st, now) if now[0] == 'sym' else now
        if a == b:
            return True
        if a[0] != b[0]:
            return False
        if a[0] == 'agg' and not self.ismap(a) and a[1] == b[1] and a[2] == b[2] and len(a[3]) == len(b[3]):
            return all(self.unchanged(st, x, y) for x, y in zip(a[3], b[3]))
        if a[0] == 'seq':
            return self.grownby(st, a, b) == ()
        return False

    def grownby(self, st, a, b):
        """pieces behind the old contents, or None when those are changed"""
        ps, qs = self.flat(st, a[2]), self.flat(st, b[2])
        if len(qs) < len(ps):
            return None
        for p, q in zip(ps, qs):
            if not self.samepart(st, p, q):
                return None
        return tuple(qs[len(ps):])

    def flat(self, st, ps):
        return [p for p in self.join(st, ps) if self.norm(st, self.plen(st, p)) != 0]

    def samepart(self, st, p, q):
        if p == q:
            return True
        if p[0] != q[0]:
            return False
        if p[0] == 'run':
            return p[1] == q[1] and self.norm(st, sub(p[2], q[2])) == 0 and self.norm(st, sub(p[3], q[3])) == 0
        if p[0] == 'e':
            if self.ismap(q[1]):
                return (q[1][3][1] == p[1] or self.ismap(p[1]) and q[1][3][1] == p[1][3][1]) and not self.changes(st, q[1])
            return p[1] == q[1]
        return False

    # ---- the lines of a document
    def findtop(self, st):
        want = ('lit', 'top') if st.x['started'][1] else ('lit', 'new')
        found = []

        def scan(v, d=0):
            if isinstance(v, tuple):
                if self.ismap(v):
                    if v[3][1] == want:
                        found.append(v)
                    return
                for x in v:
                    if isinstance(x, tuple):
                        scan(x, d + 1)
        for v in st.mem.values():
            scan(v)
        if len(found) != 1:
            raise Undecided('the table being filled (%d candidates)' % len(found))
        return found[0]

    def checktop(self, st, top):
        """the table holds what it held, and what the last line added"""
        self.stats['obligations'] += 1
        exp = st.x['exp']
        bad = None
        ch = self.changes(st, top)
        if exp is None:
            if ch:
                bad = 'a line without a key changes the table'
        elif exp[1] == 'arr':
            if len(ch) != 1:
                bad = 'an array-of-tables header changes %s entries' % ('no' if not ch else len(ch))
            else:
                key, was, now = ch[0]
                if not self.eqtext(st, key, st.x['hkey']):
                    bad = 'an array-of-tables header changes another entry'
                elif not self.pushed(st, was, now):
                    bad = 'an array-of-tables header does not add one empty table to its array'
        else:
            act = st.x['active']
            if act is None:
                bad = self.checkkv(st, ch, st.x['expv'])
            else:
                if len(ch) != 1 or not self.eqtext(st, ch[0][0], act):
                    bad = 'a key behind an array-of-tables header is not stored in its newest table'
                else:
                    bad = self.checkelem(st, ch[0])
        if bad:
            self.report(st, 'place', bad, self.site0())
            raise Dead()
        self.stats['discharged'] += 1

    def checkkv(self, st, ch, v):
        if len(ch) != 1:
            return 'a key and value change %s entries of the table they belong to' % ('no' if not ch else len(ch))
        key, was, now = ch[0]
        if now == ABSENT or same(self, st, v, now) is not True:
            return 'the value stored for a key is not the one in the document'
        for want in self.fullkeys(st):
            if self.eqtext(st, key, want):
                return None
        return 'a value is stored under another key than the header and key in the document say'

    def fullkeys(self, st):
        k, s = st.x['key'], st.x['scope']
        if s is None or st.x['active'] is not None:
            return [k]
        return [('seq', 's', self.join(st, s[2] + (('l', '.'),) + k[2]))]

    def arr(self, st, v):
        v = self.variant(st, v)
        if v is None or v[1] != self.vty or self.vkinds[v[2]] != 'Array':
            return None
        x = v[3][0]
        return self.force(st, x) if x[0] == 'sym' else x

    def pushed(self, st, was, now):
        b = self.arr(st, now)
        if b is None or b[0] != 'seq':
            return False
        if was == ABSENT:
            new = self.flat(st, b[2])
        else:
            a = self.arr(st, was)
            if a is None or a[0] != 'seq':
                return False
            new = self.grownby(st, a, b)
            if new is None:
                return False
        return len(new) == 1 and new[0][0] == 'e' and self.ismap(new[0][1]) and new[0][1][3][1] == ('lit', 'new') and \
            all(e[3][1] == ABSENT for e in new[0][1][3][2:])

    def checkelem(self, st, c):
        key, was, now = c
        a, b = self.arr(st, was) if was != ABSENT else None, self.arr(st, now) if now != ABSENT else None
        if a is None or b is None or a[0] != 'seq' or b[0] != 'seq':
            return 'the array of tables being filled is replaced'
        ps, qs = self.flat(st, a[2]), self.flat(st, b[2])
        if len(ps) != len(qs) or not ps or not all(self.samepart(st, p, q) for p, q in zip(ps[:-1], qs[:-1])):
            return 'a key behind an array-of-tables header is not stored in its newest table'
        if qs[-1][0] != 'e' or not self.ismap(qs[-1][1]):
            return 'the newest table of an array is replaced'
        m = qs[-1][1]
        if not (self.ismap(ps[-1][1]) and ps[-1][1][3][1] == m[3][1]):
            return 'the newest table of an array is replaced'
        return self.checkkv(st, self.changes(st, m), st.x['expv'])

    def head(self, st):
        """between two lines: check the table, then forget what it holds"""
        top = self.findtop(st)
        self.checktop(st, top)
        if st.x['exp'] is not None and st.x['exp'][1] == 'arr':
            st.x['active'] = st.x['hkey']
            st.x['scope'] = None
        ents = ()
        act = st.x['active']
        if act is not None:
            i = self.find(st, top, act)
            if i is None:
                raise Undecided('active array')
            e = top[3][i]
            b = self.arr(st, self.entval(st, e, 1))
            ps = self.flat(st, b[2])
            n = self.norm(st, add(self.slen(st, b), -1))
            last = self.newmap(('lit', 'newest'))
            src = self.srcof()
            new = ('agg', self.vty, self.vkinds.index('Array'), (('seq', 'v', ((('run', src, 0, n),) if n != 0 else ()) + (('e', last),)),))
            c = next(self.ncell)
            st.mem[c] = new
            ents = (('agg', None, 0, (e[3][0], ('ref', c, (), None), new)),)
        self.setall(st, top, self.newmap(('lit', 'top'), ents))
        for k in ('scope', 'active'):
            if st.x[k] is not None:
                self.anytext(st, st.x[k])
        st.x['started'] = ('lit', True)
        for k in ('exp', 'expv', 'key', 'hkey'):
            st.x[k] = None
        st.x.pop('held', None)

    def anytext(self, st, t):
        """a particular name becomes any name"""
        if len(t[2]) != 1 or t[2][0][0] != 'l':
            return
        w = t[2][0][1]
        new = self.newtext(st)
        self.assume_ge(st, add(new[2][0][3], -1))
        self.setall(st, ('seq', 's', (('l', w),)), new)
        self.setall(st, ('seq', 's', (('l', w + '.'),)), ('seq', 's', new[2] + (('l', '.'),)))
        for k, v in st.x.items():
            if v == t:
                st.x[k] = new

    def setall(self, st, top, new):
        def put(v):
            if isinstance(v, tuple):
                if v == top:
                    return new
                if any(isinstance(x, tuple) for x in v):
                    w = tuple(put(x) if isinstance(x, tuple) else x for x in v)
                    return v if w == v else w
            return v
        for c, v in list(st.mem.items()):
            w = put(v)
            if w is not v:
                st.mem[c] = w

    src = None

    def srcof(self):
        if self.src is None:
            self.src = next(self.nsym)
            self.symty[self.src] = None
            self.sorig[self.src] = ('tables',)
            self.mapty = next(i for i, t in enumerate(self.p.types) if t['k'] == 'adt' and t['s'].startswith('alloc::collections::btree::map::BTreeMap<alloc::string::String, nanoserde::toml::Toml'))
        return self.src

    def elemty(self, sid):
        return self.mapty if sid is not None and sid == self.src else super().elemty(sid)

    def lex(self, st, ref):
        s = st.x['s'][1]
        if s in ('end', 'bad'):
            self.report(st, 'malformed', 'reading goes on behind %s' % ('the end of the document' if s == 'end' else 'a line that has no form'))
            raise Dead()
        if s == 'v' and st.x['tok'] is not None:
            self.report(st, 'place', 'the token of a value is dropped')
            raise Dead()
        if not st.x['started'][1] and st.x['primed'][1] == 0 and self.getf(st, ref, 'cur') == 0:
            self.report(st, 'skipchar', 'the first character is never read')
            raise Dead()
        if s == 'line':
            self.head(st)
        elif s == 'hh2':
            # whichever array is named now becomes the one being filled
            top = self.findtop(st)
            self.checktop(st, top)
            self.setall(st, top, self.newmap(('lit', 'top')))
        st.x['tok'] = None
        self.merge(st)
        self.tokens(st, ref, self.step1)

    def step1(self, st, n, pay, txt):
        s = st.x['s'][1]
        word = pay[0] if n in ('Str', 'Ident') else txt
        to = 'bad'
        if s == 'line':
            if n == 'Eof':
                to = 'end'
            elif n == 'BlockOpen':
                to = 'h'
            elif n == 'Str' or n in WORDLIKE:
                to = 'k'
                st.x['key'] = word
        elif s in ('h', 'hh'):
            if n == 'BlockOpen' and s == 'h':
                to = 'hh'
            elif n == 'Str' or n in WORDLIKE:
                to = s + '1'
                st.x['hkey'] = word
                st.x['odd'] = ('lit', n)
        elif s == 'h1' and n == 'BlockClose':
            to = 'line'
            st.x['scope'], st.x['active'] = st.x['hkey'], None
            st.x['hkey'] = None
        elif s == 'hh1' and n == 'BlockClose':
            to = 'hh2'
        elif s == 'hh2' and n == 'BlockClose':
            to = 'line'
            st.x['exp'] = ('lit', 'arr')
        elif s == 'k' and n == 'Equals':
            to = 'v0'
        elif s == 'v0':
            to = 'v'
            st.x['tok'] = ('agg', self.tty, self.toks.index(n), pay)
        if to not in ('h1', 'hh1'):
            st.x.pop('odd', None)
        st.x['s'] = ('lit', to)

    def onvalue(self, st):
        v = self.opaque(self.vty, ('value',))
        st.x['s'] = ('lit', 'line')
        st.x['exp'] = ('lit', 'kv')
        st.x['expv'] = v
        return v

    def judge_ok(self, st, v):
        if st.x['s'][1] != 'end':
            return 'truncated', 'a document is accepted before its end'
        if isinstance(v, tuple) and v[0] == 'sym':
            v = self.force(st, v)
        if not self.ismap(v) or v[3][1] != ('lit', 'top'):
            return 'place', 'the table returned is not the one that was filled'
        if self.changes(st, v):
            return 'place', 'the table is changed behind the end of the document'
        return None

    def judge_err(self, st):
        s = st.x['s'][1]
        if s == 'bad':
            return None
        if s in ('h1', 'hh1'):
            n = st.x['odd'][1]
            if n == 'Ident' or n == 'Str' and s == 'h1' or n != 'Str' and s == 'hh1':
                return 'rejected', 'a header is rejected'
            return None
        if s == 'line' and st.x['exp'] == ('lit', 'arr'):
            # something else than an array of tables is stored there
            held = st.x.get('held')
            if held is not None and held != ABSENT and self.arr(st, held) is None:
                return None
            return 'rejected', 'an array-of-tables header is rejected'
        return 'rejected', 'a document is rejected (in state %s)' % s
