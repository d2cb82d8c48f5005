"""JSON and RON decoders over arbitrary token streams.

The lexer (next_tok) and the decoders of component values are replaced by their contracts; both are
analysed at their own roots.  A grammar of the type's documents runs along with the decoder."""
from . import lin as N
from . import models as M
from .lin import add, sub, neg, is_num
from .own import Owned
from .interp import Engine, State, Frame, UNIT, Dead, Undecided, Split, ISIZE_MAX
from .bin import find_type, same, default_value, fn_marker, NotSure, rawval
from . import spec as G
from . import canon


class Fmt:
    pass


JSON = Fmt()
JSON.name = 'json'
JSON.p = 'nanoserde::serde_json::'
JSON.state, JSON.tok, JSON.err = 'DeJsonState', 'DeJsonTok', 'DeJsonErr'
JSON.de, JSON.ser, JSON.dem, JSON.serm = 'DeJson', 'SerJson', 'de_json', 'ser_json'
JSON.classes = {'Str': ('Str',), 'lit': ('U64', 'I64', 'F64', 'Bool', 'Null')}
JSON.never = ('Char', 'BareIdent', 'Bof')
JSON.open, JSON.close = ('BlockOpen', 'CurlyOpen'), ('BlockClose', 'CurlyClose')
JSON.word = 'Str'

RON = Fmt()
RON.name = 'ron'
RON.p = 'nanoserde::serde_ron::'
RON.state, RON.tok, RON.err = 'DeRonState', 'DeRonTok', 'DeRonErr'
RON.de, RON.ser, RON.dem, RON.serm = 'DeRon', 'SerRon', 'de_ron', 'ser_ron'
RON.classes = {'Str': ('Str',), 'Ident': ('Ident',), 'lit': ('U64', 'I64', 'F64', 'Bool', 'Char')}
RON.never = ('Bof',)
RON.open, RON.close = ('BlockOpen', 'CurlyOpen', 'ParenOpen'), ('BlockClose', 'CurlyClose', 'ParenClose')
RON.word = 'Ident'

SIGNED = ('i8', 'i16', 'i32', 'i64')
UNSIGNED = ('u8', 'u16', 'u32', 'u64', 'usize')
FLOATS = ('f32', 'f64')


BOF = ('lit', 'no token')


def leaf_tokens(fmt, s):
    """tokens a value of a leaf type starts with; None: any value may"""
    if s in UNSIGNED:
        return ('U64',)
    if s in SIGNED:
        return ('U64', 'I64')
    if s in FLOATS:
        return ('U64', 'I64', 'F64')
    if s == 'bool':
        return ('Bool',) if fmt is JSON else ('Bool', 'U64')
    if s in ('alloc::string::String', 'str'):
        return ('Str',)
    return None


class TextBase(Engine):
    def __init__(self, prog, fmt):
        super().__init__(prog)
        self.f = fmt
        T = prog.types
        self.sty = find_type(prog, lambda t: t['k'] == 'adt' and t['p'].endswith('::' + fmt.state))
        self.tty = find_type(prog, lambda t: t['k'] == 'adt' and t['p'].endswith('::' + fmt.tok))
        self.ety = find_type(prog, lambda t: t['k'] == 'adt' and t['p'].endswith('::' + fmt.err))
        self.fields = {f[0]: i for i, f in enumerate(T[self.sty]['v'][0]['f'])}
        self.toks = [v['n'] for v in T[self.tty]['v']]
        cl = {}
        for k, vs in fmt.classes.items():
            for v in vs:
                cl[v] = k
        self.tclass = {}
        for i, n in enumerate(self.toks):
            if n in fmt.never:
                continue
            self.tclass.setdefault(cl.get(n, 'punct'), []).append(i)
        self.starts = tuple(n for n in self.toks if n in cl or n in fmt.open)

    def variant_ok(self, st, sid, vi):
        c = self.symclass.get(sid)
        return c is None or vi in c

    # ---- the decoder state behind a reference
    def getf(self, st, ref, name):
        return self.read(st, ref[1], ref[2] + (self.fields[name],))

    def setf(self, st, ref, name, v):
        self.write(st, ref[1], ref[2] + (self.fields[name],), v)

    def mkvariant(self, st, sid, vi):
        v = super().mkvariant(st, sid, vi)
        if self.symty[sid] == self.tty and self.toks[vi] == 'I64':
            # the lexer reads a number as signed only behind a minus sign
            self.assume_ge(st, neg(v[3][0]))
        return v

    def cur_tok(self, st, ref):
        """the variant of the current token (may split)"""
        v = self.getf(st, ref, 'tok')
        if v[0] == 'sym':
            self.discr(st, v)
            v = self.force(st, v)
        if v[0] != 'agg':
            raise Undecided('token')
        return self.toks[v[2]], v

    def newtext(self, st):
        v = self.opaque(self.strty(), ('text',))
        return self.force(st, v)

    def fresh_tok(self, st, ref, cls, inner):
        vs = self.tclass[cls]
        t = self.opaque(self.tty, ('token', cls))
        self.symclass[t[1]] = frozenset(vs)
        if len(vs) == 1:
            t = self.mkvariant(st, t[1], vs[0])
        self.setf(st, ref, 'tok', t)
        bufs = {'Str': ('strbuf',), 'Ident': ('identbuf',), 'lit': ('numbuf', 'identbuf')}.get(cls, ())
        if inner:
            bufs = ('strbuf', 'numbuf', 'identbuf')
        for b in bufs:
            self.setf(st, ref, b, self.newtext(st))
        st.x.pop('pf', None)
        st.x['ntxt'] = self.getf(st, ref, 'numbuf') if cls == 'lit' else None
        st.x['txt'] = self.getf(st, ref, 'strbuf') if cls == 'Str' else self.getf(st, ref, 'identbuf') if cls == 'Ident' else None

    def fresh_pos(self, st, ref):
        self.setf(st, ref, 'cur', self.chsym(('char',)))
        self.setf(st, ref, 'line', self.num(0, ISIZE_MAX, ('line',)))
        self.setf(st, ref, 'col', self.num(0, ISIZE_MAX, ('col',)))

    def newstate(self, st):
        c = next(self.ncell)
        fs = []
        for n, ty in ((f[0], f[1]) for f in self.T(self.sty)['v'][0]['f']):
            if n == 'tok':
                fs.append(('agg', self.tty, len(self.toks) - 2, ()))
            elif n in ('strbuf', 'numbuf', 'identbuf'):
                fs.append(self.newtext(st))
            else:
                fs.append(self.fresh(st, ty, (n,)))
        st.mem[c] = ('agg', self.sty, 0, tuple(fs))
        return ('ref', c, (), None)

    def site0(self):
        return (self.body.path, self.body.j['span'])


class TextDec(TextBase):
    """one decoder (or helper) body over any token stream"""
    maxsteps = 6000000

    def __init__(self, prog, fmt, spec=None):
        super().__init__(prog, fmt)
        self.conts['root'] = self.root_ret
        self.spec = spec
        self.childcalls = 0
        self.ghost = {}
        self.ghostty = {}
        self.okpaths = 0

    # ---- set-up
    def start(self, body):
        self.body = body
        self.helper = not body.root.get('trait') and body.root['name'] != 'deserialize_' + self.f.name
        self.whole = body.root['name'] == 'deserialize_' + self.f.name
        inits = []
        for cls in (['punct'] if self.whole else sorted(self.tclass)):
            st = State()
            args = []
            ref = None
            for l in range(1, body.argc + 1):
                t = self.T(body.locals[l])
                u = self.T(t['t']) if t['k'] == 'ref' else t
                if t['k'] == 'ref' and u['k'] == 'adt' and u['p'].endswith('::' + self.f.state):
                    ref = self.newstate(st)
                    args.append(ref)
                else:
                    args.append(self.fresh(st, body.locals[l], ('argument', l)))
            st.x['pend'] = None
            st.x['g'] = ('lit', self.spec.start if self.spec else None)
            st.x['txt'] = st.x['key'] = st.x['pay'] = None
            st.x['ref'] = ref
            if ref is not None:
                self.fresh_pos(st, ref)
                self.fresh_tok(st, ref, cls, True)
            self.prepare(st, ref)
            st.stack.append(Frame(None, 0, 0, 0, 'root'))
            self.push(st, body, args)
            inits.append(st)
        self.run(inits, None)
        return self

    def prepare(self, st, ref):
        pass

    def text_float(self, st, ps, ty):
        """the text of a number token, read as a float: what the lexer found is a number"""
        t = st.x.get('ntxt')
        ref = st.x.get('ref')
        if t is None or ref is None or tuple(self.join(st, t[2])) != tuple(ps):
            return None
        v = self.getf(st, ref, 'tok')
        if v[0] == 'sym':
            v = self.force(st, v)
        if v[0] != 'agg' or self.toks[v[2]] != 'F64':
            return None
        pf = st.x.get('pf')
        if pf is None or self.T(self.symty[pf[1]])['s'] != ty:
            pf = self.opaque(self.p.byname[ty], ('parsed',))
            st.x['pf'] = pf
        return pf

    # ---- contracts
    def hook_call(self, st, cal, args):
        p = cal.get('rp') or cal.get('p') or ''
        if p.endswith(self.f.state + '::next_tok'):
            self.lex(st, args)
            return True
        if p.endswith(self.f.state + '::next'):
            self.prime(st, args)
            return True
        if p.endswith(self.f.state + '::whole_field') and self.body.root['name'] != 'whole_field':
            self.child(st, cal, args, None)
            return True
        tr = cal.get('tr') or ''
        if tr.endswith('::' + self.f.de) and cal['n'] == self.f.dem:
            self.child(st, cal, args, cal['self'])
            return True
        return None

    def prime(self, st, args):
        ref = M.deep(self, st, args[0])
        if st.x.get('primed') or not self.whole:
            self.report(st, 'skipchar', 'a character is read outside the tokens of the document')
            raise Dead()
        st.x['primed'] = True
        self.fresh_pos(st, ref)
        self.deliver(st, UNIT)

    def pending(self, st):
        if st.x['pend'] is not None:
            self.report(st, 'swallowed', 'decoding continues after a component or token failed')
            raise Dead()

    def consumed(self, st, ref, name, tv):
        """the current token is left behind"""
        if name == 'Eof':
            st.x['eof'] = True
        st.x['pay'] = tv[3][0] if tv[3] else None
        st.x['ntxt'] = None
        st.x['payf'] = st.x.pop('pf', None)
        st.x['paytok'] = ('lit', name) if self.spec is not None and name == 'F64' else None
        if self.spec is None:
            return
        g = st.x['g'][1]
        if g is None:
            return
        r = self.spec.tok(self, st, g, name, st.x['txt'])
        st.x['g'] = ('lit', r or None)

    def lex(self, st, args):
        self.pending(st)
        ref = M.deep(self, st, args[0])
        if self.whole and st.x.get('primed') and not st.x.get('lexed'):
            st.x['lexed'] = True
            st.x['ref'] = ref
            self.next_token(st, ref, False)
            return
        name, tv = self.cur_tok(st, ref)
        if self.whole and name == 'Bof':
            # not primed: the lexer sees the end of the input at once
            self.report(st, 'skipchar', 'the first character is never read')
            raise Dead()
        self.consumed(st, ref, name, tv)
        if name == 'Eof':
            self.deliver(st, M.OK(UNIT))
            return
        st.x['txt'] = None
        self.setf(st, ref, 'tok', BOF)
        self.merge(st)
        self.next_token(st, ref, False)

    def next_token(self, st, ref, inner, ok=None):
        """the lexer finds another token, or fails"""
        outs = []
        for cls in sorted(self.tclass):
            s = st.clone()
            s.steps += 1
            self.fresh_pos(s, ref)
            self.fresh_tok(s, ref, cls, inner)
            outs.append((s, M.OK(ok(s) if ok else UNIT)))
        outs.append(self.failing(st, ref))
        self.outcomes(outs)

    def failing(self, st, ref):
        s = st.clone()
        s.x.pop('str', None)
        s.steps += 1
        self.fresh_pos(s, ref)
        v = self.opaque(self.ety, ('error',))
        s.x['pend'] = v
        return s, M.ERR(v)

    def merge(self, st):
        """the state no longer depends on the token: has an equal one been here?"""
        w = canon.Walk(self, st).walk()
        sk = ('merge',) + tuple(w.sk)
        if canon.covered(self, st, w, sk):
            self.stats['covered'] += 1
            raise Dead()
        canon.store(self, st, w.slots, sk)

    def outcomes(self, outs):
        ss = []
        for s, r in outs:
            saved, self.moves = self.moves, list(self.moves)
            self.deliver(s, r)
            self.moves = saved
            ss.append(s)
        self.moves = []
        raise Split(ss)

    def child(self, st, cal, args, ty):
        self.pending(st)
        self.childcalls += 1
        ref = M.deep(self, st, args[0])
        name, tv = self.cur_tok(st, ref)
        ts = leaf_tokens(self.f, self.T(ty)['s']) if ty is not None else None
        can = name in ts if ts else name in self.starts and (ty is not None or name not in ('Char', 'Ident'))
        if not can:
            self.outcomes([self.failing(st, ref)])
        isstr = ty is not None and self.T(ty)['s'] == 'alloc::string::String'
        txt = st.x['txt']
        slots = None
        keyed = False
        if self.spec is not None and st.x['g'][1] is not None:
            g = st.x['g'][1]
            if ty is None:
                st.x['g'] = ('lit', self.spec.skip(self, st, g) or None)
            else:
                slots = self.spec.val(self, st, g)
                if not slots and isstr:
                    keyed = True
                    self.consumed(st, ref, name, tv)
                elif len(slots) == 1:
                    st.x['g'] = ('lit', list(slots.values())[0])
                else:
                    if self.spec.undecided(self, st, g):
                        raise Undecided('key of a component')
                    st.x['g'] = ('lit', None)
        st.x['txt'] = st.x['pay'] = None
        self.setf(st, ref, 'tok', BOF)
        for b in ('strbuf', 'numbuf', 'identbuf'):
            self.setf(st, ref, b, M.EMPTY_S)
        if isstr:
            st.x['str'] = txt
        self.merge(st)

        def ok(s):
            if ty is None:
                return UNIT
            if isstr and txt is not None:
                v = s.x.pop('str')
            else:
                v = self.decoded(s, ty, slots)
            if slots and len(slots) == 1:
                self.slot(s, list(slots)[0], v)
            return v
        self.next_token(st, ref, True, ok)

    def slot(self, st, name, v):
        if name[0] == '*':
            return
        k = 's:' + name
        st.x[k] = ('lit', 'dup') if k in st.x else v

    def decoded(self, st, ty, slots):
        s = list(slots)[0] if slots and len(slots) == 1 else None
        if s is None or s[0] != '*':
            return self.fresh(st, ty, ('decoded', self.T(ty)['s']))
        key = (ty, s)
        src = self.ghost.get(key)
        if src is None:
            src = next(self.nsym)
            self.ghost[key] = src
            self.ghostty[src] = ty
            self.symty[src] = None
            self.sorig[src] = ('decoded', self.T(ty)['s'])
        k = st.x.get('k' + s, 0)
        st.x['k' + s] = self.norm(st, add(k, 1))
        return self.elem(st, src, k)

    def elemty(self, sid):
        t = self.ghostty.get(sid) if isinstance(sid, int) else None
        return t if t is not None else super().elemty(sid)

    # ---- the end
    def variant(self, st, v):
        if v[0] == 'sym':
            self.discr(st, v)
            v = self.force(st, v)
        return v if v[0] == 'agg' else None

    def is_result(self):
        t = self.T(self.body.locals[0])
        return t['k'] == 'adt' and t['p'] == 'core::result::Result'

    def root_ret(self, st, data, v):
        was = dict(self.stats)
        try:
            self.judge(st, v)
        except (Split, Undecided):
            # decided again in each case
            for k in ('obligations', 'discharged', 'paths'):
                self.stats[k] = was[k]
            raise

    def judge(self, st, v):
        st.stack.append(Frame(None, 0, 0, 0, 'root'))
        self.stats['paths'] += 1
        if not self.is_result():
            self.other_ret(st, v)
            raise Dead()
        r = self.variant(st, v)
        if r is None:
            st.taint = True
            raise Dead()
        pend = st.x['pend']
        self.stats['obligations'] += 1
        if pend is not None:
            if r[2] == 0:
                self.report(st, 'swallowed', 'a component or token failed but the whole value decoded successfully', self.site0())
            elif self.same_err(st, r[3][0], pend) is False:
                self.report(st, 'replaced', 'the error of a component or token was replaced by another one', self.site0())
            else:
                self.stats['discharged'] += 1
            raise Dead()
        self.stats['discharged'] += 1
        ref = st.x['ref']
        if r[2] == 1:
            e = self.variant(st, r[3][0])
            if ref is not None and not self.whole:
                self.check_pos(st, ref, e)
            if self.spec is not None:
                self.check_err(st, ref, e)
        else:
            self.okpaths += 1
            if self.spec is not None:
                self.check_ok(st, ref, r[3][0])
            self.ok_ret(st, ref, r[3][0])
        raise Dead()

    def other_ret(self, st, v):
        pass

    def ok_ret(self, st, ref, v):
        pass

    def same_err(self, st, e, pend):
        if e == pend:
            return True
        if e[0] == 'sym':
            return e[1] == pend[1]
        x = st.tab.get(pend[1])
        return x is not None and x == e

    def errfields(self, e):
        t = self.T(e[1])
        return {f[0]: x for f, x in zip(t['v'][0]['f'], e[3])}

    def check_pos(self, st, ref, e):
        if e is None or e[1] is None:
            return
        d = self.errfields(e)
        for k in ('line', 'col'):
            self.stats['obligations'] += 1
            if k in d and is_num(d[k]) and self.norm(st, sub(d[k], self.getf(st, ref, k))) != 0:
                self.report(st, 'errpos', 'an error does not carry the %s the input has been read to' % {'line': 'line', 'col': 'column'}[k])
            else:
                self.stats['discharged'] += 1

    def reason(self, st, e):
        """(variant name, text)"""
        if e is None or e[1] is None:
            return None, None
        m = self.errfields(e).get('msg')
        m = self.variant(st, m) if m is not None else None
        if m is None or m[1] is None:
            return None, None
        n = self.T(m[1])['v'][m[2]]['n']
        return n, m[3][-1] if m[3] else None

    def check_ok(self, st, ref, v):
        g = st.x['g'][1]
        self.stats['obligations'] += 1
        if g is None:
            self.report(st, 'malformed', 'a document that does not have the form of the type is accepted', self.site0())
            return
        m = self.spec.marked(self, st, g)
        if m:
            self.report(st, 'verdict', 'a document with an %s is accepted' % m, self.site0())
            return
        if self.spec.undecided(self, st, g):
            raise Undecided('key at the end')
        if not self.spec.done(self, st, g):
            self.report(st, 'truncated', 'a document that is not complete is accepted', self.site0())
            return
        self.stats['discharged'] += 1
        if self.spec.finish:
            self.stats['obligations'] += 1
            try:
                r = self.spec.finish(self, st, v)
            except NotSure as x:
                raise Undecided(str(x))
            if r is True:
                self.stats['discharged'] += 1
            else:
                self.report(st, 'value', 'the decoded value is not the one in the document: ' + str(r), self.site0())

    def check_err(self, st, ref, e):
        self.stats['obligations'] += 1
        if self.whole:
            self.report(st, 'rejected', 'an error is raised that no component raised', self.site0())
            return
        g = st.x['g'][1]
        n, txt = self.reason(st, e)
        if g is None:
            self.stats['discharged'] += 1
            return
        m = self.spec.marked(self, st, g)
        if m:
            want = {'unknown variant': 'NoSuchEnum', 'unknown field': 'UnexpectedKey'}.get(m)
            if want and n is not None and n != want:
                self.report(st, 'verdict', 'an %s is rejected with %s' % (m, n), self.site0())
            elif want and n is not None and not self.names(st, txt, st.x['key']):
                self.report(st, 'verdict', 'the error for an %s does not name it' % m, self.site0())
            else:
                self.stats['discharged'] += 1
            return
        if self.spec.mayfail and self.spec.mayfail(self, st, ref, n):
            self.stats['discharged'] += 1
            return
        if n == 'MissingKey':
            miss = [f for p in self.spec.at(self, st, g) for f in self.spec.required.get(p, ()) if 's:' + f[0] not in st.x]
            if not miss:
                self.report(st, 'refused', 'a missing-key error is raised where no required field is missing', self.site0())
            elif not any(self.literal(st, txt) in f[1] for f in miss):
                self.report(st, 'verdict', 'the error for a missing field does not name it', self.site0())
            else:
                self.stats['discharged'] += 1
            return
        if self.spec.done(self, st, g):
            if any(f for p in self.spec.at(self, st, g) for f in self.spec.required.get(p, ()) if 's:' + f[0] not in st.x):
                self.report(st, 'verdict', 'a missing field is rejected with %s' % n, self.site0())
            else:
                self.report(st, 'rejected', 'a document of the type is rejected (%s)' % n, self.site0())
            return
        name, tv = self.cur_tok(st, ref)
        if n == 'NoSuchEnum':
            self.report(st, 'verdict', '%s is raised where no name is at fault' % n, self.site0())
            return
        # a key that matches no field of a RON struct is refused before it is consumed
        if self.spec.unknown is not None and name == self.f.word and self.spec.keyhere(self, st, g):
            no = G.text_facts(self, st, st.x['txt'])
            if no[0] is not None and no[0] not in self.spec.unknown or no[0] is None and self.spec.unknown <= no[1]:
                if n is not None and (n != 'UnexpectedKey' or not self.names(st, txt, st.x['txt'])):
                    self.report(st, 'verdict', 'an unknown field is not rejected with an unexpected-key error naming it', self.site0())
                else:
                    self.stats['discharged'] += 1
                return
        if self.spec.legal(self, st, g, name, st.x['txt'], self.starts):
            if self.spec.tokok is None or self.spec.tokok(self, st, name, tv):
                self.report(st, 'rejected', 'a %s token is rejected where the form of the type has one (%s)' % (name, n), self.site0())
                return
        self.stats['discharged'] += 1

    def literal(self, st, txt):
        if txt is None:
            return None
        return G.text_facts(self, st, self.force(st, txt) if txt[0] == 'sym' else txt)[0]

    def names(self, st, txt, key):
        if txt is None or key is None:
            return txt == key
        return same(self, st, txt, key) is True


class SkipDec(TextDec):
    """whole_field: exactly one value is skipped, of any kind and nesting"""

    def prepare(self, st, ref):
        st.x['ph'] = ('lit', 'start')
        st.x['d'] = 0
        st.x['prev'] = None

    def kind_of(self, name):
        f = self.f
        return 'open' if name in f.open else 'close' if name in f.close else 'scalar' if name in self.starts else name

    def consumed(self, st, ref, name, tv):
        super().consumed(st, ref, name, tv)
        k = self.kind_of(name)
        ph = st.x['ph'][1]
        new = 'bad'
        if ph == 'start':
            if k == 'scalar':
                new = 'done'
            elif k == 'open':
                new = 'in'
                st.x['d'] = 1
        elif ph == 'in' and name != 'Eof':
            new = 'in'
            if k == 'open':
                st.x['d'] = self.norm(st, add(st.x['d'], 1))
            elif k == 'close':
                d = self.norm(st, add(st.x['d'], -1))
                if self.decide(st, ('cmp', 'eq', d)):
                    new = 'done'
                st.x['d'] = self.norm(st, d)
        st.x['ph'] = ('lit', new)
        if name in ('Colon', 'Str') or k == 'open':
            st.x['prev'] = ('lit', name) if new == 'in' else None
        else:
            st.x['prev'] = None

    def check_ok(self, st, ref, v):
        pass

    def check_err(self, st, ref, e):
        pass

    def judge(self, st, v):
        if st.x['pend'] is None:
            r = self.variant(st, v)
            if r is not None:
                ph = st.x['ph'][1]
                self.stats['obligations'] += 1
                if r[2] == 0 and ph != 'done':
                    what = {'start': 'nothing is', 'in': 'only part of a value is', 'bad': 'more than one value is'}[ph]
                    self.report(st, 'skipped', what + ' skipped where a whole value is to be', self.site0())
                elif r[2] == 1 and self.wrongly(st, ph):
                    self.report(st, 'skipped', 'a well-formed value to be skipped is refused', self.site0())
                else:
                    self.stats['discharged'] += 1
        super().judge(st, v)

    def wrongly(self, st, ph):
        name, tv = self.cur_tok(st, st.x['ref'])
        k = self.kind_of(name)
        if ph == 'done':
            return True
        if ph == 'start':
            return k in ('scalar', 'open')
        if ph != 'in':
            return False
        if st.x['prev'] is None:
            return False
        prev = st.x['prev'][1]
        if prev in ('BlockOpen', 'Colon'):
            return k in ('scalar', 'open') or prev == 'BlockOpen' and name == 'BlockClose'
        if prev == 'CurlyOpen':
            return name in ('Str', 'CurlyClose')
        if prev == 'Str':
            return name in ('Colon', 'Comma')
        return False


class TextOwn(Owned, TextDec):
    """the same exploration with ownership accounting"""

    def ghostcount(self, st, src):
        for (ty, s), x in self.ghost.items():
            if x == src:
                return st.x.get('k' + s, 0)
        return 0

    def root_ret(self, st, data, v):
        r = self.variant(st, v)
        if r is not None:
            self.check_owned(st, r[2] == 0, r[3][0])
        raise Dead()
