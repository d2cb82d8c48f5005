"""JSON and RON encoders over any value.

What an encoder appends is tokenised and run through the grammar its decoder is checked against; each component
it writes must be the one the position calls for."""
from . import lin as N
from . import models as M
from .lin import add, sub, neg, is_num
from .interp import State, Frame, UNIT, Dead, Undecided, Split, ISIZE_MAX
from .bin import same, NotSure, rawval, to_proxy, component
from .text import TextBase, JSON, RON
from .lexer import PUNCT, ESC
from . import canon
from .textspec import absent, NODECL

WORDCH = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_+-.')
LISTS = ('alloc::vec::Vec<', 'std::collections::hash::set::HashSet<', 'alloc::collections::linked_list::LinkedList<',
         'alloc::collections::btree::set::BTreeSet<', '[')
MAPS = ('std::collections::hash::map::HashMap<', 'alloc::collections::btree::map::BTreeMap<')
PEEKS = ('contains', 'find', 'rfind', 'any', 'all', 'chars', 'bytes', 'char_indices', 'as_bytes', 'split', 'matches', 'replace', 'position',
         'is_char_boundary', 'rsplit', 'splitn', 'split_once', 'starts_with', 'ends_with', 'trim_matches', 'iter', 'next', 'escape_default', 'escape_debug')


class TextSer(TextBase):
    """one encoder body over any value"""
    maxsteps = 4000000

    def __init__(self, prog, fmt, spec, decl=None):
        super().__init__(prog, fmt)
        self.conts['root'] = self.root_ret
        self.spec = spec
        self.decl = decl
        self.punct = dict(PUNCT)
        if fmt is RON:
            self.punct.update({'(': 'ParenOpen', ')': 'ParenClose'})
        self.sstate = 'SerJsonState' if fmt is JSON else 'SerRonState'
        self.childcalls = 0
        self.okpaths = 0
        self.looked = False
        self.fieldty = {}
        if decl is not None:
            fs = [('', f) for f in decl.parts] if decl.kind != 'e' else [(v.name + '.', f) for v in decl.parts for f in v.fields]
            self.fieldty = {p + f.name: f for p, f in fs}

    def start(self, body):
        self.body = body
        self.selfty = self.T(body.root['self'])['s'] if body.root.get('self') is not None else ''
        self.whole = body.root['name'] == 'serialize_' + self.f.name
        self.strroot = self.selfty in ('str', 'alloc::string::String')
        st = State()
        st.x['P'] = ('seq', 's', ())
        st.x['out'] = None
        args = []
        for l in range(1, body.argc + 1):
            t = self.T(body.locals[l])
            u = self.T(t['t']) if t['k'] == 'ref' else t
            if u['k'] == 'adt' and u['p'].endswith('::' + self.sstate):
                c = next(self.ncell)
                st.x['P'] = self.newtext(st)
                fs = [st.x['P'] if self.T(f[1])['s'] == 'alloc::string::String' else self.fresh(st, f[1], (f[0],)) for f in u['v'][0]['f']]
                st.mem[c] = ('agg', t['t'], 0, tuple(fs))
                ref = ('ref', c, (), None)
                st.x['out'] = self.outof(st, ref)
                args.append(ref)
            elif l == 1:
                v = self.fresh(st, body.locals[l], ('self',))
                st.x['self'] = v
                args.append(v)
            elif t['k'] == 'prim':
                args.append(self.num(0, 1 << 31, ('depth',)))
            else:
                args.append(self.fresh(st, body.locals[l], ('argument', l)))
        st.x['g'] = ('lit', self.spec.start)
        st.x['lx'] = ('lit', ('ws',))
        st.x['key'] = st.x['pay'] = None
        if self.strroot:
            st.x['k*c'] = 0
        st.stack.append(Frame(None, 0, 0, 0, 'root'))
        self.push(st, body, args)
        self.run([st], None)
        return self

    def outof(self, st, ref):
        """the place of the output text behind a reference to the encoder state"""
        ref = M.deep(self, st, ref)
        if ref[0] != 'ref':
            raise Undecided('encoder state')
        v = self.read(st, ref[1], ref[2])
        t = self.T(v[1]) if v[0] == 'agg' and v[1] is not None else None
        if t is None or not t['p'].endswith('::' + self.sstate):
            raise Undecided('encoder state')
        for i, f in enumerate(t['v'][0]['f']):
            if f[0] == 'out':
                return ('ref', ref[1], ref[2] + (i,), None)
        raise Undecided('encoder state')

    # ---- the output
    def at_head(self, st, fr):
        self.sync(st)
        return super().at_head(st, fr)

    def bad(self, st, kind, msg):
        self.report(st, kind, msg)
        raise Dead()

    def pending_out(self, st, v):
        """the pieces of text v behind the prefix already tokenised"""
        p = st.x['P'][2]
        ps = list(self.join(st, v[2]))
        if p:
            if not ps or ps[0] != p[0]:
                self.bad(st, 'prefix', 'text written earlier is changed or removed')
            ps = ps[1:]
        return ps

    def sync(self, st, hold=True):
        """tokenise what has been appended"""
        o = st.x['out']
        if o is None:
            return
        v = self.read(st, o[1], o[2])
        if v[0] == 'sym':
            v = self.force(st, v)
        if v[0] != 'seq':
            raise Undecided('output text')
        ps = self.pending_out(st, v)
        if not ps:
            return
        while ps:
            if hold and len(ps) == 1 and ps[0][0] == 'l' and len(ps[0][1]) == 1 and ps[0][1] in self.punct and st.x['lx'][1][0] in ('ws', 'aft'):
                break
            ps = self.eat(st, ps)
            # what has been consumed is part of the prefix from now on
            st.x['P'] = self.newtext(st)
            self.write(st, o[1], o[2], ('seq', 's', self.join(st, st.x['P'][2] + tuple(ps))))

    def finish_text(self, st, v):
        ps = self.pending_out(st, v)
        while ps:
            ps = self.eat(st, ps)
            st.x['P'] = ('seq', 's', ())
        self.close_word(st)

    def eat(self, st, ps):
        """consume one unit; any splitting happens before anything is changed"""
        p = ps[0]
        if p[0] == 'l':
            c = ord(p[1][0])
            if self.unit(st, c):
                return ([('l', p[1][1:])] if len(p[1]) > 1 else []) + ps[1:]
            return ps
        if p[0] == 'e' and is_num(p[1]):
            return ps[1:] if self.unit(st, self.norm(st, p[1])) else ps
        if p[0] == 'run':
            n = self.norm(st, sub(p[3], p[2]))
            if n == 0:
                return ps[1:]
            if n == 1:
                return ps[1:] if self.unit(st, self.elem(st, p[1], p[2])) else ps
            if self.prove(st, neg(n)):
                return ps[1:]
            k = st.x['lx'][1][0]
            if k == 'str' and not self.looked:
                self.bad(st, 'form', 'text is written between quotes without escaping')
            raise Undecided('text of unknown contents is written')
        if p[0] == 'x' and p[1] == 'num':
            k = st.x['lx'][1][0]
            if k == 'ws':
                n = self.norm(st, p[2])
                pos = self.decide(st, ('cmp', 'ge', n))
                self.emit(st, 'U64' if pos else 'I64', None, n)
                st.x['lx'] = ('lit', ('aft',))
                return ps[1:]
            if k == 'word':
                self.close_word(st)
                return ps
            if k == 'aft':
                self.bad(st, 'form', 'two values are written with nothing between them')
            raise Undecided('a number inside another token')
        if p[0] == 'x' and p[1] == 'flt':
            k = st.x['lx'][1][0]
            if k == 'ws':
                t, how = p[2][1], p[2][2]
                if how != ('lit', 'debug[]'):
                    self.bad(st, 'value', 'a float is written in a form that does not read back as the same number')
                self.emit(st, 'F64', None, t)
                st.x['lx'] = ('lit', ('aft',))
                return ps[1:]
            if k == 'word':
                self.close_word(st)
                return ps
            if k == 'aft':
                self.bad(st, 'form', 'two values are written with nothing between them')
            raise Undecided('a number inside another token')
        raise Undecided('output of unknown form')

    def is_(self, st, c, x):
        if isinstance(c, int):
            return c == ord(x)
        return self.decide(st, ('rngin', c, ord(x), ord(x)))

    def unit(self, st, c):
        """one character; False: a token ended, the character is still to be read"""
        lx = st.x['lx'][1]
        k = lx[0]
        if k in ('ws', 'aft', 'word'):
            if not isinstance(c, int):
                raise Undecided('an unknown character outside strings is written')
            x = chr(c)
            if k == 'word':
                if x in WORDCH:
                    st.x['lx'] = ('lit', ('word', lx[1] + x))
                    return True
                self.close_word(st)
                return False
            if x in ' \t\r\n':
                st.x['lx'] = ('lit', ('ws',))
            elif x in self.punct:
                self.emit(st, self.punct[x])
                st.x['lx'] = ('lit', ('ws',))
            elif k == 'aft':
                self.bad(st, 'form', 'two values are written with nothing between them')
            elif x == '"':
                st.x['lx'] = ('lit', ('str',))
                st.x['G'] = ('seq', 's', ())
            elif x in WORDCH:
                st.x['lx'] = ('lit', ('word', x))
            elif self.f is RON and x in "'/":
                raise Undecided('a character literal or comment is written')
            else:
                self.bad(st, 'form', 'the character %r is written outside of strings' % x)
            return True
        if k == 'str':
            if self.is_(st, c, '"'):
                if self.strroot:
                    st.x['lx'] = ('lit', ('aft',))
                    self.emit(st, 'Str', None)
                else:
                    g = st.x['G']
                    self.emit(st, 'Str', g)
                    st.x['lx'] = ('lit', ('aft',))
                st.x.pop('G', None)
                return True
            if self.is_(st, c, '\\'):
                st.x['lx'] = ('lit', ('esc',))
                return True
            if self.f is JSON:
                if self.decide(st, ('rngin', c, 0, 31)) if not isinstance(c, int) else c < 32:
                    self.bad(st, 'form', 'a control character is written unescaped inside a string')
            elif self.is_(st, c, '\0'):
                self.bad(st, 'string', 'a NUL character is written unescaped inside a string')
            self.text(st, c)
            return True
        if k == 'esc':
            if not isinstance(c, int):
                raise Undecided('an unknown escape is written')
            x = chr(c)
            if x == 'u':
                st.x['lx'] = ('lit', ('hex', 0, 0))
                return True
            y = ESC.get(x)
            if y is None and self.f is RON:
                y = {"'": "'", '0': '\0'}.get(x)
            if y is None:
                self.bad(st, 'form', 'the escape \\%s, which has no meaning, is written' % x)
            self.text(st, ord(y))
            st.x['lx'] = ('lit', ('str',))
            return True
        if k == 'hex':
            if not isinstance(c, int):
                raise Undecided('an unknown escape is written')
            try:
                v = lx[2] * 16 + int(chr(c), 16)
            except ValueError:
                self.bad(st, 'form', 'a \\u escape without four hex digits is written')
            if lx[1] < 3:
                st.x['lx'] = ('lit', ('hex', lx[1] + 1, v))
                return True
            if 0xD800 <= v < 0xE000:
                raise Undecided('a surrogate escape is written')
            self.text(st, v)
            st.x['lx'] = ('lit', ('str',))
            return True
        raise Undecided('output state')

    def text(self, st, c):
        """one character of a string as a reader gets it"""
        if not self.strroot:
            st.x['G'] = ('seq', 's', self.join(st, st.x['G'][2] + (self.strpiece(st, c),)))
            return
        v = self.opened(st, rawval(self, st, st.x['self']))
        k = st.x['k*c']
        n = 0
        for p in v[2]:
            n = add(n, self.plen(st, p))
        if not self.prove(st, sub(sub(n, k), 1)):
            self.bad(st, 'string', 'more characters are written than the string has')
        src = v[2][0][1]
        w = self.elem(st, src, k)
        r = same(self, st, w, c)
        if r is not True:
            self.bad(st, 'string', 'a character is written so that another one is read back')
        st.x['k*c'] = self.norm(st, add(k, 1))

    def close_word(self, st):
        lx = st.x['lx'][1]
        if lx[0] != 'word':
            return
        w = lx[1]
        st.x['lx'] = ('lit', ('aft',))
        if w in ('true', 'false'):
            self.emit(st, 'Bool', None, int(w == 'true'))
        elif w == 'null' and self.f is JSON:
            self.emit(st, 'Null')
        elif w[0] in '+-.0123456789':
            try:
                n = int(w)
            except ValueError:
                raise Undecided('a number in parts')
            self.emit(st, 'U64' if n >= 0 else 'I64', None, n)
        elif self.f is RON:
            self.emit(st, 'Ident', ('seq', 's', (('l', w),)))
        else:
            self.bad(st, 'form', 'the bare word %s is written' % w)

    # ---- tokens and components
    def emit(self, st, name, text=None, pay=None):
        self.stats['obligations'] += 1
        g = st.x['g'][1]
        key = st.x['key']
        r = self.spec.tok(self, st, g, name, text)
        if r is None:
            raise Undecided('key that is not known')
        if r:
            st.x['pay'] = pay
            st.x['g'] = ('lit', r)
            self.stats['discharged'] += 1
            return
        st.x['key'] = key
        slots = self.spec.val(self, st, g)
        if len(slots) == 1 and list(slots)[0][0] != '*' and name in ('U64', 'I64', 'F64', 'Bool', 'Str', 'Null', 'Ident'):
            s = list(slots)[0]
            f = self.fieldty.get(s)
            nul = name == 'Null' or name == 'Ident' and text == ('seq', 's', (('l', 'None'),))
            if nul or pay is not None or name == 'Str':
                v = M.NONE if nul else text if name == 'Str' else pay
                if f is not None and f.ty.startswith('Option<') and not nul:
                    v = M.SOME(v)
                self.slot(st, s, v)
                st.x['g'] = ('lit', slots[s])
                self.stats['discharged'] += 1
                return
        if slots and name in ('U64', 'I64', 'F64', 'Bool', 'Str', 'Null', 'Ident'):
            raise Undecided('component written in place')
        self.bad(st, 'form', 'what is written does not have the form of the type: %s%s' % (name, self.after(st, g)))

    def after(self, st, g):
        t = self.literal(st, st.x['key'])
        return ' after %r' % t if t is not None else ''

    def literal(self, st, v):
        from .spec import text_facts
        return text_facts(self, st, v)[0]

    def slot(self, st, name, v):
        k = 's:' + name
        if k in st.x:
            self.bad(st, 'form', 'a field is written twice')
        st.x[k] = v

    def hook_call(self, st, cal, args):
        n = cal.get('n')
        if n in PEEKS and '{closure' not in (cal.get('p') or ''):
            if n != 'iter' and n != 'next' or not self.strroot:
                self.looked = self.looked or n in PEEKS and n not in ('iter', 'next')
        tr = cal.get('tr') or ''
        if tr.endswith('::' + self.f.ser) and n == self.f.serm:
            return self.child(st, cal, args)
        return None

    def child(self, st, cal, args):
        ty = self.T(cal['self'])
        if ty['k'] == 'ref' or ty['k'] == 'slice':
            return None
        o = self.outof(st, args[2])
        if st.x['out'] is None:
            st.x['out'] = o
        elif o != st.x['out']:
            return None
        self.sync(st, False)
        self.close_word(st)
        if st.x['lx'][1][0] not in ('ws', 'aft'):
            self.bad(st, 'form', 'a component is written inside a string')
        g = st.x['g'][1]
        slots = self.spec.val(self, st, g)
        isstr = ty['s'] in ('str', 'alloc::string::String')
        if slots and cal.get('rk') != 'unresolved' and cal.get('b') and cal['b'] != self.body.key \
                and self.selfty.startswith(LISTS + MAPS + ('core::option::Option',)):
            slots = {}      # the components of a container have the type of its parameter; this one stands for itself
        if st.x['lx'][1][0] == 'aft' and (slots or isstr):
            self.bad(st, 'form', 'two values are written with nothing between them')
        if not slots:
            if isstr:
                t = rawval(self, st, args[0])
                if isinstance(t, tuple) and t[0] == 'sym':
                    t = self.force(st, t)
                self.emit(st, 'Str', t)
                return self.written(st)
            if component(self, cal, self.body) and cal.get('rk') == 'unresolved' or not cal.get('b') or cal['b'] == self.body.key:
                self.bad(st, 'form', 'a component is written where the form of the type has none' + self.after(st, g))
            return None     # analysed in place
        if len(slots) != 1:
            raise Undecided('one of several components')
        self.stats['obligations'] += 1
        self.childcalls += 1
        s = list(slots)[0]
        v = rawval(self, st, args[0])
        if s[0] == '*':
            self.element(st, s, v)
        else:
            f = self.fieldty.get(s)
            if f is not None and f.ty.startswith('Option<') and not ty['s'].startswith('core::option::Option<'):
                v = M.SOME(v)
            self.slot(st, s, v)
        st.x['g'] = ('lit', slots[s])
        st.x['key'] = None
        self.stats['discharged'] += 1
        return self.written(st)

    def written(self, st):
        st.x['lx'] = ('lit', ('aft',))
        o = st.x['out']
        st.x['P'] = self.newtext(st)
        self.write(st, o[1], o[2], st.x['P'])
        st.steps += 1
        self.deliver(st, UNIT)
        return True

    def opened(self, st, v):
        if isinstance(v, tuple) and v[0] == 'sym':
            v = self.force(st, v)
        if v[0] != 'seq':
            raise Undecided('contents of the value')
        return v

    def count(self, st):
        v = self.opened(st, rawval(self, st, st.x['self']))
        n = 0
        for p in v[2]:
            n = add(n, self.plen(st, p))
        return v, self.norm(st, n)

    def element(self, st, s, v):
        """the next element, in order"""
        if s == '*k':
            st.x['mk'] = v
            return
        if s == '*v':
            v = ('agg', None, 0, (st.x.pop('mk'), v))
        me, n = self.count(st)
        k = st.x.get('k*e', 0)
        if not me[2]:
            self.bad(st, 'value', 'an element is written that the value does not have')
        p = me[2][0]
        if len(me[2]) != 1 or p[0] != 'run':
            raise Undecided('contents of the value')
        w = self.elem(st, p[1], add(p[2], k))
        r = same(self, st, v, w)
        if r is not True:
            self.bad(st, 'value', 'an element is left out, written twice or written out of order')
        st.x['k*e'] = self.norm(st, add(k, 1))

    # ---- the end
    def variant(self, st, v):
        if v[0] == 'sym':
            self.discr(st, v)
            v = self.force(st, v)
        return v if v[0] == 'agg' else None

    def root_ret(self, st, data, v):
        was = dict(self.stats)
        try:
            self.judge(st, v)
        except (Split, Undecided):
            for k in ('obligations', 'discharged', 'paths'):
                self.stats[k] = was[k]
            raise

    def judge(self, st, v):
        st.stack.append(Frame(None, 0, 0, 0, 'root'))
        self.stats['paths'] += 1
        if self.whole:
            if v[0] == 'sym':
                v = self.force(st, v)
            if v[0] != 'seq':
                raise Undecided('returned text')
            self.finish_text(st, v)
        else:
            self.sync(st, False)
            self.close_word(st)
        self.stats['obligations'] += 1
        g = st.x['g'][1]
        if st.x['lx'][1][0] not in ('ws', 'aft'):
            self.bad_end(st, 'form', 'the text ends inside a string')
        if self.spec.undecided(self, st, g):
            raise Undecided('key at the end')
        if not self.spec.done(self, st, g):
            self.bad_end(st, 'form', 'the text written is not complete')
        strict = [x for x in self.spec.resolve(self, st, g) if x[0] == self.spec.end and not x[1]]
        if self.f is JSON and not strict:
            self.bad_end(st, 'form', 'a trailing comma is written')
        self.stats['discharged'] += 1
        self.okpaths += 1
        self.stats['obligations'] += 1
        try:
            r = self.value_ok(st)
        except NotSure as x:
            raise Undecided(str(x))
        if r is True:
            self.stats['discharged'] += 1
        else:
            self.bad_end(st, 'value', 'the text does not read back as the value written: ' + str(r))
        raise Dead()

    def bad_end(self, st, kind, msg):
        self.report(st, kind, msg, self.site0())
        raise Dead()

    def value_ok(self, st):
        me = rawval(self, st, st.x['self'])
        if self.strroot:
            v, n = self.count(st)
            k = st.x['k*c']
            return True if self.prove(st, sub(k, n)) else 'characters are missing'
        if self.selfty.startswith(LISTS + MAPS):
            v, n = self.count(st)
            k = st.x.get('k*e', 0)
            return True if self.norm(st, sub(n, k)) == 0 or self.prove(st, sub(k, n)) else 'elements are missing'
        if self.decl is not None:
            d = self.decl
            if d.attr('proxy'):
                return same(self, st, st.x['s:v'], to_proxy(self, d, me))
            if d.kind != 'e':
                if not d.parts:
                    return True
                me = self.force(st, me, 0) if me[0] == 'sym' else me
                return self.members(st, d, d.parts, me[3], '')
            me = self.variant(st, me)
            if me is None:
                raise NotSure('enum')
            pv = d.parts[me[2]]
            if '!' + pv.name not in self.spec.at(self, st, st.x['g'][1]):
                return 'another variant is written'
            return self.members(st, NODECL, pv.fields, me[3], pv.name + '.')
        if self.spec.finish:
            if isinstance(me, tuple) and me[0] == 'sym' and self.T(self.symty[me[1]])['k'] in ('tuple', 'adt') and not self.selfty.startswith('core::option'):
                f = self.force(st, me)
                me = f if f[0] != 'sym' else self.force(st, me, 0) if self.T(self.symty[me[1]])['k'] == 'tuple' else me
            return self.spec.finish(self, st, me)
        return True

    def members(self, st, d, fs, vals, pre):
        for f, v in zip(fs, vals):
            if f.attr('skip'):
                continue
            w = st.x.get('s:' + pre + f.name)
            if w is None:
                try:
                    want = absent(self, d, f)
                except (KeyError, ValueError):
                    return 'the field %s is left out' % f.name
                r = same(self, st, rawval(self, st, v), want)
                if r is not True:
                    return 'the field %s is left out although it does not hold its default' % f.name
                continue
            want = to_proxy(self, f, v) if f.attr('proxy') else v
            r = same(self, st, w, want)
            if r is not True:
                return 'field %s: %s' % (f.name, r)
        return True
