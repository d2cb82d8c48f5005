"""Small readers: what an error prints, and the accessors of a TOML value."""
from . import models as M
from .lin import add, sub, is_num
from .interp import Engine, State, Frame, Dead, Undecided, Split, ISIZE_MAX

ONE = ('line', 'col', 'column')     # counted from zero inside, printed from one


class Show(Engine):
    """Debug or Display of an error, for each of its variants: everything the value
    carries must reach the text, lines and columns counted from one"""

    def __init__(self, prog):
        super().__init__(prog)
        self.conts['root'] = self.root_ret
        self.okpaths = 0

    def text(self, st):
        for i, t in enumerate(self.p.types):
            if t.get('p') == 'alloc::string::String':
                return self.force(st, self.opaque(i, ('text',)))
        raise Undecided('String')

    def values(self, st, ty, depth=0):
        """every shape of a value of the type: (value, parts) with parts the leaves
        [(name, value, how)] that have to show"""
        t = self.T(ty)
        if t.get('p') == 'alloc::string::String':
            v = self.text(st)
            yield v, [('text', v, 'text')]
        elif t['k'] == 'adt' and t.get('v') and not t.get('p', '').startswith(('core::', 'alloc::', 'std::')) and depth < 3:
            for i, var in enumerate(t['v']):
                if depth > 1:
                    v = self.opaque(ty, ('value',))
                    yield v, [(t['p'], v, 'inside')]
                    return
                for fs, ps in self.product(st, var['f'], depth):
                    yield ('agg', ty, i, tuple(fs)), ps
        else:
            v = self.fresh(st, ty, ('value',))
            yield v, [(None, v, 'num' if is_num(v) else 'inside')]

    def product(self, st, fields, depth):
        if not fields:
            yield [], []
            return
        (name, ty), rest = fields[0], fields[1:]
        for v, ps in self.values(st, ty, depth + 1):
            if is_num(v) and name in ONE:
                self.assume_ge(st, sub(ISIZE_MAX, v))
            ps = [(name if how == 'num' else n, x, how) for n, x, how in ps]
            for vs, qs in self.product(st, rest, depth):
                yield [v] + vs, ps + qs

    def start(self, body, ty):
        self.body = body
        inits = []
        n = len(list(self.values(State(), ty)))
        for i in range(n):
            st = State()
            v, parts = list(self.values(st, ty))[i]
            c, self.out = next(self.ncell), next(self.ncell)
            st.mem[c] = v
            st.mem[self.out] = ('seq', 's', ())
            st.x['self'] = v
            st.x['out'] = ('ref', self.out, (), None)
            self.parts = getattr(self, 'parts', {})
            self.parts[len(inits)] = parts
            st.x['case'] = ('lit', len(inits))
            st.stack.append(Frame(None, 0, 0, 0, 'root'))
            self.push(st, body, [('ref', c, (), None), st.x['out']])
            inits.append(st)
        self.run(inits, None)
        return self

    def hook_call(self, st, cal, args):
        if cal['p'].startswith('core::fmt::Formatter') and cal['n'] in ('write_str', 'pad', 'write_char') and len(args) == 2:
            r, s = M.wr(self, st, args[0])
            if r is not None:
                if cal['n'] == 'write_char':
                    ps = (self.strpiece(st, args[1]),)
                else:
                    ps = M.pieces_of(self, st, args[1])
                M.setseq(self, st, r, s[2] + tuple(ps))
                return M.OK(('agg', None, 0, ()))
        return super().hook_call(st, cal, args)

    def root_ret(self, st, data, v):
        st.stack.append(Frame(None, 0, 0, 0, 'root'))
        self.stats['paths'] += 1
        if v[0] == 'sym':
            self.discr(st, v)
            v = self.force(st, v)
        if v[0] == 'agg' and v[2] != 0:
            raise Dead()
        self.okpaths += 1
        r = st.x['out']
        s = M.getseq(self, st, r)
        ps = self.join(st, s[2])
        # numbers of which only one value is left are printed as plain text
        for name, x, how in self.parts[st.x['case'][1]]:
            self.stats['obligations'] += 1
            bad = self.missing(st, ps, name, x, how)
            if bad:
                self.report(st, 'shown', bad, (self.body.path, self.body.j['span']))
            else:
                self.stats['discharged'] += 1
        raise Dead()

    def missing(self, st, ps, name, x, how):
        if how == 'num':
            want = add(x, 1) if name in ONE else x
            for i, p in enumerate(ps):
                if p[0] == 'x' and p[1] == 'num' and self.norm(st, sub(p[2], want)) == 0:
                    if name in ONE:
                        before = ps[i - 1][1] if i and ps[i - 1][0] == 'l' else ''
                        if name[:3] not in before.lower().split(',')[-1]:
                            continue
                    return None
                if p[0] in ('x', 'unk') and p[1] != 'num' and self.holds(st, p, want):
                    return None
            if name in ONE:
                return 'the %s, counted from one, is not what the text gives as %s' % (name, name)
            return 'the number %s of the error is not in the text' % name
        if any(p[0] == 'unk' for p in ps):
            raise Undecided('formatting')
        if how == 'text':
            want = self.join(st, x[2])
            if self.within(want, ps) or self.holds(st, ps, x):
                return None
            return 'the text the error carries is not printed'
        if self.holds(st, ps, x):
            return None
        return 'a part of the error (%s) is not printed' % (name or 'value')

    # a part handed on to the Debug or Display of its own type counts as shown: that
    # one is a root of its own
    def within(self, want, ps):
        n = len(want)
        for i in range(len(ps) - n + 1):
            if tuple(ps[i:i + n]) == tuple(want):
                return True
        return any(self.within(want, p[2]) for p in ps if isinstance(p, tuple) and len(p) > 2 and p[0] == 'x' and isinstance(p[2], tuple))

    def holds(self, st, v, x):
        if v == x:
            return True
        if is_num(x) and is_num(v):
            return self.norm(st, sub(v, x)) == 0
        if isinstance(v, tuple):
            return any(self.holds(st, y, x) for y in v if isinstance(y, tuple))
        return False


ACCESS = {'num': 'Num', 'str': 'Str', 'boolean': 'Bool', 'date': 'Date', 'arr': 'Array', 'simple_arr': 'SimpleArray', 'index': 'Array'}


class Access(Engine):
    """an accessor of a TOML value: the payload of the kind it is for, a panic for every other"""

    def __init__(self, prog):
        super().__init__(prog)
        self.conts['root'] = self.root_ret

    def start(self, body, ty, kind, index):
        self.body = body
        self.kind = kind
        inits = []
        for i, var in enumerate(self.T(ty)['v']):
            st = State()
            c = next(self.ncell)
            fs = tuple(self.fresh(st, t, ('payload',)) for _, t in var['f'])
            st.mem[c] = ('agg', ty, i, fs)
            st.x['kind'] = ('lit', var['n'])
            st.x['pay'] = fs[0] if fs else 0
            args = [('ref', c, (), None)]
            for l in range(2, body.argc + 1):
                v = self.fresh(st, body.locals[l], ('index',))
                st.x['index'] = v
                args.append(v)
            st.x['cell'] = ('lit', c)
            st.stack.append(Frame(None, 0, 0, 0, 'root'))
            self.push(st, body, args)
            inits.append(st)
        self.run(inits, None)
        return self

    def fail(self, st, kind, msg):
        self.report(st, kind, msg, (self.body.path, self.body.j['span']))

    def on_panic(self, st, reason):
        self.stats['obligations'] += 1
        if st.x['kind'][1] == self.kind and 'index' not in st.x:
            self.fail(st, 'verdict', 'the accessor panics on a value of its own kind')
        else:
            self.stats['discharged'] += 1

    def root_ret(self, st, data, v):
        st.stack.append(Frame(None, 0, 0, 0, 'root'))
        same = st.x['kind'][1] == self.kind and self.same(st, v)
        self.stats['paths'] += 1
        self.stats['obligations'] += 1
        if st.x['kind'][1] != self.kind:
            self.fail(st, 'verdict', 'the accessor for %s takes a %s' % (self.kind, st.x['kind'][1]))
            raise Dead()
        if not same:
            self.fail(st, 'value', 'the accessor does not return what the value holds')
        else:
            self.stats['discharged'] += 1
        raise Dead()

    def same(self, st, v):
        pay = st.x['pay']
        if 'index' in st.x:
            return self.element(st, v, pay)
        for _ in range(4):
            if v == pay:
                return True
            if v[0] == 'ref' and v[1] == st.x['cell'][1]:
                return True
            if is_num(v) and is_num(pay):
                return self.norm(st, sub(v, pay)) == 0
            w = self.force(st, pay) if isinstance(pay, tuple) and pay[0] == 'sym' else pay
            if v == w:
                return True
            if v[0] == 'seq' and w[0] == 'seq':
                return self.join(st, v[2]) == self.join(st, w[2])
            r, t = M.target(self, st, v)
            if t == v:
                return False
            v = t
        return False

    def element(self, st, v, pay):
        r = v
        if not (isinstance(r, tuple) and r[0] == 'ref'):
            return False
        path = r[2]
        idx = self.norm(st, st.x['index'])
        hit = []

        def scan(x):
            if is_num(x):
                if not isinstance(x, int) and self.norm(st, sub(x, idx)) == 0:
                    hit.append(x)
                return
            if isinstance(x, tuple):
                for y in x:
                    if isinstance(y, tuple):
                        scan(y)
        scan(path)
        scan(r[3] if len(r) > 3 and isinstance(r[3], tuple) else ())
        if r[1] in st.mem:
            scan(st.mem[r[1]])
        return bool(hit)
