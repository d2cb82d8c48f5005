"""Abstract interpreter over dumped MIR: disjunctive abstract states, linear numeric domain,
sequence abstraction, inclusion-based merging and widening at loop heads."""
import itertools
import json
import re
from . import lin as N
from .lin import add, sub, mul, neg, is_num, single

UNIT = ('agg', None, 0, ())
TOP = ('top',)
UNINIT = ('uninit',)
MOVED = ('moved',)
USIZE = (0, (1 << 64) - 1)
ISIZE_MAX = (1 << 63) - 1
CHARS = ((0, 0xD7FF), (0xE000, 0x10FFFF))

INTR = {}
for _b in (8, 16, 32, 64, 128):
    INTR['u%d' % _b] = (0, (1 << _b) - 1)
    INTR['i%d' % _b] = (-(1 << (_b - 1)), (1 << (_b - 1)) - 1)
INTR['usize'] = INTR['u64']
INTR['isize'] = INTR['i64']
INTR['bool'] = (0, 1)
INTR['char'] = (0, 0x10FFFF)
FLOATS = ('f32', 'f64', 'f16', 'f128')

SEQTY = {
    'alloc::string::String': 's', 'alloc::vec::Vec': 'v',
    'alloc::collections::linked_list::LinkedList': 'v',
    'alloc::collections::vec_deque::VecDeque': 'v',
    'alloc::collections::btree::set::BTreeSet': 'set',
    'std::collections::hash::set::HashSet': 'set', 'hashbrown::set::HashSet': 'set',
    'alloc::collections::btree::map::BTreeMap': 'map',
    'std::collections::hash::map::HashMap': 'map', 'hashbrown::map::HashMap': 'map',
}


class Split(Exception):
    def __init__(self, states):
        self.states = states


class Dead(Exception):
    """the current state is infeasible or has ended"""


class Undecided(Exception):
    """analysis gave up on this path"""


class Body:
    def __init__(self, j):
        self.j = j
        self.key = j['key']
        self.path = j['path']
        self.crate = j['crate']
        self.argc = j['argc']
        self.locals = j['locals']
        self.blocks = j['blocks']
        self.root = j.get('root')
        self.spread = j.get('spread')
        self.n = len(self.locals)
        self._heads = None
        self._live = None
        self.names = {l: n for l, n in j['names']}
        # corpus stand-ins are written `loop {}`: they never return
        self.opaque = self.crate.startswith('nsv_') and not any(b['t'][0] == 'ret' for b in self.blocks)

    def succs(self, bb):
        t = self.blocks[bb]['t']
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            return [x[1] for x in t[2]] + [t[3]]
        if k == 'drop':
            return [t[2]]
        if k == 'assert':
            return [t[5]]
        if k == 'call':
            return [t[4]] if t[4] is not None else []
        return []

    @property
    def heads(self):
        if self._heads is None:
            self._heads = set()
            color = {}
            stack = [(0, iter(self.succs(0)))]
            color[0] = 1
            while stack:
                b, it = stack[-1]
                for s in it:
                    c = color.get(s, 0)
                    if c == 0:
                        color[s] = 1
                        stack.append((s, iter(self.succs(s))))
                        break
                    if c == 1:
                        self._heads.add(s)
                else:
                    color[b] = 2
                    stack.pop()
        return self._heads

    def _uses(self, x, use, addr):
        """collect locals used in operand"""
        if 'cp' in x or 'mv' in x:
            p = x.get('cp') or x.get('mv')
            self._place_use(p, use)

    def _place_use(self, p, use):
        use.add(p[0])
        for e in p[1:]:
            if isinstance(e, list) and e[0] == 'i':
                use.add(e[1])

    def live(self):
        """live-in per block (locals), and address-taken locals"""
        if self._live is not None:
            return self._live
        gen, kill = [], []
        addr = set()
        for bl in self.blocks:
            g, k = set(), set()

            def use(l):
                if l not in k:
                    g.add(l)

            def op(x):
                if 'cp' in x or 'mv' in x:
                    pl(x.get('cp') or x.get('mv'))

            def pl(p):
                use(p[0])
                for e in p[1:]:
                    if isinstance(e, list) and e[0] == 'i':
                        use(e[1])

            def dest(p):
                if len(p) == 1:
                    if p[0] not in g:
                        k.add(p[0])
                    else:
                        pass
                    k.add(p[0])
                else:
                    pl(p)

            for s in bl['s']:
                if s[0] == '=':
                    r = s[2]
                    if r[0] in ('use', 'repeat'):
                        op(r[1])
                    elif r[0] in ('ref', 'raw'):
                        pl(r[2])
                        if '*' not in r[2][1:]:
                            addr.add(r[2][0])
                    elif r[0] == 'cast':
                        op(r[2])
                    elif r[0] == 'bin':
                        op(r[2])
                        op(r[3])
                    elif r[0] == 'un':
                        op(r[2])
                    elif r[0] == 'discr':
                        pl(r[1])
                    elif r[0] == 'agg':
                        for o in r[2]:
                            op(o)
                    dest(s[1])
                elif s[0] == 'sd':
                    pl(s[1])
            t = bl['t']
            if t[0] == 'switch':
                op(t[1])
            elif t[0] == 'drop':
                pl(t[1])
            elif t[0] == 'assert':
                op(t[1])
                for o in t[4]:
                    op(o)
            elif t[0] == 'call':
                if 'ptr' in t[1]:
                    op(t[1]['ptr'])
                for o in t[2]:
                    op(o)
                dest(t[3])
            elif t[0] == 'ret':
                use(0)
            gen.append(g)
            kill.append(k)
        livein = [set(g) for g in gen]
        ch = True
        order = list(range(len(self.blocks)))[::-1]
        while ch:
            ch = False
            for b in order:
                out = set()
                for s in self.succs(b):
                    out |= livein[s]
                n = gen[b] | (out - kill[b])
                if n != livein[b]:
                    livein[b] = n
                    ch = True
        self._live = (livein, addr)
        return self._live


class Frame:
    __slots__ = ('b', 'bb', 'si', 'base', 'cont', 'data')

    def __init__(self, b, bb, si, base, cont=None, data=None):
        self.b = b
        self.bb = bb
        self.si = si
        self.base = base
        self.cont = cont
        self.data = data

    def copy(self):
        return Frame(self.b, self.bb, self.si, self.base, self.cont, self.data)


class State:
    __slots__ = ('mem', 'stacks', 'act', 'rng', 'cons', 'nes', 'sub', 'tab', 'x', 'taint', 'trace',
                 'hist', 'trail', 'depth', 'steps', 'flags')

    def __init__(self):
        self.mem = {}
        self.stacks = [[]]
        self.act = 0
        self.rng = {}
        self.cons = ()
        self.nes = ()
        self.sub = {}
        self.tab = {}
        self.x = {}
        self.taint = False
        self.trace = None
        self.hist = {}
        self.trail = {}
        self.depth = 0
        self.steps = 0
        self.flags = frozenset()

    def clone(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.stacks = [list(k) for k in self.stacks]
        for k in s.stacks:
            if k:
                k[-1] = k[-1].copy()
        s.act = self.act
        s.rng = dict(self.rng)
        s.cons = self.cons
        s.nes = self.nes
        s.sub = dict(self.sub)
        s.tab = dict(self.tab)
        s.x = dict(self.x)
        s.taint = self.taint
        s.trace = self.trace
        s.hist = dict(self.hist)
        s.trail = dict(self.trail)
        s.depth = self.depth
        s.steps = self.steps
        s.flags = self.flags
        return s

    @property
    def stack(self):
        return self.stacks[self.act]

    @property
    def top(self):
        return self.stacks[self.act][-1]


class Program:
    def __init__(self, path):
        with open(path) as f:
            D = json.load(f)
        self.crate = D['crate']
        self.types = D['types']
        self.bodies = {b['key']: Body(b) for b in D['bodies']}
        self.impls = D['impls']
        self.byname = {t['s']: i for i, t in enumerate(self.types)}
        self.roots = {k: b for k, b in self.bodies.items() if b.root}
        self.dropimpl = {}
        for k, b in self.bodies.items():
            r = b.root
            if r and r.get('trait') == 'core::ops::drop::Drop' and r['name'] == 'drop':
                t = self.types[r['self']]
                if t['k'] == 'adt':
                    self.dropimpl[t['p']] = k
        self.impl = {}
        for k, b in self.bodies.items():
            r = b.root
            if r and 'trait' in r:
                self.impl[(r['trait'], r['name'], self.types[r['self']]['s'])] = k

    def ty(self, i):
        return self.types[i]


class Engine:
    maxsteps = 400000
    maxstates = 20000
    maxdepth = 60
    widen_at = 3
    collapse_at = 4

    def __init__(self, prog):
        self.p = prog
        self.moves = []
        self.nsym = itertools.count(1)
        self.ncell = itertools.count(1)
        self.constcells = set()   # cells that hold literals
        self.sdef = {}      # sym -> default interval set (numeric syms)
        self.sorig = {}     # sym -> origin tuple
        self.staint = set()
        self.assumed = set()
        self.symclass = {}  # opaque sym -> variants it can have
        self.symty = {}     # opaque sym -> type index
        self.constparam = {}
        self.constcache = {}
        self.keep = []
        self.reports = {}   # key -> dict
        self.undec = {}
        self.stats = dict(states=0, steps=0, covered=0, widened=0, paths=0, calls=0, havoc=0, bodies=set(), obligations=0, discharged=0)
        self.unknown = {}
        self.finished = []
        self.stored = {}
        self.models = None
        self.on_call = None
        self.checkcalls = set()
        self.markers = {}
        self.conts = {'discard': lambda st, data, v: None}
        from . import models
        models.install(self)

    # ------------------------------------------------------------ symbols
    def newsym(self, lo=None, hi=None, origin=None, taint=False, ivs=None):
        s = next(self.nsym)
        self.sdef[s] = ivs if ivs is not None else ((lo, hi),)
        self.sorig[s] = origin
        if taint:
            self.staint.add(s)
        return s

    def num(self, lo, hi, origin=None, taint=False):
        return N.sym(self.newsym(lo, hi, origin, taint))

    def chsym(self, origin=None, taint=False):
        return N.sym(self.newsym(origin=origin, taint=taint, ivs=CHARS))

    def opaque(self, ty, origin=None, taint=False):
        s = next(self.nsym)
        self.symty[s] = ty
        self.sorig[s] = origin
        if taint:
            self.staint.add(s)
        return ('sym', s)

    # ------------------------------------------------------------ numeric
    def ivs(self, st, s):
        r = st.rng.get(s)
        return r if r is not None else self.sdef[s]

    def norm(self, st, a):
        if isinstance(a, int):
            return a
        if not st.sub:
            return a
        for s, _ in a[2]:
            if s in st.sub:
                break
        else:
            return a
        r = a[1]
        d = {}
        for s, k in a[2]:
            v = st.sub.get(s)
            if v is None:
                d[s] = d.get(s, 0) + k
            elif isinstance(v, int):
                r += v * k
            else:
                v = self.norm(st, v)
                st.sub[s] = v
                if isinstance(v, int):
                    r += v * k
                else:
                    r += v[1] * k
                    for s2, k2 in v[2]:
                        d[s2] = d.get(s2, 0) + k2 * k
        return N.mk(r, d)

    def bounds(self, st, a):
        """interval of a linear expression (None = unbounded)"""
        a = self.norm(st, a)
        if isinstance(a, int):
            return a, a
        lo = hi = a[1]
        for s, k in a[2]:
            iv = self.ivs(st, s)
            if not iv:
                raise Dead()
            l, h = iv[0][0], iv[-1][1]
            if k < 0:
                l, h = h, l
            lo = None if lo is None or l is None else lo + k * l
            hi = None if hi is None or h is None else hi + k * h
        return lo, hi

    def system(self, st, *lins):
        seen = set()
        work = []
        for a in lins:
            work += N.syms(a)
        cons = list(st.cons)
        out = []
        while work:
            s = work.pop()
            if s in seen:
                continue
            seen.add(s)
            for c in cons[:]:
                ss = N.syms(c)
                if s in ss:
                    cons.remove(c)
                    out.append(c)
                    work += ss
        for s in seen:
            iv = self.ivs(st, s)
            if iv and iv[0][0] is not None:
                out.append(('L', -iv[0][0], ((s, 1),)))
            if iv and iv[-1][1] is not None:
                out.append(('L', iv[-1][1], ((s, -1),)))
        return out

    def prove(self, st, a):
        """a >= 0 in every concretisation"""
        a = self.norm(st, a)
        if isinstance(a, int):
            return a >= 0
        lo, _ = self.bounds(st, a)
        if lo is not None and lo >= 0:
            return True
        if not st.cons:
            return False
        self.normcons(st)
        return N.infeasible(self.system(st, a) + [add(neg(a), -1)])

    def normcons(self, st):
        if not st.sub:
            return
        ch = False
        out = []
        for c in st.cons:
            n = self.norm(st, c)
            if n is not c:
                ch = True
            if isinstance(n, int):
                if n < 0:
                    raise Dead()
                continue
            out.append(n)
        if ch:
            st.cons = tuple(dict.fromkeys(out))

    def assume_ge(self, st, a):
        """assume a >= 0; False if infeasible"""
        a = self.norm(st, a)
        if isinstance(a, int):
            return a >= 0
        lo, hi = self.bounds(st, a)
        if hi is not None and hi < 0:
            return False
        if lo is not None and lo >= 0:
            return True
        sg = single(a)
        if sg:
            s, k, c = sg
            iv = self.ivs(st, s)
            if k > 0:   # s >= ceil(-c/k)
                b = -(c // k) if c % k == 0 else -(c // k)
                b = -((c) // k)
                iv = tuple((max(l, b) if l is not None else b, h) for l, h in iv if h is None or h >= b)
            else:       # s <= floor(c/-k)
                b = c // (-k)
                iv = tuple((l, min(h, b) if h is not None else b) for l, h in iv if l is None or l <= b)
            if not iv:
                return False
            self.setiv(st, s, iv)
            if st.cons:
                return self.feas(st, s)
            return True
        self.normcons(st)
        sysm = self.system(st, a)
        if N.infeasible(sysm + [a]):
            return False
        st.cons = st.cons + (a,)
        # equality detection: -a >= 0 also known
        if N.infeasible(sysm + [a, add(a, -1)]):
            return self._subst_eq(st, a)
        for ne in st.nes:
            n = self.norm(st, ne)
            if n == a or (not isinstance(n, int) and neg(n) == a):
                st.nes = tuple(x for x in st.nes if x != ne)
                return self.assume_ge(st, add(a, -1))
        return True

    def feas(self, st, s):
        self.normcons(st)
        return not N.infeasible(self.system(st, N.sym(s)))

    def setiv(self, st, s, iv):
        st.rng[s] = iv
        if len(iv) == 1 and iv[0][0] == iv[0][1]:
            st.sub[s] = iv[0][0]
            if st.nes:
                self.recheck_ne(st)

    def recheck_ne(self, st):
        out = []
        todo = []
        for n in st.nes:
            m = self.norm(st, n)
            if isinstance(m, int):
                if m == 0:
                    raise Dead()
                continue
            if single(m):
                todo.append(m)
                continue
            out.append(m)
        st.nes = tuple(out)
        for m in todo:
            if not self.assume_ne(st, m):
                raise Dead()

    def _subst_eq(self, st, a):
        """a == 0 with several symbols: eliminate the newest unit-coefficient one"""
        a = self.norm(st, a)
        if isinstance(a, int):
            return a == 0
        best = None
        for s, k in a[2]:
            if abs(k) == 1 and (best is None or s > best[0]):
                best = (s, k)
        if best is None:
            st.cons = st.cons + (a, neg(a))
            return True
        s, k = best
        rest = ('L', a[1], tuple(x for x in a[2] if x[0] != s))
        if not rest[2]:
            rest = rest[1]
        v = mul(rest, -1) if k == 1 else rest
        iv = self.ivs(st, s)
        if isinstance(v, int):
            iv = N.iv_inter(iv, ((v, v),)) if iv[0][0] is not None else ((v, v),)
            if not iv:
                return False
            self.setiv(st, s, iv)
            return True
        st.sub[s] = v
        for n in st.nes:
            m = self.norm(st, n)
            if m == 0:
                return False
        if iv[0][0] is not None:
            if not self.assume_ge(st, add(v, -iv[0][0])):
                return False
        if iv[-1][1] is not None:
            if not self.assume_ge(st, sub(iv[-1][1], v)):
                return False
        sg = single(self.norm(st, v))
        if sg and sg[1] == 1 and len(iv) > 1:
            s2, _, c2 = sg
            iv2 = N.iv_inter(self.ivs(st, s2), tuple((l - c2, h - c2) for l, h in iv))
            if not iv2:
                return False
            self.setiv(st, s2, iv2)
        self.normcons(st)
        return True

    def assume_eq(self, st, a):
        a = self.norm(st, a)
        if isinstance(a, int):
            return a == 0
        sg = single(a)
        if sg:
            s, k, c = sg
            if (-c) % k:
                return False
            v = -c // k
            iv = self.ivs(st, s)
            ok = any((l is None or l <= v) and (h is None or v <= h) for l, h in iv)
            if not ok:
                return False
            self.setiv(st, s, ((v, v),))
            if st.cons:
                return self.feas(st, s)
            return True
        lo, hi = self.bounds(st, a)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return False
        self.normcons(st)
        sysm = self.system(st, a)
        if N.infeasible(sysm + [a, neg(a)]):
            return False
        for n in st.nes:
            m = self.norm(st, n)
            if m == a or (not isinstance(m, int) and neg(m) == a):
                return False
        return self._subst_eq(st, a)

    def assume_ne(self, st, a):
        a = self.norm(st, a)
        if isinstance(a, int):
            return a != 0
        sg = single(a)
        if sg:
            s, k, c = sg
            if (-c) % k:
                return True
            v = -c // k
            iv = self.ivs(st, s)
            if iv[0][0] is None or iv[-1][1] is None:
                st.nes = st.nes + (a,)
                return True
            n = N.iv_remove(iv, v)
            if not n:
                return False
            if n != iv:
                self.setiv(st, s, n)
                if st.cons:
                    return self.feas(st, s)
            return True
        lo, hi = self.bounds(st, a)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return True
        if self.prove(st, a):
            return self.assume_ge(st, add(a, -1))
        if self.prove(st, neg(a)):
            return self.assume_ge(st, add(neg(a), -1))
        if a not in st.nes:
            st.nes = st.nes + (a,)
        return True

    # conditions: ('cmp', op, lin): op ge|eq|ne ; int 0/1 ; lin symbol in [0,1]; ('rngout', lin, lo, hi)
    def negate(self, c):
        if isinstance(c, int):
            return 1 - c
        if c[0] == 'L':
            return ('cmp', 'eq', c)
        if c[0] == 'cmp':
            if c[1] == 'ge':
                return ('cmp', 'ge', add(neg(c[2]), -1))
            return ('cmp', 'ne' if c[1] == 'eq' else 'eq', c[2])
        if c[0] == 'rngout':
            return ('rngin',) + c[1:]
        if c[0] == 'rngin':
            return ('rngout',) + c[1:]
        if c[0] == 'not':
            return c[1]
        return ('not', c)

    def assume(self, st, c, val=True):
        if not val:
            c = self.negate(c)
        if isinstance(c, int):
            return bool(c)
        if c[0] == 'L':
            return self.assume_ne(st, c)
        if c[0] == 'cmp':
            return {'ge': self.assume_ge, 'eq': self.assume_eq, 'ne': self.assume_ne}[c[1]](st, c[2])
        if c[0] == 'rngin':
            return self.assume_ge(st, sub(c[1], c[2])) and self.assume_ge(st, sub(c[3], c[1]))
        if c[0] == 'rngout':
            lo_ok = self.prove(st, sub(c[1], c[2]))
            hi_ok = self.prove(st, sub(c[3], c[1]))
            if lo_ok and hi_ok:
                return False
            if lo_ok:
                return self.assume_ge(st, add(sub(c[1], c[3]), -1))
            if hi_ok:
                return self.assume_ge(st, add(sub(c[2], c[1]), -1))
            return True
        if c[0] in ('top', 'not', 'uninit', 'moved', 'sym'):
            st.taint = True
            return True
        raise Undecided('cond %r' % (c,))

    def truth(self, st, c):
        """True / False / None"""
        if isinstance(c, int):
            return bool(c)
        if c[0] == 'L':
            c = self.norm(st, c)
            if isinstance(c, int):
                return bool(c)
            return None
        if c[0] == 'cmp':
            a = self.norm(st, c[2])
            if isinstance(a, int):
                return {'ge': a >= 0, 'eq': a == 0, 'ne': a != 0}[c[1]]
            if c[1] == 'ge':
                if self.prove(st, a):
                    return True
                if self.prove(st, add(neg(a), -1)):
                    return False
                return None
            r = None
            sg = single(a)
            if sg:
                s, k, cc = sg
                if (-cc) % k:
                    r = False
                else:
                    v = -cc // k
                    iv = self.ivs(st, s)
                    if not any((l is None or l <= v) and (h is None or v <= h) for l, h in iv):
                        r = False
                    elif len(iv) == 1 and iv[0] == (v, v):
                        r = True
                if r is None and st.cons:
                    if self.prove(st, add(a, -1)) or self.prove(st, add(neg(a), -1)):
                        r = False
                if r is None and st.nes:
                    na = neg(a)
                    if any(m == a or m == na for m in (self.norm(st, n) for n in st.nes)):
                        r = False
            else:
                if self.prove(st, add(a, -1)) or self.prove(st, add(neg(a), -1)):
                    r = False
                else:
                    for n in st.nes:
                        m = self.norm(st, n)
                        if m == a or (not isinstance(m, int) and neg(m) == a):
                            r = False
            if r is None:
                return None
            return r if c[1] == 'eq' else (not r)
        if c[0] in ('rngin', 'rngout'):
            i = self.prove(st, sub(c[1], c[2])) and self.prove(st, sub(c[3], c[1]))
            if i:
                return c[0] == 'rngin'
            o = self.prove(st, add(sub(c[2], c[1]), -1)) or self.prove(st, add(sub(c[1], c[3]), -1))
            if o:
                return c[0] == 'rngout'
            return None
        return None

    def condsyms(self, c):
        if isinstance(c, int):
            return []
        if c[0] == 'L':
            return N.syms(c)
        if c[0] == 'cmp':
            return N.syms(c[2])
        if c[0] in ('rngin', 'rngout'):
            return N.syms(c[1])
        return [-1]

    def is_tainted(self, syms):
        return any(s == -1 or s in self.staint for s in syms)

    def decide(self, st, c):
        """truth of c, splitting the state when both are possible"""
        if not isinstance(c, int):
            if c[0] == 'rngin':
                return self.decide(st, ('cmp', 'ge', sub(c[1], c[2]))) and self.decide(st, ('cmp', 'ge', sub(c[3], c[1])))
            if c[0] == 'rngout':
                return not self.decide(st, ('rngin',) + c[1:])
            if c[0] == 'not' and isinstance(c[1], tuple) and c[1][0] in ('cmp', 'rngin', 'rngout', 'L'):
                return not self.decide(st, c[1])
            if c[0] not in ('L', 'cmp'):
                raise Undecided('condition on an unknown value')
        r = self.truth(st, c)
        if r is not None:
            return r
        if self.hook_undecided(st, c):
            r = self.truth(st, c)
            if r is not None:
                return r
        outs = []
        for v in (True, False):
            s = st.clone()
            try:
                if self.assume(s, c, v):
                    outs.append((v, s))
            except Dead:
                pass
        if not outs:
            raise Dead()
        if len(outs) == 1:
            v = outs[0][0]
            if not self.assume(st, c, v):
                raise Dead()
            return v
        if self.is_tainted(self.condsyms(c)):
            for _, s in outs:
                s.taint = True
        raise Split([s for _, s in outs])

    def hook_undecided(self, st, c):
        return False

    # ------------------------------------------------------------ defaults for the library models
    unk_taints = True
    finite_floats = True
    max_epoch_secs = ISIZE_MAX

    def touch_out(self, st, r):
        """called before the contents of a buffer are inspected"""

    def text_iter(self, st, r):
        return None

    def queue_next(self, st, rr, it):
        raise Undecided('queue')

    def progress(self, st, what):
        st.steps += 1

    def lit_possible(self, st, run, lit):
        return True

    def on_alloc(self, st, n, what):
        pass

    def on_assume_init(self, st, v, cal):
        pass

    def strty(self):
        for n in ('alloc::string::String', 'str'):
            if n in self.p.byname:
                return self.p.byname[n]
        for i, t in enumerate(self.p.types):
            if t['k'] == 'adt' and t['p'] == 'alloc::string::String':
                return i
        raise Undecided('no string type')

    def utf8err(self, st):
        return ('lit', 'utf8error')

    def parse_err(self, st, ty):
        return ('lit', 'parseerror')

    def charset_of(self, src):
        """character ranges the elements of a source are known to be in"""
        return None

    def text_number(self, st, ps, ty=None):
        return None

    def text_value(self, st, ps, ty, radix):
        return None

    def text_float(self, st, ps, ty):
        return None

    def parse_ok_possible(self, st, ps, ty, radix):
        return True

    def parse_err_possible(self, st, ps, ty, radix):
        return True

    def on_frombytes(self, st, v, ty, k, ps):
        pass

    def map_insert(self, st, r, s, pair):
        """insertion: entries form a sequence in insertion order; the old value is unknown"""
        from . import models as M
        kt = ('lit', 'old')
        key = ('mapold', s[2], pair[3][0])
        M.setseq(self, st, r, s[2] + (self.topiece(st, pair),))
        return ('mapold',)

    def map_contains(self, st, r, s, key):
        return self.num(0, 1, ('contains',))

    def map_get(self, st, cal, r, t, key):
        return NotImplemented

    # ------------------------------------------------------------ types
    def T(self, i):
        return self.p.types[i]

    def intrange(self, ty):
        t = self.T(ty)
        if t['k'] == 'prim':
            return INTR.get(t['s'])
        return None

    def fresh(self, st, ty, origin=None, taint=False):
        t = self.T(ty)
        k = t['k']
        if k == 'prim':
            s = t['s']
            if s == 'char':
                return self.chsym(origin, taint)
            if s in INTR:
                lo, hi = INTR[s]
                return self.num(lo, hi, origin, taint)
            if s == '!':
                return TOP
            return self.opaque(ty, origin, taint)
        if k == 'tuple':
            return ('agg', None, 0, tuple(self.fresh(st, x, origin and origin + (i,), taint) for i, x in enumerate(t['ts'])))
        if k in ('ref', 'ptr'):
            c = next(self.ncell)
            st.mem[c] = self.fresh(st, t['t'], origin and origin + ('*',), taint)
            return ('ref', c, (), None)
        if k == 'fndef':
            return ('fn', t['f'])
        if k == 'adt' and t['ak'] == 'struct' and 'v' in t and not t['v'][0]['f']:
            return ('agg', ty, 0, ())
        return self.opaque(ty, origin, taint)

    def constp(self, name):
        if name not in self.constparam:
            self.constparam[name] = self.num(0, ISIZE_MAX, ('const', name))
        return self.constparam[name]

    def force(self, st, v, variant=None):
        """resolve an opaque symbol to its (memoised) expansion when it has one"""
        while v[0] == 'sym':
            e = st.tab.get(v[1])
            if e is None:
                e = self.expand(st, v, variant)
                if e is None:
                    return v
            v = e
        return v

    def expand(self, st, v, variant=None):
        sid = v[1]
        ty = self.symty.get(sid)
        if ty is None:
            return None
        t = self.T(ty)
        tn = sid in self.staint
        o = ('of', sid)
        k = t['k']
        e = None
        if k == 'adt':
            kind = SEQTY.get(t['p'])
            if kind:
                e = self.symseq(st, sid, kind, tn)
            elif t['p'] == 'core::time::Duration':
                e = ('agg', ty, 0, (self.num(0, (1 << 64) - 1, ('secs', sid), tn), self.num(0, 999999999, ('nanos', sid), tn)))
            elif t['p'] == 'alloc::boxed::Box':
                c = next(self.ncell)
                st.mem[c] = self.fresh(st, t['a'][0], ('box', sid), tn)
                e = ('ref', c, (), None)
            elif 'v' in t:
                if t['ak'] == 'struct':
                    e = ('agg', ty, 0, tuple(self.fresh(st, f[1], ('fld', sid, i), tn) for i, f in enumerate(t['v'][0]['f'])))
                elif t['ak'] == 'enum':
                    if variant is None and len(t['v']) == 1:
                        variant = 0
                    if variant is not None:
                        e = self.mkvariant(st, sid, variant)
                elif t['ak'] == 'union':
                    return None
        elif k == 'prim' and t['s'] == 'str':
            e = self.symseq(st, sid, 's', tn)
        elif k in ('slice', 'array'):
            e = self.symseq(st, sid, 'v', tn)
        elif k == 'closure':
            e = ('agg', ty, 0, tuple(self.fresh(st, x, ('fld', sid, i), tn) for i, x in enumerate(t['up'])))
        if e is not None:
            st.tab[sid] = e
        return e

    def mkvariant(self, st, sid, vi):
        ty = self.symty[sid]
        t = self.T(ty)
        tn = sid in self.staint
        return ('agg', ty, vi, tuple(self.fresh(st, f[1], ('fld', sid, vi, i), tn) for i, f in enumerate(t['v'][vi]['f'])))

    def symseq(self, st, sid, kind, tn):
        t = self.T(self.symty[sid])
        if t['k'] == 'array':
            n = t['n']
            n = self.constp(n) if isinstance(n, str) else n
        else:
            n = self.num(0, ISIZE_MAX, ('len', sid), tn)
        if isinstance(n, int) and n == 0:
            return ('seq', kind, ())
        if isinstance(n, int) and n <= 64 and kind == 'v':
            return ('seq', kind, tuple(('e', self.elem(st, sid, i)) for i in range(n)))
        return ('seq', kind, (('run', sid, 0, n),))

    def elemty(self, sid):
        """type of the elements of the source sequence sid, or 'char'"""
        if isinstance(sid, tuple):
            if sid[0] == 'zip':
                return 'zip'
            return 'char'
        t = self.T(self.symty[sid])
        if t['k'] in ('array', 'slice'):
            return t['t']
        if t['k'] == 'prim' and t['s'] == 'str':
            return 'char'
        if t['k'] == 'adt':
            k = SEQTY[t['p']]
            if k == 's':
                return 'char'
            if k == 'map':
                return ('pair', t['a'][0], t['a'][1])
            return t['a'][0]
        raise Undecided('elemty')

    def elem(self, st, src, pos):
        pos = self.norm(st, pos)
        m = ('el', src, pos)
        v = st.tab.get(m)
        if v is not None:
            return v
        tn = (not isinstance(src, tuple)) and src in self.staint
        et = self.elemty(src)
        o = ('el', src)
        if et == 'zip':
            return ('agg', None, 0, tuple(self.elem(st, x, pos) for x in src[1:]))
        if et == 'char':
            v = self.textchar(st, src, pos)
        elif isinstance(et, tuple):
            v = ('agg', None, 0, (self.fresh(st, et[1], ('elk', src), tn), self.fresh(st, et[2], ('elv', src), tn)))
        else:
            v = self.fresh(st, et, o, tn)
        st.tab[m] = v
        r = self.revkey(v)
        if r is not None:
            st.tab[('rel', r)] = (src, pos)
        return v

    def textchar(self, st, src, pos):
        return self.chsym(('el', src), (not isinstance(src, tuple)) and src in self.staint)

    @staticmethod
    def revkey(v):
        if v[0] == 'sym':
            return v[1]
        if v[0] == 'L':
            sg = single(v)
            if sg and sg[1] == 1 and sg[2] == 0:
                return sg[0]
            return None
        if v[0] == 'agg' and v[3]:
            ks = tuple(Engine.revkey(f) if isinstance(f, tuple) else None for f in v[3])
            if all(k is not None for k in ks):
                return ks
        return None

    # ------------------------------------------------------------ sequences
    def plen(self, st, p):
        """number of elements in a piece (chars for strings)"""
        k = p[0]
        if k == 'e':
            return 1
        if k == 'l':
            return len(p[1])
        if k == 'run':
            return sub(p[3], p[2])
        if k == 'rep':
            return p[2]
        if k in ('unk', 'x'):
            return p[-1]
        raise Undecided('plen %s' % (p,))

    def slen(self, st, seq):
        n = 0
        for p in seq[2]:
            n = add(n, self.plen(st, p))
        return self.norm(st, n)

    def topiece(self, st, v):
        r = self.revkey(v) if isinstance(v, tuple) else None
        if r is not None:
            sp = st.tab.get(('rel', r))
            if sp is not None and self.elem_is(st, sp, v):
                return ('run', sp[0], sp[1], add(sp[1], 1))
            if isinstance(r, tuple) and len(r) > 1:
                sps = [st.tab.get(('rel', x)) for x in r]
                if all(x is not None and isinstance(x[0], int) for x in sps) and all(self.norm(st, sub(x[1], sps[0][1])) == 0 for x in sps):
                    return ('run', ('zip',) + tuple(x[0] for x in sps), sps[0][1], add(sps[0][1], 1))
        if isinstance(v, tuple) and v[0] == 'L':
            n = self.norm(st, v)
            return ('e', n)
        return ('e', v)

    def elem_is(self, st, sp, v):
        return True

    def textfacts(self, st, run):
        """what a run of text is known (not) to be"""
        tab = st.tab
        t, n = tab.get(('litof', run)), tab.get(('notlit', run))
        lo, hi = self.norm(st, run[2]), self.norm(st, run[3])
        if lo != run[2] or hi != run[3]:
            r = ('run', run[1], lo, hi)
            t = t or tab.get(('litof', r))
            m = tab.get(('notlit', r))
            if n is None:
                n = m
            elif m is not None:
                n = ('lit', n[1] | m[1])
        return ('litof', t), ('notlit', n)

    def join(self, st, pieces):
        """normalise a list of pieces"""
        out = []
        for p in pieces:
            k = p[0]
            if k == 'run':
                lo, hi = self.norm(st, p[2]), self.norm(st, p[3])
                if lo == hi:
                    continue
                p = ('run', p[1], lo, hi)
                if out and out[-1][0] == 'run' and out[-1][1] == p[1] and self.norm(st, sub(out[-1][3], lo)) == 0:
                    q = out[-1]
                    out[-1] = ('run', q[1], q[2], hi)
                    continue
            elif k == 'rep':
                n = self.norm(st, p[2])
                if n == 0:
                    continue
                p = ('rep', p[1], n)
                if out and out[-1][0] == 'rep' and out[-1][1] == p[1]:
                    out[-1] = ('rep', p[1], add(out[-1][2], n))
                    continue
            elif k == 'l':
                if not p[1]:
                    continue
                if out and out[-1][0] == 'l':
                    out[-1] = ('l', out[-1][1] + p[1])
                    continue
            elif k == 'unk':
                n = self.norm(st, p[-1])
                if n == 0:
                    continue
                p = p[:-1] + (n,)
                if out and out[-1][0] == 'unk' and out[-1][1] == p[1]:
                    out[-1] = ('unk', out[-1][1], add(out[-1][2], n))
                    continue
            elif k == 'x':
                if self.norm(st, p[-1]) == 0 and p[1] != 'child':
                    continue
            out.append(p)
        return tuple(out)

    def strpiece(self, st, c):
        """piece for one char value"""
        c = self.norm(st, c) if is_num(c) else c
        if isinstance(c, int):
            return ('l', chr(c)) if not 0xD800 <= c < 0xE000 and 0 <= c < 0x110000 else ('e', c)
        return self.topiece(st, c)

    def seq_split(self, st, pieces, n):
        """split pieces at element index n -> (left, right); may Split the state"""
        left = []
        n = self.norm(st, n)
        rest = list(pieces)
        while rest:
            if isinstance(n, int) and n == 0:
                break
            p = rest[0]
            L = self.norm(st, self.plen(st, p))
            d = self.norm(st, sub(n, L))
            if self.decide(st, ('cmp', 'ge', d)):
                left.append(p)
                rest.pop(0)
                n = self.norm(st, d)
                continue
            if self.decide(st, ('cmp', 'eq', n)):
                break
            # split inside p
            k = p[0]
            if k == 'run':
                m = add(p[2], n)
                a, b = ('run', p[1], p[2], m), ('run', p[1], m, p[3])
            elif k == 'rep':
                a, b = ('rep', p[1], n), ('rep', p[1], sub(p[2], n))
            elif k == 'unk':
                a, b = ('unk', p[1], n), ('unk', p[1], sub(p[2], n))
            elif k == 'l' and isinstance(n, int):
                a, b = ('l', p[1][:n]), ('l', p[1][n:])
            elif k == 'l':
                # enumerate small literal splits
                alts = []
                for i in range(1, len(p[1])):
                    s = st.clone()
                    if self.assume_eq(s, sub(n, i)):
                        alts.append(s)
                if not alts:
                    raise Dead()
                raise Split(alts)
            else:
                raise Undecided('split inside opaque piece')
            left.append(a)
            rest[0] = b
            break
        return tuple(left), tuple(rest)

    def seq_get(self, st, seq, i):
        l, r = self.seq_split(st, seq[2], i)
        if not r:
            raise Undecided('seq_get past end')
        return self.first(st, r[0])

    def first(self, st, p):
        k = p[0]
        if k == 'e':
            return p[1]
        if k == 'l':
            return ord(p[1][0])
        if k == 'run':
            return self.elem(st, p[1], p[2])
        if k == 'rep':
            return p[1]
        if k == 'unk':
            if p[1] is not None and p[1] != 'c':
                return self.fresh(st, p[1], ('unk',), True)
            return TOP if p[1] is None else self.chsym(('unk',), True)
        raise Undecided('first of %s' % (p[:2],))

    def seq_set(self, st, seq, i, v):
        l, r = self.seq_split(st, seq[2], i)
        if not r:
            raise Undecided('seq_set past end')
        _, r2 = self.seq_split(st, r, 1)
        return ('seq', seq[1], self.join(st, l + (self.topiece(st, v),) + r2))

    # ------------------------------------------------------------ memory
    def proj(self, st, v, step):
        k = v[0] if isinstance(v, tuple) else None
        if k == 'sym':
            v = self.force(st, v)
            k = v[0]
        if isinstance(step, int):
            if k == 'agg':
                if step < len(v[3]):
                    return v[3][step]
                return TOP
            if k == 'un':
                return v[1]
            if k in ('ref', 'cref'):
                return v
            if k in ('uninit', 'top', 'moved'):
                return v
            if k == 'sym':
                ty = self.symty.get(v[1])
                if ty is not None and self.T(ty).get('ak') == 'union':
                    return v
            return TOP
        if step[0] == 'ix':
            if k == 'seq':
                return self.seq_get(st, v, step[1])
            if k == 'cref':
                return self.proj(st, v[1], step)
            if k == 'agg' and isinstance(step[1], int) and step[1] < len(v[3]):
                return v[3][step[1]]
            return TOP
        return TOP

    def read(self, st, cell, path):
        v = st.mem.get(cell, UNINIT)
        for s in path:
            v = self.proj(st, v, s)
        return v

    def store(self, st, v, path, val):
        if not path:
            return val
        step = path[0]
        if isinstance(v, tuple) and v[0] == 'sym':
            v = self.force(st, v)
        k = v[0] if isinstance(v, tuple) else None
        if isinstance(step, int):
            if k == 'agg':
                f = list(v[3])
                while len(f) <= step:
                    f.append(UNINIT)
                f[step] = self.store(st, f[step], path[1:], val)
                return ('agg', v[1], v[2], tuple(f))
            if k == 'un':
                return ('un', self.store(st, v[1], path[1:], val))
            if k in ('uninit', 'moved'):
                f = [UNINIT] * (step + 1)
                f[step] = self.store(st, UNINIT, path[1:], val)
                return ('agg', None, 0, tuple(f))
            return TOP
        if k == 'seq':
            if len(path) > 1:
                old = self.seq_get(st, v, step[1])
                val = self.store(st, old, path[1:], val)
            return self.seq_set(st, v, step[1], val)
        return TOP

    def write(self, st, cell, path, val):
        if path:
            val = self.store(st, st.mem.get(cell, UNINIT), path, val)
        st.mem[cell] = val

    def loc(self, st, fr, pl, forwrite=False):
        """resolve a place to (cell, path, meta)"""
        cell = fr.base + pl[0]
        path = ()
        meta = None
        for e in pl[1:]:
            if e == '*':
                v = self.read(st, cell, path)
                if isinstance(v, tuple) and v[0] == 'sym':
                    v = self.force(st, v)
                v = self.unwrap_ptr(v)
                if v[0] == 'ref':
                    cell, path, meta = v[1], v[2], v[3]
                elif v[0] == 'cref':
                    cell = next(self.ncell)
                    st.mem[cell] = v[1]
                    self.constcells.add(cell)
                    path = ()
                    meta = v[2]
                else:
                    cell = next(self.ncell)
                    st.mem[cell] = TOP
                    path = ()
                    meta = None
            elif e == 'oc' or e == '?':
                pass
            elif e[0] == 'f':
                path = path + (e[1],)
            elif e[0] == 'v':
                v = self.read(st, cell, path)
                if isinstance(v, tuple) and v[0] == 'sym' and v[1] not in st.tab:
                    self.force(st, v, e[1])
            elif e[0] == 'i':
                i = self.read(st, fr.base + e[1], ())
                if not is_num(i):
                    raise Undecided('index')
                if meta:
                    i = add(i, meta[0])
                path = path + (('ix', self.norm(st, i)),)
                meta = None
            elif e[0] == 'c':
                off = e[1]
                if e[3]:
                    n = self.placelen(st, cell, path, meta)
                    off = sub(n, off)
                if meta:
                    off = add(off, meta[0])
                path = path + (('ix', self.norm(st, off)),)
                meta = None
            elif e[0] == 's':
                n = self.placelen(st, cell, path, meta)
                a = e[1]
                b = sub(n, e[2]) if e[3] else e[2]
                o = meta[0] if meta else 0
                meta = (add(o, a), sub(b, a))
        return cell, path, meta

    def unwrap_ptr(self, v):
        while isinstance(v, tuple) and v[0] == 'agg':
            nxt = [f for f in v[3] if isinstance(f, tuple) and f[0] in ('ref', 'cref', 'agg') and f != UNIT and not (f[0] == 'agg' and not f[3])]
            if len(nxt) != 1:
                return v
            v = nxt[0]
        if isinstance(v, tuple) and v[0] == 'un':
            return self.unwrap_ptr(v[1])
        return v

    def placelen(self, st, cell, path, meta):
        if meta:
            return meta[1]
        v = self.read(st, cell, path)
        v = self.force(st, v) if v[0] == 'sym' else v
        if v[0] == 'seq':
            return self.slen(st, v)
        if v[0] == 'agg':
            return len(v[3])
        return self.num(0, ISIZE_MAX, ('len?',), True)

    # ------------------------------------------------------------ operands
    def operand(self, st, fr, op):
        if 'cp' in op:
            c, p, m = self.loc(st, fr, op['cp'])
            return self.read(st, c, p) if p else st.mem.get(c, UNINIT)
        if 'mv' in op:
            pl = op['mv']
            c, p, m = self.loc(st, fr, pl)
            v = self.read(st, c, p) if p else st.mem.get(c, UNINIT)
            if isinstance(v, tuple) and v[0] not in ('L',):
                self.moves.append((c, p))
            return v
        if 'k' in op:
            return self.const(st, op['k'])
        if 'rt' in op:
            return 0
        raise Undecided('operand %r' % op)

    def domoves(self, st, dest=None):
        ms, self.moves = self.moves, []
        for c, p in ms:
            if c == dest:
                continue
            if not p:
                st.mem[c] = MOVED
            elif all(isinstance(s, int) for s in p):
                self.write(st, c, p, MOVED)

    def const(self, st, k):
        i = id(k)
        if i in self.constcache:
            return self.constcache[i]
        v = self._const(st, k)
        if v is not None:
            self.keep.append(k)
            self.constcache[i] = v
            return v
        if k.get('prom'):
            return self.evalbody(st, k['prom'], k)
        t = self.T(k['t'])
        if k.get('un') and t.get('s') == 'usize':
            n = 'const ' + k['un']
            if n not in self.constparam:
                al = k['un'].endswith('ALIGN')
                self.constparam[n] = self.num(1 if al else 0, 1 << 29 if al else ISIZE_MAX, ('const', k['un']), True)
            return self.constparam[n]
        return self.fresh(st, k['t'], ('const', k.get('un')), True)

    def _const(self, st, k):
        t = self.T(k['t'])
        if k.get('fn'):
            return ('fn', t['f'])
        if 'tc' in k:
            if k['tc'] is None:
                return None
            return self.constp(k['tc']) if isinstance(k['tc'], str) else k['tc']
        if 'v' in k:
            return self.cval(k['v'], k['t'])
        return None

    def cval(self, v, ty):
        t = self.T(ty) if ty is not None else {'k': '?'}
        if 'int' in v:
            if t.get('s') in FLOATS:
                return ('f', v['int'])
            return v['int']
        if 'str' in v:
            s = bytes(v['str']).decode('utf-8', 'replace')
            return ('cref', ('seq', 's', (('l', s),) if s else ()), None)
        if 'bytes' in v:
            return ('cref', ('seq', 'v', tuple(('e', b) for b in v['bytes'])), None)
        if 'bytearr' in v:
            return ('seq', 'v', tuple(('e', b) for b in v['bytearr']))
        if 'arr' in v:
            return ('seq', 'v', tuple(('e', self.cval(x, t.get('t'))) for x in v['arr']))
        if 'tup' in v:
            return ('agg', None, 0, tuple(self.cval(x, y) for x, y in zip(v['tup'], t['ts'])))
        if 'adt' in v:
            vi = v['vi']
            fs = t['v'][vi]['f'] if 'v' in t else []
            kind = SEQTY.get(t.get('p'))
            if kind:
                return ('seq', kind, ())
            if not fs and v['adt']:
                return None
            return ('agg', ty, vi, tuple(self.cval(x, f[1]) for x, f in zip(v['adt'], fs)))
        if 'ref' in v:
            i = self.cval(v['ref'], t.get('t'))
            return None if i is None else ('cref', i, None)
        if 'refslice' in v:
            et = self.T(t['t'])['t'] if t['k'] in ('ref', 'ptr') else None
            return ('cref', ('seq', 'v', tuple(('e', self.cval(x, et)) for x in v['refslice'])), None)
        if 'zst' in v:
            if t['k'] == 'tuple':
                return UNIT
            if t['k'] == 'adt':
                if SEQTY.get(t['p']):
                    return ('seq', SEQTY[t['p']], ())
                if 'v' in t and t['ak'] == 'struct':
                    return ('agg', ty, 0, tuple(self.cval(v, f[1]) for f in t['v'][0]['f']))
                return ('agg', ty, 0, ())
            if t['k'] == 'array':
                return ('seq', 'v', ())
            if t['k'] == 'closure':
                return ('agg', ty, 0, ())
            if t['k'] == 'fndef':
                return ('fn', t['f'])
            return ('agg', ty, 0, ())
        if 'dangling' in v:
            return ('cref', ('seq', 'v', ()), None)
        return None

    def evalbody(self, st, key, k):
        """run a constant / promoted body to completion in the current state"""
        b = self.p.bodies.get(key)
        if b is None:
            return self.fresh(st, k['t'], ('const',), True)
        saved = st.stacks, st.act
        st.stacks = [[]]
        st.act = 0
        box = []
        self.conts['constret'] = lambda s, d, v: box.append(v)
        st.stack.append(Frame(None, 0, 0, 0, 'constret'))
        self.push(st, b, [])
        n = 0
        try:
            while not box:
                n += 1
                if n > 2000:
                    raise Undecided('const body')
                self.step(st)
        except Split:
            st.stacks, st.act = saved
            return self.fresh(st, k['t'], ('const',), True)
        st.stacks, st.act = saved
        v = box[0]
        if k.get('cbody'):
            return v
        return v

    # ------------------------------------------------------------ reporting
    def where(self, st, skip=0):
        out = []
        for fr in reversed(st.stack):
            if fr.b is not None:
                out.append((fr.b.path, fr.b.blocks[fr.bb]['sp'] if fr.bb < len(fr.b.blocks) else fr.b.j['span'], fr.b.crate))
        return out

    def site(self, st):
        """innermost frame that belongs to the analysed crates"""
        for p, sp, cr in self.where(st):
            if cr not in ('core', 'alloc', 'std'):
                return p, sp
        w = self.where(st)
        return (w[0][0], w[0][1]) if w else ('?', '?')

    def report(self, st, kind, msg, site=None):
        p, sp = site or self.site(st)
        key = (kind, p, msg)
        if st.taint:
            self.undec.setdefault(key, sp)
            return
        if key not in self.reports:
            tr = []
            t = st.trace
            while t is not None and len(tr) < 60:
                tr.append(t[1])
                t = t[0]
            self.reports[key] = dict(kind=kind, fn=p, msg=msg, at=sp, stack=['%s (%s)' % (a, b) for a, b, _ in self.where(st)], trace=tr[::-1], path=self.describe(st))

    def describe(self, st):
        out = []
        for s in sorted(st.rng):
            o = self.sorig.get(s)
            iv = st.rng[s]
            if o and len(out) < 40:
                out.append('%s(%d) in %s' % (':'.join(map(str, o)), s, iv[:4]))
        return out

    def panic(self, st, reason):
        self.on_panic(st, reason)
        raise Dead()

    def on_panic(self, st, reason):
        self.report(st, 'panic', reason)

    # ------------------------------------------------------------ calls
    def push(self, st, b, args):
        self.domoves(st)
        if len(st.stack) > self.maxdepth:
            raise Undecided('call depth')
        base = next(self.ncell)
        for _ in range(b.n):
            next(self.ncell)
        fr = Frame(b, 0, 0, base)
        if b.spread is not None and len(args) == 2 and b.argc != 2:
            tup = args[1]
            args = [args[0]] + list(tup[3] if tup[0] == 'agg' else ())
        if b.spread is not None and len(args) >= 1 and args[-1:] and len(args) < b.argc:
            pass
        for i, a in enumerate(args):
            st.mem[base + 1 + i] = a
        self.stats['bodies'].add(b.key)
        st.stack.append(fr)
        return fr

    def popframe(self, st):
        fr = st.stack.pop()
        if fr.b is not None:
            m = st.mem
            for c in range(fr.base, fr.base + fr.b.n):
                m.pop(c, None)
        # parents are shared between clones: copy before mutation
        if st.stack:
            st.stack[-1] = st.stack[-1].copy()
        return fr

    def deliver(self, st, v):
        """give v to the frame now on top of the stack (which is waiting for a call or drop)"""
        fr = st.top
        if fr.b is None:
            # a continuation may need to split: the value is handed over again in every part
            st.x['_ret'] = (st.act, len(st.stack), v)
            self.conts[fr.cont](st, fr.data, v)
            st.x.pop('_ret', None)
            return
        t = fr.b.blocks[fr.bb]['t']
        if t[0] == 'call':
            dest, tgt = t[3], t[4]
            if tgt is None:
                raise Dead()
            self.assign(st, fr, dest, v)
            self.domoves(st, fr.base + dest[0] if len(dest) == 1 else None)
            self.goto(st, fr, tgt)
        elif t[0] == 'drop':
            self.goto(st, fr, t[2])
        else:
            raise Undecided('deliver to %s' % t[0])

    def assign(self, st, fr, pl, v):
        if len(pl) == 1:
            st.mem[fr.base + pl[0]] = v
            return
        c, p, m = self.loc(st, fr, pl, True)
        if v[0:1] != ('L',) if isinstance(v, tuple) else False:
            pass
        self.write(st, c, p, v)

    def goto(self, st, fr, bb):
        fr.bb = bb
        fr.si = 0

    def callvalue(self, st, f, args):
        """call a function value with a list of argument values; frame pushed or value delivered"""
        f = self.force(st, f) if f[0] == 'sym' else f
        while f[0] in ('ref', 'cref'):
            f = self.read(st, f[1], f[2]) if f[0] == 'ref' else f[1]
            f = self.force(st, f) if f[0] == 'sym' else f
        if f[0] == 'fn':
            return self.call(st, f[1], args)
        if f[0] == 'agg' and f[1] is not None and self.T(f[1])['k'] == 'closure':
            t = self.T(f[1])
            b = self.p.bodies.get(t['b'])
            if b is not None:
                if t['ck'] == 'FnOnce':
                    me = f
                else:
                    c = next(self.ncell)
                    st.mem[c] = f
                    me = ('ref', c, (), None)
                # is self by value in the body?
                st0 = self.T(b.locals[1])
                if st0['k'] != 'ref':
                    me = f
                self.push(st, b, [me] + list(args))
                return True
        self.stats['havoc'] += 1
        st.taint = True
        self.deliver(st, TOP)
        return True

    def callclosure_ref(self, st, fref, args):
        """call through &mut F keeping captured state"""
        v = fref
        last = None
        while isinstance(v, tuple) and v[0] in ('ref', 'cref', 'sym'):
            if v[0] == 'sym':
                e = self.force(st, v)
                if e[0] == 'sym':
                    break
                v = e
                continue
            last = v
            v = self.read(st, v[1], v[2]) if v[0] == 'ref' else v[1]
        if isinstance(v, tuple) and v[0] == 'agg' and v[1] is not None and self.T(v[1])['k'] == 'closure':
            t = self.T(v[1])
            b = self.p.bodies.get(t['b'])
            if b is not None:
                byref = self.T(b.locals[1])['k'] == 'ref'
                self.push(st, b, [(last if byref else v)] + list(args))
                return True
        return self.callvalue(st, v, args)

    def call(self, st, cal, args):
        """returns after having delivered or pushed"""
        self.stats['calls'] += 1
        if 'ctor' in cal:
            return self.deliver(st, self.ctor(st, cal, args))
        h = self.hook_call(st, cal, args)
        if h is not None:
            return
        b = self.p.bodies.get(cal.get('b')) if cal.get('b') else None
        if b is not None and b.opaque:
            return self.deliver(st, self.opaque_call(st, b, args))
        m = self.models.find(cal)
        if m is not None:
            r = m(self, st, cal, args)
            if r is not NotImplemented:
                if r is not None:
                    self.deliver(st, r)
                return
        if cal.get('rk') == 'closure_once' or (cal.get('rk') == 'item' and False):
            tup = args[1]
            return self.callvalue(st, args[0], list(tup[3]) if tup[0] == 'agg' else [])
        if b is not None:
            if self.recursive(st, b):
                return self.on_recursion(st, cal, b, args)
            if b.spread is not None or (b.j.get('spread') is None and cal.get('tr') in ('core::ops::function::FnOnce', 'core::ops::function::FnMut', 'core::ops::function::Fn')):
                return self.models.call_fn_trait(self, st, cal, args)
            self.push(st, b, args)
            return
        self.havoc_call(st, cal, args)

    def opaque_call(self, st, b, args):
        """the result of a corpus stand-in: a function of its arguments, nothing else is known"""
        vals = tuple(self.rawarg(st, a) for a in args)
        return self.marker(b, vals)

    def rawarg(self, st, a):
        n = 0
        while isinstance(a, tuple) and a[0] in ('ref', 'cref') and n < 10:
            a = self.read(st, a[1], a[2]) if a[0] == 'ref' else a[1]
            n += 1
        return a

    def marker(self, b, vals):
        k = (b.key, vals)
        v = self.markers.get(k)
        if v is None:
            v = self.markers[k] = self.opaque(b.locals[0], ('result of', b.path))
        return v

    def recursive(self, st, b):
        n = 0
        for f in st.stack:
            if f.b is b:
                n += 1
        return n >= self.reclimit(b)

    def reclimit(self, b):
        return 3 if b.crate not in ('core', 'alloc', 'std') else 8

    def on_recursion(self, st, cal, b, args):
        self.havoc_call(st, cal, args, 'recursion')

    def hook_call(self, st, cal, args):
        return None

    def callname(self, cal):
        return cal.get('rp') or cal.get('p') or '?'

    def havoc_call(self, st, cal, args, why='unknown'):
        self.stats['havoc'] += 1
        nm = self.callname(cal)
        self.unknown[nm] = self.unknown.get(nm, 0) + 1
        fr = st.top
        t = fr.b.blocks[fr.bb]['t'] if fr.b is not None else None
        ops = t[2] if t is not None and t[0] == 'call' and len(t[2]) == len(args) else [{}] * len(args)
        for a, op in zip(args, ops):
            pl = op.get('cp') or op.get('mv')
            self.havoc_reach(st, a, self.placety(fr, pl) if pl else None)
        if t is not None and t[0] == 'call':
            dl = t[3]
            ty = self.placety(fr, dl)
            v = self.fresh(st, ty, ('ret', nm), True) if ty is not None else TOP
        else:
            v = TOP
        self.deliver(st, v)

    def placety(self, fr, pl):
        ty = fr.b.locals[pl[0]]
        for e in pl[1:]:
            if isinstance(e, list) and e[0] == 'f':
                ty = e[2]
            elif e == '*' or isinstance(e, list) and e[0] in ('i', 'c'):
                ty = self.T(ty).get('t') or (self.T(ty).get('a') or [None])[0]
            elif isinstance(e, list) and e[0] in ('v', 's'):
                continue
            else:
                return None
            if ty is None:
                return None
        return ty

    def havoc_reach(self, st, a, ty):
        """what an unknown callee may change through one of its arguments"""
        if not isinstance(a, tuple) or not self.refs(a):
            return
        t = self.T(ty) if ty is not None else {'k': '?', 's': '&mut'}
        if t['k'] in ('ref', 'ptr') and not t['m'] or '&mut' not in t['s'] and '*mut' not in t['s'] and '{closure' not in t['s'] and 'dyn' not in t['s']:
            return
        if t['k'] in ('ref', 'ptr') and a[0] == 'ref' and a[3] is None:
            self.write(st, a[1], a[2], self.fresh(st, t['t'], ('havoc',), True))
            return
        raise Undecided('an unknown function may change its arguments')

    def refs(self, a):
        if not isinstance(a, tuple) or not a:
            return False
        return a[0] == 'ref' or any(self.refs(x) for x in a if isinstance(x, tuple))

    def ctor(self, st, cal, args):
        # which adt type? use the destination type of the call when the frame is a body
        fr = st.top
        ty = None
        if fr.b is not None:
            t = fr.b.blocks[fr.bb]['t']
            if t[0] == 'call':
                ty = self.placety(fr, t[3])
        vi = 0
        cn = cal.get('cn')
        cp = cal.get('cp')
        t = self.T(ty) if ty is not None else None
        if t is None or t['k'] != 'adt' or 'v' not in t or not any(v['n'] == cn for v in t['v']) and t['ak'] == 'enum':
            ty = self.ctor_type(cal)
            t = self.T(ty) if ty is not None else None
        if t and t['k'] == 'adt' and t['ak'] == 'enum' and 'v' in t:
            for i, v in enumerate(t['v']):
                if v['n'] == cn:
                    vi = i
        return ('agg', ty, vi, tuple(args))

    def ctor_type(self, cal):
        cp = cal['cp']
        base = cp.rsplit('::', 1)[0]
        for i, t in enumerate(self.p.types):
            if t['k'] == 'adt' and t['p'] in (cp, base) and t.get('a', []) == cal.get('a', []):
                return i
        for i, t in enumerate(self.p.types):
            if t['k'] == 'adt' and t['p'] in (cp, base):
                return i
        return None

    # ------------------------------------------------------------ stepping
    def step(self, st):
        """execute one statement or terminator"""
        fr = st.top
        self.moves = []
        bl = fr.b.blocks[fr.bb]
        ss = bl['s']
        if fr.si < len(ss):
            s = ss[fr.si]
            k = s[0]
            if k == '=':
                self.assign(st, fr, s[1], self.rvalue(st, fr, s[2], s[1]))
                if self.moves:
                    self.domoves(st, fr.base + s[1][0] if len(s[1]) == 1 else None)
            elif k == 'dead':
                st.mem.pop(fr.base + s[1], None)
            elif k == 'sd':
                c, p, m = self.loc(st, fr, s[1])
                v = self.read(st, c, p)
                ty = self.placety(fr, s[1])
                if isinstance(v, tuple) and v[0] == 'agg':
                    self.write(st, c, p, ('agg', ty if ty is not None else v[1], s[2], v[3]))
                else:
                    self.write(st, c, p, ('agg', ty, s[2], ()))
            elif k == 'intr' and 'ssume' not in s[1]:
                self.intrinsic(st, fr, s)
            fr.si += 1
            return
        self.terminator(st, fr, bl['t'])

    def intrinsic(self, st, fr, s):
        # raw memory copies are not followed: nothing is concluded from this path
        self.stats['havoc'] += 1
        self.unknown['copy_nonoverlapping'] = self.unknown.get('copy_nonoverlapping', 0) + 1
        st.taint = True

    def terminator(self, st, fr, t):
        k = t[0]
        if k == 'goto':
            self.goto(st, fr, t[1])
        elif k == 'switch':
            self.switch(st, fr, t)
        elif k == 'ret':
            v = st.mem.get(fr.base, UNIT)
            if isinstance(v, tuple) and v[0] == 'uninit':
                v = UNIT
            self.popframe(st)
            self.deliver(st, v)
        elif k == 'call':
            c = t[1]
            args = [self.operand(st, fr, o) for o in t[2]] if not self.peek_split(st, fr, t) else None
            if 'ptr' in c:
                f = self.operand(st, fr, c['ptr'])
                self.callvalue(st, f, args)
            else:
                self.call(st, c, args)
        elif k == 'assert':
            c = self.operand(st, fr, t[1])
            want = t[2]
            self.stats['obligations'] += 1
            if isinstance(c, tuple) and c[0] in ('top', 'sym', 'moved', 'uninit'):
                st.taint = True
                self.goto(st, fr, t[5])
                return
            r = self.truth(st, c)
            if r is None:
                self.hook_undecided(st, c)
                r = self.truth(st, c)
            if r == bool(want):
                self.stats['discharged'] += 1
                self.goto(st, fr, t[5])
                return
            # failing branch
            s = st.clone()
            ok = True
            if r is None:
                try:
                    ok = self.assume(s, c, not want)
                except Dead:
                    ok = False
            if ok:
                tn = self.is_tainted(self.condsyms(c))
                if tn:
                    s.taint = True
                if self.benign_assert(s, t, c):
                    ok = False      # a counter of 2^31: excluded by assumption
                else:
                    self.on_panic(s, t[3])
            if not ok:
                self.stats['discharged'] += 1
            if r is not None:
                raise Dead()
            if not self.assume(st, c, want):
                raise Dead()
            self.goto(st, st.top, t[5])
        elif k == 'drop':
            self.drop(st, fr, t)
        elif k == 'unreach':
            raise Dead()
        else:
            raise Undecided('terminator %s' % k)

    def peek_split(self, st, fr, t):
        return False

    def benign_assert(self, st, t, c):
        return False

    def drop(self, st, fr, t):
        ty = t[3]
        c, p, m = self.loc(st, fr, t[1])
        v = self.read(st, c, p)
        self.on_drop(st, v, ty)
        tt = self.T(ty)
        if isinstance(v, tuple) and v[0] not in ('moved', 'uninit') and tt['k'] == 'adt' and tt['p'] in self.p.dropimpl:
            # user Drop impl: the destructor body, generic over the impl's own parameters
            key = self.p.dropimpl[tt['p']]
            for k2, b2 in self.p.bodies.items():
                if b2.path == self.p.bodies[key].path and k2 != key and tt['s'] in k2:
                    key = k2
            b = self.p.bodies[key]
            self.push(st, b, [('ref', c, p, None)])
            return
        if not p:
            st.mem[c] = MOVED
        self.goto(st, fr, t[2])

    def on_drop(self, st, v, ty):
        pass

    def switch(self, st, fr, t):
        v = self.operand(st, fr, t[1])
        if isinstance(v, int):
            m = None
            for val, bb in t[2]:
                if val == v or (v < 0 and self._signed_eq(v, val, t[4])):
                    self.goto(st, fr, bb)
                    return
            self.goto(st, fr, t[3])
            return
        if v[0] in ('top', 'sym', 'uninit', 'moved', 'not'):
            st.taint = True
            outs = []
            for bb in {b for _, b in t[2]} | {t[3]}:
                s = st.clone()
                self.goto(s, s.top, bb)
                outs.append(s)
            raise Split(outs)
        if v[0] != 'L':
            # symbolic boolean
            d = self.decide(st, v)
            v = 1 if d else 0
            for val, bb in t[2]:
                if val == v:
                    self.goto(st, st.top, bb)
                    return
            self.goto(st, st.top, t[3])
            return
        v = self.norm(st, v)
        if isinstance(v, int):
            return self.switch_const(st, fr, t, v)
        # undecided: give hooks a chance
        c0 = ('cmp', 'eq', sub(v, self._val(t[2][0][0], t[4])))
        if self.hook_undecided(st, c0):
            v = self.norm(st, v)
            if isinstance(v, int):
                return self.switch_const(st, fr, t, v)
        outs = []
        rest = st.clone()
        alive = True
        for val, bb in t[2]:
            val = self._val(val, t[4])
            if not alive:
                break
            c = ('cmp', 'eq', sub(v, val))
            r = self.truth(rest, c)
            if r is False:
                continue
            s = rest.clone()
            try:
                if self.assume(s, c, True):
                    self.goto(s, s.top, bb)
                    outs.append((val, s))
            except Dead:
                pass
            try:
                if r is True or not self.assume(rest, c, False):
                    alive = False
            except Dead:
                alive = False
        if alive:
            self.goto(rest, rest.top, t[3])
            # is the otherwise block just unreachable?
            outs.append((None, rest))
        if not outs:
            raise Dead()
        if len(outs) > 1 and self.is_tainted(N.syms(v)):
            for _, s in outs:
                s.taint = True
        raise Split([s for _, s in outs])

    def _val(self, val, ty):
        r = self.intrange(ty)
        if r and r[0] < 0 and val > r[1]:
            bits = (r[1] + 1).bit_length()
            return val - (1 << bits)
        return val

    def _signed_eq(self, v, val, ty):
        return self._val(val, ty) == v

    def switch_const(self, st, fr, t, v):
        for val, bb in t[2]:
            if self._val(val, t[4]) == v:
                self.goto(st, fr, bb)
                return
        self.goto(st, fr, t[3])

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, r, dest):
        k = r[0]
        if k == 'use':
            return self.operand(st, fr, r[1])
        if k == 'ref' or k == 'raw':
            c, p, m = self.loc(st, fr, r[2])
            if r[2][-1:] == ['*'] and len(r[2]) > 1 and m is None:
                pass
            return ('ref', c, p, m)
        if k == 'bin':
            a = self.operand(st, fr, r[2])
            b = self.operand(st, fr, r[3])
            return self.binop(st, r[1], a, b, self.opty(fr, r[2]))
        if k == 'un':
            a = self.operand(st, fr, r[2])
            return self.unop(st, r[1], a, self.opty(fr, r[2]))
        if k == 'cast':
            a = self.operand(st, fr, r[2])
            return self.cast(st, r[1], a, self.opty(fr, r[2]), r[3])
        if k == 'discr':
            c, p, m = self.loc(st, fr, r[1])
            v = self.read(st, c, p)
            if v == ('uninit',):
                # optimised MIR leaves out the assignments to a place that has only one value
                o = self.onlyvariant(self.placety(fr, r[1]))
                if o is not None:
                    return o
            return self.discr(st, v)
        if k == 'agg':
            vals = [self.operand(st, fr, o) for o in r[2]]
            kk = r[1]
            if kk[0] == 'adt':
                if kk[3] is not None:
                    return ('un', vals[0])
                return ('agg', kk[1], kk[2], tuple(vals))
            if kk[0] == 'tuple':
                return ('agg', None, 0, tuple(vals))
            if kk[0] == 'array':
                return ('seq', 'v', self.join(st, [self.topiece(st, v) for v in vals]))
            if kk[0] == 'closure':
                return ('agg', kk[1], 0, tuple(vals))
            if kk[0] == 'rawptr':
                if vals[0][0] == 'ref' and is_num(vals[1]):
                    return ('ref', vals[0][1], vals[0][2], ((vals[0][3] or (0,))[0], vals[1]))
                return vals[0]
            return TOP
        if k == 'repeat':
            v = self.operand(st, fr, r[1])
            n = r[2]
            n = self.constp(n) if isinstance(n, str) else n
            return ('seq', 'v', self.join(st, (('rep', v, n),)))
        return self.fresh(st, self.placety(fr, dest), ('rv', k), True) if self.placety(fr, dest) is not None else TOP

    def uninhabited(self, ty, depth=0):
        t = self.T(ty)
        if t['s'] == '!' or t['k'] == 'never':
            return True
        if depth < 4:
            if t['k'] == 'adt' and t.get('ak') in ('enum', 'struct') and 'v' in t:
                return all(any(self.uninhabited(f[1], depth + 1) for f in v['f']) for v in t['v'])
            if t['k'] == 'tuple' and 'ts' in t:
                return any(self.uninhabited(x, depth + 1) for x in t['ts'])
        return False

    def onlyvariant(self, ty):
        t = self.T(ty) if ty is not None else None
        if t and t['k'] == 'adt' and t.get('ak') == 'enum' and 'v' in t:
            vs = [v for v in t['v'] if not any(self.uninhabited(f[1]) for f in v['f'])]
            if len(vs) == 1 and all(self.onevalue(f[1]) for f in vs[0]['f']):
                return vs[0]['d']
        return None

    def onevalue(self, ty):
        t = self.T(ty)
        return t['k'] == 'tuple' and not t.get('ts', True)

    def opty(self, fr, op):
        if 'k' in op:
            return op['k']['t']
        pl = op.get('cp') or op.get('mv')
        if pl is None:
            return None
        return self.placety(fr, pl)

    def discr(self, st, v):
        if isinstance(v, tuple) and v[0] == 'sym':
            e = self.force(st, v)
            if e[0] == 'sym':
                ty = self.symty.get(e[1])
                t = self.T(ty) if ty is not None else None
                if t and t['k'] == 'adt' and t.get('ak') == 'enum' and 'v' in t:
                    outs = []
                    for vi in range(len(t['v'])):
                        if not self.variant_ok(st, e[1], vi):
                            continue
                        s = st.clone()
                        s.tab[e[1]] = self.mkvariant(s, e[1], vi)
                        if e[1] in self.staint:
                            s.taint = True
                        outs.append(s)
                    raise Split(outs)
                st.taint = True
                return self.num(0, 255, ('discr',), True)
            v = e
        if v[0] == 'agg':
            if v[1] is None:
                return v[2]
            t = self.T(v[1])
            if 'v' in t and t['ak'] == 'enum':
                return t['v'][v[2]]['d']
            return v[2]
        st.taint = True
        return self.num(0, 255, ('discr',), True)

    def variant_ok(self, st, sid, vi):
        return True

    def cmpop(self, op, a, b):
        d = sub(a, b)
        if op == 'Eq':
            c = ('cmp', 'eq', d)
        elif op == 'Ne':
            c = ('cmp', 'ne', d)
        elif op == 'Ge':
            c = ('cmp', 'ge', d)
        elif op == 'Gt':
            c = ('cmp', 'ge', add(d, -1))
        elif op == 'Le':
            c = ('cmp', 'ge', neg(d))
        else:
            c = ('cmp', 'ge', add(neg(d), -1))
        return c

    def boolnum(self, st, a):
        """turn a symbolic boolean into a number by deciding it"""
        if is_num(a):
            return a
        return 1 if self.decide(st, a) else 0

    def binop(self, st, op, a, b, ty):
        rng = self.intrange(ty) if ty is not None else None
        isbool = ty is not None and self.T(ty).get('s') == 'bool'
        if isbool:
            if op in ('BitAnd', 'BitOr', 'BitXor', 'Eq', 'Ne', 'Lt', 'Gt', 'Le', 'Ge'):
                for x in (a, b):
                    if isinstance(x, tuple) and x[0] in ('top', 'sym', 'uninit', 'moved'):
                        st.taint = True
                        return self.num(0, 1, ('bool?',), True)
                if op == 'BitAnd':
                    if a == 0 or b == 0:
                        return 0
                    if a == 1:
                        return b
                    if b == 1:
                        return a
                if op == 'BitOr':
                    if a == 1 or b == 1:
                        return 1
                    if a == 0:
                        return b
                    if b == 0:
                        return a
                if op in ('Eq', 'Ne', 'BitXor'):
                    e = (op == 'Eq')
                    if isinstance(b, int):
                        return a if bool(b) == e else self.negate(a)
                    if isinstance(a, int):
                        return b if bool(a) == e else self.negate(b)
                x = 1 if self.decide(st, a) else 0
                y = 1 if self.decide(st, b) else 0
                return {'BitAnd': x & y, 'BitOr': x | y, 'BitXor': x ^ y, 'Eq': int(x == y), 'Ne': int(x != y), 'Lt': int(x < y), 'Gt': int(x > y), 'Le': int(x <= y), 'Ge': int(x >= y)}[op]
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if is_num(a) and is_num(b):
                a, b = self.norm(st, a), self.norm(st, b)
                c = self.cmpop(op, a, b)
                r = self.truth(st, c) if isinstance(c[2], int) else None
                return c if r is None else int(r)
            return self.opaquecmp(st, op, a, b)
        if op == 'Cmp':
            if is_num(a) and is_num(b):
                if self.decide(st, ('cmp', 'eq', sub(a, b))):
                    o = 0
                else:
                    o = -1 if self.decide(st, ('cmp', 'ge', add(sub(b, a), -1))) else 1
                return self.ordering(o)
            return TOP
        if op == 'Offset':
            if a[0] == 'ref' and is_num(b):
                m = a[3] or (0, None)
                return ('ref', a[1], a[2], (add(m[0], b), None))
            return TOP
        if not (is_num(a) and is_num(b)):
            if rng:
                tn = True
                if op.endswith('WithOverflow'):
                    return ('agg', None, 0, (self.num(rng[0], rng[1], ('op', op), True), self.num(0, 1, ('ovf',), True)))
                return self.num(rng[0], rng[1], ('op', op), True)
            if op.endswith('WithOverflow'):
                return ('agg', None, 0, (TOP, TOP))
            return self.floatop(st, op, a, b, ty)
        a, b = self.norm(st, a), self.norm(st, b)
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        if base in ('Add', 'Sub', 'Mul'):
            if base == 'Add':
                r = add(a, b)
            elif base == 'Sub':
                r = sub(a, b)
            elif isinstance(b, int):
                r = mul(a, b)
            elif isinstance(a, int):
                r = mul(b, a)
            else:
                la, ha = self.bounds(st, a)
                lb, hb = self.bounds(st, b)
                cs = [x * y for x in (la, ha) for y in (lb, hb)]
                r = self.memonum(st, ('mul', a, b), min(cs), max(cs))
            if op.endswith('WithOverflow'):
                return ('agg', None, 0, (self.wrap(st, r, rng, lazy=True), self.overflow(st, r, rng)))
            if op.endswith('Unchecked'):
                return r
            return self.wrap(st, r, rng)
        if base in ('Div', 'Rem'):
            if isinstance(b, int) and b != 0:
                if isinstance(a, int):
                    q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                    return q if base == 'Div' else a - q * b
                lo, hi = self.bounds(st, a)
                if lo is not None and lo >= 0 and b > 0:
                    q = self.divsym(st, a, b)
                    return q if base == 'Div' else sub(a, mul(q, b))
            lo, hi = rng or (None, None)
            if isinstance(b, int) and base == 'Rem' and b > 0:
                return self.memonum(st, ('rem', a, b), 0 if rng and rng[0] == 0 else -(b - 1), b - 1)
            return self.memonum(st, (base, a, b), lo, hi)
        if base in ('Shl', 'Shr'):
            if isinstance(b, int):
                if base == 'Shl':
                    return self.wrap(st, mul(a, 1 << b), rng)
                if isinstance(a, int):
                    return a >> b
                lo, _ = self.bounds(st, a)
                if lo is not None and lo >= 0:
                    return self.divsym(st, a, 1 << b)
            lo, hi = rng or (None, None)
            return self.memonum(st, (base, a, b), lo, hi)
        if base in ('BitAnd', 'BitOr', 'BitXor'):
            if isinstance(a, int) and isinstance(b, int):
                return {'BitAnd': a & b, 'BitOr': a | b, 'BitXor': a ^ b}[base]
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int) and b >= 0 and self.prove(st, a):
                if base == 'BitAnd':
                    if b == 0:
                        return 0
                    if b & (b + 1) == 0:      # low mask
                        if self.prove(st, sub(b, a)):
                            return a
                        q = self.divsym(st, a, b + 1)
                        return sub(a, mul(q, b + 1))
                    low = (b & -b)
                    hb = b // low
                    if hb & (hb + 1) == 0:
                        q = self.divsym(st, a, low)
                        q2 = self.binop(st, 'BitAnd', q, hb, ty)
                        return mul(q2, low)
                    return self.memonum(st, ('and', a, b), 0, b)
                if b == 0:
                    return a
                # or / xor with disjoint bits
                lo, hi = self.bounds(st, a)
                if hi is not None:
                    k = hi.bit_length()
                    if b % (1 << k) == 0:
                        return add(a, b)
                tz = self.tz(a)
                if tz and b < (1 << tz):
                    return add(a, b)
            elif not isinstance(b, int) and self.prove(st, a) and self.prove(st, b) and base in ('BitOr', 'BitXor'):
                for x, y in ((a, b), (b, a)):
                    tz = self.tz(x)
                    if tz and self.prove(st, sub((1 << tz) - 1, y)):
                        return add(x, y)
            lo, hi = rng or (None, None)
            return self.memonum(st, (base, a, b), lo, hi)
        lo, hi = rng or (None, None)
        return self.memonum(st, (op, a, b), lo, hi)

    def tz(self, a):
        """guaranteed trailing zero bits"""
        if isinstance(a, int):
            return (a & -a).bit_length() - 1 if a else 64
        g = a[1]
        k = None
        for x in [a[1]] + [c for _, c in a[2]]:
            if x:
                z = (x & -x).bit_length() - 1
                k = z if k is None else min(k, z)
        return k or 0

    def divsym(self, st, a, b):
        if isinstance(a, int):
            return a // b
        m = ('div', a, b)
        q = st.tab.get(m)
        if q is None:
            lo, hi = self.bounds(st, a)
            q = self.num(lo // b if lo is not None else None, hi // b if hi is not None else None, ('div', b), self.is_tainted(N.syms(a)))
            st.tab[m] = q
            st.cons = st.cons + (sub(a, mul(q, b)), add(sub(mul(q, b), a), b - 1))
        return self.norm(st, q)

    def memonum(self, st, key, lo, hi):
        v = st.tab.get(key)
        if v is None:
            ss = []
            for x in key:
                if isinstance(x, tuple) and x and x[0] == 'L':
                    ss += N.syms(x)
            v = self.num(lo, hi, (key[0],), True if self.is_tainted(ss) else False)
            # a non-linear result is not tracked precisely
            self.staint.add(N.syms(v)[0])
            st.tab[key] = v
        return self.norm(st, v)

    def overflow(self, st, r, rng):
        if rng is None:
            return 0
        if isinstance(r, int):
            return int(not (rng[0] <= r <= rng[1]))
        c = ('rngout', r, rng[0], rng[1])
        lo, hi = self.bounds(st, r)
        if lo is not None and hi is not None and lo >= rng[0] and hi <= rng[1]:
            return 0
        if lo is not None and lo >= rng[0] or self.prove(st, sub(r, rng[0])):
            return ('cmp', 'ge', add(sub(r, rng[1]), -1))
        if hi is not None and hi <= rng[1] or self.prove(st, sub(rng[1], r)):
            return ('cmp', 'ge', add(sub(rng[0], r), -1))
        return c

    def wrap(self, st, r, rng, lazy=False):
        """value of r in a type of range rng.  lazy: an overflow check follows"""
        if rng is None or lazy:
            return r
        size = rng[1] - rng[0] + 1
        if isinstance(r, int):
            return (r - rng[0]) % size + rng[0]
        lo, hi = self.bounds(st, r)
        if lo is not None and hi is not None and lo >= rng[0] and hi <= rng[1]:
            return r
        if self.decide(st, ('rngin', r, rng[0], rng[1])):
            return r
        # outside: decide which side / how far
        up = self.decide(st, ('cmp', 'ge', sub(r, rng[1] + 1)))
        lo, hi = self.bounds(st, r)
        if up and hi is not None and hi <= rng[1] + size:
            return sub(r, size)
        if not up and lo is not None and lo >= rng[0] - size:
            return add(r, size)
        m = ('wrap', r, rng)
        v = st.tab.get(m)
        if v is None:
            v = self.num(rng[0], rng[1], ('wrap',), self.is_tainted(N.syms(r)))
            st.tab[m] = v
        return v

    def unop(self, st, op, a, ty):
        if op == 'Not':
            if ty is not None and self.T(ty).get('s') == 'bool':
                if isinstance(a, tuple) and a[0] in ('top', 'sym', 'uninit', 'moved'):
                    return a
                return self.negate(a)
            if is_num(a):
                rng = self.intrange(ty)
                return self.wrap(st, add(neg(a), -1), rng) if rng[0] < 0 else sub(rng[1], a)
            return a
        if op == 'Neg':
            if is_num(a):
                return self.wrap(st, neg(self.norm(st, a)), self.intrange(ty))
            return ('fneg', a) if a[0] in ('f', 'sym', 'flt', 'fneg') else TOP
        if op == 'PtrMetadata':
            if a[0] in ('ref', 'cref'):
                return self.reflen(st, a)
            return self.num(0, ISIZE_MAX, ('len?',), True)
        return TOP

    def reflen(self, st, a):
        m = a[3] if a[0] == 'ref' else a[2]
        if m:
            return m[1]
        v = self.read(st, a[1], a[2]) if a[0] == 'ref' else a[1]
        v = self.force(st, v) if isinstance(v, tuple) and v[0] == 'sym' else v
        if isinstance(v, tuple) and v[0] == 'seq':
            if v[1] == 's':
                return self.models.strblen(self, st, v[2])
            return self.slen(st, v)
        if isinstance(v, tuple) and v[0] in ('ref', 'cref'):
            return self.reflen(st, v)
        return self.num(0, ISIZE_MAX, ('len?',), True)

    def opaquecmp(self, st, op, a, b):
        if a is not None and self.identical(st, a, b) and op in ('Eq', 'Ne') and a[0] in ('ref',):
            return int(op == 'Eq')
        for x in (a, b):
            if x is None or isinstance(x, tuple) and x[0] in ('top', 'uninit', 'moved'):
                return self.num(0, 1, ('cmp?',), True)
        if a[0] == 'f' and b[0] == 'f':
            return self.num(0, 1, ('fcmp',), True)
        m = ('ocmp', op, a, b)
        try:
            v = st.tab.get(m)
        except TypeError:
            return self.num(0, 1, ('cmp?',), True)
        if v is None:
            v = self.num(0, 1, ('fcmp', op), False)
            st.tab[m] = v
        return self.norm(st, v)

    def floatop(self, st, op, a, b, ty):
        m = ('fop', op, a, b)
        return m

    def identical(self, st, a, b):
        return a == b

    def ordering(self, o):
        ty = self.p.byname.get('core::cmp::Ordering')
        return ('agg', ty, o + 1, ())

    def cast(self, st, kind, a, fty, tty):
        t = self.T(tty)
        if kind.startswith('IntToInt') or (kind.startswith('Transmute') and is_num(a) and t['k'] == 'prim'):
            if isinstance(a, tuple) and a[0] in ('cmp', 'rngin', 'rngout', 'not'):
                a = self.boolnum(st, a)
            if not is_num(a):
                return self.fresh(st, tty, ('cast',), True)
            rng = INTR.get(t.get('s'))
            return self.wrap(st, self.norm(st, a), rng)
        if kind.startswith('IntToFloat'):
            return ('i2f', a if not is_num(a) else self.norm(st, a), t['s'])
        if kind.startswith('FloatToInt'):
            r = INTR.get(t.get('s'))
            return self.num(r[0], r[1], ('f2i',), True)
        if kind.startswith('FloatToFloat'):
            return ('f2f', a, t['s'])
        if kind.startswith('Transmute'):
            a2 = self.unwrap_ptr(a) if t['k'] in ('ptr', 'ref') else a
            if isinstance(a2, tuple) and a2[0] in ('seq', 'un', 'uninit', 'ref', 'cref', 'agg'):
                return a2
            if isinstance(a2, tuple) and a2[0] == 'sym':
                return a2
            return self.fresh(st, tty, ('transmute',), True)
        if 'PointerCoercion' in kind or kind.startswith('PtrToPtr'):
            if isinstance(a, tuple) and a[0] in ('ref', 'cref', 'fn', 'agg', 'sym'):
                return a
            return a
        return a

    # ------------------------------------------------------------ exploration
    def run(self, inits, on_finish):
        """explore every path from the initial states"""
        self.on_finish = on_finish
        inits = list(inits)
        again = [s.clone() for s in inits]
        if self.explore(inits):
            return
        # too many states: at least follow every path that goes round its loops a few times only
        self.limited = True
        for k in (2, 5, 10):
            if self.reports:
                break
            self.shallow = k
            self.stored = {}
            self.extra = self.stats['states'] + self.maxstates // 2
            self.explore([s.clone() for s in again])
        self.shallow = None

    shallow = None
    extra = None

    def explore(self, work):
        """False when a limit was reached"""
        tot = 0
        ok = True
        while work:
            st = work.pop()
            self.stats['states'] += 1
            if self.stats['states'] > (self.extra or self.maxstates):
                self.undec[('limit', 'states', '')] = ''
                ok = False
                break
            try:
                while True:
                    if not st.stack:
                        break
                    fr = st.top
                    if fr.b is None:
                        r = st.x.pop('_ret', None)
                        if r is None or r[0] != st.act:
                            break
                        del st.stack[r[1]:]
                        self.deliver(st, r[2])
                        if 'done' in st.flags:
                            break
                        continue
                    if fr.si == 0 and fr.bb in fr.b.heads:
                        if self.at_head(st, fr):
                            break
                    tot += 1
                    if tot > self.maxsteps:
                        self.undec[('limit', 'steps', '')] = ''
                        ok = False
                        work = []
                        break
                    self.step(st)
                    if 'done' in st.flags:
                        break
            except Split as e:
                sp = self.site(st)
                for s in e.states:
                    s.trace = (st.trace, sp[1])
                work.extend(e.states)
            except Dead:
                pass
            except Undecided as e:
                self.undec.setdefault(('undecided', str(e), self.site(st)[0]), self.site(st)[1])
        self.stats['steps'] += tot
        return ok

    def finish(self, st):
        st.flags = st.flags | {'done'}

    def normalize(self, st):
        """hook: bring ghost state into normal form before comparison"""

    def on_lasso(self, st, fr):
        self.report(st, 'nonterm', 'loop repeats the same state without consuming input', (fr.b.path, fr.b.blocks[fr.bb]['sp']))

    def on_cycle(self, st, fr):
        pass

    def collapse(self, st, cnt):
        """forget contents of sequences that keep growing"""
        ch = False
        for c, v in list(st.mem.items()):
            nv = self.collapse_val(st, v)
            if nv is not v:
                st.mem[c] = nv
                ch = True
        return ch

    def collapse_val(self, st, v):
        if not isinstance(v, tuple):
            return v
        if v[0] == 'seq':
            if (len(v[2]) >= 3 or len(v[2]) == 2 and any(p[0] == 'unk' for p in v[2])) and not all(p[0] == 'l' for p in v[2]):
                n = self.slen(st, v)
                if v[1] == 's':
                    return ('seq', 's', (('unk', 'c', n),))
                return ('seq', v[1], (('unk', None, n),))
            return v
        if v[0] == 'agg':
            fs = [self.collapse_val(st, f) for f in v[3]]
            if any(a is not b for a, b in zip(fs, v[3])):
                return ('agg', v[1], v[2], tuple(fs))
        return v

    def at_head(self, st, fr):
        """True when the state is covered by an already explored one"""
        from . import canon
        return canon.at_head(self, st, fr)
