"""Recursion: the call graph of the analysed programs may only be cyclic through the parts of a
recursive type, or through calls whose depth is provably limited by a constant."""
import time
from . import lin as N
from . import models as M
from .lin import add, sub, is_num
from .interp import Engine, State, Frame, Dead, Undecided, Split, INTR
from .run import result, report, PROGS

LIMIT = 100000
CODEC = ('SerBin', 'DeBin', 'SerJson', 'DeJson', 'SerRon', 'DeRon')


def refs(x, out):
    """names of the bodies mentioned in a piece of MIR: callees and function values"""
    if isinstance(x, dict):
        b = x.get('b')
        if isinstance(b, str):
            out.add(b)
        for v in x.values():
            refs(v, out)
    elif isinstance(x, list):
        for v in x:
            refs(v, out)


def graph(p):
    """call graph: calls, closures created and functions passed as values"""
    g = {}
    for k, b in p.bodies.items():
        out = set()
        refs(b.blocks, out)
        for i, l in enumerate(b.locals):
            t = p.types[l]
            if 1 <= i <= b.argc:
                continue    # its creator refers to it
            if t['k'] == 'closure':
                out.add(t['b'])
            elif t['k'] == 'fndef' and isinstance(t.get('f'), dict) and t['f'].get('b'):
                out.add(t['f']['b'])
        g[k] = {x for x in out if x in p.bodies}
    return g


def reach(g, roots):
    seen = set()
    work = list(roots)
    while work:
        k = work.pop()
        if k in seen:
            continue
        seen.add(k)
        work += g[k]
    return seen


def sccs(g, nodes):
    idx, low, on, st, out, n = {}, {}, set(), [], [], [0]
    for r in nodes:
        if r in idx:
            continue
        work = [(r, iter(sorted(g[r])))]
        idx[r] = low[r] = n[0]
        n[0] += 1
        st.append(r)
        on.add(r)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in nodes:
                    continue
                if w not in idx:
                    idx[w] = low[w] = n[0]
                    n[0] += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(sorted(g[w]))))
                    break
                if w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    c = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        c.append(w)
                        if w == v:
                            break
                    if len(c) > 1 or v in g[v]:
                        out.append(sorted(c))
    return out


def parts(p, ty, seen=None):
    """types that values of this type directly consist of"""
    out = set()
    t = p.types[ty]
    for a in t.get('a') or ():
        if isinstance(a, int):
            sub_types(p, a, out)
    for a in t.get('ts') or ():
        sub_types(p, a, out)
    if isinstance(t.get('t'), int):
        sub_types(p, t['t'], out)
    for v in t.get('v') or ():
        for f in v['f']:
            for x in f[1:]:
                if isinstance(x, int) and not isinstance(x, bool):
                    sub_types(p, x, out)
                    break
    return out


def sub_types(p, ty, out):
    if ty in out:
        return
    out.add(ty)
    t = p.types[ty]
    for a in list(t.get('a') or ()) + list(t.get('ts') or ()) + [t.get('t')]:
        if isinstance(a, int):
            sub_types(p, a, out)


def codec_self(p, k):
    """Self type when the body is a codec method"""
    b = p.bodies[k]
    if '{closure' in k:
        return None
    for i, c in enumerate(CODEC):
        if ' as nanoserde::' in k and ('::%s>::' % c) in k:
            n = k[1:k.index(' as nanoserde::')]
            return p.byname.get(n)
    return None


def entry(p, k):
    if codec_self(p, k) is not None:
        return True
    b = p.bodies[k]
    if b.root and not b.root.get('trait') and 'DeJsonState' in k or 'DeRonState' in k or 'SerJsonState' in k or 'SerRonState' in k:
        return b.crate == p.crate
    return b.crate == p.crate and 'toml' in k.lower() and k.endswith('::parse')


class Depth(Engine):
    """one function of a cycle: every call but those into the cycle is replaced by an arbitrary result"""

    maxsteps = 20000
    maxstates = 2000

    def __init__(self, prog, cyc, measure, bound, sign):
        super().__init__(prog)
        self.cyc, self.measure, self.bound, self.sign = cyc, measure, bound, sign
        self.conts['root'] = self.root_ret
        self.consts = set()
        self.calls = []

    def start(self, body):
        st = State()
        self.body = body
        args = [self.fresh(st, body.locals[l], ('arg', l)) for l in range(1, body.argc + 1)]
        st.stack.append(Frame(None, 0, 0, 0, 'root'))
        self.d0 = None
        if body.key in self.cyc:
            self.d0 = self.value(st, body.key, args)
            if self.d0 is None:
                return self
            if self.bound is not None:
                self.assume_ge(st, sub(self.bound, self.d0))
        self.push(st, body, args)
        self.run([st], None)
        return self

    def value(self, st, key, args):
        m = self.measure.get(key)
        if m is None or m[0] >= len(args):
            return None
        v = args[m[0]]
        if len(m) == 1:
            return v if is_num(v) else None
        try:
            r = M.deep(self, st, v)
            x = self.read(st, r[1], r[2])
            if x[0] == 'sym':
                x = self.expand(st, x)
            x = x[3][m[1]]
        except (Undecided, IndexError, TypeError, KeyError):
            return None
        return x if is_num(x) else None

    def hook_call(self, st, cal, args):
        k = cal.get('b')
        if k in self.cyc:
            v = self.value(st, k, args)
            self.calls.append((k, self.judge(st, v), self.site(st)))
            self.havoc_call(st, cal, args)
            return True
        b = self.p.bodies.get(k) if k else None
        if b is not None and b.crate == self.p.crate and '{closure' not in k:
            self.havoc_call(st, cal, args)
            return True
        return None

    def havoc_reach(self, st, a, ty):
        """the callee may change anything it gets a reference to; what counts the depth it restores"""
        if not isinstance(a, tuple) or a[0] != 'ref':
            return
        try:
            old = self.read(st, a[1], a[2])
            self.write(st, a[1], a[2], self.havoced(st, old))
        except (Undecided, KeyError, IndexError, TypeError):
            pass

    def havoced(self, st, v):
        if not isinstance(v, tuple):
            return v
        if v[0] == 'sym' and self.symty.get(v[1]) is not None:
            t = self.T(self.symty[v[1]])
            if t['k'] == 'adt' and t.get('ak') == 'struct' and t['p'].startswith('nanoserde'):
                v = self.expand(st, v)
            else:
                return self.opaque(self.symty[v[1]], ('havoc',))
        if v[0] == 'agg' and v[1] is not None:
            t = self.T(v[1])
            if t['k'] == 'adt' and t.get('ak') == 'struct' and t['p'].startswith('nanoserde'):
                keep = {m[1] for m in self.measure.values() if len(m) > 1}
                return ('agg', v[1], v[2], tuple(x if i in keep else self.havoced(st, x) for i, x in enumerate(v[3])))
            return self.opaque(v[1], ('havoc',))
        return v

    def judge(self, st, v):
        """does the measure move towards its limit in this call?"""
        if v is None:
            return None
        v = self.norm(st, v)
        if self.d0 is None:
            lo, hi = self.bounds(st, v)
            return 'start' if hi is not None and hi <= (LIMIT if self.sign < 0 else self.bound) else None
        d = self.norm(st, self.d0)
        if self.sign > 0:
            if self.prove(st, sub(v, add(d, 1))) and self.prove(st, sub(self.bound, v)):
                return 'step'
            if self.prove(st, sub(v, d)):
                return 'same'
        else:
            lo, _ = self.bounds(st, v)
            if lo is not None and lo >= 0 and self.prove(st, sub(add(d, -1), v)):
                return 'step'
            if self.prove(st, sub(d, v)):
                return 'same'
        return None

    def binop(self, st, op, a, b, ty):
        for x in (a, b):
            if isinstance(x, int) and 0 <= x <= LIMIT:
                self.consts.add(x)
        return super().binop(st, op, a, b, ty)

    def root_ret(self, st, data, v):
        self.stats['paths'] += 1
        raise Dead()


def measures(p, cyc):
    """integer places that could count the depth, per function"""
    out = []
    for k in cyc:
        b = p.bodies[k]
        c = []
        for l in range(1, b.argc + 1):
            t = p.types[b.locals[l]]
            if t['k'] == 'prim' and t['s'] in INTR and t['s'] not in ('bool', 'char'):
                c.append((l - 1,))
            if t['k'] == 'ref':
                u = p.types[t['t']]
                if u['k'] == 'adt' and u.get('ak') == 'struct' and 'v' in u:
                    for i, f in enumerate(u['v'][0]['f']):
                        ft = [x for x in f[1:] if isinstance(x, int) and not isinstance(x, bool)]
                        if ft and p.types[ft[0]]['k'] == 'prim' and p.types[ft[0]]['s'] in INTR and p.types[ft[0]]['s'] not in ('bool', 'char'):
                            c.append((l - 1, i))
        out.append(c)
    res = [{}]
    for k, c in zip(cyc, out):
        res = [dict(m, **{k: x}) for m in res for x in c] if c else res
        res = res[:64]
    return [m for m in res if m]


def limited(p, g, cyc, stats):
    """is the depth of this cycle limited by a constant?"""
    t0 = time.time()
    callers = [k for k in g if k not in cyc and g[k] & set(cyc)]
    for m in measures(p, cyc):
        # constants the measure may be compared with
        consts = set()
        for k in cyc:
            e = Depth(p, cyc, m, None, -1)
            e.start(p.bodies[k])
            consts |= e.consts
        cand = [(1, c) for x in sorted(consts) for c in (x, x + 1, x - 1) if c > 0] + [(-1, None)]
        for sign, bound in cand:
            ok = True
            stepped = set()
            for k in list(cyc) + callers:
                e = Depth(p, cyc, m, bound, sign)
                e.start(p.bodies[k])
                stats['paths'] += e.stats['paths']
                stats['states'] += e.stats['states']
                for (c, j, _) in e.calls:
                    if j is None or k in callers and j != 'start':
                        ok = False
                    elif j == 'same':
                        stepped.add((k, c))
                if k in cyc and not e.calls:
                    ok = False      # the call that closes the cycle was not reached
                if not ok or e.undec:
                    ok = False
                    break
            if time.time() - t0 > 60:
                return False, None
            if ok:
                # calls that leave the measure unchanged must not form a cycle themselves
                h = {k: set() for k in cyc}
                for a, b in stepped:
                    if a in h:
                        h[a].add(b)
                if not sccs(h, set(cyc)):
                    return True, bound
    return False, None


def j_depth(name, tag):
    p = PROGS[tag]
    r = result(name)
    g = graph(p)
    roots = [k for k in p.bodies if entry(p, k)]
    nodes = reach(g, roots)
    r['bodies'] = sorted(nodes)
    r['paths'] = sum(len(g[k]) for k in nodes)
    for k in sorted(nodes):
        b = p.bodies[k]
        for bl in b.blocks:
            t = bl['t']
            if t[0] == 'call' and 'ptr' in t[1] and b.crate == p.crate:
                r['undec'].append('%s: indirect call in %s' % (name, k))
    r['obligations'] += len(nodes)
    r['discharged'] += len(nodes)
    for c in sccs(g, nodes):
        own = [k for k in c if p.bodies[k].crate in (p.crate, 'nanoserde')]
        if not own:
            continue
        if all(codec_self(p, k) is not None for k in c):
            bad = None
            for k in c:
                for k2 in g[k]:
                    if k2 in c:
                        x, y = codec_self(p, k), codec_self(p, k2)
                        if x == y or y not in parts(p, x):
                            bad = (k, k2)
            if bad is None:
                continue
            where = bad
        else:
            ok, bound = limited(p, g, c, r)
            if ok:
                continue
            where = (own[0], own[-1])
        b = p.bodies[where[0]]
        r['discharged'] -= len(c)
        r['reports'].append(report('recursion', b.path, 'recursion whose depth is not limited by the type or by a constant: ' +
                                   ' -> '.join(c[:6]), b.j.get('span', ''), subject=b.path))
    return r


def jobs(tier):
    for tag in ('lib', 'corpus'):
        if PROGS.get(tag):
            yield (j_depth, 'recursion ' + tag, (tag,), 300)
