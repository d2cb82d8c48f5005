"""Canonical form of abstract states: skeleton + numeric slots, inclusion test, widening."""
from . import lin as N
from .lin import add, sub, mul, neg, single

HUGE = (1 << 63) - 1
COUNT = (1 << 31) - 256


class Walk:
    def __init__(self, eng, st, repl=None):
        self.e = eng
        self.st = st
        self.sk = []
        self.slots = []
        self.cells = {}
        self.syms = {}
        self.queue = []
        self.repl = repl
        self.ri = 0
        self.symq = []
        self.newmem = {}
        self.newtab = {}

    def num(self, v):
        v = self.e.norm(self.st, v)
        self.slots.append(v)
        self.sk.append('#')
        if self.repl is not None:
            r = self.repl[self.ri]
            self.ri += 1
            return r
        return v

    def cell(self, c):
        i = self.cells.get(c)
        if i is None:
            i = len(self.cells)
            self.cells[c] = i
            self.queue.append(c)
        self.sk.append(i)

    def symid(self, s):
        i = self.syms.get(s)
        if i is None:
            i = len(self.syms)
            self.syms[s] = i
            self.symq.append(s)
        self.sk.append(i)

    def v(self, v):
        sk = self.sk
        if isinstance(v, (bool, str, bytes)) or v is None:
            sk.append(v)
            return v
        if isinstance(v, int):
            return self.num(v)
        if isinstance(v, dict):
            sk.append(id(v))
            return v
        if isinstance(v, frozenset):
            sk.append(v)
            return v
        t = v[0] if v else None
        if t == 'L':
            return self.num(v)
        if t == 'sym':
            sk.append('S')
            self.symid(v[1])
            return v
        if t == 'agg':
            sk.append(('A', v[1], v[2], len(v[3])))
            return ('agg', v[1], v[2], tuple([self.v(x) for x in v[3]]))
        if t == 'ref':
            sk.append('R')
            self.cell(v[1])
            p = self.path(v[2])
            m = v[3]
            if m is not None:
                sk.append('m')
                m = tuple([self.v(x) for x in m])
            return ('ref', v[1], p, m)
        if t == 'run':
            sk.append('run')
            self.src(v[1])
            nv = ('run', v[1], self.num(v[2]), self.num(v[3]))
            for k, x in self.e.textfacts(self.st, v):
                if x is not None:
                    sk.append((k, x[1]))
                    if self.repl is not None:
                        self.newtab[(k, nv)] = x
            return nv
        if t == 'lit':      # ('lit', anything hashable): compared literally
            sk.append(v)
            return v
        sk.append((t, len(v)) if isinstance(t, str) else ('T', len(v)))
        if isinstance(t, str):
            return (t,) + tuple([self.v(x) for x in v[1:]])
        return tuple([self.v(x) for x in v])

    def src(self, s):
        if isinstance(s, int):
            self.symid(s)
        else:
            self.v(s)

    def path(self, p):
        out = []
        for s in p:
            if isinstance(s, int):
                self.sk.append(('f', s))
                out.append(s)
            else:
                self.sk.append('ix')
                out.append(('ix', self.num(s[1])))
        return tuple(out)

    def walk(self):
        st, e = self.st, self.e
        sk = self.sk
        sk.append(st.act)
        for stack in st.stacks:
            sk.append(('stack', len(stack)))
            for fi, fr in enumerate(stack):
                if fr.b is None:
                    sk.append(('cont', fr.cont))
                    if fr.data is not None:
                        nd = self.v(fr.data)
                        if self.repl is not None and nd != fr.data:
                            fr = fr.copy()
                            fr.data = nd
                            stack[fi] = fr
                    continue
                livein, addr = fr.b.live()
                sk.append((fr.b.key, fr.bb, fr.si))
                if fi == len(stack) - 1 and fr.si == 0:
                    ls = livein[fr.bb] | addr
                elif fi < len(stack) - 1 or stack is not st.stack:
                    t = fr.b.blocks[fr.bb]['t']
                    if t[0] == 'call' and t[4] is not None:
                        ls = set(livein[t[4]])
                        if len(t[3]) == 1:
                            ls.discard(t[3][0])
                        else:
                            ls.add(t[3][0])
                        ls |= addr
                    elif t[0] == 'drop':
                        ls = livein[t[2]] | addr
                    else:
                        ls = set(range(fr.b.n))
                else:
                    ls = set(range(fr.b.n))
                for l in sorted(ls):
                    c = fr.base + l
                    if c in st.mem:
                        v = st.mem[c]
                        if v[0:1] in (('moved',), ('uninit',)) if isinstance(v, tuple) else False:
                            continue
                        sk.append(('l', l))
                        self.cell(c)
        for k in sorted(st.x):
            if k[0] == '_':
                continue
            sk.append(k)
            nv = self.v(st.x[k])
            if self.repl is not None:
                st.x[k] = nv
        while self.queue or self.symq:
            while self.queue:
                c = self.queue.pop(0)
                if c in st.mem:
                    nv = self.v(st.mem[c])
                    if self.repl is not None:
                        self.newmem[c] = nv
                else:
                    sk.append('gone')
            while self.symq:
                s = self.symq.pop(0)
                sk.append(('ty', e.symty.get(s)))
                cl = e.symclass.get(s)
                if cl is not None:
                    sk.append(cl)
                x = st.tab.get(s)
                if x is not None:
                    sk.append('x')
                    nv = self.v(x)
                    if self.repl is not None:
                        self.newtab[s] = nv
                self.symextra(s)
        # memo facts whose subjects are all reachable
        facts = []
        for k, val in st.tab.items():
            if isinstance(k, tuple) and k[0] in ('rel', 'el'):
                continue
        return self

    def symextra(self, s):
        st = self.st
        rel = st.tab.get(('rel', s))
        if rel is not None and (not isinstance(rel[0], int) or rel[0] in self.syms):
            self.sk.append('rel')
            self.src(rel[0])
            np = self.num(rel[1])
            if self.repl is not None:
                self.newtab[('rel', s)] = (rel[0], np)
                if ('el', rel[0], rel[1]) in st.tab:
                    self.newtab[('el', rel[0], np)] = st.tab[('el', rel[0], rel[1])]


def included(e, W, wslots, S, sslots):
    """is S an instance of W (same skeleton)?"""
    if W.taint and not S.taint:
        return False
    sig = {}
    deferred = []
    pairs = list(zip(wslots, sslots))
    rounds = 0
    while pairs:
        rounds += 1
        for w, s in pairs:
            if isinstance(w, int):
                if not isinstance(s, int):
                    return False
                if s != w:
                    return False
                continue
            un = [x for x in w[2] if x[0] not in sig]
            if not un:
                val = w[1]
                for y, k in w[2]:
                    val = add(val, mul(sig[y], k))
                if e.norm(S, sub(val, s)) != 0:
                    return False
            elif len(un) == 1 and abs(un[0][1]) == 1:
                val = sub(s, w[1])
                for y, k in w[2]:
                    if y != un[0][0]:
                        val = sub(val, mul(sig[y], k))
                sig[un[0][0]] = e.norm(S, mul(val, un[0][1]))
            else:
                deferred.append((w, s))
        if not deferred:
            break
        if len(deferred) == len(pairs):
            # bind the first unbound symbol identically
            w, s = deferred[0]
            done = False
            ss = set(N.syms(s))
            for y, k in w[2]:
                if y not in sig and y in ss:
                    sig[y] = N.sym(y)
                    done = True
            if not done:
                return False
        pairs = deferred
        deferred = []
    for y, val in sig.items():
        iv = e.ivs(W, y)
        if y in e.assumed and len(iv) == 1:
            # bounds of a widened counter are assumptions (no counter reaches 2^31), not obligations
            iv = ((iv[0][0] if iv[0][0] != -HUGE else None, iv[0][1] if iv[0][1] not in (HUGE, COUNT) else None),)
        if isinstance(val, int):
            if not any((l is None or l <= val) and (h is None or val <= h) for l, h in iv):
                return False
            continue
        sg = single(val)
        if sg and sg[1] == 1:
            iv2 = e.ivs(S, sg[0])
            if iv2 and iv2[0][0] is not None and iv2[-1][1] is not None and iv[0][0] is not None and iv[-1][1] is not None:
                if N.iv_subset(tuple((l + sg[2], h + sg[2]) for l, h in iv2), iv):
                    continue
                if len(iv) > 1:
                    return False
        if len(iv) > 1:
            lo, hi = e.bounds(S, val)
            if lo is None or hi is None or not N.iv_subset(((lo, hi),), iv):
                return False
            continue
        if iv[0][0] is not None and not e.prove(S, sub(val, iv[0][0])):
            return False
        if iv[-1][1] is not None and not e.prove(S, sub(iv[-1][1], val)):
            return False
    for c in W.cons:
        c = e.norm(W, c)
        if isinstance(c, int):
            continue
        if all(y in sig for y, _ in c[2]):
            val = c[1]
            for y, k in c[2]:
                val = add(val, mul(sig[y], k))
            if not e.prove(S, val):
                return False
    for c in W.nes:
        c = e.norm(W, c)
        if isinstance(c, int):
            continue
        if all(y in sig for y, _ in c[2]):
            val = c[1]
            for y, k in c[2]:
                val = add(val, mul(sig[y], k))
            if e.truth(S, ('cmp', 'ne', val)) is not True:
                return False
    return True


def covered(e, st, w, sk):
    for W, ws in e.stored.get(sk, ()):
        if included(e, W, ws, st, w.slots):
            return True
    return False


def store(e, st, slots, sk):
    e.stored.setdefault(sk, []).append((st.clone(), list(slots)))


def at_head(e, st, fr):
    e.normalize(st)
    w = Walk(e, st).walk()
    sk = tuple(w.sk)
    hk = (fr.base, fr.bb)
    prev = st.hist.get(hk)
    if prev is not None:
        psk, pslots, pstate, ptrace, cnt, pprog = prev
        if ptrace is st.trace:
            # nothing was decided since the previous visit
            if psk == sk and pslots == w.slots:
                if pprog == st.steps:
                    e.on_lasso(st, fr)
                return True
            if cnt[1] < 400:
                st.hist[hk] = (sk, w.slots, None, st.trace, (cnt[0], cnt[1] + 1), st.steps)
                return False
        if psk == sk and pslots == w.slots and pprog == st.steps:
            e.on_cycle(st, fr)
    if covered(e, st, w, sk):
        e.stats['covered'] += 1
        return True
    cnt = (0, 0)
    lit = over_literal(e, st, fr)
    was = st.hist.get((hk, 'lit'))
    st.hist[(hk, 'lit')] = lit
    if prev is not None:
        cnt = (prev[4][0] + 1, prev[4][1])
        if lit and was != lit:
            # a loop over the characters of a literal: taken as often as it has characters
            cnt = (0, cnt[1])
        if e.shallow is not None and cnt[0] >= e.shallow:
            return True
        if cnt[0] > 40:
            e.undec[('widen-limit', fr.b.path, '')] = ''
            return True
        if cnt[0] >= e.collapse_at and e.collapse(st, cnt[0]):
            w = Walk(e, st).walk()
            sk = tuple(w.sk)
            if covered(e, st, w, sk):
                return True
        if prev[0] == sk and cnt[0] <= 12 and any(not isinstance(a, int) and isinstance(b, int) for a, b in zip(prev[1], w.slots)):
            # a special case of the general one: nothing grows here
            pass
        elif cnt[0] >= e.widen_at and prev[0] == sk and prev[2] is not None:
            if widen(e, st, w, prev[1], prev[2], cnt[0]):
                w = Walk(e, st).walk()
                sk = tuple(w.sk)
                if covered(e, st, w, sk):
                    return True
        elif cnt[0] >= e.widen_at and prev[0] != sk:
            # the form of the state alternates: compare with the last one of this form
            old = st.hist.get((hk, sk))
            if old is not None and old[2] >= 1 and widen(e, st, w, old[0], old[1], max(e.widen_at, old[2])):
                w = Walk(e, st).walk()
                sk = tuple(w.sk)
                if covered(e, st, w, sk):
                    return True
    store(e, st, w.slots, sk)
    old = st.hist.get((hk, sk))
    st.hist[(hk, sk)] = (w.slots, e.stored[sk][-1][0], old[2] + 1 if old else 0)
    st.hist[hk] = (sk, w.slots, e.stored[sk][-1][0], st.trace, cnt, st.steps)
    return False


def over_literal(e, st, fr):
    """the positions of this frame's iterators over short literals"""
    out = []
    for c in range(fr.base, fr.base + fr.b.n):
        v = st.mem.get(c)
        if isinstance(v, tuple) and v and v[0] == 'iter' and isinstance(v[3], int) and isinstance(v[2], tuple) and v[2][0] == 'ref' and v[1] != 'queue':
            try:
                t = e.read(st, v[2][1], v[2][2])
            except Exception:
                continue
            if isinstance(t, tuple) and t and t[0] == 'seq' and 0 < len(t[2]) <= 24 and all(p[0] == 'l' and len(p[1]) <= 24 for p in t[2]) and v[4] is not None:
                out.append((c - fr.base, v[3]))
    return tuple(out)


def project(e, st, reach):
    """eliminate the symbols that are no longer reachable from the constraints"""
    cons = []
    for c in st.cons:
        c = e.norm(st, c)
        if not isinstance(c, int) and c not in cons:
            cons.append(c)
    gone = []
    for c in cons:
        for y in N.syms(c):
            if y not in reach and y not in gone:
                gone.append(y)
    for y in gone:
        pos, negs, rest = [], [], []
        for c in cons:
            k = dict(c[2]).get(y, 0)
            (pos if k > 0 else negs if k < 0 else rest).append((k, c))
        new = [c for _, c in rest]
        if len(pos) * len(negs) <= 16:
            for k1, c1 in pos:
                for k2, c2 in negs:
                    r = add(mul(c1, -k2), mul(c2, k1))
                    if not isinstance(r, int) and r not in new and len(r[2]) <= 4:
                        new.append(r)
        cons = new
    return tuple(cons)


def widen(e, st, w, pslots, pst, cnt):
    e.stats['widened'] += 1
    n = len(w.slots)
    ch = []
    stable = []
    for j in range(n):
        a, b = pslots[j], w.slots[j]
        if a == b:
            if b not in stable and (not isinstance(b, int) or 1 < b < COUNT and len(stable) < 12):
                stable.append(b)
            continue
        ch.append(j)
    if not ch:
        return False
    classes = []   # (rep slot idx, a_r, b_r, delta)
    repl = list(w.slots)
    order = []
    for j in ch:
        d = sub(w.slots[j], pslots[j])
        order.append((0 if d == 1 else 1 if isinstance(d, int) and d == -1 else 2 if isinstance(d, int) else 3, j, d))
    order.sort(key=lambda x: (x[0], x[1]))
    cls = []
    for _, j, d in order:
        a, b = pslots[j], w.slots[j]
        for (z, ra, rb, rd) in cls:
            if sub(a, ra) == sub(b, rb):
                repl[j] = add(z, sub(a, ra))
                break
            if add(a, ra) == add(b, rb):
                repl[j] = sub(add(a, ra), z)
                break
            if isinstance(rd, int) and rd == 1 and isinstance(d, int):
                repl[j] = add(a, mul(sub(z, ra), d))
                break
        else:
            lo1, hi1 = e.bounds(pst, a)
            lo2, hi2 = e.bounds(st, b)
            sa, sb = single(a), single(b)
            exact = False
            ivs = None
            if sa and sb and sa[1] == 1 and sb[1] == 1 and sa[2] == sb[2] and sa[0] != sb[0]:
                i1, i2 = e.ivs(pst, sa[0]), e.ivs(st, sb[0])
                if i1 == i2 or cnt < e.widen_at + 3:
                    # keep the union
                    u = i2 + tuple(N.iv_minus(i1, i2)) if i1[0][0] is not None and i2[0][0] is not None else None
                    if u is not None:
                        u = tuple(sorted(u))
                        ivs = tuple((l + sa[2], h + sa[2]) for l, h in u)
                        exact = i1 == i2
            if ivs is None:
                lo = lo1 if lo2 is not None and lo1 is not None and lo2 >= lo1 else None
                hi = hi1 if hi2 is not None and hi1 is not None and hi2 <= hi1 else None
                if cnt > e.widen_at + 6:
                    lo = hi = None
                if isinstance(d, int) and abs(d) == 1:
                    exact = cnt <= e.widen_at + 6
                if lo is None and lo2 is not None and lo2 >= 0:
                    # a counter that goes up and down usually stays at one or more, or at zero or more
                    lo = min(lo2, 1)
                if hi is None:
                    step = isinstance(d, int) and d > 0 and isinstance(a, int)
                    if not step and hi1 is not None and hi2 is not None:
                        step = 0 < hi2 - hi1 <= 2 and hi2 <= COUNT
                        step = step or hi1 <= COUNT + 128 and hi2 <= COUNT + 128 and N.syms(b) and all(y in e.assumed for y in N.syms(b))
                    hi = COUNT if step else HUGE
                if lo is None:
                    lo = -HUGE
                ivs = ((lo, hi),)
            t = e.is_tainted(N.syms(b)) or e.is_tainted(N.syms(a))
            z = N.sym(e.newsym(origin=('widened', j), ivs=ivs, taint=t or not exact))
            e.assumed.add(N.syms(z)[0])
            cls.append((z, a, b, d))
            repl[j] = z
    # relations
    extra = []
    zs = [(z, a, b) for (z, a, b, d) in cls]
    for z, a, b in zs:
        cands = list(stable)
        if not isinstance(a, int):
            cands.append(a)
        for s in cands:
            for k in (1, 0):
                if e.prove(pst, add(sub(s, a), -k)) and e.prove(st, add(sub(s, b), -k)):
                    extra.append(add(sub(s, z), -k))
                    break
            for k in (1, 0):
                if e.prove(pst, add(sub(a, s), -k)) and e.prove(st, add(sub(b, s), -k)):
                    extra.append(add(sub(z, s), -k))
                    break
    for i, (z, a, b) in enumerate(zs):
        for z2, a2, b2 in zs[:i]:
            for k in (2, 1, 0, -1):
                if e.prove(pst, add(sub(a, a2), -k)) and e.prove(st, add(sub(b, b2), -k)):
                    extra.append(add(sub(z, z2), -k))
                    break
            for k in (2, 1, 0, -1):
                if e.prove(pst, add(sub(a2, a), -k)) and e.prove(st, add(sub(b2, b), -k)):
                    extra.append(add(sub(z2, z), -k))
                    break
    w2 = Walk(e, st, repl)
    w2.walk()
    st.mem.update(w2.newmem)
    st.tab.update(w2.newtab)
    # forget constraints over symbols that are no longer reachable
    reach = set()
    for s in repl:
        reach |= set(N.syms(s))
    for s in list(stable):
        reach |= set(N.syms(s))
    st.cons = project(e, st, reach)
    st.nes = tuple(c for c in st.nes if set(N.syms(e.norm(st, c))) <= reach)
    for c in extra:
        e.assume_ge(st, c)
    return True
