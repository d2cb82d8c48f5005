"""Numeric domain: linear expressions over symbols, interval sets, and
Fourier-Motzkin entailment over a small set of linear inequalities."""
from math import gcd

# A linear expression is a Python int or ('L', c, ((sym, coef), ...)) sorted by sym.
INF = None


def is_num(v):
    return isinstance(v, int) or (isinstance(v, tuple) and v and v[0] == 'L')


def mk(c, d):
    t = tuple(sorted((s, k) for s, k in d.items() if k))
    return ('L', c, t) if t else c


def sym(s):
    return ('L', 0, ((s, 1),))


def add(a, b):
    if isinstance(a, int):
        if isinstance(b, int):
            return a + b
        return ('L', b[1] + a, b[2])
    if isinstance(b, int):
        return ('L', a[1] + b, a[2])
    d = dict(a[2])
    for s, k in b[2]:
        d[s] = d.get(s, 0) + k
    return mk(a[1] + b[1], d)


def mul(a, k):
    if isinstance(a, int):
        return a * k
    if k == 0:
        return 0
    if k == 1:
        return a
    return ('L', a[1] * k, tuple((s, c * k) for s, c in a[2]))


def neg(a):
    return mul(a, -1)


def sub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    return add(a, mul(b, -1))


def syms(a):
    if isinstance(a, int):
        return ()
    return [s for s, _ in a[2]]


def single(a):
    """(sym, coef, c) when a = coef*sym + c"""
    if not isinstance(a, int) and len(a[2]) == 1:
        s, k = a[2][0]
        return s, k, a[1]
    return None


# ---- interval sets: tuple of (lo, hi) disjoint ascending
def iv_inter(a, b):
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        lo = max(a[i][0], b[j][0])
        hi = min(a[i][1], b[j][1])
        if lo <= hi:
            out.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


def iv_remove(a, v):
    out = []
    for lo, hi in a:
        if lo <= v <= hi:
            if lo < v:
                out.append((lo, v - 1))
            if v < hi:
                out.append((v + 1, hi))
        else:
            out.append((lo, hi))
    return tuple(out)


def iv_minus(a, b):
    """a \\ b"""
    out = a
    for lo, hi in b:
        n = []
        for x, y in out:
            if hi < x or lo > y:
                n.append((x, y))
                continue
            if x < lo:
                n.append((x, lo - 1))
            if y > hi:
                n.append((hi + 1, y))
        out = n
    return tuple(out)


def iv_subset(a, b):
    return iv_inter(a, b) == tuple(a) or not iv_minus(a, b)


def iv_size(a):
    return sum(h - l + 1 for l, h in a)


def _norm_con(c, t):
    g = 0
    for _, k in t:
        g = gcd(g, abs(k))
    if g > 1:
        c = c // g  # floor: sum >= -c  => sum/g >= ceil(-c/g) -> floor on c
        t = tuple((s, k // g) for s, k in t)
    return c, t


_cache = {}


def infeasible(cons, limit=400):
    """cons: iterable of linear expressions each required >= 0 (integers).
    True only when the rational relaxation (with gcd tightening) is empty."""
    work = set()
    for a in cons:
        if isinstance(a, int):
            if a < 0:
                return True
            continue
        work.add(_norm_con(a[1], a[2]))
    key = frozenset(work)
    r = _cache.get(key)
    if r is not None:
        return r
    r = _fm(work, limit)
    if len(_cache) > 200000:
        _cache.clear()
    _cache[key] = r
    return r


def _fm(work, limit):
    while True:
        # drop dominated constraints (same terms, larger constant)
        best = {}
        for c, t in work:
            if not t:
                if c < 0:
                    return True
                continue
            if t not in best or c < best[t]:
                best[t] = c
        if not best:
            return False
        # quick contradiction: t >= -c and -t >= -c'
        for t, c in best.items():
            nt = tuple((s, -k) for s, k in t)
            c2 = best.get(nt)
            if c2 is not None and c + c2 < 0:
                return True
        cnt = {}
        for t in best:
            for s, k in t:
                p, n = cnt.get(s, (0, 0))
                cnt[s] = (p + (k > 0), n + (k < 0))
        # choose variable with the smallest product
        v = min(cnt, key=lambda s: (cnt[s][0] * cnt[s][1] - cnt[s][0] - cnt[s][1], s))
        pos, ngs, rest = [], [], []
        for t, c in best.items():
            k = dict(t).get(v, 0)
            if k > 0:
                pos.append((k, c, t))
            elif k < 0:
                ngs.append((-k, c, t))
            else:
                rest.append((c, t))
        new = set(rest)
        for k1, c1, t1 in pos:
            for k2, c2, t2 in ngs:
                d = {}
                for s, k in t1:
                    d[s] = k * k2
                for s, k in t2:
                    d[s] = d.get(s, 0) + k * k1
                d.pop(v, None)
                tt = tuple(sorted((s, k) for s, k in d.items() if k))
                cc = c1 * k2 + c2 * k1
                new.add(_norm_con(cc, tt))
        if len(new) > limit:
            return False
        work = new
