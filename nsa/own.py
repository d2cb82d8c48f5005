"""Ownership of partially initialised arrays: which decoded elements are dropped, kept or read."""
from . import models as M
from .lin import add, sub, is_num
from .interp import UNINIT, Dead


class Owned:
    """mixin for a decoder exploration: elements decoded so far are runs of a ghost sequence"""

    def mentions_mu(self, ty, n=0):
        if ty is None or n > 8:
            return False
        t = self.T(ty)
        if t['k'] == 'adt' and 'MaybeUninit' in t['p']:
            return True
        return 'MaybeUninit' in t['s']

    def owned_pieces(self, st, v, out, n=0):
        if not isinstance(v, tuple) or n > 10 or not v:
            return
        if v[0] == 'sym':
            r = st.tab.get(('rel', v[1]))
            if r is not None and r[0] in self.ghostty:
                out.append((r[0], r[1], add(r[1], 1)))
                return
            x = st.tab.get(v[1])
            if x is not None:
                self.owned_pieces(st, x, out, n + 1)
            return
        if v[0] == 'run' and len(v) == 4:
            if v[1] in self.ghostty:
                out.append((v[1], v[2], v[3]))
            return
        if v[0] in ('ref', 'cref', 'fn', 'lit'):
            return
        for x in v:
            self.owned_pieces(st, x, out, n + 1)

    def on_drop(self, st, v, ty):
        if ty is not None and self.mentions_mu(ty):
            return
        out = []
        self.owned_pieces(st, v, out)
        if out:
            ps = st.x.get('dropped', ('seq', 'v', ()))[2]
            st.x['dropped'] = ('seq', 'v', self.join(st, ps + tuple(('run', s, a, b) for s, a, b in out)))

    def has_uninit(self, st, v, n=0):
        if not isinstance(v, tuple) or n > 10 or not v:
            return False
        if v[0] in ('uninit', 'moved'):
            return True
        if v[0] == 'rep' and len(v) == 3:
            return self.has_uninit(st, v[1], n + 1) and not self.prove(st, sub(0, v[2]))
        if v[0] in ('ref', 'cref', 'fn', 'lit', 'sym'):
            return False
        return any(self.has_uninit(st, x, n + 1) for x in v)

    def on_assume_init(self, st, v, cal):
        ty = None
        for a in cal.get('a', []):
            if not isinstance(a, dict):
                ty = a
                break
        if ty is not None and self.mentions_mu(ty):
            return
        self.stats['obligations'] += 1
        if self.has_uninit(st, v):
            self.report(st, 'uninit', 'memory that was never initialised is read as a value')
        else:
            self.stats['discharged'] += 1

    def ghostcount(self, st, src):
        return st.x.get('k%d' % src, 0)

    def check_owned(self, st, ok, val):
        site = (self.body.path, self.body.j['span'])
        dropped = st.x.get('dropped', ('seq', 'v', ()))[2]
        kept = []
        if ok:
            self.owned_pieces(st, val, kept)
        pieces = [(s, a, b) for _, s, a, b in dropped] + kept
        for src in self.ghostty:
            k = self.ghostcount(st, src)
            self.stats['obligations'] += 1
            mine = [(a, b) for s, a, b in pieces if s == src]
            pos = 0
            bad = None
            while mine:
                mine = [(a, b) for a, b in mine if not (self.norm(st, sub(b, a)) == 0 or self.prove(st, sub(a, b)))]
                for i, (a, b) in enumerate(mine):
                    d = self.norm(st, sub(a, pos))
                    if d == 0 or self.prove(st, d) and self.prove(st, sub(pos, a)):
                        pos = b
                        mine.pop(i)
                        break
                else:
                    break
            if mine:
                bad = 'an element is dropped twice, or dropped and also returned' if self.twice(st, pieces, src) else 'the elements dropped are not the ones decoded'
            else:
                d = self.norm(st, sub(k, pos))
                if not (d == 0 or self.prove(st, d) and self.prove(st, sub(pos, k))):
                    bad = 'a decoded element is leaked' if self.prove(st, sub(k, pos)) else 'more elements are dropped than were decoded'
            if bad:
                self.report(st, 'owned', ('on success: ' if ok else 'on failure: ') + bad, site)
            else:
                self.stats['discharged'] += 1

    def twice(self, st, pieces, src):
        mine = [(a, b) for s, a, b in pieces if s == src]
        for i in range(len(mine)):
            for j in range(i):
                a, b = mine[i], mine[j]
                if not (self.prove(st, sub(a[0], b[1])) or self.prove(st, sub(b[0], a[1]))):
                    return True
        return False
