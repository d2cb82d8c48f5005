"""Token grammars: what documents of a type look like, as nondeterministic automata over the
tokens and the component values of a document."""
import itertools
from .lin import is_num


class Nfa:
    def __init__(self):
        self.n = 0
        self.edges = {}
        self.eps = {}

    def new(self):
        self.n += 1
        self.edges[self.n] = []
        self.eps[self.n] = []
        return self.n

    def add(self, a, what, b):
        self.edges[a].append((what, b))

    def close(self, items):
        out = set()
        work = list(items)
        while work:
            x = work.pop()
            if x in out:
                continue
            out.add(x)
            s, lenient, cond = x
            for b in self.eps[s]:
                work.append((b, lenient, cond))
        return frozenset(out)


# grammar parts are functions (nfa, start) -> end
def tok(name, lenient=False):
    def f(n, a):
        b = n.new()
        n.add(a, ('t', name, lenient), b)
        return b
    return f


def key(kind, name, among=()):
    """a string or identifier token with the text `name`; None: any text not among the given"""
    def f(n, a):
        b = n.new()
        n.add(a, ('k', kind, name if name is not None else ('not', frozenset(among))), b)
        return b
    return f


def val(slot):
    def f(n, a):
        b = n.new()
        n.add(a, ('v', slot), b)
        return b
    return f


def skip():
    def f(n, a):
        b = n.new()
        n.add(a, ('skip',), b)
        return b
    return f


def mark(what):
    """a state the document must not go beyond: its verdict is `what`"""
    def f(n, a):
        n.marks[a] = what
        b = n.new()
        return b
    return f


def point(what):
    """names the position after the last field of `what`"""
    def f(n, a):
        b = n.new()
        n.eps[a].append(b)
        n.points[b] = what
        return b
    return f


def seq(*ps):
    def f(n, a):
        for p in ps:
            a = p(n, a)
        return a
    return f


def alt(*ps):
    def f(n, a):
        end = n.new()
        for p in ps:
            s = n.new()
            n.eps[a].append(s)
            n.eps[p(n, s)].append(end)
        return end
    return f


def opt(p):
    return alt(p, seq())


def star(p):
    def f(n, a):
        s = n.new()
        n.eps[a].append(s)
        e = p(n, s)
        n.eps[e].append(s)
        end = n.new()
        n.eps[s].append(end)
        return end
    return f


def listof(op, item, cl, sep='Comma', lenient=False, trail=False):
    """a trailing separator may be refused, unless trail"""
    return seq(tok(op, lenient), alt(seq(), seq(item, star(seq(tok(sep), item)), opt(tok(sep, True)))), tok(cl))


def items(op, parts, cl):
    """fixed arity; a trailing comma may be refused"""
    if not parts:
        return seq(tok(op), tok(cl))
    mid = [parts[0]]
    for p in parts[1:]:
        mid += [tok('Comma'), p]
    return seq(tok(op), *mid, opt(tok('Comma', True)), tok(cl))


class Spec:
    """one grammar; positions are frozensets of (state, lenient, cond)"""

    def __init__(self, part, finish=None, required=None, mayfail=None, tokok=None, unknown=None):
        n = Nfa()
        n.marks = {}
        n.points = {}
        a = n.new()
        self.end = part(n, a)
        self.n = n
        self.start = n.close([(a, False, None)])
        self.finish = finish
        self.mayfail = mayfail
        self.required = required or {}
        self.tokok = tokok
        self.unknown = unknown

    def resolve(self, e, st, g):
        """drop what contradicts what is known about the last key"""
        k = st.x.get('key')
        out = []
        for s, l, c in g:
            if c is not None:
                r = self.holds(e, st, k, c)
                if r is False:
                    continue
                if r is True:
                    c = None
            out.append((s, l, c))
        return frozenset(out)

    def holds(self, e, st, k, c):
        t, no = text_facts(e, st, k)
        if isinstance(c, str):
            if t is not None:
                return t == c
            if c in no:
                return False
            return None
        names = c[1]
        if t is not None:
            return t not in names
        if names <= no:
            return True
        return None

    def tok(self, e, st, g, name, text=None):
        """consume a token; text: its text value"""
        g = self.resolve(e, st, g)
        out = []
        for s, l, c in g:
            for w, b in self.n.edges[s]:
                if w[0] == 't' and w[1] == name:
                    out.append((b, l or w[2], c))
                elif w[0] == 'k' and w[1] == name:
                    if c is not None:
                        return None     # an undecided key is followed by another one
                    out.append((b, l, w[2]))
        if any(w[0] == 'k' and w[1] == name for s, l, c in g for w, b in self.n.edges[s]):
            st.x['key'] = text
        return self.n.close(out)

    def val(self, e, st, g):
        """edges a component value may take: [(slot, next)]"""
        g = self.resolve(e, st, g)
        d = {}
        for s, l, c in g:
            for w, b in self.n.edges[s]:
                if w[0] == 'v':
                    d.setdefault(w[1], []).append((b, l, c))
        return {k: self.n.close(v) for k, v in d.items()}

    def skip(self, e, st, g):
        g = self.resolve(e, st, g)
        out = []
        for s, l, c in g:
            for w, b in self.n.edges[s]:
                if w[0] == 'skip':
                    out.append((b, l, c))
        return self.n.close(out)

    def legal(self, e, st, g, name, text=None, starts=()):
        """must this token be accepted here?"""
        g = self.resolve(e, st, g)
        for s, l, c in g:
            if l or c is not None:
                continue
            for w, b in self.n.edges[s]:
                if w[0] == 't' and w[1] == name and not w[2]:
                    return True
                if w[0] == 'k' and w[1] == name:
                    if isinstance(w[2], str) and self.holds(e, st, text, w[2]) is True:
                        return True
                    if not isinstance(w[2], str) and not self.badnext(b) and self.holds(e, st, text, w[2]) is True:
                        return True
                if w[0] in ('v', 'skip') and name in starts:
                    return True
        return False

    def badnext(self, b):
        return any(x[0] in self.n.marks for x in self.n.close([(b, False, None)])) or self.n.marks.get(b)

    def done(self, e, st, g):
        g = self.resolve(e, st, g)
        return any(s == self.end and c is None for s, l, c in g)

    def marked(self, e, st, g):
        g = self.resolve(e, st, g)
        r = [self.n.marks[s] for s, l, c in g if s in self.n.marks and c is None]
        return r[0] if r else None

    def at(self, e, st, g):
        return [self.n.points[s] for s, l, c in self.resolve(e, st, g) if s in self.n.points and c is None]

    def keyhere(self, e, st, g):
        return any(w[0] == 'k' for s, l, c in self.resolve(e, st, g) for w, b in self.n.edges[s])

    def undecided(self, e, st, g):
        return any(c is not None for s, l, c in self.resolve(e, st, g))


def text_facts(e, st, v):
    """(known text or None, texts it is known not to be)"""
    if v is None:
        return None, frozenset()
    if v[0] == 'sym':
        v = e.force(st, v)
    if v[0] != 'seq':
        return None, frozenset()
    ps = v[2]
    if not ps:
        return '', frozenset()
    if all(p[0] == 'l' for p in ps):
        return ''.join(p[1] for p in ps), frozenset()
    if len(ps) == 1 and ps[0][0] == 'run':
        (_, t), (_, n) = e.textfacts(st, ps[0])
        return (t[1] if t else None), (n[1] if n else frozenset())
    return None, frozenset()
