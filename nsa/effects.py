"""Effects: encoding and decoding depend on their argument alone and change nothing else."""
from .run import result, report, PROGS

DENIED = [
    ('std::env::', 'reads the environment'),
    ('std::fs::', 'uses the file system'),
    ('std::io::', 'does input or output'),
    ('std::net::', 'uses the network'),
    ('std::process::', 'acts on the process'),
    ('std::thread::', 'uses threads or thread-local state'),
    ('std::sync::mpsc', 'uses channels'),
    ('std::time::SystemTime::now', 'reads the clock'),
    ('std::time::SystemTime::elapsed', 'reads the clock'),
    ('std::time::Instant::now', 'reads the clock'),
    ('std::time::Instant::elapsed', 'reads the clock'),
    ('std::random::', 'draws random numbers'),
    ('std::hash::random::', 'draws a hash seed'),
    ('std::panic::set_hook', 'changes the panic hook'),
    ('std::panic::take_hook', 'changes the panic hook'),
    ('std::panicking::set_hook', 'changes the panic hook'),
    ('std::alloc::set_alloc_error_hook', 'changes the allocation hook'),
    ('core::fmt::Pointer::fmt', 'prints an address'),
]
# cells that are filled once, from nothing but the initializer written in the program
ONCE = ('std::sync::lazy_lock::LazyLock', 'std::sync::once_lock::OnceLock', 'core::cell::lazy::LazyCell', 'core::cell::once::OnceCell')
LAZY = ('std::sync::lazy_lock::LazyLock', 'core::cell::lazy::LazyCell')
HASHED = ('std::collections::hash::map::HashMap', 'std::collections::hash::set::HashSet')
ORDER = ('iter', 'iter_mut', 'keys', 'values', 'values_mut', 'into_iter', 'into_keys', 'into_values', 'drain', 'retain', 'extract_if', 'fmt',
         'union', 'difference', 'symmetric_difference', 'intersection')
ADDRESS = ('PointerExposeProvenance', 'PointerExposeAddress')


def peel(p, t):
    t = p.types[t]
    while t['k'] in ('ref', 'ptr'):
        t = p.types[t['t']]
    return t


def walk(x, f):
    if isinstance(x, dict):
        f(x)
        for v in x.values():
            walk(v, f)
    elif isinstance(x, list):
        for v in x:
            walk(v, f)


class Effects:
    def __init__(self, p, r):
        self.p, self.r = p, r
        self.once = {}       # statics of a once-cell type: how they are used

    def bad(self, b, at, msg):
        self.r['reports'].append(report('effect', b.path, msg, at, subject=b.path))

    def body(self, b):
        p = self.p
        n = len(self.r['reports'])
        self.r['obligations'] += 1
        self.now = b
        hashed = any(peel(p, t).get('p') in HASHED for t in b.locals[1:b.argc + 1]) or any(h.rsplit('::', 1)[1] + '<' in b.key for h in HASHED)
        for bl in b.blocks:
            for s in bl['s']:
                if s[0] != '=':
                    continue
                at = s[3] if len(s) > 3 else ''
                self.consts(b, s[2], at)
                if s[2][0] == 'tls':
                    self.bad(b, at, 'uses the thread-local %s' % s[2][1])
                elif s[2][0] == 'cast' and (any(a in s[2][1] for a in ADDRESS) or s[2][1] == 'Transmute' and self.number(s[2])):
                    self.bad(b, at, 'uses an address as a number')
            t = bl['t']
            at = t[5] if t[0] == 'call' and len(t) > 5 else b.j.get('span', '')
            if not isinstance(at, str):
                at = b.j.get('span', '')
            self.consts(b, t, at)
            if t[0] == 'call':
                self.r['paths'] += 1
                self.call(b, t, at, hashed)
        if len(self.r['reports']) == n:
            self.r['discharged'] += 1

    def number(self, c):
        """a transmuted pointer that is compared or printed as a number"""
        v = c[2].get('cp', c[2].get('mv'))
        return self.p.types[c[3]]['k'] in ('prim', 'int', 'uint') and v is not None and len(v) == 1 \
            and self.p.types[self.now.locals[v[0]]]['k'] in ('ref', 'ptr')

    def consts(self, b, x, at):
        def f(d):
            s = d.get('static')
            if s is not None and not s['const']:
                t = self.p.types[s['t']]
                if t.get('p') in ONCE:
                    if t['p'] not in LAZY:
                        self.once.setdefault(s['n'], (b, at))
                    return
                self.bad(b, at, 'uses the variable %s, which outlives the call' % s['n'])
            t = d.get('t')
            if 'v' in d or 'un' in d or 'prom' in d:
                if isinstance(t, int) and peel(self.p, t).get('p') == 'std::thread::local::LocalKey':
                    self.bad(b, at, 'uses a thread-local variable')
        walk(x, f)

    def call(self, b, t, at, hashed):
        c = t[1]
        names = [c[k] for k in ('p', 'rp') if isinstance(c.get(k), str)]
        for pre, what in DENIED:
            if any(n.startswith(pre) for n in names):
                self.bad(b, at, '%s: calls %s' % (what, names[0]))
                return
        if c.get('n') == 'new_pointer' and names and names[0].startswith('core::fmt::'):
            self.bad(b, at, 'prints an address')
        if c.get('n') in ('addr', 'expose_provenance', 'expose_addr') and names and names[0].startswith(('core::ptr::', 'core::slice::')):
            self.bad(b, at, 'uses an address as a number')
        me = c.get('self', c.get('iself'))
        if me is None:
            return
        ty = peel(self.p, me)
        if ty.get('p') in HASHED and c.get('n') in ORDER and not hashed:
            self.bad(b, at, 'depends on the order of a hash table: calls %s' % names[0])
        if ty.get('p') in ONCE and ty['p'] not in LAZY:
            if c.get('n') in ('set', 'take', 'get_mut', 'into_inner', 'try_insert', 'replace', 'get'):
                self.r['x_once'] = (b, at)
            elif c.get('n') in ('get_or_init', 'get_or_try_init'):
                for a in c.get('a') or ():
                    u = self.p.types[a] if isinstance(a, int) else {}
                    if u.get('k') == 'closure' and u.get('up'):
                        self.r['x_once'] = (b, at)


def j_effects(name, tag):
    p = PROGS[tag]
    r = result(name)
    e = Effects(p, r)
    own = [k for k in sorted(p.bodies) if p.bodies[k].crate in (p.crate, 'nanoserde')]
    r['bodies'] = own
    for k in own:
        e.body(p.bodies[k])
    x = r.pop('x_once', None)
    if x and e.once:
        e.bad(x[0], x[1], 'uses %s, which keeps a value from an earlier call' % ', '.join(sorted(e.once)))
    return r


def jobs(tier):
    for tag in ('lib', 'corpus'):
        if PROGS.get(tag):
            yield (j_effects, 'effects ' + tag, (tag,), 120)
