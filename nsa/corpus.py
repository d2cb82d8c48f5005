"""The corpus of derived declarations the derive macros are analysed on: a table of shapes and
attributes, written out as a crate that depends on the tree under test."""

import re

ALL = ('Bin', 'Json', 'Ron')


class F:
    def __init__(self, name, ty, *attrs):
        self.name, self.ty, self.attrs = name, ty, attrs

    def attr(self, k):
        for a in self.attrs:
            if a == k:
                return True
            if a.split('=')[0].strip() == k:
                return re.sub(r'\\(.)', r'\1', a.split('=', 1)[1].strip().strip('"'))
        return None


class V(F):
    """enum variant: kind 'u' unit, 't' tuple, 's' struct"""

    def __init__(self, name, kind='u', fields=(), *attrs):
        self.name, self.kind, self.fields, self.attrs = name, kind, list(fields), attrs


class D:
    def __init__(self, name, kind, parts, attrs=(), gen='', fmts=ALL, extra='', use=''):
        self.name, self.kind, self.parts, self.attrs = name, kind, list(parts), attrs
        self.gen, self.fmts, self.extra, self.use = gen, fmts, extra, use
        self.ty = name

    attr = F.attr


def S(name, *fields, **k):
    return D(name, 's', fields, **k)


def T(name, *fields, **k):
    return D(name, 't', [F(str(i), f) if isinstance(f, str) else f for i, f in enumerate(fields)], **k)


def U(name, **k):
    return D(name, 'u', [], **k)


def E(name, *variants, **k):
    return D(name, 'e', variants, **k)


def tf(*tys):
    return [F(str(i), t) if isinstance(t, str) else t for i, t in enumerate(tys)]


PARTS = ['Fa', 'Fb', 'Fc', 'Fd']

CORPUS = [
    U('Unit'),
    S('Empty'),
    T('Tup1', 'Fa'),
    T('Tup2', 'Fa', 'Fb'),
    T('Tup3', 'Fa', 'Fb', 'Fa'),
    S('Named1', F('a', 'Fa')),
    S('Named2', F('a', 'Fa'), F('b', 'Fb')),
    S('Named3', F('a', 'Fa'), F('b', 'Fb'), F('c', 'Fa')),
    S('Same2', F('a', 'Fa'), F('b', 'Fa')),
    S('OptFirst', F('a', 'Option<Fa>'), F('b', 'Fb')),
    S('OptLast', F('a', 'Fa'), F('b', 'Option<Fb>')),
    S('OptAll', F('a', 'Option<Fa>'), F('b', 'Option<Fb>')),
    S('Gen', F('a', 'A'), F('b', 'Fb'), gen='A'),
    S('Deep', F('v', 'Vec<Fa>'), F('t', '(Fa, Fb)'), F('r', '[Fa; 3]')),
    S('Ren', F('a', 'Fa', 'rename = "x"'), F('b', 'Fb')),
    S('RenSwap', F('a', 'Fa', 'rename = "b"'), F('b', 'Fa', 'rename = "a"')),
    S('Skip', F('a', 'Fa'), F('b', 'Fb', 'skip'), F('c', 'Fc')),
    S('SkipLast', F('a', 'Fa'), F('b', 'Fb', 'skip')),
    S('Def', F('a', 'Fa', 'default'), F('b', 'Fb')),
    S('DefWith', F('a', 'Fa', 'default_with = "mkfa"'), F('b', 'Fb')),
    S('DefVal', F('a', 'i32', 'default = "7"'), F('b', 'Fb'), fmts=('Json', 'Ron')),
    S('DefStr', F('a', 'String', 'default = "hey"'), F('b', 'Fb'), fmts=('Json', 'Ron')),
    S('DefOpt', F('a', 'Option<i32>', 'default = "7"'), F('b', 'Fb'), fmts=('Json', 'Ron')),
    S('SkipDef', F('a', 'i32', 'skip', 'default = "7"'), F('b', 'Fb'), fmts=('Json', 'Ron')),
    S('SkipWith', F('a', 'Fa', 'skip', 'default_with = "mkfa"'), F('b', 'Fb'), fmts=('Json', 'Ron')),
    S('ContDef', F('a', 'Fa'), F('b', 'Fb'), attrs=('default',), fmts=('Json', 'Ron')),
    S('NullNone', F('a', 'Option<Fa>'), F('b', 'Fb'), attrs=('serialize_none_as_null',), fmts=('Json',)),
    S('NullField', F('a', 'Fa'), F('b', 'Option<Fb>', 'serialize_none_as_null'), fmts=('Json',)),
    T('Transp', 'Fa', attrs=('transparent',), fmts=('Json',)),
    S('FieldProxy', F('a', 'Pt', 'proxy = "Px"'), F('b', 'Fb'), fmts=('Bin', 'Json')),
    E('Units', V('A'), V('B'), V('C')),
    E('Tuples', V('A', 't', tf('Fa')), V('B', 't', tf('Fa', 'Fb'))),
    E('Structs', V('A', 's', [F('a', 'Fa')]), V('B', 's', [F('a', 'Fa'), F('b', 'Fb')])),
    E('Mixed', V('A'), V('B', 't', tf('Fa', 'Fb')), V('C', 's', [F('a', 'Fa'), F('b', 'Fb'), F('c', 'Fa')]), V('D')),
    E('RenVar', V('A', 'u', (), 'rename = "x"'), V('B', 't', tf('Fa'), 'rename = "y"'), V('C', 's', [F('a', 'Fa')], 'rename = "z"')),
    E('VarOpt', V('A', 's', [F('a', 'Option<Fa>'), F('b', 'Fb')]), V('B', 's', [F('a', 'Fa'), F('b', 'Option<Fb>')]),
      V('C', 's', [F('a', 'Option<Fa>'), F('b', 'Option<Fb>')])),
    E('VarRen', V('A', 's', [F('a', 'Fa', 'rename = "x"'), F('b', 'Fb')])),
    E('VarSkip', V('A', 's', [F('a', 'Fa'), F('b', 'Fb', 'skip'), F('c', 'Fc')]), V('B', 's', [F('a', 'Fa'), F('b', 'Fb', 'skip')])),
    E('VarDef', V('A', 's', [F('a', 'Fa', 'default'), F('b', 'Fb')]), fmts=('Json', 'Ron')),
    E('GenE', V('A', 't', tf('A')), V('B', 's', [F('x', 'A')]), V('C'), gen='A'),
    E('One', V('Only')),
    S('RawId', F('r#type', 'Fa'), F('b', 'Option<Fb>')),
    E('RawVar', V('A', 's', [F('r#fn', 'Fa'), F('b', 'Fb')]), V('B')),
    S('ContDefWith', F('a', 'Fa'), F('b', 'Fb'), attrs=('default_with = "mkcdw"',), fmts=('Json', 'Ron'), extra='pub fn mkcdw() -> ContDefWith { loop {} }'),
    S('ConstG', F('a', '[Fa; N]'), F('b', 'Fb'), gen='const N: usize'),
    S('NestOpt', F('a', 'Option<Vec<Fa>>'), F('b', 'Vec<Option<Fb>>'), F('c', 'Box<Fa>')),
    S('RenDef', F('a', 'Option<Fa>', 'rename = "b"', 'default'), F('b', 'Fb', 'rename = "a"'), fmts=('Json', 'Ron')),
    S('RenDefVal', F('a', 'i32', 'rename = "x"', 'default = "7"'), F('b', 'Fb', 'rename = "a"', 'default_with = "mkfb"'), fmts=('Json', 'Ron')),
    S('OptDef', F('a', 'Option<Fa>', 'default'), F('b', 'Option<Fb>', 'rename = "y"'), fmts=('Json', 'Ron')),
    S('ProxRen', F('a', 'Pt', 'proxy = "Px"', 'rename = "b"'), F('b', 'Fb', 'rename = "a"'), fmts=('Bin', 'Json')),
    S('RenSkip', F('a', 'Fa', 'rename = "b"', 'skip'), F('b', 'Fb'), fmts=('Json', 'Ron')),
    S('DefLits', F('a', 'bool', 'default = "true"'), F('b', 'f32', 'default = "1.5"'), F('c', 'Fb', 'default'), fmts=('Json', 'Ron')),
    E('DefVar', V('A', 's', [F('a', 'i32', 'default = "7"'), F('b', 'Fb', 'default_with = "mkfb"')]), fmts=('Json', 'Ron')),
    E('OptVar', V('A', 't', tf('Option<Fa>')), V('B', 't', tf('Option<Fa>', 'Fb')), V('C', 't', tf('Vec<Fa>'))),
    E('VarProxy', V('A', 's', [F('a', 'Pt', 'proxy = "Px"'), F('b', 'Fb')]), V('B'), V('C', 's', [F('b', 'Fb'), F('c', 'Pt', 'rename = "z"', 'proxy = "Px"')]), fmts=('Json',)),
    S('ContProxy', F('a', 'Fa'), F('b', 'Fb'), attrs=('proxy = "Px"',), fmts=('Bin', 'Json'),
      extra='impl From<&ContProxy> for Px { fn from(x: &ContProxy) -> Px { loop {} } }\nimpl From<&Px> for ContProxy { fn from(x: &Px) -> ContProxy { loop {} } }'),
    T('TupProxy', 'Fa', F('1', 'Pt', 'proxy = "Px"'), 'Fb', fmts=('Bin',)),
    S('Split', F('a', 'Fa', '//', 'rename = "x"', 'default'), F('b', 'Fb', '//', 'default_with = "mkfb"', 'rename = "a"'), F('c', 'Fa', '//', 'skip'), fmts=('Json', 'Ron')),
    E('SplitVar', V('A', 's', [F('a', 'Fa', '//', 'default', 'rename = "x"'), F('b', 'Option<Fb>', '//')], '//', 'rename = "B"'), V('B', 't', tf('Fa'), '//', 'rename = "A"'),
      fmts=('Json', 'Ron')),
    S('SplitCont', F('a', 'Fa', '//', 'rename = "b"'), F('b', 'Option<Fb>', '//', 'rename = "a"'), attrs=('//', 'default', 'serialize_none_as_null'), fmts=('Json',)),
    S('SplitSkip', F('a', 'Fa', '//'), F('b', 'Fb', '//', 'skip'), F('c', 'Fc', '//')),
    S('DefTexts', F('a', 'String', 'default = "two words"'), F('b', 'Option<String>', 'default = "hey"'), fmts=('Json', 'Ron')),
    S('DefNeg', F('a', 'i32', 'default = "-7"'), F('b', 'Fb'), fmts=('Json', 'Ron')),
    S('RenEsc', F('a', 'Fa', 'rename = "q\\"b"'), F('b', 'Option<Fb>', 'rename = "c\\\\d"'), fmts=('Json',)),
    E('RenEscVar', V('A', 'u', (), 'rename = "q\\"b"'), V('B', 't', tf('Fa'), 'rename = "\\\\"'), fmts=('Json',)),
    S('RenTexts', F('a', 'Fa', 'rename = "two words"'), F('b', 'Fb', 'rename = "\u043a"'), fmts=('Json',)),
    S('List', F('v', 'Fa'), F('next', 'Option<Box<List>>')),
    E('Tree', V('Leaf', 't', tf('Fa')), V('Node', 's', [F('l', 'Box<Tree>'), F('r', 'Box<Tree>')])),
]



def combos():
    """field attributes in combination with each other, with the type of the field and with the container's"""
    kinds = [('Fa', ()), ('Fa', ('default',)), ('Fa', ('default_with = "mkfa"',)), ('Fa', ('skip',)), ('Fa', ('skip', 'default_with = "mkfa"')),
             ('i32', ('default = "7"',)), ('i32', ('skip', 'default = "7"')), ('String', ('default = "hey"',)), ('Option<Fa>', ()), ('Option<Fa>', ('default',)),
             ('Option<i32>', ('default = "7"',))]
    n = 0
    for cont in ((), ('default',), None):
        for ty, at in kinds:
            for ren in ((), ('rename = "x"',)):
                if not cont and not ren and cont is not None:
                    continue
                n += 1
                fs = [F('a', ty, *(ren + at)), F('b', 'Fb')]
                if cont is None:
                    yield E('CE%d' % n, V('A', 's', fs), V('B'), fmts=('Json', 'Ron'))
                else:
                    yield S('CS%d' % n, *fs, attrs=cont, fmts=('Json', 'Ron'))


CORPUS += list(combos())

BIG = E('Big', *[V('V%d' % i) for i in range(258)], V('Last', 't', tf('Fa')), fmts=('Bin',))
CORPUS.append(BIG)


def attr(a):
    if a and a[0] == '//':
        # one attribute each, among attributes of others
        return '/// a note\n' + ''.join('#[nserde(%s)]\n#[allow(unused)]\n' % x for x in a[1:])
    return '#[nserde(%s)]\n' % ', '.join(a) if a else ''


def decl(d, derive=True):
    o = ''
    if derive:
        o += '#[derive(%s)]\n' % ', '.join('nanoserde::Ser%s, nanoserde::De%s' % (f, f) for f in d.fmts)
    o += attr(d.attrs)
    g = '<%s>' % d.gen if d.gen else ''
    if d.kind == 'u':
        return o + 'pub struct %s;\n' % d.name
    if d.kind == 's':
        return o + 'pub struct %s%s {\n%s}\n' % (d.name, g, ''.join('%spub %s: %s,\n' % (attr(f.attrs), f.name, f.ty) for f in d.parts))
    if d.kind == 't':
        return o + 'pub struct %s%s(%s);\n' % (d.name, g, ', '.join('%spub %s' % (attr(f.attrs), f.ty) for f in d.parts))
    o += 'pub enum %s%s {\n' % (d.name, g)
    for v in d.parts:
        o += attr(v.attrs) + v.name
        if v.kind == 't':
            o += '(%s)' % ', '.join('%s%s' % (attr(f.attrs), f.ty) for f in v.fields)
        if v.kind == 's':
            o += ' { %s }' % ', '.join('%s%s: %s' % (attr(f.attrs), f.name, f.ty) for f in v.fields)
        o += ',\n'
    return o + '}\n'


PRE = '''#![allow(dead_code, unused, non_snake_case)]
use nanoserde::*;
pub struct Opq(u64);
'''

PART = '''
pub struct %(n)s(Opq);
impl Default for %(n)s { fn default() -> Self { loop {} } }
impl SerBin for %(n)s { fn ser_bin(&self, s: &mut Vec<u8>) { loop {} } }
impl DeBin for %(n)s { fn de_bin(o: &mut usize, d: &[u8]) -> Result<Self, DeBinErr> { loop {} } }
impl SerJson for %(n)s { fn ser_json(&self, d: usize, s: &mut SerJsonState) { loop {} } }
impl DeJson for %(n)s { fn de_json(s: &mut DeJsonState, i: &mut core::str::Chars) -> Result<Self, DeJsonErr> { loop {} } }
impl SerRon for %(n)s { fn ser_ron(&self, d: usize, s: &mut SerRonState) { loop {} } }
impl DeRon for %(n)s { fn de_ron(s: &mut DeRonState, i: &mut core::str::Chars) -> Result<Self, DeRonErr> { loop {} } }
'''

POST = '''
pub fn mkfa() -> Fa { loop {} }
pub fn mkfb() -> Fb { loop {} }
pub struct Pt { pub p: Fa }
pub struct Px { pub q: Fa }
impl From<&Pt> for Px { fn from(x: &Pt) -> Px { loop {} } }
impl From<&Px> for Pt { fn from(x: &Px) -> Pt { loop {} } }
'''

HAND = '''
impl SerBin for Px { fn ser_bin(&self, s: &mut Vec<u8>) { loop {} } }
impl DeBin for Px { fn de_bin(o: &mut usize, d: &[u8]) -> Result<Self, DeBinErr> { loop {} } }
impl SerJson for Px { fn ser_json(&self, d: usize, s: &mut SerJsonState) { loop {} } }
impl DeJson for Px { fn de_json(s: &mut DeJsonState, i: &mut core::str::Chars) -> Result<Self, DeJsonErr> { loop {} } }
'''


DROPPED = []    # declarations the tree under test does not compile (C02 judges them)


def located(lines):
    """the declarations that the lines of source() belong to"""
    n = source([]).count('\n') + 1
    out = []
    for d in CORPUS:
        if d.name in DROPPED:
            continue
        m = n + (decl(d) + d.extra + ('\n' if d.extra else '')).count('\n')
        if any(n <= x < m for x in lines):
            out.append(d.name)
        n = m
    return out


def source(corpus=None):
    o = PRE + ''.join(PART % {'n': n} for n in PARTS) + POST + HAND
    for d in CORPUS if corpus is None else corpus:
        if d.name in DROPPED:
            continue
        o += decl(d) + d.extra + ('\n' if d.extra else '')
    return o


CARGO = '''[package]
name = "%s"
version = "0.0.0"
edition = "2021"
[workspace]
[lib]
path = "src/lib.rs"
[dependencies]
nanoserde = { path = "%s", default-features = false, features = [%s] }
'''
