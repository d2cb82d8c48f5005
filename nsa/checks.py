"""The registry: which analyses decide which property."""
from . import run, corpus, compile, depth, effects
from .run import result, report, PROGS
from . import text, textser, textspec, lexer, toml, show
from .text import JSON, RON
from .bin import BinDec, BinOwn, BinSer, BinRT, BinCut, lib_layout, rawval, to_proxy, P as PART

LIB_BIN = ['u8', 'i8', 'u16', 'i16', 'u32', 'i32', 'u64', 'i64', 'u128', 'i128', 'f32', 'f64', 'usize', 'bool',
           'alloc::string::String', 'core::time::Duration', 'std::time::SystemTime', 'alloc::vec::Vec<T>', 'core::option::Option<T>',
           '[T; N]', '()', '(A, B)', '(A, B, C)', '(A, B, C, D)', 'alloc::boxed::Box<T>']


class Check:
    needs_dump = True

    def __init__(self, explanation, rule, makers, kinds=None, floor=None, assumptions=(), **k):
        self.explanation, self.rule, self.makers, self.kinds = explanation, rule, makers, kinds
        self.floor = floor
        self.assumptions = list(assumptions)
        self.technique = 'path-sensitive abstract interpretation of MIR (inductive, no bounds on input size)'
        self.level_note = ''
        self.__dict__.update(k)

    def jobs(self, tier):
        out = []
        seen = set()
        for m in self.makers:
            for j in m(tier):
                if j[1] not in seen:
                    seen.add(j[1])
                    out.append(j)
        return out


def tname(p, b):
    return p.types[b.root['self']]['s']


def tbase(t):
    """a type name without the names of its parameters"""
    if t.startswith('['):
        return '[_; _]' if ';' in t else '[_]'
    if t.startswith('('):
        return '()' if t == '()' else '(%d)' % len(t.split(','))
    return t.split('<')[0]


def decl_of(b, p):
    n = p.types[b.root['self']]['s']
    n = n.split('<')[0].split('::')[-1]
    return DECLS.get(n)


DECLS = {d.name: d for d in corpus.CORPUS}


def roots(tag, trait, meth=None):
    p = PROGS.get(tag)
    if p is None:
        return
    for k, b in p.bodies.items():
        r = b.root
        if not r or b.opaque:
            continue
        if not (r.get('trait') or '').endswith('::' + trait):
            continue
        if meth and r['name'] != meth:
            continue
        yield k, b


# ---------------------------------------------------------------- binary
def j_bindec(name, tag, key):
    p = PROGS[tag]
    e = BinDec(p).start(p.bodies[key])
    return result(name, e)


def bindec(tier):
    for tag in ('lib', 'corpus'):
        for k, b in roots(tag, 'DeBin'):
            yield (j_bindec, 'decode ' + k, (tag, k), 120)
    p = PROGS['lib']
    k = '<Self as nanoserde::serde_bin::DeBin>::deserialize_bin'
    if k in p.bodies:
        yield (j_bindec, 'decode ' + k, ('lib', k), 120)


def j_binown(name, tag, key):
    p = PROGS[tag]
    e = BinOwn(p).start(p.bodies[key])
    return result(name, e)


def binown(tier):
    # everything else is safe Rust, where the compiler accounts for ownership
    for tag in ('lib',):
        for k, b in roots(tag, 'DeBin', 'de_bin'):
            if PROGS[tag].types[b.root['self']]['k'] != 'array':
                continue
            yield (j_binown, 'ownership ' + k, (tag, k), 120)


def derived_layout(d):
    def part(f):
        if f.attr('proxy'):
            return ('part', None, lambda e, v: to_proxy(e, f, v))
        return ('opt', PART) if isopt(f) else PART
    if d.attr('proxy'):
        return part(d)
    if d.kind != 'e':
        return ('struct', tuple((i, part(f)) for i, f in enumerate(d.parts) if not f.attr('skip')))
    return ('enum', [tuple((i, part(f)) for i, f in enumerate(v.fields)) for v in d.parts])


def isopt(f):
    return f.ty.startswith('Option<')


def j_binser(name, tag, key, layout):
    p = PROGS[tag]
    b = p.bodies[key]
    sp = None
    if layout:
        if tag == 'lib':
            sp = lib_layout(tname(p, b))
        else:
            d = decl_of(b, p)
            if d:
                sp = derived_layout(d)
    e = BinSer(p, sp).start(b)
    r = result(name, e)
    if layout and sp is None:
        r['undec'].append(name + ': no layout known for this type')
    return r


def binser(tier):
    for tag in ('lib', 'corpus'):
        for k, b in roots(tag, 'SerBin'):
            yield (j_binser, 'encode ' + k, (tag, k, False), 120)


def binlayout(tier):
    for tag in ('lib', 'corpus'):
        for k, b in roots(tag, 'SerBin', 'ser_bin'):
            yield (j_binser, 'layout ' + k, (tag, k, True), 120)


def j_binrt(name, tag, ks, kd):
    p = PROGS[tag]
    e = BinRT(p)
    e.decl = decl_of(p.bodies[kd], p) if tag == 'corpus' else None
    e.start(p.bodies[ks], p.bodies[kd])
    r = result(name, e)
    if not e.oksites and not e.reports:
        r['undec'].append(name + ': no successful round trip explored')
    return r


def j_bincut(name, tag, ks, kd):
    p = PROGS[tag]
    e = BinCut(p)
    e.decl = None
    e.start(p.bodies[ks], p.bodies[kd])
    return result(name, e)


def bincut(tier):
    for j in binrt(tier):
        if j[0] is j_binrt:
            yield (j_bincut, 'truncated ' + j[2][2], j[2], 120)
        else:
            yield j


def binrt(tier):
    for tag in ('lib', 'corpus'):
        p = PROGS.get(tag)
        for k, b in roots(tag, 'DeBin', 'de_bin'):
            t = tname(p, b)
            sk = p.impl.get((b.root['trait'].replace('DeBin', 'SerBin'), 'ser_bin', t))
            if sk is None:
                yield (j_missing, 'round trip ' + k, ('no binary serializer for ' + t,), 5)
                continue
            yield (j_binrt, 'round trip ' + k, (tag, sk, k), 120)


def j_missing(name, what):
    r = result(name)
    r['reports'].append(report('missing', name, what, subject=name))
    return r


def binfloor(*traits):
    def f(res):
        out = []
        p = PROGS['lib']
        for tr in traits:
            have = set()
            for k, b in roots('lib', tr):
                have.add(tbase(tname(p, b)))
            for t in LIB_BIN:
                if tbase(t) not in have:
                    out.append('%s for %s' % (tr, t))
        return out
    return f


# ---------------------------------------------------------------- JSON and RON over tokens
LIB_TEXT = ['u8', 'i8', 'u16', 'i16', 'u32', 'i32', 'u64', 'i64', 'f32', 'f64', 'usize', 'bool', '()',
            'alloc::string::String', 'core::time::Duration', 'std::time::SystemTime', 'alloc::vec::Vec<T>', 'core::option::Option<T>',
            '[T; N]', '(A, B)', '(A, B, C)', '(A, B, C, D)', 'alloc::boxed::Box<T>', 'std::collections::hash::map::HashMap<K, V>',
            'alloc::collections::btree::map::BTreeMap<K, V>', 'std::collections::hash::set::HashSet<T>',
            'alloc::collections::btree::set::BTreeSet<T>', 'alloc::collections::linked_list::LinkedList<T>']


def textsp(f, tag, key):
    p = PROGS[tag]
    b = p.bodies[key]
    if b.root['name'] == 'deserialize_' + f.name:
        return textspec.whole()
    if tag == 'lib':
        return textspec.lib_text(f, tname(p, b))
    d = decl_of(b, p)
    return textspec.derived_text(f, d) if d else None


def j_textdec(name, fname, tag, key):
    f = getattr(text, fname)
    sp = textsp(f, tag, key)
    e = text.TextDec(PROGS[tag], f, sp).start(PROGS[tag].bodies[key])
    r = result(name, e)
    if sp is None:
        r['undec'].append(name + ': no form known for this type')
    elif not e.okpaths:
        r['undec'].append(name + ': no successful path explored')
    return r


def j_textskip(name, fname, tag, key):
    e = text.SkipDec(PROGS[tag], getattr(text, fname)).start(PROGS[tag].bodies[key])
    return result(name, e)


def j_textown(name, fname, tag, key):
    f = getattr(text, fname)
    e = text.TextOwn(PROGS[tag], f, textsp(f, tag, key)).start(PROGS[tag].bodies[key])
    return result(name, e)


def usual(d, t):
    # what a default_with attribute on a container means is a matter of X01 alone
    return d is None or not d.attr('default_with')


def textdec(fmts=('JSON', 'RON'), tags=('lib', 'corpus'), only=usual):
    def m(tier):
        for fn in fmts:
            f = getattr(text, fn)
            for tag in tags:
                for k, b in roots(tag, f.de, f.dem):
                    d = decl_of(b, PROGS[tag]) if tag == 'corpus' else None
                    if not only(d, tname(PROGS[tag], b)):
                        continue
                    yield (j_textdec, '%s decode %s' % (f.name, k), (fn, tag, k), 300)
            k = '<Self as %s%s>::deserialize_%s' % (f.p, f.de, f.name)
            if 'lib' in tags and only is usual and k in PROGS['lib'].bodies:
                yield (j_textdec, '%s decode %s' % (f.name, k), (fn, 'lib', k), 120)
    return m


def textskip(tier):
    k = JSON.p + JSON.state + '::whole_field'
    if k in PROGS['lib'].bodies:
        yield (j_textskip, 'json skip ' + k, ('JSON', 'lib', k), 120)


def sertype(p, b):
    t = tname(p, b)
    return 'alloc::string::String' if t == 'str' else '[T; N]' if t == '[T]' else t


def j_textser(name, fname, tag, key):
    f = getattr(text, fname)
    p = PROGS[tag]
    b = p.bodies[key]
    d = None
    if b.root['name'] == 'serialize_' + f.name:
        sp = textspec.whole()
    elif tag == 'lib':
        sp = textspec.lib_text(f, sertype(p, b))
    else:
        d = decl_of(b, p)
        sp = textspec.derived_text(f, d) if d else None
    if sp is None:
        r = result(name)
        r['undec'].append(name + ': no form known for this type')
        return r
    e = textser.TextSer(p, f, sp, d).start(b)
    r = result(name, e)
    if not e.okpaths and not e.reports:
        r['undec'].append(name + ': no complete path explored')
    return r


def textenc(fmts=('JSON', 'RON'), tags=('lib', 'corpus'), only=usual):
    def m(tier):
        for fn in fmts:
            f = getattr(text, fn)
            for tag in tags:
                for k, b in roots(tag, f.ser, f.serm):
                    d = decl_of(b, PROGS[tag]) if tag == 'corpus' else None
                    if only(d, tname(PROGS[tag], b)):
                        yield (j_textser, '%s encode %s' % (f.name, k), (fn, tag, k), 300)
            k = '<Self as %s%s>::serialize_%s' % (f.p, f.ser, f.name)
            if 'lib' in tags and only is usual and k in PROGS['lib'].bodies:
                yield (j_textser, '%s encode %s' % (f.name, k), (fn, 'lib', k), 120)
    return m


def j_lexer(name, fname, key):
    f = getattr(text, fname)
    p = PROGS['lib']
    e = lexer.LexDec(p, f).start(p.bodies[key])
    r = result(name, e)
    want = {n for n in e.toks if n not in f.never} - {'Eof'}
    if not e.reports and want - e.kinds:
        r['undec'].append(name + ': no path yields ' + ', '.join(sorted(want - e.kinds)))
    return r


def lexing(fmts):
    def m(tier):
        for fn in fmts:
            f = getattr(text, fn)
            k = f.p + f.state + '::next_tok'
            if k in PROGS['lib'].bodies:
                yield (j_lexer, '%s tokenizer %s' % (f.name, k), (fn, k), 300)
            else:
                yield (j_missing, '%s tokenizer' % f.name, ('no tokenizer %s' % k,), 5)
    return m


lexers = lexing(('JSON', 'RON'))


def textown(tier):
    for fn in ('JSON', 'RON'):
        f = getattr(text, fn)
        for k, b in roots('lib', f.de, f.dem):
            if PROGS['lib'].types[b.root['self']]['k'] == 'array':
                yield (j_textown, '%s ownership %s' % (f.name, k), (fn, 'lib', k), 120)


def textfloor(fmts=('JSON', 'RON'), ser=False, de=True):
    def fl(res):
        out = []
        for fn in fmts:
            f = getattr(text, fn)
            for tr, m in ([(f.de, f.dem)] if de else []) + ([(f.ser, f.serm)] if ser else []):
                have = {tbase(tname(PROGS['lib'], b)) for k, b in roots('lib', tr, m)}
                out += ['%s for %s' % (tr, t) for t in LIB_TEXT if tbase(t) not in have]
        return out
    return fl


def j_toml(name, cls, fn):
    p = PROGS['lib']
    b = toml.private(p, fn)
    r = result(name)
    if b is None:
        r['undec'].append(name + ': not found')
        return r
    e = getattr(toml, cls)(p).start(b)
    r = result(name, e)
    if cls == 'TomlLex':
        if not e.reports and set(e.toks) - e.kinds:
            r['undec'].append(name + ': no path yields ' + ', '.join(sorted(set(e.toks) - e.kinds)))
    elif not e.okpaths and not e.reports:
        r['undec'].append(name + ': no complete path explored')
    return r


def tomls(*which):
    def m(tier):
        k = toml.TOML.p + 'TomlParser::parse'
        if k not in PROGS['lib'].bodies:
            yield (j_missing, 'toml', ('no parser %s' % k,), 5)
            return
        for n, c, fn, lim in (('tokenizer', 'TomlLex', 'next_tok', 300), ('value', 'TomlVal', 'to_val', 120), ('document', 'TomlDoc', 'parse', 300)):
            if n in which:
                yield (j_toml, 'toml %s %s' % (n, fn), (c, fn), lim)
    return m


ERRORS = {'nanoserde::serde_bin::DeBinErr': ('core::fmt::Debug', 'core::fmt::Display'),
          'nanoserde::serde_json::DeJsonErr': ('core::fmt::Debug', 'core::fmt::Display'),
          'nanoserde::serde_ron::DeRonErr': ('core::fmt::Debug', 'core::fmt::Display'),
          'nanoserde::toml::TomlErr': ('core::fmt::Debug', 'core::fmt::Display')}


def j_show(name, key):
    p = PROGS['lib']
    b = p.bodies[key]
    e = show.Show(p).start(b, b.root['self'])
    r = result(name, e)
    if not e.okpaths and not e.reports:
        r['undec'].append(name + ': no path that prints explored')
    return r


def shows(tier):
    p = PROGS['lib']
    have = set()
    for k, b in p.bodies.items():
        r = b.root or {}
        if r.get('name') == 'fmt' and r.get('trait') in ('core::fmt::Debug', 'core::fmt::Display'):
            n = p.types[r['self']]['s']
            if n in ERRORS or n.endswith('ErrReason'):
                have.add((n, r['trait']))
                yield (j_show, 'print ' + k, (k,), 60)
    for n, ts in ERRORS.items():
        for t in ts:
            if (n, t) not in have:
                yield (j_missing, 'print <%s as %s>' % (n, t), ('no body for it',), 5)


def j_access(name, key, kind, index):
    p = PROGS['lib']
    ty = [i for i, t in enumerate(p.types) if t.get('p') == toml.TOML.p + 'Toml'][0]
    return result(name, show.Access(p).start(p.bodies[key], ty, kind, index))


def accessors(tier):
    p = PROGS['lib']
    have = set()
    for k, b in p.bodies.items():
        r = b.root or {}
        n = r.get('name')
        if n in show.ACCESS and p.types[r['self']].get('p') == toml.TOML.p + 'Toml' and (r.get('trait') or 'core::ops::index::Index') == 'core::ops::index::Index':
            have.add(n)
            yield (j_access, 'accessor ' + k, (k, show.ACCESS[n], n == 'index'), 60)
    for n in show.ACCESS:
        if n not in have:
            yield (j_missing, 'accessor ' + n, ('no body for it',), 5)


ATTRS = ('rename', 'skip', 'default', 'default_with', 'transparent', 'proxy')


def hasattrs(d, t):
    if d is None:
        return False
    xs = [d] + d.parts + [f for v in d.parts if d.kind == 'e' for f in v.fields]
    return any(x.attr(a) for x in xs for a in ATTRS)


INTS = ('u8', 'i8', 'u16', 'i16', 'u32', 'i32', 'u64', 'i64', 'usize')


def isnamed(d, t):
    return d is not None and usual(d, t) and (d.kind == 's' or d.kind == 'e' and any(v.kind == 's' for v in d.parts))


ROOTA = 'start offset <= buffer length <= isize::MAX (a Rust slice cannot be longer)'
COMP = 'a component of generic type honours the same contract (checked for each component type in turn)'
STD = 'the functions of core/alloc/std behave as documented (modelled, not analysed)'

BINX = ('Path-sensitive abstract interpretation of the optimised-off MIR of every binary codec (library impls and the derive output '
        'for the declaration corpus), over linear constraints on lengths and offsets with widening at loop heads; ')

CHECKS = {}
CHECKS['P01'] = Check(
    BINX + 'every overflow assertion, bounds check, slice range, unwrap, explicit panic and UTF-8 split on every abstract path must be proved unreachable.',
    'no abstract path from the entry of an encoder or decoder reaches a panicking construct',
    [bindec, binser], kinds={'panic', 'missing'}, floor=binfloor('DeBin', 'SerBin'), assumptions=[ROOTA, COMP, STD, 'SystemTime values are not before the Unix epoch'])
CHECKS['A01'] = Check(
    BINX + 'every call that reserves memory must have a capacity that is provably at most the bytes of the buffer or a constant.',
    'capacity argument of every with_capacity/reserve reachable from a decoder is bounded by the input length or 65536',
    [bindec], kinds={'alloc', 'missing'}, floor=binfloor('DeBin'), assumptions=[ROOTA, COMP, STD])
CHECKS['B03'] = Check(
    BINX + 'at every return the offset is proved to lie between the start offset and the buffer length, and every access inside the buffer; '
    'run on the abstract bytes of the encoder of the same type, the decoder ends exactly where they end.',
    'O <= offset <= len(buffer) at each component call and each return; no access outside the buffer; the offset ends at the end of what the encoder wrote',
    [bindec, bincut, binrt], kinds={'offset', 'local', 'truncated', 'consumed', 'leftover', 'extra', 'missing'}, floor=binfloor('DeBin'), assumptions=[ROOTA, COMP, STD])
CHECKS['B02'] = Check(
    BINX + 'the list of byte pieces each encoder appends is compared with the documented layout of its type.',
    'pieces written == documented layout (width, little-endian, counts, tags, order) on every abstract path',
    [binlayout], kinds={'layout', 'missing'}, floor=binfloor('SerBin'), assumptions=[COMP, STD, 'SystemTime values are not before the Unix epoch'])
CHECKS['B01'] = Check(
    BINX + 'the decoder is run in product with the encoder of the same type over the abstract bytes the encoder appends.',
    'every path of the product ends with the decoder successful, at the end of what was written, holding the encoded value (skipped fields: their default)',
    [binrt], kinds={'rejected', 'value', 'consumed', 'misaligned', 'extra', 'mismatch', 'leftover', 'result', 'panic', 'missing', 'nonterm'},
    floor=binfloor('DeBin', 'SerBin'), assumptions=[COMP, STD, 'SystemTime values are not before the Unix epoch'])
CHECKS['M01'] = Check(
    BINX + 'decoded elements are tracked as runs of a ghost sequence through the uninitialised array; each drop, read of possibly uninitialised memory and the returned value are accounted for.',
    'at every return each decoded element is either in the returned value or dropped, exactly once; nothing uninitialised is read as a value',
    [binown], kinds={'owned', 'uninit', 'missing'}, floor=binfloor('DeBin'), assumptions=[COMP, STD, 'component decoders do not unwind'])

CHECKS['D01'] = Check(
    'Call graph over the MIR of every codec body, the derive output for the corpus, the TOML parser and the std functions they instantiate (calls, closures, '
    'function values). Every strongly connected component must either descend through the parts of a recursive type, or carry an integer that each '
    'recursive call provably moves towards a constant limit (decided by abstract interpretation of the functions of the cycle).',
    'no cycle of calls except type recursion and recursion with a proved constant limit',
    [depth.jobs], kinds={'recursion'}, technique='call-graph cycle analysis over MIR, with an inductive proof of the depth limit by abstract interpretation',
    assumptions=['the functions of core/alloc/std do not recurse on the length of their input'])

CHECKS['F01'] = Check(
    'Every function of the library, every function the derives generate for the corpus and every closure in them is inspected (MIR): operands that point at a static '
    'which is mutable or has interior mutability, thread-locals, pointer-to-integer casts, calls into std::env, fs, io, net, process, thread, clocks, random seeds, '
    'and iteration over a HashMap or HashSet outside of the codecs of these two types.',
    'no operand, cast or call in the analysed functions reaches state other than the arguments; cells filled once by a closure without captures are allowed',
    [effects.jobs], kinds={'effect'}, technique='effect analysis over MIR (global state, thread-locals, ambient authority, addresses, hash order)',
    assumptions=['functions of core, alloc and std outside of the denied modules have no effect on anything but their arguments and the heap'])

CHECKS['C01'] = Check(
    'One user crate per subset of the features binary, json, ron, toml and std (32), each deriving every enabled format on a set of declarations and calling '
    'every enabled entry point, is type-checked against the tree under test; the 16 subsets without std are checked against a sysroot that contains only '
    'core, alloc and compiler_builtins, so any dependency on the standard library fails to resolve.',
    'every witness crate type-checks', [compile.feature_jobs], kinds={'compile'}, needs_dump=False,
    technique='compile witnesses: type-checking of user crates over all feature subsets, no-std ones against a sysroot without std',
    assumptions=['the declarations used are representative of derive users', 'the host target stands for every target'],
    level_note='Every feature subset is decided by the compiler on the current tree; the derived declarations are a fixed set.')
CHECKS['C02'] = Check(
    'A table of declaration shapes (visibility, generics with bounds, defaults, where clauses and const parameters, paths, nested types, doc comments, foreign '
    'attributes, raw identifiers, field names that collide with generated code, every documented nanoserde attribute) is derived for each format and type-checked '
    'against the tree under test, once with the library under its own name and once with the library renamed and the crate attribute set, so that a '
    'generated path that ignores the attribute does not resolve.',
    'every declaration of the table type-checks for every format, under both library names', [compile.shape_jobs], kinds={'compile'}, needs_dump=False,
    technique='compile witnesses: type-checking of derived declarations, with and without a renamed library',
    assumptions=['the declaration table is representative of the documented shapes'],
    level_note='Each declaration shape is decided by the compiler on the current tree; the table is finite.')

TXT = ('Path-sensitive abstract interpretation of the MIR of every JSON and RON decoder (library impls, the derive output for the declaration corpus, '
       'deserialize_json, deserialize_ron and whole_field) over arbitrary token streams; the lexer and the decoders of component values are replaced by '
       'their contracts and analysed at their own roots. An automaton of the documented form of the type runs along with the decoder; ')
LEXC = 'a call of the lexer makes one of the tokens current or fails, and end of input stays end of input (next_tok is analysed on its own)'
TX = [LEXC, COMP, STD]
D = textdec
CHECKS['E02'] = Check(
    TXT + 'after a component, key or token has failed the decoder may only return that same error.',
    'once a component or lexer call has failed, no further token is read and the result is that error',
    [D(), textskip, bindec], kinds={'swallowed', 'replaced', 'missing'}, floor=textfloor(), assumptions=TX)
CHECKS['E04'] = Check(
    TXT + 'every accepting path must spell out a document of that form and every rejection must carry the verdict the form calls for.',
    'accepted token sequences belong to the form of the type; missing fields and unknown variants are rejected with the error that names them',
    [D()], kinds={'malformed', 'verdict', 'refused', 'truncated', 'missing'}, floor=textfloor(), assumptions=TX)
CHECKS['X01'] = Check(
    TXT + 'the form of each declaration is derived from its attributes: names as renamed, skipped fields neither read nor expected, absent fields filled '
    'with exactly the declared default, transparent values bare.',
    'decoding follows the attributes of every declaration of the corpus',
    [D(tags=('corpus',), only=hasattrs)], kinds={'malformed', 'verdict', 'refused', 'value', 'rejected', 'truncated', 'missing'}, assumptions=TX)
CHECKS['X02'] = Check(
    TXT + 'for every derived declaration with named fields, unknown keys and their values are skipped (JSON) or refused (RON) and all known fields hold '
    'what the document has for them; whole_field itself is checked with a ghost nesting depth.',
    'documents with unknown keys decode as without them; whole_field leaves exactly one value behind',
    [D(tags=('corpus',), only=isnamed), textskip], kinds={'malformed', 'verdict', 'refused', 'value', 'rejected', 'skipped', 'skipchar', 'swallowed', 'replaced', 'missing'},
    assumptions=TX)
CHECKS['M01'].makers.append(textown)

LEX = ('Path-sensitive abstract interpretation of the MIR of both tokenizers (next_tok with everything it calls) over arbitrary characters, one symbolic '
       'character per read; a reference tokenizer is stepped over every character left behind, and at each read all that both agree on is generalised, '
       'so that the exploration closes over inputs of any length; ')
LX = [STD, 'a NUL character in the input stands for its end', 'lines and columns stay below 2^63']
CHECKS['L01'] = Check(
    LEX + 'each path must return the token the reference finds, stop right after it, and reject nothing the reference accepts.',
    'token returned == token of the reference on every path; whitespace and comments leave no trace',
    [lexers], kinds={'token', 'malformed', 'rejected', 'buffer', 'number', 'string', 'missing', 'nonterm'}, assumptions=LX)
CHECKS['E01'] = Check(
    LEX + 'a path may not succeed while the reference is inside a string, escape, comment or character. ' + TXT +
    'a path may not succeed before the form of the type is complete, with end of input as one of the tokens.',
    'no accepting path at a point where the document is incomplete',
    [lexers, D(), textskip], kinds={'truncated', 'malformed', 'skipped', 'missing'}, floor=textfloor(), assumptions=LX + TX[:2])
CHECKS['E03'] = Check(
    LEX + 'line and column of the state are compared with a ghost count of the characters read at every return, and those of every error with the state; '
    'the same for the errors raised by every JSON and RON decoder, the offset in every error of a binary decoder, and the position of the TOML parser and its errors.',
    'line, column and offset of every error == position the input has been read to',
    [lexers, D(), textskip, bindec], kinds={'position', 'errpos', 'erroffset', 'missing'}, floor=textfloor(), assumptions=LX + TX[:2])
CHECKS['N01'] = Check(
    LEX + 'the payload of a number token must be the value of its text and a number may only be refused when it does not fit. ' + TXT +
    'each integer decoder must return the payload of the token or refuse one that does not fit.',
    'integer decoded == number in the text, or an error when and only when it does not fit',
    [lexers, D(tags=('lib',), only=lambda d, t: t in INTS)], kinds={'number', 'token', 'rejected', 'value', 'verdict', 'refused', 'malformed', 'truncated', 'panic', 'missing'},
    floor=textfloor(), assumptions=LX + TX[:2])
CHECKS['T01'] = Check(
    LEX + TXT + 'a loop head reached again in the same state without anything read in between, or end of input read again without leaving the loop, is a violation; '
    'likewise for the binary decoders and the TOML parser.',
    'every cycle of the abstract state graph reads a character, token or byte',
    [lexers, D(), textskip, bindec], kinds={'nonterm', 'missing'}, floor=textfloor(), assumptions=LX + TX[:2])

SER = ('Path-sensitive abstract interpretation of the MIR of every JSON and RON encoder (library impls, the derive output for the declaration corpus, '
       'serialize_json and serialize_ron) over arbitrary values; what an encoder appends is tokenised and run through the automaton its decoder is checked '
       'against, and each component it writes must be the part of the value that belongs there; ')
SX = [COMP, STD, 'floats are finite and core prints them so that they read back the same', 'nesting depth stays below 2^31']
DECK = {'value', 'rejected', 'refused', 'panic', 'nonterm', 'missing'}
LEXK = {'token', 'buffer', 'number', 'string'}
SERK = {'form', 'value', 'string', 'prefix'}
for _i, _f in (('J01', 'JSON'), ('R01', 'RON')):
    CHECKS[_i] = Check(
        SER + 'the decoder is run over all token streams of the same automaton and must accept each document and return the parts it spells out; the tokenizer '
        'must return the tokens of the reference on all characters.',
        'encoder output is in L(form) with each part in place; decoder maps every document of L(form) to those parts; tokenizer == reference',
        [textenc((_f,)), D((_f,)), lexing((_f,))], kinds=DECK | LEXK | SERK, floor=textfloor((_f,), ser=True), assumptions=SX + LX[:2] + TX[:1])
CHECKS['J02'] = Check(
    SER + 'the automaton only admits JSON: a strict reading, without trailing commas, bare words, raw control characters or non-standard escapes.',
    'every encoder path writes a document the strict automaton accepts',
    [textenc(('JSON',))], kinds={'form', 'prefix', 'missing'}, floor=textfloor(('JSON',), ser=True, de=False),
    assumptions=SX + ['map keys are strings'])
CHECKS['S01'] = Check(
    SER + 'each character written between quotes is compared, after unescaping, with the character of the value at that place. ' + LEX +
    'the text collected for a string token must be the unescaped characters.',
    'unescape(written) == characters of the string; text of a string token == unescaped characters read',
    [textenc(tags=('lib',), only=lambda d, t: t in ('str', 'alloc::string::String')), D(tags=('lib',), only=lambda d, t: t == 'alloc::string::String'), lexers],
    kinds=DECK | LEXK | SERK | {'malformed', 'truncated'}, floor=textfloor(ser=True), assumptions=LX)
CHECKS['P02'] = Check(
    SER + TXT + LEX + 'every overflow assertion, bounds check, unwrap, explicit panic and char or UTF-8 boundary on every abstract path must be proved unreachable.',
    'no abstract path from the entry of an encoder, decoder or tokenizer reaches a panicking construct',
    [textenc(), D(), textskip, lexers], kinds={'panic', 'missing'}, floor=textfloor(ser=True), assumptions=SX + LX + TX[:1])
CHECKS['X01'].makers.append(textenc(tags=('corpus',), only=hasattrs))
CHECKS['X01'].kinds |= {'form'}

TOMLX = ('Path-sensitive abstract interpretation of the MIR of the TOML parser in three parts: the tokenizer over arbitrary characters, run along a reference '
         'tokenizer; the value reader over arbitrary tokens, a nested value by its own contract; and TomlParser::parse over arbitrary tokens, with each table modelled as '
         'the entries that were touched over unknown contents. Between two lines the table is compared with what it was, then everything in it is forgotten, '
         'except that an array of tables being filled has a newest element; ')
TM = [STD, 'a NUL character in the input stands for its end', 'lines and columns stay below 2^63']
TK = tomls('tokenizer', 'value', 'document')
CHECKS['K01'] = Check(
    TOMLX + 'a reference reader of lines says which one entry, of which table, a line may change, and to what.',
    'after each line the table differs from before in exactly the entry the headers and key call for',
    [TK], kinds={'place', 'keytext', 'swallowed', 'malformed', 'truncated', 'skipchar', 'rejected', 'token', 'missing'}, assumptions=TM)
CHECKS['K02'] = Check(
    TOMLX + 'each token must be the one the reference finds with the text or number it spells out, and each value must hold its token, or its elements in order.',
    'token == token of the reference; value == kind and content of its token; array == its elements in order',
    [tomls('tokenizer', 'value')], kinds={'token', 'malformed', 'rejected', 'truncated', 'number', 'string', 'value', 'overrun', 'swallowed', 'replaced', 'missing'}, assumptions=TM)
CHECKS['P03'] = Check(
    TOMLX + 'every overflow assertion, bounds check, unwrap, unreachable!() and char boundary on every abstract path must be proved unreachable.',
    'no abstract path from TomlParser::parse reaches a panicking construct',
    [TK], kinds={'panic', 'missing'}, assumptions=TM)
CHECKS['T01'].makers.append(TK)
CHECKS['E03'].makers.append(TK)

CHECKS['E05'] = Check(
    'Path-sensitive abstract interpretation of the Debug and Display of every error type, for a value of each variant with arbitrary contents: '
    'the text written is kept as a sequence of symbolic pieces, in which every part the error carries is looked for.',
    'name, message, lengths and offset of the error in the text as they are, line and column plus one behind their labels; no panic',
    [shows], kinds={'shown', 'panic', 'nonterm', 'missing'}, floor=None,
    assumptions=[STD, 'a position is at most isize::MAX'])
CHECKS['K03'] = Check(
    'Path-sensitive abstract interpretation of every accessor of Toml (and of its Index), for a value of each kind with arbitrary contents.',
    'result == the payload of the kind the accessor is for; a panic for every other kind and only for those (Index: also out of range)',
    [accessors], kinds={'verdict', 'value', 'nonterm', 'missing'}, floor=None, assumptions=[STD])

NOTE = 'Decided on the MIR of the current tree, for every input; assumes: %s. Paths the abstraction cannot follow are counted as undecided in the evidence, never reported.'
for _c in CHECKS.values():
    if not _c.level_note:
        _c.level_note = NOTE % '; '.join(_c.assumptions)

NOT = {}
