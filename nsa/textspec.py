"""The documented JSON and RON forms of the library types and of derived declarations."""
from . import models as M
from .lin import add, sub, is_num
from .bin import same, rawval, default_value, fn_marker, NotSure, type_default
from .interp import INTR
from .spec import Spec, tok, key, val, skip, mark, point, seq, alt, opt, star, listof, items
from .text import JSON, RON, SIGNED, UNSIGNED, FLOATS


def intspec(ty):
    lo, hi = INTR[ty]

    def fin(e, st, v):
        if not is_num(v) or not is_num(st.x['pay']):
            raise NotSure('number')
        return same(e, st, v, st.x['pay'])

    def ok(e, st, name, tv):
        """is there a payload that fits?"""
        s = st.clone()
        p = tv[3][0]
        return e.assume_ge(s, sub(p, lo)) and e.assume_ge(s, sub(hi, p))
    return Spec(alt(*[tok(t) for t in (('U64', 'I64') if lo < 0 else ('U64',))]), fin, tokok=ok)


def one(part, slot='v', wrap=None, **k):
    def fin(e, st, v):
        w = st.x.get('s:' + slot)
        return same(e, st, rawval(e, st, v), wrap(w) if wrap else w)
    return Spec(part, fin, **k)


def ghost(e, slot):
    for (ty, s), src in e.ghost.items():
        if s == slot:
            return src
    return None


def lib_text(f, s, types=None):
    """the form of the library type written s"""
    if s in SIGNED + UNSIGNED:
        return intspec(s)
    if s in FLOATS:
        def fin(e, st, v):
            p = st.x['pay']
            if st.x.get('paytok') == ('lit', 'F64'):
                # reading the text again gives the same number, going through a wider type may not
                w = st.x.get('payf')
                if w is not None and same(e, st, v, w) is True:
                    return True
                if s == 'f64' and same(e, st, v, p) is True:
                    return True
                return 'a float is changed'
            while isinstance(v, tuple) and v[0] in ('i2f', 'f2f'):
                v = v[1]
            return same(e, st, v, p)
        return Spec(alt(tok('U64'), tok('I64'), tok('F64')), fin)
    if s == 'bool':
        def fin(e, st, v):
            p = st.x['pay']
            lo, hi = e.bounds(st, p) if is_num(p) else (None, None)
            if not is_num(p):
                raise NotSure('bool')
            if not is_num(v):
                v = e.boolnum(st, v)
            if hi is not None and hi <= 1:
                return same(e, st, v, p)
            if not e.decide(st, ('cmp', 'ne', p)):
                return same(e, st, v, 0)
            return same(e, st, v, 1) if e.prove(st, sub(p, 1)) else 'a number is not read as its truth value'
        return Spec(alt(tok('Bool'), tok('U64')) if f is RON else tok('Bool'), fin)
    if s == 'alloc::string::String':
        return Spec(key('Str', None), lambda e, st, v: same(e, st, v, st.x['key']))
    if s == '()':
        return Spec(tok('Null')) if f is JSON else Spec(seq(tok('ParenOpen'), tok('ParenClose')))
    if s.startswith('core::option::Option<'):
        def fin(e, st, v):
            w = st.x.get('s:v')
            v = e.variant(st, v)
            return same(e, st, v, M.SOME(w) if w is not None else M.NONE)
        return Spec(alt(tok('Null') if f is JSON else key('Ident', 'None'), val('v')), fin)
    if s.startswith('alloc::boxed::Box<'):
        return one(val('v'))
    if s.startswith(('alloc::vec::Vec<', 'std::collections::hash::set::HashSet<', 'alloc::collections::linked_list::LinkedList<', 'alloc::collections::btree::set::BTreeSet<')):
        def fin(e, st, v):
            n = st.x.get('k*e', 0)
            src = ghost(e, '*e')
            want = ('seq', 'v', (('run', src, 0, n),) if src is not None and n != 0 else ())
            return same(e, st, v, want)
        return Spec(listof('BlockOpen', val('*e'), 'BlockClose', trail=f is RON), fin)
    if s.startswith(('std::collections::hash::map::HashMap<', 'alloc::collections::btree::map::BTreeMap<')):
        def fin(e, st, v):
            n = st.x.get('k*k', 0)
            a, b = ghost(e, '*k'), ghost(e, '*v')
            want = ('seq', 'map', (('run', ('zip', a, b), 0, n),) if a is not None and n != 0 else ())
            return same(e, st, v, want)
        return Spec(listof('CurlyOpen', seq(val('*k'), tok('Colon'), val('*v')), 'CurlyClose', trail=f is RON), fin)
    if s.startswith('[') and '; ' in s:
        o, c = ('BlockOpen', 'BlockClose') if f is JSON else ('ParenOpen', 'ParenClose')

        def fin(e, st, v):
            n = st.x.get('k*e', 0)
            t = e.T(e.body.root['self'])['n']
            t = e.constp(t) if isinstance(t, str) else t
            if e.norm(st, sub(n, t)) != 0 and not (e.prove(st, sub(n, t)) and e.prove(st, sub(t, n))):
                return 'the number of elements is not the length of the array'
            src = ghost(e, '*e')
            return same(e, st, v, ('seq', 'v', (('run', src, 0, n),) if src is not None and n != 0 else ()))
        return Spec(listof(o, val('*e'), c, trail=f is RON), fin, mayfail=lambda e, st, ref, n: True)
    if s.startswith('('):
        o, c = ('BlockOpen', 'BlockClose') if f is JSON else ('ParenOpen', 'ParenClose')
        n = s.count(',') + 1

        def fin(e, st, v):
            for i in range(n):
                r = same(e, st, v[3][i], st.x['s:%d' % i])
                if r is not True:
                    return 'part %d: %s' % (i, r)
            return True
        return Spec(items(o, [val(str(i)) for i in range(n)], c), fin)
    if s == 'core::time::Duration':
        def fin(e, st, v):
            sec = st.x.get('s:secs')
            if sec is None:
                return 'there is no secs field'
            na = st.x.get('s:nanos', 0)
            if sec == ('lit', 'dup') or na == ('lit', 'dup'):
                return True
            v = e.force(st, v) if v[0] == 'sym' else v
            if v[0] != 'agg':
                raise NotSure('duration')
            for a, b in zip(v[3], (sec, na)):
                r = same(e, st, a, b)
                if r is not True:
                    return r
            return True

        def may(e, st, ref, n):
            if st.x.get('s:secs') is None or n == 'CannotParse':
                return True
            na = st.x.get('s:nanos', 0)
            return is_num(na) and not isinstance(na, int) and e.prove(st, sub(na, 1000000000)) or na == ('lit', 'dup')
        return Spec(listof('CurlyOpen', alt(seq(key('Str', 'secs'), tok('Colon'), val('secs')), seq(key('Str', 'nanos'), tok('Colon'), val('nanos'))), 'CurlyClose'),
                    fin, mayfail=may)
    if s == 'std::time::SystemTime':
        return Spec(val('v'), mayfail=lambda e, st, ref, n: n == 'OutOfRange')
    return None


# ---------------------------------------------------------------- derived
def jname(x):
    return x.attr('rename') or bare(x.name)


def bare(n):
    return n[2:] if n.startswith('r#') else n


def optional(d, f):
    return f.ty.startswith('Option<') or f.attr('default') or f.attr('default_with') or d.attr('default') or d.attr('default_with')


def absent(e, d, f):
    if f.attr('skip') or f.attr('default') or f.attr('default_with') or not (d.attr('default_with')):
        return default_value(e, f)
    return fn_marker(e, 'nsv_corpus::' + d.attr('default_with'))


def field_value(e, st, f, w):
    if f.attr('proxy'):
        return fn_marker(e, '<nsv_corpus::%s as core::convert::From<&nsv_corpus::%s>>::from' % (f.ty, f.attr('proxy')), (w,))
    return w


def check_fields(e, st, d, fs, vals, pre):
    for f, v in zip(fs, vals):
        w = st.x.get('s:' + pre + f.name)
        if w == ('lit', 'dup'):
            continue
        if f.attr('skip') or w is None:
            if not f.attr('skip') and not optional(d, f):
                return 'the required field %s is absent' % f.name
            want = absent(e, d, f)
            what = 'the default of field %s' % f.name
        else:
            want = field_value(e, st, f, w)
            what = 'field %s' % f.name
        r = same(e, st, v, want)
        if r is not True:
            return '%s: %s' % (what, r)
    return True


def named(f, fs, pre):
    o, c = ('CurlyOpen', 'CurlyClose') if f is JSON else ('ParenOpen', 'ParenClose')
    fs = [x for x in fs if not x.attr('skip')]
    names = [jname(x) for x in fs]
    alts = [seq(key(f.word, jname(x)), tok('Colon'), val(pre + x.name)) for x in fs]
    if f is JSON:
        alts.append(seq(key('Str', None, names), tok('Colon'), skip()))
    else:
        alts.append(seq(key('Ident', None, names), mark('unknown field')))
    return seq(listof(o, alt(*alts), c, trail=f is RON), point(pre))


def derived_text(f, d):
    o, c = ('BlockOpen', 'BlockClose') if f is JSON else ('ParenOpen', 'ParenClose')
    if d.attr('proxy'):
        def back(e, st, v):
            return same(e, st, v, field_value(e, st, d, st.x['s:v']))
        return Spec(val('v'), back)
    if d.kind != 's' and d.kind != 'e' and not d.parts:
        o, c = ('CurlyOpen', 'CurlyClose') if f is JSON else ('ParenOpen', 'ParenClose')
        return Spec(alt(seq(tok(o), tok(c)), listof(o, seq(key(f.word, None), tok('Colon'), skip()), c, lenient=True)))
    if d.kind == 's':
        req = {'': [(x.name, (bare(x.name), x.name, jname(x))) for x in d.parts if not x.attr('skip') and not optional(d, x)]}
        return Spec(named(f, d.parts, ''), lambda e, st, v: check_fields(e, st, d, d.parts, v[3], ''), required=req,
                    unknown=frozenset(jname(x) for x in d.parts if not x.attr('skip')) if f is RON else None)
    if d.kind == 't':
        vals = [val(x.name) for x in d.parts if not x.attr('skip')]
        part = vals[0] if d.attr('transparent') and f is JSON and len(d.parts) == 1 else items(o, vals, c)
        return Spec(part, lambda e, st, v: check_fields(e, st, d, d.parts, v[3], ''))
    units = [v for v in d.parts if v.kind == 'u']
    rest = [v for v in d.parts if v.kind != 'u']

    def payload(v):
        if v.kind == 't':
            return items(o, [val(v.name + '.' + x.name) for x in v.fields], c)
        return named(f, v.fields, v.name + '.')
    if f is JSON:
        alts = [seq(key('Str', jname(v)), point('!' + v.name)) for v in units]
        if units:
            alts.append(seq(key('Str', None, [jname(v) for v in units]), mark('unknown variant')))
        if rest:
            for v in rest:
                alts.append(seq(tok('CurlyOpen'), key('Str', jname(v)), tok('Colon'), payload(v), tok('CurlyClose'), point('!' + v.name)))
            alts.append(seq(tok('CurlyOpen'), key('Str', None, [jname(v) for v in rest]), tok('Colon'), mark('unknown variant')))
    else:
        alts = [seq(key('Ident', jname(v)), point('!' + v.name)) for v in units]
        alts += [seq(key('Ident', jname(v)), payload(v), point('!' + v.name)) for v in rest]
        alts.append(seq(key('Ident', None, [jname(v) for v in d.parts]), mark('unknown variant')))
    req = {v.name + '.': [(v.name + '.' + x.name, (bare(x.name), x.name, jname(x))) for x in v.fields if not x.attr('skip') and not optional(NODECL, x)] for v in rest if v.kind == 's'}

    def fin(e, st, v):
        v = e.variant(st, v)
        if v is None:
            raise NotSure('enum')
        pv = d.parts[v[2]]
        if '!' + pv.name not in e.spec.at(e, st, st.x['g'][1]):
            return 'another variant'
        return check_fields(e, st, NODECL, pv.fields, v[3], pv.name + '.')
    return Spec(alt(*alts), fin, required=req)


class _N:
    def attr(self, k):
        return None


NODECL = _N()


def whole():
    """deserialize_json and deserialize_ron: the component behind the first token"""
    return one(val('v'))
