"""Compile witnesses: crates that use the library under test and have to build (C01, C02). Nothing is
run; the verdict is the compiler's name resolution, type and borrow checking of the tree under test."""
import json
import os
import re
import shutil
from . import build, run, shapes, corpus
from .run import result, report

CARGO = '''[package]
name = "%(name)s"
version = "0.0.0"
edition = "2021"
[workspace]
[lib]
path = "src/lib.rs"
[dependencies]
%(dep)s = { package = "nanoserde", path = "%(repo)s", default-features = false, features = [%(feat)s] }
'''


def errors(r):
    """(file, line, text) of every error cargo reports"""
    out = []
    for l in r.stdout.splitlines():
        if not l.startswith('{'):
            continue
        try:
            d = json.loads(l)
        except ValueError:
            continue
        m = d.get('message')
        if d.get('reason') != 'compiler-message' or m.get('level') != 'error':
            continue
        pkg = d.get('target', {}).get('name', '')
        sp = [s for s in m['spans'] if s['is_primary']] or m['spans']
        line, file = 0, ''
        for s in sp:
            # a macro's output is charged to the invocation
            while s.get('expansion') and s['expansion'].get('span'):
                s = s['expansion']['span']
            line, file = s['line_start'], s['file_name']
        out.append((pkg, file, line, m['message']))
    return out


def cargo(name, src, feat, dep='nanoserde', flags=None, target=None, tdir=None):
    d = os.path.join(run.WORK[0], 'w-' + name)
    os.makedirs(os.path.join(d, 'src'))
    with open(os.path.join(d, 'Cargo.toml'), 'w') as f:
        f.write(CARGO % dict(name='w_' + name.replace('-', '_'), dep=dep, repo=build.REPO, feat=', '.join('"%s"' % x for x in feat)))
    with open(os.path.join(d, 'src', 'lib.rs'), 'w') as f:
        f.write(src)
    e = {'CARGO_TARGET_DIR': tdir or os.path.join(run.WORK[0], 'wt-' + name), 'CARGO_INCREMENTAL': '0'}
    if flags:
        e['RUSTFLAGS'] = flags
    cmd = ['cargo', 'check', '--offline', '--lib', '--message-format=json']
    if target:
        cmd += ['--target', target]
    r = build.sh(cmd, env=build.env(e), cwd=d, timeout=600)
    shutil.rmtree(d, ignore_errors=True)
    return r


def judge_compile(name, r, lines, whole):
    res = result(name)
    res['obligations'] = len(set(lines.values())) or 1
    bad = {}
    for pkg, file, line, msg in errors(r):
        if msg.startswith('aborting due') or msg.startswith('could not compile'):
            continue
        own = file.endswith('src/lib.rs') and pkg.startswith('w_')
        subj = lines.get(line, whole) if own else '%s:%s' % (file, line)
        bad.setdefault(subj, msg)
    if r.returncode and not bad:
        bad[whole] = r.stdout[-300:].strip().splitlines()[-1] if r.stdout.strip() else 'cargo failed'
    res['discharged'] = res['obligations'] - min(len(bad), res['obligations'])
    res['paths'] = 1
    for subj, msg in bad.items():
        text = ' '.join(msg.split())[:200]
        res['reports'].append(report('compile', subj, 'does not compile: ' + text, at=lines.get(('text', subj), subj)))
        res['reports'][-1]['subject'] = '%s, %s' % (whole, subj)
    return res


# ------------------------------------------------------------------ C02
def j_shapes(name, fmt, dep):
    der = '%s::Ser%s, %s::De%s' % (dep, fmt, dep, fmt)
    cr = '' if dep == 'nanoserde' else '#[nserde(crate = "%s")]' % dep
    src = shapes.HELP % {'der': der, 'crate': cr}
    lines = {}
    for n, t in shapes.shapes(der, fmt, cr):
        a = src.count('\n') + 1
        src += t
        for l in range(a, src.count('\n') + 1):
            lines[l] = n
        lines[('text', n)] = ' '.join(t.split())[:200]
    if fmt != 'Ron':
        src += shapes.PROXY % {'der': der, 'crate': cr, 'c': 'C7'}
    r = cargo('shape%s%s' % (fmt, dep), src, ['std', {'Bin': 'binary', 'Json': 'json', 'Ron': 'ron'}[fmt]], dep)
    return judge_compile(name, r, lines, '%s derives%s' % (fmt, '' if dep == 'nanoserde' else ' with crate = "%s"' % dep))


def j_decls(name, dep):
    """the declaration corpus, as a user of the library under another name"""
    cr = '' if dep == 'nanoserde' else '#[nserde(crate = "%s")]\n' % dep
    src = corpus.PRE.replace('nanoserde', dep)
    src += ''.join(corpus.PART % {'n': n} for n in corpus.PARTS) + corpus.POST + corpus.HAND
    lines = {}
    for d in corpus.CORPUS:
        a = src.count('\n') + 1
        t = corpus.decl(d).replace('nanoserde::', dep + '::')
        i = t.index('pub ')
        src += t[:t.index('\n') + 1] + cr + t[t.index('\n') + 1:] + d.extra + '\n'
        for l in range(a, src.count('\n') + 1):
            lines[l] = d.name
    r = cargo('decls' + dep, src, ['std', 'binary', 'json', 'ron'], dep)
    return judge_compile(name, r, lines, 'declaration corpus%s' % ('' if dep == 'nanoserde' else ' with crate = "%s"' % dep))


def shape_jobs(tier):
    for dep in ('nanoserde', 'ns'):
        for fmt in corpus.ALL:
            yield (j_shapes, 'shapes %s as %s' % (fmt, dep), (fmt, dep), 600)
        yield (j_decls, 'declarations as %s' % dep, (dep,), 600)


# ------------------------------------------------------------------ C01
FEATS = ['binary', 'json', 'ron', 'toml', 'std']
NAME = {'binary': 'Bin', 'json': 'Json', 'ron': 'Ron'}

USER = '''%(head)s
#![allow(unused)]
extern crate alloc;
use alloc::{boxed::Box, string::{String, ToString}, vec::Vec};
%(std)s
'''
BODY = '''
#[derive(%(der)s)] pub struct Unit;
#[derive(%(der)s)] pub struct Tup(pub u8, pub String);
#[derive(%(der)s)] pub struct Named { pub a: u8, pub b: Option<String>, pub c: Vec<u64>, pub d: [f32; 3], pub e: (bool, i64), pub f: Box<Unit> }
#[derive(%(der)s)] pub struct Gen<T> { pub a: T, pub b: Vec<T> }
#[derive(%(der)s)] pub enum En { A, B(u8, String), C { a: u8, b: Option<i16> } }
#[derive(%(der)s)] pub struct Core { pub d: core::time::Duration }
#[derive(%(der)s)] pub struct Attr { #[nserde(rename = "x")] pub a: u8, #[nserde(default)] pub b: u8, #[nserde(skip)] pub c: u8 }
#[derive(%(der)s)] pub struct BNum { pub a: i8, pub b: i16, pub c: i32, pub d: u16, pub e: u32, pub f: f64, pub g: usize, pub h: () }
'''
STDBODY = '''
#[derive(%(der)s)] pub struct Std { pub a: HashMap<String, u8>, pub b: HashSet<u8>, pub c: SystemTime }
'''
APIS = {
    'binary': '''pub fn bin(x: &Named) -> Result<Named, nanoserde::DeBinErr> { let v: Vec<u8> = nanoserde::SerBin::serialize_bin(x); nanoserde::DeBin::deserialize_bin(&v) }
pub fn bine(e: &nanoserde::DeBinErr) -> String { e.to_string() }
''',
    'json': '''pub fn json(x: &Named) -> Result<Named, nanoserde::DeJsonErr> { let v: String = nanoserde::SerJson::serialize_json(x); nanoserde::DeJson::deserialize_json(&v) }
pub fn jsone(e: &nanoserde::DeJsonErr) -> String { e.to_string() }
''',
    'ron': '''pub fn ron(x: &Named) -> Result<Named, nanoserde::DeRonErr> { let v: String = nanoserde::SerRon::serialize_ron(x); nanoserde::DeRon::deserialize_ron(&v) }
pub fn rone(e: &nanoserde::DeRonErr) -> String { e.to_string() }
''',
    'toml': '''pub fn toml(x: &str) -> Result<alloc::collections::BTreeMap<String, nanoserde::Toml>, nanoserde::TomlErr> { nanoserde::TomlParser::parse(x) }
pub fn tomle(e: &nanoserde::TomlErr) -> String { e.to_string() }
''',
}
ERRS = {'binary': ['DeBinErr'], 'json': ['DeJsonErr'], 'ron': ['DeRonErr'], 'toml': ['TomlErr']}
HOST = 'x86_64-unknown-linux-gnu'


def nostd_sysroot():
    """a sysroot without the standard library: anything that needs std fails to resolve"""
    root = os.path.join(run.WORK[0], 'sysroot')
    lib = os.path.join(root, 'lib', 'rustlib', host(), 'lib')
    if os.path.isdir(lib):
        return root
    src = build.sh(['rustc', '--print', 'sysroot'], env=build.env()).stdout.strip()
    src = os.path.join(src, 'lib', 'rustlib', host(), 'lib')
    tmp = lib + '.%d' % os.getpid()
    os.makedirs(tmp)
    for f in os.listdir(src):
        if re.match(r'lib(core|alloc|compiler_builtins)-[0-9a-f]+\.(rlib|rmeta)$', f):
            os.symlink(os.path.join(src, f), os.path.join(tmp, f))
    try:
        os.rename(tmp, lib)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return root


_host = []


def host():
    if not _host:
        m = re.search(r'host: (\S+)', build.sh(['rustc', '-vV'], env=build.env()).stdout)
        _host.append(m.group(1) if m else HOST)
    return _host[0]


def user(feat):
    std = 'std' in feat
    src = USER % dict(head='' if std else '#![no_std]',
                      std='use std::{collections::{HashMap, HashSet}, time::SystemTime};' if std else '')
    lines = {}
    fm = [f for f in feat if f in NAME]
    der = ', '.join('nanoserde::Ser%s, nanoserde::De%s' % (NAME[f], NAME[f]) for f in fm)
    if fm:
        for l in (BODY + (STDBODY if std else '')).splitlines():
            if not l:
                continue
            src += l % {'der': der} + '\n'
            lines[src.count('\n')] = 'derived ' + re.search(r'(?:struct|enum) (\w+)', l).group(1)
    for f in feat:
        if f in APIS:
            for l in APIS[f].splitlines():
                src += l + '\n'
                lines[src.count('\n')] = f + ' entry point'
    return src, lines


def j_feature(name, feat):
    src, lines = user(feat)
    kw = {}
    if 'std' not in feat:
        kw = dict(flags='--sysroot ' + nostd_sysroot(), target=host())
    r = cargo('f-' + '-'.join(feat or ('none',)), src, feat, **kw)
    return judge_compile(name, r, lines, 'features [%s]' % ', '.join(feat))


def feature_jobs(tier):
    for m in range(32):
        feat = tuple(f for i, f in enumerate(FEATS) if m >> i & 1)
        yield (j_feature, 'features [%s]' % ', '.join(feat), (feat,), 600)
