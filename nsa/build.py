"""Builds the MIR dumper and dumps the tree under test."""
import os, re, subprocess, shutil, tempfile, json, sys, fcntl
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('NSV_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
DRIVER = os.path.join(BUILD, 'nsvdrv')


class BuildError(Exception):
    pass


def sh(cmd, env=None, cwd=None, timeout=600):
    return subprocess.run(cmd, env=env, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def driver():
    src = os.path.join(HERE, 'driver', 'main.rs')
    if os.path.exists(DRIVER) and os.path.getmtime(DRIVER) >= os.path.getmtime(src):
        return DRIVER
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(DRIVER) and os.path.getmtime(DRIVER) >= os.path.getmtime(src):
            return DRIVER
        tmp = DRIVER + '.%d' % os.getpid()
        r = sh(['rustc', '+nightly', '-C', 'opt-level=1', '--edition', '2021', src, '-o', tmp, '-C', 'prefer-dynamic'])
        if r.returncode:
            raise BuildError('driver: ' + r.stdout[-2000:])
        os.rename(tmp, DRIVER)
    return DRIVER


_sysroot = []


def sysroot():
    if not _sysroot:
        _sysroot.append(sh(['rustc', '+nightly', '--print', 'sysroot']).stdout.strip())
    return _sysroot[0]


def env(extra=None):
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_BUILD_RUSTFLAGS', 'RUSTC', 'RUSTUP_TOOLCHAIN'):
        e.pop(k, None)
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    if extra:
        e.update(extra)
    return e


def scratch():
    base = os.path.join(HERE, 'build')
    os.makedirs(base, exist_ok=True)
    return tempfile.mkdtemp(prefix='run-', dir=base)


def crate(dirname, name, src, features='"std", "binary", "json", "ron", "toml"'):
    from . import corpus
    os.makedirs(os.path.join(dirname, 'src'))
    with open(os.path.join(dirname, 'Cargo.toml'), 'w') as f:
        f.write(corpus.CARGO % (name, REPO, features))
    with open(os.path.join(dirname, 'src', 'lib.rs'), 'w') as f:
        f.write(src)


def dump(work, corpora=True):
    """MIR of the library and of the derive corpus; returns {'lib': path, 'corpus': path or None, 'log': text}"""
    from . import corpus
    drv = driver()
    out = os.path.join(work, 'out')
    os.makedirs(out)
    cdir = os.path.join(work, 'corpus')
    crate(cdir, 'nsv_corpus', corpus.source())
    e = env({'LD_LIBRARY_PATH': os.path.join(sysroot(), 'lib'),
             'RUSTFLAGS': '-Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums -Zalways-encode-mir -Awarnings',
             'NSV_OUT': out, 'NSV_CRATES': 'nanoserde,nsv_corpus', 'RUSTC_WRAPPER': drv,
             'CARGO_TARGET_DIR': os.path.join(work, 'target')})
    r = sh(['cargo', '+nightly', 'check', '--offline', '--lib'], env=e, cwd=cdir)
    lib = os.path.join(out, 'nanoserde.json')
    cor = os.path.join(out, 'nsv_corpus.json')
    for _ in range(6):
        if not os.path.exists(lib) or os.path.exists(cor):
            break
        # leave out the declarations that do not compile, and analyse the others
        bad = corpus.located({int(x) for x in re.findall(r'--> src/lib\.rs:(\d+):', r.stdout)})
        if not bad:
            break
        corpus.DROPPED += bad
        with open(os.path.join(cdir, 'src', 'lib.rs'), 'w') as f:
            f.write(corpus.source())
        r = sh(['cargo', '+nightly', 'check', '--offline', '--lib'], env=e, cwd=cdir)
    if not os.path.exists(lib):
        raise BuildError('the library does not build: ' + r.stdout[-3000:])
    return {'lib': lib, 'corpus': cor if os.path.exists(cor) else None, 'log': r.stdout}
