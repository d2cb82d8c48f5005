"""Confirms planted bugs in a scratch copy and says which checks catch them.
usage: seed.py confirm ID... | seed.py run ID... [-- CHECK...]"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, 'seeded')


def sh(c, cwd, env=None, timeout=900):
    return subprocess.run(c, cwd=cwd, shell=True, executable='/bin/bash', env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def baseline():
    d = json.load(open('/opt/vp/BASELINE.json'))
    for k in ('tests', 'passed', 'stable'):
        if isinstance(d, dict) and k in d:
            return set(d[k])
    return set(d)


def tests(repo):
    # the commands of /opt/vp/test.sh, in the copy
    r = sh('. /opt/vp/env.sh; cd %s; export CARGO_TARGET_DIR=%s/target; cargo test --workspace --no-fail-fast --offline 2>&1; cargo test --workspace --no-fail-fast --offline "${NOSTD[@]}" 2>&1' % (repo, repo), repo)
    t = r.stdout
    import re
    ok = len(re.findall(r'^test .* \.\.\. ok$', t, re.M))
    bad = re.findall(r'^test (.*) \.\.\. FAILED$', t, re.M)
    return ok, bad, t


def confirm(ids):
    work = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    repo = os.path.join(work, 'repo')
    sh('cp -a /repo %s' % repo, '/')
    res = {}
    for i in ids:
        d = os.path.join(SEED, i)
        sh('git checkout -q -- . && git clean -fdq', repo)
        demo = os.path.join(work, 'demo')
        shutil.rmtree(demo, ignore_errors=True)
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
        clean = sh('bash %s/demo.sh' % demo, repo)
        a = sh('git apply %s/patch.diff' % d, repo)
        if a.returncode:
            print(i, 'DOES NOT APPLY', a.stdout[-500:]); continue
        ok, bad, log = tests(repo)
        broke = sh('bash %s/demo.sh' % demo, repo)
        good = clean.returncode == 0 and broke.returncode != 0 and not bad and ok >= 200
        print(i, 'CONFIRMED' if good else 'REJECTED', 'clean', clean.returncode, 'patched', broke.returncode, 'tests ok', ok, 'failed', bad)
        if not good:
            print(clean.stdout[-1500:] if clean.returncode else '', log[-1500:] if ok < 200 else '')
        elif os.environ.get('V'):
            print(broke.stdout[-600:])
        res[i] = good
    shutil.rmtree(work, ignore_errors=True)
    return res


def run(ids, only=None, thorough=False):
    sys.path.insert(0, HERE)
    from nsa import checks
    work = tempfile.mkdtemp(prefix='seedrun-', dir='/tmp')
    repo = os.path.join(work, 'repo')
    sh('mkdir -p %s && cd /repo && git archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x' % (repo, repo, repo), '/')
    for i in ids:
        d = os.path.join(SEED, i)
        patch = os.path.join(d, 'patch.diff') if os.path.isdir(d) else i
        sh('git checkout -q -- .', repo)
        a = sh('git apply %s' % patch, repo)
        if a.returncode:
            print(i, 'DOES NOT APPLY'); continue
        hits = []
        for c in (only or checks.CHECKS):
            e = dict(os.environ, NSV_REPO=repo)
            e['NSV_EVIDENCE'] = os.path.join(work, 'evidence')
            r = sh('./check %s' % c, HERE, env=e)
            if r.returncode == 1:
                hits.append(c)
                if os.environ.get('V'):
                    print('\n'.join(l[:220] for l in r.stdout.splitlines()[:6]))
            elif r.returncode:
                hits.append(c + '!ERR'); print(r.stdout[-800:])
        p = json.load(open(os.path.join(d, 'meta.json')))['property'] if os.path.isdir(d) else '?'
        print(i, 'property', p, 'CAUGHT' if p in hits else 'MISSED', 'by', hits, flush=True)
    shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    a = sys.argv[2:]
    only = None
    if '--' in a:
        only = a[a.index('--') + 1:]
        a = a[:a.index('--')]
    if not a:
        a = sorted(os.listdir(SEED))
    if sys.argv[1] == 'confirm':
        confirm(a)
    else:
        run(a, only)
