"""Runs one check: dumps the tree under test, distributes the analysis jobs of the property over
the cores, judges the reports against the list of known findings and writes the evidence."""
import json
import multiprocessing
import os
import shutil
import signal
import sys
import time
import traceback

from . import build
from .interp import Program

HERE = build.HERE
PROGS = {}
WORK = [None]


class Timeout(Exception):
    pass


def alarm(*_):
    raise Timeout()


class R(dict):
    """result of one job: name, reports, undecided, counters"""


def result(name, eng=None, **k):
    r = R(name=name, reports=[], undec=[], obligations=0, discharged=0, paths=0, states=0, steps=0, bodies=[], unknown={})
    if eng is not None:
        for key, rep in eng.reports.items():
            d = dict(rep)
            d['trace'] = d.get('trace', [])[-30:]
            r['reports'].append(d)
        r['undec'] = ['%s: %s' % (name, ' | '.join(map(str, x))) for x in eng.undec]
        for c in ('obligations', 'discharged', 'paths', 'states', 'steps'):
            r[c] = eng.stats[c]
        r['bodies'] = sorted(eng.stats['bodies'])
        r['unknown'] = eng.unknown
        r['subject'] = name
    r.update(k)
    return r


def report(kind, fn, msg, at='', **k):
    return dict(kind=kind, fn=fn, msg=msg, at=at, stack=[], trace=[], path=[], **k)


def runjob(job):
    fn, name, args, limit = job
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(limit)
    t = time.time()
    try:
        r = fn(name, *args)
    except Timeout:
        r = result(name, undec=['%s: time limit' % name])
    except RecursionError:
        r = result(name, undec=['%s: recursion' % name])
    except MemoryError:
        r = result(name, undec=['%s: memory' % name])
    except Exception:
        r = result(name, undec=['%s: %s' % (name, traceback.format_exc(limit=-4))], crashed=True)
    finally:
        signal.alarm(0)
    r['wall'] = round(time.time() - t, 2)
    r['name'] = name
    return r


def load(paths):
    PROGS.clear()
    PROGS['lib'] = Program(paths['lib'])
    PROGS['corpus'] = Program(paths['corpus']) if paths['corpus'] else None


def known(pid):
    """known findings: {key: description}"""
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                _, _, key, what = l.split(' ', 3) if l.count(' ') >= 3 else (l.split(' ') + [''])
                assert key.startswith('key=')
                out[key[4:]] = what
    return out


def rkey(rep):
    return '%s@%s:%s' % (rep['kind'], rep.get('subject') or rep['fn'], rep['msg'])


def kslug(k):
    return k.replace(' ', '_')


def main(argv):
    from . import checks
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(argv) > 1:
        tier = argv[1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    ck = checks.CHECKS[pid]
    sys.setrecursionlimit(20000)
    work = build.scratch()
    WORK[0] = work
    log = ''
    try:
        if ck.needs_dump:
            paths = build.dump(work)
            load(paths)
            log = paths['log']
        jobs = ck.jobs(tier)
        res = pool(jobs)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return judge(pid, ck, tier, seed, res, t0, log)


def pool(jobs, n=None):
    n = n or min(os.cpu_count() or 4, 8)
    if len(jobs) == 0:
        return []
    if len(jobs) == 1 or os.environ.get('NSV_SERIAL'):
        return [runjob(j) for j in jobs]
    jobs = sorted(jobs, key=lambda j: -j[3])
    order = {j[1]: i for i, j in enumerate(jobs)}
    ctx = multiprocessing.get_context('fork')
    global _JOBS
    _JOBS = jobs
    with ctx.Pool(min(n, len(jobs))) as p:
        res = list(p.imap_unordered(_run, range(len(jobs)), chunksize=1))
    res.sort(key=lambda r: order.get(r['name'], 0))
    return res


_JOBS = []


def _run(i):
    sys.setrecursionlimit(20000)
    return runjob(_JOBS[i])


def judge(pid, ck, tier, seed, res, t0, log=''):
    viol, kn = {}, {}
    kf = known(pid)
    und, obl, dis, paths, states, steps = [], 0, 0, 0, 0, 0
    bodies, unknown = set(), {}
    fnd = []
    from . import corpus
    und += ['declaration %s of the corpus does not compile' % n for n in corpus.DROPPED]
    for r in res:
        und += r['undec']
        obl += r['obligations']
        dis += r['discharged']
        paths += r['paths']
        states += r['states']
        steps += r['steps']
        bodies |= set(r['bodies'])
        for k, v in r['unknown'].items():
            unknown[k] = unknown.get(k, 0) + v
        for rep in r['reports']:
            if ck.kinds is not None and rep['kind'] not in ck.kinds:
                continue
            rep.setdefault('subject', r['name'])
            key = kslug(rkey(rep))
            if key in kf:
                kn[key] = rep
            else:
                viol.setdefault(key, rep)
    missing = ck.floor(res) if ck.floor else []
    for m in missing:
        viol.setdefault(kslug('missing@' + m), report('missing', m, 'an anchor this check analyses is gone: ' + m))
    for key in kn:
        print('KNOWN-FINDING: property=%s %s' % (pid, kf[key]))
    ev = dict(property=pid, tier=tier, seed=seed, level='other', wall_s=round(time.time() - t0, 2), violations=len(viol))
    ev['assumptions'] = ck.assumptions
    ev['coverage'] = dict(explanation=ck.explanation, rule=ck.rule, analyses=len(res), obligations=obl, discharged=dis,
                          abstract_paths=paths, abstract_states=states, steps=steps, functions=len(bodies),
                          functions_in_repo=sorted(b for b in bodies if 'nanoserde' in b or 'nsv_' in b)[:400],
                          undecided=und[:60], undecided_count=len(und), unmodelled_calls=unknown,
                          known_findings=sorted(kn),
                          samples=[dict(analysis=r['name'], obligations=r['obligations'], discharged=r['discharged'], paths=r['paths'], wall=r['wall']) for r in res[:400]])
    EV = os.environ.get('NSV_EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(os.path.join(EV, 'replay'), exist_ok=True)
    for f in os.listdir(os.path.join(EV, 'replay')):
        if f.startswith(pid + '-'):
            os.unlink(os.path.join(EV, 'replay', f))
    i = 0
    for key, rep in list(viol.items())[:20]:
        i += 1
        f = os.path.join('evidence', 'replay', '%s-%d.json' % (pid, i))
        with open(os.path.join(EV, os.path.relpath(f, 'evidence')), 'w') as fh:
            json.dump(dict(property=pid, key=key, **rep), fh, indent=1, default=str)
        print('%s: %s in %s (%s): %s' % (pid, rep['kind'], rep['fn'], rep['at'], rep['msg']))
        if rep.get('subject') and rep['subject'] != rep['fn']:
            print('    while analysing %s' % rep['subject'])
        for l in rep.get('stack', [])[:8]:
            print('    at ' + l)
        print('VIOLATION property=%s replay=%s' % (pid, f))
    ev['coverage']['violation_keys'] = list(viol)[:50]
    with open(os.path.join(EV, pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
    print('%s: %d analyses, %d/%d obligations discharged, %d functions, %d paths, %d undecided, %d violations, %.1f s' % (
        pid, len(res), dis, obl, len(bodies), paths, len(und), len(viol), time.time() - t0))
    if os.environ.get('NSV_UNDEC'):
        for u in und:
            print('   undecided', u)
    return 1 if viol else 0
