"""Runs the generated-input search of one property over several processes."""
import contextvars
import hashlib
import importlib
import json
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

from . import texpr
from . import vals as V
from .model import Mismatch
from .texpr import Ambiguous
from .world import Abort

SHRINK_SECONDS = 20
WALL_LIMIT = {'quick': 240, 'thorough': 780}
SHARDS = {'quick': 6, 'thorough': 8}


class Stop(BaseException):
    pass


CASE_SECONDS = 60     # a case takes milliseconds


class Hang(BaseException):
    """The case does not end."""


def on_alarm(signum, frame):
    raise Hang('the operation did not end within %d seconds' % CASE_SECONDS)


class Rec:
    """What one case turned out to exercise."""

    def __init__(self):
        self.labels = set()
        self.nontrivial = False
        self.checks = 0

    def label(self, name):
        self.labels.add(name)

    def nt(self, flag=True):
        self.nontrivial = self.nontrivial or bool(flag)


def import_oblate(repo):
    import oblate
    path = os.path.realpath(oblate.__file__)
    if not path.startswith(os.path.realpath(repo) + os.sep):
        raise RuntimeError('oblate was imported from %s, not from %s' % (path, repo))
    return oblate


def execute(mod, oblate, case, rec):
    """Runs one case in a fresh context and from the default global configuration."""
    oblate.config = oblate.GlobalConfig()
    texpr._REG.clear()
    ctx = contextvars.Context()
    case = V.clone(case)

    def go():
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return mod.run(oblate, case, rec)
    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_SECONDS, 10)
    try:
        ctx.run(go)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        oblate.config = oblate.GlobalConfig()


def describe(exc):
    if isinstance(exc, Mismatch):
        return str(exc)
    tb = traceback.format_exception(type(exc), exc, exc.__traceback__)
    return 'unexpected %s: %s\n%s' % (type(exc).__name__, exc, ''.join(tb[-6:]))


def budget(mod, tier, shards):
    n = mod.EXAMPLES[tier] if isinstance(getattr(mod, 'EXAMPLES', None), dict) else {'quick': 3000, 'thorough': 120000}[tier]
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    return max(50, int(n * scale) // shards)


def worker(prop, tier, seed, shard, shards, out, repo):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    oblate = import_oblate(repo)
    mod = importlib.import_module('props.' + prop.lower())
    stats = {'evaluations': 0, 'ambiguous': 0, 'nontrivial': set(), 'labels': {}, 'samples': [], 'checks': 0,
             'stopped_early': False}
    found = {}
    start = time.time()
    limit = WALL_LIMIT[tier]

    def body(case):
        if time.time() - start > limit:
            stats['stopped_early'] = True
            raise Stop
        if found and time.time() - found['t0'] > SHRINK_SECONDS:
            raise Stop
        rec = Rec()
        text = repr(case)
        try:
            execute(mod, oblate, case, rec)
        except Ambiguous:
            if not found:
                stats['evaluations'] += 1
                stats['ambiguous'] += 1
            return
        except hypothesis.errors.HypothesisException:
            raise
        except (Exception, Abort, Hang) as exc:
            if not found:
                found['t0'] = time.time()
            if 'case' not in found or len(text) <= len(found['case']):
                found['case'] = text
                found['why'] = describe(exc)
            if isinstance(exc, Hang):
                raise Stop
            raise
        if found:
            return
        stats['evaluations'] += 1
        stats['checks'] += rec.checks
        for l in rec.labels:
            stats['labels'][l] = stats['labels'].get(l, 0) + 1
        if rec.nontrivial:
            h = hashlib.blake2b(text.encode('utf-8', 'surrogatepass'), digest_size=8).hexdigest()
            if h not in stats['nontrivial']:
                stats['nontrivial'].add(h)
                n = len(stats['nontrivial'])
                if n in (1, 50, 400) and len(text) < 3000:
                    stats['samples'].append(text)

    test = given(mod.cases(tier))(body)
    # every shard explores its own part of the space; all derived from the one seed
    test = hypothesis.seed(seed * 1000003 + shard * 7919 + 1)(test)
    test = settings(max_examples=budget(mod, tier, shards), database=None, deadline=None, derandomize=False,
                    phases=[Phase.generate, Phase.shrink], suppress_health_check=list(HealthCheck),
                    report_multiple_bugs=False, print_blob=False)(test)
    error = None
    devnull = open(os.devnull, 'w')
    old = sys.stdout
    sys.stdout = devnull
    try:
        if not any(True for _ in getattr(mod, 'FIXED', ())):
            pass
        else:
            for case in mod.FIXED:
                if shard == 0:
                    try:
                        body(case)
                    except Exception:
                        break
        if not found:
            test()
    except Stop:
        pass
    except BaseException as exc:
        if not found:
            error = ''.join(traceback.format_exception(type(exc), exc, exc.__traceback__))
    finally:
        sys.stdout = old
    stats['nontrivial'] = sorted(stats['nontrivial'])
    with open(out, 'w') as fp:
        json.dump({'stats': stats, 'found': found, 'error': error}, fp)
    return 0


def load_known(here, prop):
    """known_findings.txt: 'property=<id> case=<literal> | <what fails>' lines are open
    findings; 'fixed: ...' lines suppress nothing."""
    out = []
    path = os.path.join(here, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('property=%s ' % prop):
                head, _, what = line.partition(' | ')
                out.append((head.split(' case=', 1)[1], what))
    return out


def replay(prop, path, repo):
    oblate = import_oblate(repo)
    mod = importlib.import_module('props.' + prop.lower())
    text = [l for l in open(path).read().split('\n') if l.startswith('case = ')][0][len('case = '):]
    case = V.literal_eval(text)
    try:
        execute(mod, oblate, case, Rec())
    except Ambiguous:
        print('replay: the case is outside the domain')
        return 0
    except (Exception, Abort, Hang) as exc:
        print('replay: ' + describe(exc))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('replay: the property held')
    return 0


def main(argv, here, repo):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    if '--thorough' in argv:
        tier = 'thorough'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    except ValueError:
        seed = 1
    if '--replay' in argv:
        return replay(prop, argv[argv.index('--replay') + 1], repo)
    if '--worker' in argv:
        i = argv.index('--worker')
        return worker(prop, tier, seed, int(argv[i + 1]), int(argv[i + 2]), argv[i + 3], repo)

    t0 = time.time()
    import_oblate(repo)
    mod = importlib.import_module('props.' + prop.lower())
    shards = getattr(mod, 'SHARDS', SHARDS)[tier]
    results = {}
    with tempfile.TemporaryDirectory(prefix='verif-') as tmp:
        procs = {}
        for i in range(shards):
            out = os.path.join(tmp, '%d.json' % i)
            procs[i] = (subprocess.Popen([sys.executable, '-B', os.path.join(here, 'check.py'), prop, '--worker', str(i),
                                          str(shards), out] + (['--thorough'] if tier == 'thorough' else []),
                                         stdout=subprocess.DEVNULL, stderr=open(os.path.join(tmp, '%d.err' % i), 'w')), out)
        pending = dict(procs)
        hit = False
        while pending:
            for i, (p, out) in sorted(pending.items()):
                if p.poll() is not None:
                    del pending[i]
                    if os.path.exists(out):
                        results[i] = json.load(open(out))
                    else:
                        err = open(os.path.join(tmp, '%d.err' % i)).read()[-3000:]
                        results[i] = {'stats': None, 'found': {}, 'error': 'shard %d died (%s)\n%s' % (i, p.returncode, err)}
                    if results[i]['found']:
                        hit = True
            if hit and pending:
                for p, _ in pending.values():
                    p.kill()
                    p.wait()
                pending = {}
            if pending:
                time.sleep(0.05)
    total = {'evaluations': 0, 'ambiguous': 0, 'checks': 0}
    labels, samples, seen, early = {}, [], set(), False
    errors = []
    for i in sorted(results):
        r = results[i]
        if r['error']:
            errors.append(r['error'])
        s = r['stats']
        if s is None:
            continue
        for k in total:
            total[k] += s[k]
        for l, n in s['labels'].items():
            labels[l] = labels.get(l, 0) + n
        seen.update(s['nontrivial'])
        samples += s['samples']
        early = early or s['stopped_early']
    known = load_known(here, prop)
    violations = []
    for i in sorted(results):
        f = results[i]['found']
        if f and not any(f.get('case') == k for k, _ in known):
            violations.append(f)
    wall = time.time() - t0
    os.makedirs(os.path.join(here, 'evidence'), exist_ok=True)
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'wall_s': round(wall, 2),
        'violations': len(violations),
        'coverage': {
            'evaluations': total['evaluations'], 'distinct_nontrivial': len(seen), 'rule': mod.RULE,
            'samples': [s[:2500] for s in samples[:4]], 'outside_domain': total['ambiguous'],
            'observations_checked': total['checks'], 'shards': shards, 'classes': dict(sorted(labels.items())),
            'stopped_early': early,
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', ())),
    }
    with open(os.path.join(here, 'evidence', prop + '.json'), 'w') as fp:
        json.dump(evidence, fp, indent=1)
        fp.write('\n')
    for case, what in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, what))
    if violations:
        v = min(violations, key=lambda f: len(f['case']))
        rdir = os.path.join(here, 'replays')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%s.txt' % (prop, hashlib.blake2b(v['case'].encode('utf-8', 'surrogatepass'), digest_size=5).hexdigest()))
        with open(path, 'w') as fp:
            fp.write('# %s\n' % v['why'].replace('\n', '\n# '))
            fp.write('# run: python3-vt check.py %s --replay %s\n' % (prop, path))
            fp.write('case = %s\n' % v['case'])
        print(v['why'])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errors:
        sys.stderr.write('\n'.join(errors[:2]) + '\n')
        return 2
    print('%s held: %d cases, %d distinct non-trivial, %.1fs' % (prop, total['evaluations'], len(seen), wall))
    return 0
