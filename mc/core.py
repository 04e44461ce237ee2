"""Shared machinery: case enumeration, sharding, evidence, violations, replay.

A check module (mc/checks/cNN.py) defines

    PROPERTY   the property id
    NOTE       dict copied into the evidence (alphabet, bounds, oracle)
    cases(tier)          deterministic generator of JSON-able cases, smallest first
    run(case, rec)       explores everything behind one case on the real code, reporting to rec

The runner enumerates every case (no sampling), shards the list over processes and adds up what the
recorders counted.
"""
import asyncio
import concurrent.futures
import hashlib
import importlib
import json
import multiprocessing
import os
import resource
import signal
import sys
import time
import traceback
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
MAX_VIOLATIONS = 5
CASE_CPU_S = 60
MEM_LIMIT = 4 << 30
CASE_WALL_S = 200


class CaseTimeout(BaseException):
    """The code under test did not terminate on one case."""


class Violation(Exception):
    def __init__(self, msg, **detail):
        super().__init__(msg)
        self.msg = msg
        self.detail = detail


class HarnessError(Exception):
    pass


def short(x, n=1500):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + '...<%d chars>' % len(s)


class Recorder:
    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.violations = []
        self.capped = 0
        self.deviations = None      # every execution with up to so many deviations was explored
        self.extra = {}
        self.case = None
        self.index = None
        self.only_choices = None    # set on replay: explore only this schedule

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def outcome(self, value):
        """Notes one observed behaviour, to show that the exploration is not vacuous."""
        h = hashlib.blake2b(repr(value).encode(), digest_size=8).digest()
        self.outcomes.add(h)

    def fail(self, msg, key=None, **detail):
        self.violations.append({
            'index': self.index, 'case': self.case, 'msg': short(msg),
            'key': key, 'detail': {k: (v if isinstance(v, (list, int)) else short(v))
                                   for k, v in detail.items()},
        })


def _alarm(signum, frame):
    raise CaseTimeout('no termination within the time limit')


def run_cases(modname, items, only_choices=None):
    mod = importlib.import_module(modname)
    from . import world
    rec = Recorder()
    rec.only_choices = only_choices
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    stop = False
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    for index, case in items:
        rec.case, rec.index = case, index
        world.STYLE = world.STYLES[zlib.crc32(json.dumps(case, sort_keys=True).encode()) % len(world.STYLES)]
        signal.setitimer(signal.ITIMER_REAL, CASE_WALL_S)
        signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
        try:
            mod.run(case, rec)
        except Violation as e:
            rec.fail(e.msg, **e.detail)
        except CaseTimeout as e:
            rec.fail('does not terminate: %s' % e, stack=traceback.format_exc()[-1200:])
            stop = True
        except (Exception, asyncio.CancelledError) as e:
            # every case passes on the unchanged tree without an exception escaping, so whatever
            # escapes here (also from the oracle, when it gets data of an impossible shape, and from
            # the explorer, when a replayed schedule takes another path) is the code's doing
            rec.fail('unexpected %s: %s' % (type(e).__name__, e),
                     stack=traceback.format_exc()[-1500:],
                     **({'choices': e.mc_choices} if hasattr(e, 'mc_choices') else {}))
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.setitimer(signal.ITIMER_PROF, 0)
        if stop or len(rec.violations) >= MAX_VIOLATIONS:
            break
    d = dict(rec.__dict__)
    d.pop('case'), d.pop('index'), d.pop('only_choices')
    return d


def load_findings(prop):
    """Lines `known: property=<id> key=<key> <text>`; `fixed:` lines suppress nothing."""
    res = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.rstrip('\n')
            if line.startswith('known: property=%s ' % prop):
                key, _, text = line.split(' key=', 1)[1].partition(' ')
                res[key] = text
    return res


def check_import():
    import hiku
    where = os.path.realpath(hiku.__file__)
    if not where.startswith(os.path.realpath(REPO) + '/'):
        raise HarnessError('hiku is imported from %s, not from %s' % (where, REPO))


def main(prop, tier, jobs=None, limit=None):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED') or 1)
    check_import()
    modname = 'mc.checks.' + prop.lower()
    mod = importlib.import_module(modname)
    if hasattr(mod, 'setup'):
        mod.setup(tier)
    all_cases = list(enumerate(mod.cases(tier)))
    if limit:
        all_cases = all_cases[:limit]
    n = len(all_cases)
    jobs = jobs or int(os.environ.get('VERIF_JOBS') or 0) or os.cpu_count() or 1
    # interleaved shards: the cases are ordered smallest first, so each shard gets its share of both
    nshards = max(1, min(n, jobs * getattr(mod, 'SHARDS_PER_JOB', 6)))
    shards = [all_cases[i::nshards] for i in range(nshards)]
    total = Recorder()
    done_cases = 0
    stopped = False
    if jobs == 1 or nshards == 1:
        results = []
        for s in shards:
            results.append(run_cases(modname, s))
            done_cases += len(s)
            if any(r['violations'] for r in results):
                unknown = [v for r in results for v in r['violations']]
                if len(unknown) >= MAX_VIOLATIONS:
                    stopped = True
                    break
    else:
        results = []
        ctx = multiprocessing.get_context('fork')
        ex = concurrent.futures.ProcessPoolExecutor(jobs, mp_context=ctx)
        futs = {ex.submit(run_cases, modname, s): len(s) for s in shards}
        findings = load_findings(prop)
        for f in concurrent.futures.as_completed(futs):
            r = f.result()
            results.append(r)
            done_cases += futs[f]
            if any(v['key'] not in findings for v in r['violations']):
                stopped = True
                break
        if stopped:
            procs = list(ex._processes.values())
            ex.shutdown(wait=False, cancel_futures=True)
            for p in procs:
                p.terminate()
        else:
            ex.shutdown()
    for r in results:
        total.states += r['states']
        total.transitions += r['transitions']
        total.traces += r['traces']
        total.outcomes |= r['outcomes']
        total.violations += r['violations']
        total.capped += r['capped']
        if r['deviations'] is not None:
            total.deviations = (r['deviations'] if total.deviations is None
                                else min(total.deviations, r['deviations']))
        for k, v in r['extra'].items():
            total.count(k, v)
    total.violations.sort(key=lambda v: v['index'])
    findings = load_findings(prop)
    known, bad = {}, []
    for v in total.violations:
        if v['key'] is not None and v['key'] in findings:
            known.setdefault(v['key'], v)
        else:
            bad.append(v)
    for key in sorted(known):
        print('KNOWN-FINDING: property=%s %s (key=%s)' % (prop, findings[key], key))
    rdir = os.path.join(VERIF, 'replays')
    for v in bad[:MAX_VIOLATIONS]:
        os.makedirs(rdir, exist_ok=True)
        blob = json.dumps({'property': prop, **v}, indent=1, default=str)
        path = os.path.join(rdir, '%s-%s.json' % (prop, hashlib.sha1(blob.encode()).hexdigest()[:10]))
        with open(path, 'w') as f:
            f.write(blob)
        print('  %s' % short(v['msg'], 600))
        print('    case %s' % short(json.dumps(v['case'], default=str), 600))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    wall = time.time() - t0
    samples = [all_cases[i][1] for i in sorted({0, n // 3, n // 2, n - 1})] if n else []
    note = dict(getattr(mod, 'NOTE', {}))
    if hasattr(mod, 'bounds'):
        note['bounds'] = mod.bounds(tier)
    coverage = {
        'states': total.states,
        'transitions': total.transitions,
        'traces_validated_against_impl': total.traces,
        'samples': json.loads(json.dumps(samples, default=str)),
        'cases': done_cases,
        'cases_total': n,
        'distinct_outcomes': len(total.outcomes),
        'capped_cases': total.capped,
        'deviations_completed_in_capped_cases': total.deviations,
        'exhaustive': total.capped == 0 and not stopped,
        'known_findings_reproduced': sorted(known),
        'explanation': note,
    }
    coverage.update(total.extra)
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': coverage, 'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 3), 'violations': len(bad),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', '.%s.%d' % (prop, os.getpid()))
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    os.replace(tmp, os.path.join(VERIF, 'evidence', prop + '.json'))
    print('%s %s: cases=%d/%d states=%d transitions=%d executions=%d outcomes=%d capped=%d %s wall=%.1fs'
          % (prop, tier, done_cases, n, total.states, total.transitions, total.traces,
             len(total.outcomes), total.capped,
             ' '.join('%s=%s' % kv for kv in sorted(total.extra.items())), wall))
    if not bad and (n == 0 or total.traces == 0):
        raise HarnessError('vacuous run')
    return 1 if bad else 0


def replay(path):
    check_import()
    data = json.load(open(path))
    choices = data.get('detail', {}).get('choices')
    r = run_cases('mc.checks.' + data['property'].lower(), [(data['index'], data['case'])],
                  only_choices=choices)
    for v in r['violations']:
        print(json.dumps(v, indent=1, default=str))
    if r['violations']:
        print('VIOLATION property=%s replay=%s' % (data['property'], path))
        return 1
    print('property %s holds on this case' % data['property'])
    return 0
