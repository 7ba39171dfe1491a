"""
Bounded exhaustive exploration of the real gopher_render code.

A check is a list of spaces. A space is a deterministic enumeration of cases
(documents, configurations, operation sequences, schedules); every one of them
is executed on the code in /repo and judged by an oracle. Nothing is sampled:
the cases are divided over worker processes by their index.
"""
import collections
import hashlib
import itertools
import json
import multiprocessing as mp
import os
import re
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
CASE_SECONDS = 20
WORKERS = 8
# Once a violation is known, the exploration ends after this long: what is
# left could only add further violations (and each hanging case takes long).
ENOUGH_SECONDS = 240


class Violation(Exception):
    """The property does not hold for a case."""


class CaseTimeout(BaseException):
    pass


class Space:
    def __init__(self, name, gen, check, bound='', seconds=CASE_SECONDS):
        self.name = name    # identifies the space in replay files
        self.gen = gen      # () -> iterator of cases (JSON values)
        self.check = check  # (case) -> observed outcome, or raises Violation
        self.bound = bound  # what is enumerated, in words
        self.seconds = seconds  # what a case may take


# Counters of one worker. `events` counts the steps that the real code executed
# (tokens of documents fed, operations performed); `runs` counts the executions
# of the real code that were compared with the reference.
class Counters:
    def __init__(self):
        self.events = 0
        self.runs = 0


COUNT = Counters()


def digest(value):
    data = value if isinstance(value, str) else repr(value)
    return int.from_bytes(hashlib.blake2b(data.encode('utf-8', 'surrogatepass'), digest_size=8).digest(), 'big')


def setup_target():
    """Make the code under test importable, from /repo and nowhere else."""
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import gopher_render
    assert os.path.realpath(gopher_render.__file__).startswith(os.path.realpath(REPO) + '/'), gopher_render.__file__


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(space, case, factor=1):
    """Returns (outcome, None) or (None, description of the violation)."""
    seconds = space.seconds * factor
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        outcome = space.check(case)
        signal.setitimer(signal.ITIMER_REAL, 0)
        return outcome, None
    except CaseTimeout:
        return None, 'did not finish within {} s'.format(seconds)
    except Violation as e:
        signal.setitimer(signal.ITIMER_REAL, 0)
        return None, str(e)
    except Exception:
        signal.setitimer(signal.ITIMER_REAL, 0)
        return None, 'raised ' + traceback.format_exc(limit=-6)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _worker(spaces, k, n, known, best, current, started, out):
    try:
        signal.signal(signal.SIGALRM, _alarm)
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
        devnull = open(os.devnull, 'w')
        sys.stderr = devnull
        result = []
        for s, space in enumerate(spaces):
            COUNT.events = COUNT.runs = 0
            states, outcomes = set(), set()
            cases = 0
            begun = time.time()
            violations = []
            samples = []
            def found(index, case, why, key):
                violations.append((index, case, why, key))
                if key in known:
                    return
                with best.get_lock():
                    if best[s] < 0 or index < best[s]:
                        best[s] = index

            index = k
            try:
                for i, case in enumerate(itertools.islice(space.gen(), k, None, n)):
                    index = k + i * n
                    any_found = any(b >= 0 for b in best[:])
                    if any_found and (0 <= best[s] < index or time.time() - started > ENOUGH_SECONDS):
                        break
                    current[2 * k], current[2 * k + 1] = s, index
                    cases += 1
                    states.add(digest(case))
                    if index in (0, 7, 100, 1003, 20011):
                        samples.append(case)
                    outcome, why = run_case(space, case)
                    if why is not None and why.startswith('did not finish') and not any_found:
                        outcome, why = run_case(space, case, 3)
                    if why is None:
                        outcomes.add(digest(outcome))
                        continue
                    key = case_key(space, case)
                    found(index, case, why, key)
                    if key not in known:
                        break
            except Exception:
                # The enumeration itself uses the code under test (the themes
                # that there are, say).
                found(index, None, 'enumerating the cases raised ' + traceback.format_exc(limit=-6), space.name + ':enumeration')
            result.append(dict(cases=cases, states=states, outcomes=outcomes, events=COUNT.events,
                               runs=COUNT.runs, wall=time.time() - begun, violations=violations, samples=samples))
        out.put((k, result, None))
    except BaseException:
        out.put((k, None, traceback.format_exc()))


def case_key(space, case):
    return '{}:{:016x}'.format(space.name, digest(json.dumps(case, sort_keys=True)))


def load_known(prop):
    """Known findings: lines `finding: property=ID key=KEY what fails`."""
    known = {}
    path = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line)
                if m and m.group(1) == prop:
                    known[m.group(2)] = m.group(3).strip()
    return known


def main(prop, module, tier):
    started = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    spaces = module.spaces(tier)
    known = load_known(prop)
    ctx = mp.get_context('fork')
    out = ctx.Queue()
    best = ctx.Array('q', [-1] * len(spaces))
    n = getattr(module, 'WORKERS', WORKERS)
    current = ctx.Array('q', [-1] * (2 * n))
    procs = [ctx.Process(target=_worker, args=(spaces, k, n, known, best, current, started, out)) for k in range(n)]
    for p in procs:
        p.start()
    results = []
    while len(results) < n:
        try:
            results.append(out.get(timeout=5))
        except Exception:
            dead = [k for k, p in enumerate(procs) if p.exitcode not in (None, 0)]
            if dead:
                for p in procs:
                    p.kill()
                k = dead[0]
                s, index = current[2 * k], current[2 * k + 1]
                why = 'the process that executed the case died with status {}'.format(procs[k].exitcode)
                if s < 0:
                    print('ERROR:', why)
                    return 2
                case = next(itertools.islice(spaces[s].gen(), index, None))
                report_violation(prop, tier, spaces[s], index, case, why, case_key(spaces[s], case))
                return 1
    for p in procs:
        p.join()
    for k, result, error in results:
        if error:
            print('ERROR in worker', k, error)
            return 2

    space_reports = []
    states = set()
    total = collections.Counter()
    samples = []
    new_violations = []
    seen_known = {}
    for s, space in enumerate(spaces):
        rs = [r[1][s] for r in results]
        st, oc = set(), set()
        for r in rs:
            st |= r['states']
            oc |= r['outcomes']
        count = sum(r['cases'] for r in rs)
        report = dict(space=space.name, bound=space.bound, wall_s=round(max(r['wall'] for r in rs), 2), cases=count, distinct_cases=len(st), distinct_outcomes=len(oc),
                      executions_compared=sum(r['runs'] for r in rs), events=sum(r['events'] for r in rs))
        space_reports.append(report)
        total['cases'] += count
        total['events'] += report['events']
        total['runs'] += report['executions_compared']
        states |= set(digest((space.name, x)) for x in st)
        for r in rs:
            for c in r['samples'][:2]:
                if len([x for x in samples if x['space'] == space.name]) < 3:
                    samples.append(dict(space=space.name, case=c))
        violations = sorted([v for r in rs for v in r['violations']], key=lambda v: v[0])
        for v in violations:
            if v[3] in known:
                seen_known[v[3]] = v
        fresh = [v for v in violations if v[3] not in known]
        if fresh:
            new_violations.append((space, fresh[0]))

    evidence = dict(
        property=prop, tier=tier, seed=seed, level='model_checking',
        coverage=dict(
            states=len(states), transitions=total['events'], traces_validated_against_impl=total['runs'],
            samples=samples, exhaustive=not new_violations, spaces=space_reports,
            explanation='states: distinct cases (documents with configurations, operation sequences or schedules) explored; '
            'transitions: tokens fed to, and operations performed on, the real code; traces_validated_against_impl: executions '
            'of the real code whose observations were compared with the reference.',
        ),
        assumptions=getattr(module, 'ASSUMPTIONS', []),
        wall_s=round(time.time() - started, 2), violations=len(new_violations),
    )
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, ensure_ascii=True)
    for key, v in sorted(seen_known.items()):
        print('KNOWN-FINDING: property={} {}'.format(prop, known[key]))
    for r in space_reports:
        print('{space}: {cases} cases ({distinct_outcomes} outcomes), {executions_compared} executions compared, {wall_s} s'.format(**r))
    print('{} {}: {} states, {} transitions, {} executions compared, {:.1f} s'.format(
        prop, tier, len(states), total['events'], total['runs'], time.time() - started))
    empty = [r['space'] for r in space_reports if r['cases'] == 0]
    if empty and not new_violations:
        print('ERROR: nothing was explored in', empty)
        return 2
    for space, (index, case, why, key) in new_violations:
        report_violation(prop, tier, space, index, case, why, key)
    return 1 if new_violations else 0


def report_violation(prop, tier, space, index, case, why, key):
    replay_dir = os.path.join(VERIF, 'replays')
    os.makedirs(replay_dir, exist_ok=True)
    path = os.path.join(replay_dir, '{}-{}.json'.format(prop, re.sub(r'\W+', '_', space.name)))
    with open(path, 'w') as f:
        json.dump(dict(property=prop, tier=tier, space=space.name, index=index, key=key, case=case, why=why), f, indent=1)
    print('--- {} case {} of {}: {}\n{}'.format(prop, index, space.name, json.dumps(case)[:2000], why[:4000]))
    print('VIOLATION property={} replay={}'.format(prop, path))


def replay(module, record):
    signal.signal(signal.SIGALRM, _alarm)
    for space in module.spaces(record['tier']):
        if space.name == record['space']:
            if record['key'].endswith(':enumeration'):
                for case in space.gen():
                    pass
                print('the cases can be enumerated')
                return 0
            outcome, why = run_case(space, record['case'], 3 * CASE_SECONDS)
            if why is None:
                print('holds for this case:', repr(outcome)[:2000])
                return 0
            print(why)
            print('VIOLATION property={} replay={}'.format(record['property'], record['path']))
            return 1
    print('ERROR: no such space', record['space'])
    return 2
