"""Explorer core: exhaustive enumeration of bounded state spaces of the real code.

A check module (mc/cNN.py) supplies

    ID        property id
    shards(tier)          -> list of JSON-able shard descriptors (fixed enumeration order)
    explore(shard, rec)   -> walks every state/trace of the shard and compares the real
                             code with the reference model, through `rec`
    replay(case)          -> re-runs one recorded case, returns list of messages (empty = ok)
    BOUNDS(tier)          -> dict describing the explored space

`rec.run(case, fn)` runs fn() (which returns None/'' or a message) as one validated trace.
An exception that goes through a frame of the code under test is a violation, and so is one raised
while its answer is read; HarnessError, import, memory and system errors are errors of the harness.
"""
import collections
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

REPO = os.environ.get('MC_REPO', '/repo')
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAX_FAIL_PER_SHARD = 5
MAX_FAIL = 25
CASE_TIMEOUT = 180


class Hang(Exception):
    pass


class HarnessError(Exception):
    pass


OWN = (HarnessError, ImportError, MemoryError, OSError)  # faults of the harness or of its surroundings


class Fail(Exception):
    """raised by a check when the real code disagrees with the model"""


def _through_repo(tb):
    root = os.path.join(REPO, '')
    while tb is not None:
        if os.path.abspath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    return False


def _alarm(signum, frame):
    raise Hang('no result within the time allowed for one case')


class Recorder:
    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.extra = collections.Counter()
        self.outcomes = set()
        self.samples = []
        self.fails = []
        self.errors = []
        self.slowest = 0.
        self.hung = False

    # counting -------------------------------------------------------------
    def state(self, n=1):
        self.states += n

    def step(self, n=1):
        self.transitions += n

    def count(self, name, n=1):
        self.extra[name] += n

    def outcome(self, value):
        if len(self.outcomes) < 200000:
            self.outcomes.add(hash(value))

    def sample(self, what):
        if len(self.samples) < 2:
            self.samples.append(what)

    @property
    def full(self):
        return self.hung or len(self.fails) >= MAX_FAIL_PER_SHARD

    # one trace --------------------------------------------------------------
    def run(self, case, fn):
        """returns True when the trace agrees with the model"""
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(CASE_TIMEOUT)
        t0 = time.time()
        try:
            msg = fn()
        except Fail as exc:
            msg = str(exc) or 'model and code disagree'
        except Hang as exc:
            msg = str(exc)
            self.hung = True  # the rest would hang as well
        except Exception as exc:
            if _through_repo(exc.__traceback__):
                msg = 'unexpected %s: %s' % (type(exc).__name__, exc)
            elif not isinstance(exc, OWN):
                # the answer of the code cannot even be read as the kind of object it is documented to be
                msg = 'unusable answer, %s: %s' % (type(exc).__name__, exc)
            else:
                signal.alarm(0)
                self.errors.append(traceback.format_exc())
                return False
        signal.alarm(0)
        self.slowest = max(self.slowest, time.time() - t0)
        self.validated += 1
        self.sample(case)
        if msg:
            self.fails.append({'case': case, 'what': msg})
            return False
        return True

    def dump(self):
        return dict(states=self.states, transitions=self.transitions, validated=self.validated,
                    extra=dict(self.extra), outcomes=self.outcomes, samples=self.samples,
                    fails=self.fails, errors=self.errors, slowest=self.slowest, hung=self.hung)


def _work(args):
    modname, shard = args
    import importlib
    mod = importlib.import_module('mc.' + modname)
    rec = Recorder()
    try:
        mod.explore(shard, rec)
    except Exception as exc:
        if _through_repo(exc.__traceback__) or not isinstance(exc, OWN):
            rec.fails.append({'case': {'shard': shard}, 'what':
                              'unexpected %s: %s' % (type(exc).__name__, exc)})
        else:
            rec.errors.append(traceback.format_exc())
    return rec.dump()


def known_findings(pid):
    known = []
    path = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('known: property=%s ' % pid):
                _, _, key, what = line.rstrip('\n').split(' ', 3)
                known.append((key.split('=', 1)[1], what))
    return known


def run_check(modname, tier, seed):
    import importlib
    t0 = time.time()
    mod = importlib.import_module('mc.' + modname)
    pid = mod.ID
    import composipy
    if not os.path.abspath(composipy.__file__).startswith(os.path.join(os.path.abspath(REPO), '')):
        print('composipy was not imported from', REPO, file=sys.stderr)
        return 2
    if hasattr(mod, 'prepare'):
        mod.prepare(tier)
    shards = mod.shards(tier)
    procs = min(int(os.environ.get('MC_PROCS', '8')), max(1, len(shards)))
    with mp.get_context('fork').Pool(procs, maxtasksperchild=getattr(mod, 'TASKS_PER_CHILD', None)) as pool:
        outs, bad = [], 0
        for o in pool.imap(_work, [(modname, s) for s in shards], chunksize=1):
            outs.append(o)
            bad += len(o['fails'])
            if bad >= MAX_FAIL or o['hung']:
                pool.terminate()
                break
    tot = collections.Counter()
    extra = collections.Counter()
    outcomes, samples, fails, errors = set(), [], [], []
    for o in outs:
        for k in ('states', 'transitions', 'validated'):
            tot[k] += o[k]
        extra.update(o['extra'])
        outcomes |= o['outcomes']
        fails += o['fails']
        errors += o['errors']
    for o in outs[::max(1, len(outs) // 4)]:
        samples += o['samples'][:1]
    known = known_findings(pid)
    keyf = getattr(mod, 'finding_key', lambda case: None)
    new = []
    for f in fails:
        k = keyf(f['case'])
        if k is None or k not in [a for a, _ in known]:
            new.append(f)
    for k, what in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, what))
    cov = dict(states=tot['states'], transitions=tot['transitions'],
               traces_validated_against_impl=tot['validated'],
               distinct_observed_outcomes=len(outcomes), shards=len(shards),
               bounds=mod.BOUNDS(tier), exhaustive=not fails and not errors,
               samples=samples[:4] or ['none'])
    cov['slowest_case_s'] = round(max([o['slowest'] for o in outs] or [0]), 1)
    cov.update({k: int(v) for k, v in extra.items()})
    ev = dict(property=pid, tier=tier, seed=seed, level=getattr(mod, 'LEVEL', 'model_checking'), coverage=cov,
              assumptions=getattr(mod, 'ASSUMPTIONS', []), wall_s=round(time.time() - t0, 2),
              violations=len(new))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
    rdir = os.path.join(ROOT, 'evidence', 'replay')
    path = os.path.join(rdir, pid + '.json')
    if os.path.exists(path):
        os.remove(path)
    if new:
        os.makedirs(rdir, exist_ok=True)
        with open(path, 'w') as fh:
            json.dump(dict(property=pid, module=modname, failures=new[:20]), fh, indent=1, default=str)
        print('%d failing cases; first: %s' % (len(new), json.dumps(new[0], default=str)[:1500]))
        print('VIOLATION property=%s replay=%s' % (pid, os.path.relpath(path, ROOT)))
        return 1
    if errors:
        print(errors[0], file=sys.stderr)
        print('%d harness errors' % len(errors), file=sys.stderr)
        return 2
    print('OK property=%s tier=%s states=%d transitions=%d traces=%d outcomes=%d wall=%.1fs' % (
        pid, tier, tot['states'], tot['transitions'], tot['validated'], len(outcomes), time.time() - t0))
    return 0


def replay(path):
    import importlib
    data = json.load(open(path))
    mod = importlib.import_module('mc.' + data['module'])
    bad = 0
    for f in data['failures']:
        rec = Recorder()
        mod.replay(f['case'], rec) if hasattr(mod, 'replay') else mod.explore(f['case'].get('shard'), rec)
        for g in rec.fails:
            bad += 1
            print('REPRODUCED', json.dumps(g, default=str)[:1000])
        for e in rec.errors:
            print('ERROR', e)
    print('%d failures reproduced' % bad)
    return 1 if bad else 0


def bfs(initial, events, apply, canon, depth, visit=None):
    """Explicit-state search.  A state is rebuilt from its history (list of events);
    `visit(hist, state)` sees every distinct state once, `apply` every transition."""
    s0 = apply([])
    seen = {canon(s0)}
    front = collections.deque([[]])
    trans = 0
    if visit:
        visit([], s0)
    maxd = 0
    while front:
        hist = front.popleft()
        if len(hist) >= depth:
            continue
        for ev in events(hist):
            nxt = apply(hist + [ev])
            trans += 1
            k = canon(nxt)
            if k not in seen:
                seen.add(k)
                maxd = max(maxd, len(hist) + 1)
                front.append(hist + [ev])
                if visit:
                    visit(hist + [ev], nxt)
    return len(seen), trans, maxd
