"""Explorer core: exhaustive enumeration of cases on the real code, in parallel.

A *check module* (mc/checks/cNN.py) provides

* ``ID``, ``RULE``, ``ASSUMPTIONS``, ``BOUNDS`` (text used in the evidence file) ;
* ``cases(tier)``: a deterministic generator of cases (plain, ``repr``-able python
  literals), the simplest first ;
* ``run(case, rec)``: executes one case on the real code, compares every step with
  the reference model and raises :class:`Violation` when they disagree.

Every case is executed on the real implementation (imported from /repo/src).
"""

import ast
import gc
import hashlib
import importlib
import io
import itertools
import json
import logging
import os
import pickle
import resource
import signal
import struct
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('FP_REPO', '/repo')


class Violation(Exception):
    """The implementation and the specification disagree."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.msg = msg
        self.key = key


class Hang(BaseException):
    """A single case did not end within its time limit."""


CASE_TIMEOUT = float(os.environ.get('MC_CASE_TIMEOUT', 15))
MEM_LIMIT = 3 << 30


class Recorder:
    """Counts what is really explored."""

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = dict()
        self.samples = list()
        self.cases = 0

    def state(self, canonical):
        h = hashlib.blake2b(repr(canonical).encode('utf-8', 'backslashreplace'), digest_size=8).digest()
        self.states.add(h)

    def op(self, n=1):
        self.transitions += n

    def outcome(self, label):
        label = str(label)
        self.outcomes[label] = self.outcomes.get(label, 0) + 1


# ---------------------------------------------------------------- environment

def setup_environment():
    """Make the code under test importable and quiet."""
    sys.dont_write_bytecode = True
    src = os.path.join(REPO, 'src')
    if src not in sys.path:
        sys.path.insert(0, src)
    if VERIF not in sys.path:
        sys.path.insert(1, VERIF)
    import footprints
    if not os.path.abspath(footprints.__file__).startswith(os.path.abspath(src) + os.sep):
        raise RuntimeError('footprints imported from ' + footprints.__file__)
    root = logging.getLogger()
    for lg in [root] + [logging.getLogger(n) for n in list(logging.root.manager.loggerDict)]:
        for h in list(lg.handlers):
            lg.removeHandler(h)
    root.addHandler(logging.NullHandler())
    root.setLevel(logging.CRITICAL + 10)
    for n in list(logging.root.manager.loggerDict):
        lg = logging.getLogger(n)
        lg.setLevel(logging.CRITICAL + 10)


def load_check(pid):
    return importlib.import_module('mc.checks.' + pid.lower())


def _alarm(signum, frame):  # pragma: no cover
    raise Hang()


class Silence:
    """Capture whatever is printed by the code under test."""

    def __enter__(self):
        self._old = sys.stdout
        sys.stdout = self.buf = io.StringIO()
        return self.buf

    def __exit__(self, *a):
        sys.stdout = self._old
        return False


def run_case(mod, case, rec, timeout=CASE_TIMEOUT):
    """Run a single case. Return None or a (key, message) pair."""
    from mc import world
    signal.signal(signal.SIGALRM, _alarm)
    try:
        signal.setitimer(signal.ITIMER_REAL, timeout)
        try:
            world.reset()
            with Silence():
                mod.run(case, rec)
            rec.traces += 1
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Violation as v:
        return (v.key, v.msg)
    except Hang:
        return ('hang', 'the case did not end within {:g}s (endless loop ?)'.format(timeout))
    except MemoryError:
        return ('memory', 'the case exhausted its memory limit')
    except RecursionError:
        return ('recursion', 'unbounded recursion: ' + traceback.format_exc(limit=-4))
    except (KeyboardInterrupt, SystemExit):
        raise
    except Exception:
        return ('exception', 'unexpected exception\n' + traceback.format_exc(limit=-6))
    return None


# ---------------------------------------------------------------- workers

BLOCK = 16


def worker(mod, tier, w, nw, deadline, fd, known):
    os.environ['MC_WORKER'] = str(w)
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    rec = Recorder()
    found = []
    capped = False
    knownhits = dict()
    total = 0
    gc.collect()
    gc.freeze()
    for i, case in enumerate(mod.cases(tier)):
        total = i + 1
        if (i // BLOCK) % nw != w:
            continue
        if i % BLOCK == 0 and time.time() > deadline:
            capped = True
            break
        rec.cases += 1
        bad = run_case(mod, case, rec)
        if bad is not None:
            if bad[0] == 'hang':
                # A loaded machine is not an endless loop: try again, longer
                bad = run_case(mod, case, rec, timeout=2 * CASE_TIMEOUT)
                if bad is None:
                    continue
            kh = [k for k in known if k['key'] == bad[0]]
            if kh:
                knownhits.setdefault(bad[0], (i, repr(case), bad[1]))
                continue
            found.append((i, case, bad[0], bad[1]))
            break
        if len(rec.samples) < 2:
            rec.samples.append(case)
    rec.total = total
    data = pickle.dumps(dict(states=b''.join(rec.states), transitions=rec.transitions, traces=rec.traces,
                             outcomes=rec.outcomes, samples=rec.samples, cases=rec.cases, total=total,
                             found=found, capped=capped, knownhits=knownhits))
    with os.fdopen(fd, 'wb') as fh:
        fh.write(data)
    os._exit(0)


def explore(mod, tier, nw, budget, known):
    deadline = time.time() + budget
    pids = []
    fds = {}
    for w in range(nw):
        r, wfd = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                for f in fds:
                    os.close(f)
                worker(mod, tier, w, nw, deadline, wfd, known)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(3)
        os.close(wfd)
        pids.append(pid)
        fds[r] = b''
    import selectors
    sel = selectors.DefaultSelector()
    for r in fds:
        sel.register(r, selectors.EVENT_READ)
    opened = set(fds)
    while opened:
        for key, _ in sel.select():
            chunk = os.read(key.fd, 1 << 20)
            if chunk:
                fds[key.fd] += chunk
            else:
                sel.unregister(key.fd)
                os.close(key.fd)
                opened.discard(key.fd)
    rcs = [os.waitpid(p, 0)[1] for p in pids]
    res = []
    for r, rc in zip(fds, rcs):
        if rc != 0 or not fds[r]:
            raise RuntimeError('a worker ended badly (status {!r})'.format(rcs))
        res.append(pickle.loads(fds[r]))
    return res


# ---------------------------------------------------------------- known findings

def known_findings(pid):
    """Entries ``finding: property=<id> key=<key> <text>`` of known_findings.txt."""
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        with open(path, encoding='utf-8') as fh:
            for line in fh:
                line = line.strip()
                if line.startswith('finding: property=' + pid + ' '):
                    rest = line.split(' ', 2)[2]
                    key, _, text = rest.partition(' ')
                    out.append(dict(key=key.partition('=')[2], text=text))
    return out


# ---------------------------------------------------------------- replay

def write_replay(pid, case, key, msg):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    name = '{}-{}.json'.format(pid, hashlib.blake2b(repr(case).encode(), digest_size=4).hexdigest())
    path = os.path.join(d, name)
    with open(path, 'w', encoding='utf-8') as fh:
        json.dump(dict(property=pid, case=repr(case), key=key, message=msg,
                       how='cd /verif && ./check replay ' + path), fh, indent=1)
    return path


def replay(path):
    with open(path, encoding='utf-8') as fh:
        d = json.load(fh)
    setup_environment()
    mod = load_check(d['property'])
    case = ast.literal_eval(d['case'])
    bad = run_case(mod, case, Recorder())
    print('case:', d['case'])
    if bad is None:
        print('the case passes')
        return 0
    print(bad[1])
    print('VIOLATION property={} replay={}'.format(d['property'], path))
    return 1


# ---------------------------------------------------------------- main

def main(argv):
    if argv[:1] == ['replay']:
        return replay(argv[1])
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    nw = int(os.environ.get('MC_WORKERS', 0)) or max(2, min(8, os.cpu_count() or 2))
    budget = float(os.environ.get('MC_BUDGET', 0)) or (400. if tier == 'quick' else 3 * 3600.)
    t0 = time.time()
    try:
        setup_environment()
        mod = load_check(pid)
    except Exception:
        # The package cannot even be imported: no property can hold
        msg = 'cannot import the code under test\n' + traceback.format_exc(limit=-6)
        print(msg)
        path = write_replay(pid, 'import', 'import', msg)
        print('VIOLATION property={} replay={}'.format(pid, path))
        return 1
    known = known_findings(pid)
    res = explore(mod, tier, nw, budget, known)
    states = set()
    for r in res:
        s = r['states']
        states.update(s[i:i + 8] for i in range(0, len(s), 8))
    transitions = sum(r['transitions'] for r in res)
    traces = sum(r['traces'] for r in res)
    ncases = sum(r['cases'] for r in res)
    capped = any(r['capped'] for r in res)
    outcomes = dict()
    for r in res:
        for k, v in r['outcomes'].items():
            outcomes[k] = outcomes.get(k, 0) + v
    found = sorted((f for r in res for f in r['found']), key=lambda f: f[0])
    samples = [repr(s)[:600] for s in itertools.islice((s for r in res for s in r['samples']), 6)]
    if not samples:
        samples = [repr(f[1])[:600] for f in found[:1]]
    wall = time.time() - t0
    coverage = dict(states=len(states), transitions=transitions, traces_validated_against_impl=traces,
                    samples=samples, exhaustive=not capped and not found,
                    distinct_outcomes=len(outcomes),
                    outcome_histogram=dict(sorted(outcomes.items(), key=lambda kv: (-kv[1], kv[0]))[:40]),
                    bounds=mod.BOUNDS[tier] if isinstance(mod.BOUNDS, dict) else mod.BOUNDS,
                    rule=mod.RULE, capped=capped, workers=nw)
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=coverage,
              assumptions=list(mod.ASSUMPTIONS), wall_s=round(wall, 2), violations=len(found[:1]))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w', encoding='utf-8') as fh:
        json.dump(ev, fh, indent=1, ensure_ascii=True)
        fh.write('\n')
    print('{} {}: {} cases, {} states, {} transitions, {} traces, {} distinct outcomes, {:.1f}s{}'.format(
        pid, tier, ncases, len(states), transitions, traces, len(outcomes), wall,
        ' (CAPPED by the time budget)' if capped else ''))
    for k in known:
        print('KNOWN-FINDING: property={} {}'.format(pid, k['text']))
    if found:
        i, case, key, msg = found[0]
        path = write_replay(pid, case, key, msg)
        print('case #{}: {!r}'.format(i, case))
        print(msg)
        print('VIOLATION property={} replay={}'.format(pid, path))
        return 1
    return 0
