"""Shared driver: exhaustive enumeration of a bounded case space, executed on the real code.

A check module defines
    PID, TECH (one line), RULE (how the space is built), ASSUME (list of str)
    cases(tier)            -> iterator of (case_id, payload); deterministic, finite, complete
    run_case(cid, payload, st) -> iterable of (signature, detail) violations
The driver partitions the enumeration over worker processes, runs every case,
aggregates counts, filters listed known findings and writes the evidence file.
"""
import contextlib
import hashlib
import importlib
import io
import json
import multiprocessing as mp
import resource
import os
import signal
import sys
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
if ROOT not in sys.path:
    sys.path.insert(1, ROOT)
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')

CASE_TIMEOUT = float(os.environ.get('VERIF_CASE_TIMEOUT', '60'))
EARLY = {'quick': 300, 'thorough': 3000}   # seconds after which an exploration that already has an unlisted violation ends
HANG_CAP = 3          # unlisted cases without an answer after which a worker ends its share (the check then exits 1)
MEM_CAP = 4 << 30     # bytes of data a worker may hold: code under test that grows without bound ends as a violation


CALLS = 0      # operations executed on the code under test (= transitions taken)


class Hang(Exception):
    pass


class ToolError(Exception):
    """The tool raised on an input of the property's domain."""


class Stats:
    def __init__(self):
        self.cases = 0
        self.transitions = 0
        self.validated = 0
        self.outcomes = set()
        self.samples = []
        self.counters = {}

    def state(self, *key):
        """a distinct explored state (hashed)"""
        self.outcome(*key)

    def valid(self, n=1):
        self.validated += n

    def outcome(self, *key):
        self.outcomes.add(hashlib.md5(repr(key).encode()).digest()[:8])

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def sample(self, obj, cap=4):
        if len(self.samples) < cap:
            self.samples.append(obj)

    def merge(self, o):
        self.cases += o.cases
        self.transitions += o.transitions
        self.validated += o.validated
        self.outcomes |= o.outcomes
        for k, v in o.counters.items():
            self.counters[k] = self.counters.get(k, 0) + v
        for s in o.samples:
            if len(self.samples) < 8:
                self.samples.append(s)


@contextlib.contextmanager
def quiet():
    """Silence the tool's prints and warnings."""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with contextlib.redirect_stdout(io.StringIO()):
            yield


def tool(fn, *a, **k):
    """Call the code under test; an exception becomes ToolError(type, message)."""
    global CALLS
    CALLS += 1
    try:
        with quiet():
            return fn(*a, **k)
    except Hang:
        raise
    except Exception as e:  # noqa
        tb = traceback.extract_tb(e.__traceback__)
        raise ToolError(f'{type(e).__name__}', f'{e}'[:200], f'{os.path.basename(tb[-1].filename)}:{tb[-1].name}')


def _alarm(sig, frm):
    raise Hang()


def _run_one(mod, cid, payload, st):
    signal.setitimer(signal.ITIMER_REAL, CASE_TIMEOUT)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            out = list(mod.run_case(cid, payload, st) or [])
    except Hang:
        out = [('hang', f'no answer within {CASE_TIMEOUT}s')]
    except MemoryError:
        out = [('raises:MemoryError', f'more than {MEM_CAP >> 30} GB held')]
    except ToolError as e:
        out = [('raises:' + e.args[0], ' '.join(str(x) for x in e.args))]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    st.cases += 1
    return out


def _worker(modname, tier, idx, n, only, q, flag):
    signal.signal(signal.SIGALRM, _alarm)
    st = Stats()
    viol = []
    nviol = 0
    err = None
    hangs = 0
    t0 = time.time()
    try:
        with contextlib.suppress(Exception):
            resource.setrlimit(resource.RLIMIT_DATA, (MEM_CAP, resource.getrlimit(resource.RLIMIT_DATA)[1]))
        known = load_known(modname.split('.')[-1].split('_')[0].upper())
        mod = importlib.import_module(modname)
        total = 0
        for i, (cid, payload) in enumerate(mod.cases(tier)):
            total += 1
            if only is not None:
                if cid != only or idx != 0:
                    continue
            elif i % n != idx or hangs >= HANG_CAP:
                continue
            elif flag.value and time.time() - t0 > EARLY[tier]:
                break
            for sig, detail in _run_one(mod, cid, payload, st):
                nviol += 1
                if not flag.value or sig in ('hang', 'raises:MemoryError'):
                    if match_known(known, cid, sig) is None:
                        flag.value = 1
                        hangs += sig in ('hang', 'raises:MemoryError')
                if len(viol) < 20000:
                    viol.append((cid, sig, str(detail)[:600]))
        st.counters['__total__'] = total if idx == 0 else 0
    except BaseException:
        err = traceback.format_exc()
    st.transitions = CALLS
    q.put((idx, st, viol, nviol, err))


def load_known(pid):
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        data = json.load(f)
    return [e for e in data.get('known', []) if e['property'] == pid]


def match_known(entries, cid, sig):
    for e in entries:
        for c in e['cases']:
            if isinstance(c, list):
                if c[0] == cid and c[1] == sig:
                    return e
    return None


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '8')))
    ap.add_argument('--replay')
    ap.add_argument('--case')
    ap.add_argument('--dump', help='write all violations as json (development)')
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '0') or 0)
    pid = a.pid
    modname = None
    for f in sorted(os.listdir(os.path.join(ROOT, 'mc'))):
        if f.startswith(pid.lower() + '_') and f.endswith('.py'):
            modname = 'mc.' + f[:-3]
    if modname is None:
        print('no such check', pid)
        return 2
    only = a.case
    if a.replay:
        with open(a.replay) as f:
            only = json.load(f)['case']
    t0 = time.time()
    mod = importlib.import_module(modname)
    ctx = mp.get_context('fork')
    q = ctx.Queue()
    flag = ctx.Value('b', 0)
    n = 1 if only is not None else max(1, a.jobs)
    procs = [ctx.Process(target=_worker, args=(modname, tier, i, n, only, q, flag)) for i in range(n)]
    for p in procs:
        p.start()
    st = Stats()
    viol = []
    nviol = 0
    errs = []
    got = 0
    while got < n:
        try:
            idx, s, v, nv, err = q.get(timeout=5)
        except Exception:
            if not any(p.is_alive() for p in procs) and q.empty():
                errs.append('a worker died')
                break
            continue
        got += 1
        st.merge(s)
        viol += v
        nviol += nv
        if err:
            errs.append(err)
    for p in procs:
        p.join(5)
        if p.is_alive():
            p.kill()
    total = st.counters.pop('__total__', 0)
    if hasattr(mod, 'finish') and only is None and not errs:
        for sig, detail in mod.finish(st, tier) or []:
            viol.append(('<global>', sig, detail))
            nviol += 1
    viol.sort()
    known = load_known(pid)
    fresh = []
    seen_known = {}
    for cid, sig, detail in viol:
        e = match_known(known, cid, sig)
        if e is None:
            fresh.append((cid, sig, detail))
        else:
            seen_known[e['id']] = e
    if a.dump:
        with open(a.dump, 'w') as f:
            json.dump(viol, f, indent=0)
    for kid in sorted(seen_known):
        print(f"KNOWN-FINDING: property={pid} {kid}: {seen_known[kid]['what']}")
    rc = 0
    if fresh:
        rc = 1
        d = os.path.join(ROOT, 'replays', pid)
        os.makedirs(d, exist_ok=True)
        bysig = {}
        for v in fresh:
            bysig.setdefault(v[1], []).append(v)
        shown = 0
        for sig in sorted(bysig):
            cid, _, detail = bysig[sig][0]
            h = hashlib.md5((cid + sig).encode()).hexdigest()[:10]
            path = os.path.join(d, h + '.json')
            with open(path, 'w') as f:
                json.dump({'property': pid, 'case': cid, 'signature': sig, 'detail': detail, 'tier': tier,
                           'replay_cmd': f'cd {ROOT} && ./check {pid} --tier {tier} --replay {path}'}, f, indent=1)
            if shown < 12:
                print(f'VIOLATION property={pid} replay={path}')
                print(f'  case={cid} what={sig} ({len(bysig[sig])} cases) {detail[:300]}')
            shown += 1
    if errs:
        print('CHECK ERROR (harness):')
        print(errs[0][-3000:])
        if rc == 0:
            rc = 2
    wall = time.time() - t0
    cov = {
        'states': len(st.outcomes), 'transitions': int(st.transitions),
        'traces_validated_against_impl': int(st.validated),
        'samples': st.samples or ['(none)'],
        'cases': int(st.cases),
        'rule': mod.RULE,
        'exhaustive': (only is None and not errs and st.cases == total),
    }
    for k, v in sorted(st.counters.items()):
        cov['n_' + k] = int(v)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'model_checking'), 'coverage': cov,
          'assumptions': mod.ASSUME, 'wall_s': round(wall, 2), 'violations': len(fresh),
          'known_findings_seen': sorted(seen_known)}
    if only is None:
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    print(f'{pid} tier={tier} cases={st.cases}/{total} states={len(st.outcomes)} transitions={st.transitions} '
          f'validated={st.validated} violations={len(fresh)} known={len(seen_known)} wall={wall:.1f}s')
    return rc
