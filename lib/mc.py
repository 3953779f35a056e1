"""Small explicit-state / bounded-exhaustive exploration framework used by every check.

A check module (checks/cNN.py) defines
    PROPERTY, LEVEL ('model_checking' | 'exploration' | 'fault_enumeration'), BUILD (targets of lib/build.py)
    RULE    text: how cases are made / what is non-trivial
    ASSUMPTIONS  list of str
    tasks(tier) -> list of JSON-able task descriptors (each explored exhaustively by run())
    run(task, ctx) -> None       (ctx collects counts and violations)
Every task runs in its own forked process: no state leaks between tasks, a crash is attributed to its task.
"""
import fnmatch, hashlib, json, math, os, pickle, select, signal, sys, time, traceback
import itertools

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get('VERIF_REPO', '/repo')


class Ctx:
    def __init__(self, task, tier):
        self.task, self.tier = task, tier
        self.c = dict(states=0, transitions=0, traces=0, evals=0)
        self.states = set()
        self.outcomes = set()
        self.violations = {}
        self.samples = []
        self.skips = {}
        self.notes = {}
        self.nviol = 0

    # --- counting ---
    def states_n(self, n):
        """States counted (and known to be distinct) elsewhere."""
        self.c['states'] += n

    def state(self, key):
        self.states.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def trans(self, n=1):
        self.c['transitions'] += n

    def trace(self, n=1):
        self.c['traces'] += n

    def ev(self, n=1):
        self.c['evals'] += n

    def outcome(self, key):
        self.outcomes.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s)

    def skip(self, why):
        self.skips[why] = self.skips.get(why, 0) + 1

    def note(self, k, v=1):
        self.notes[k] = self.notes.get(k, 0) + v

    # --- violations ---
    def violation(self, key, msg, data=None):
        self.nviol += 1
        key = str(key)
        if key not in self.violations and len(self.violations) < 200:
            self.violations[key] = (str(msg)[:3000], data)

    def close(self, key, got, want, rtol=1e-9, atol=0.0, msg='', data=None, scale=None):
        """Compare scalars/arrays; NaN==NaN, inf==inf. Returns True when equal within tolerance."""
        bad = mismatch(got, want, rtol, atol, scale)
        if bad is not None:
            self.violation(key, f'{msg}: {bad}', data)
            return False
        return True

    def eq(self, key, got, want, msg='', data=None):
        if not (got == want):
            self.violation(key, f'{msg}: got {short(got)} want {short(want)}', data)
            return False
        return True

    def check(self, key, cond, msg='', data=None):
        if not cond:
            self.violation(key, msg, data)
            return False
        return True

    def result(self):
        return dict(c=self.c, states=self.states, outcomes=self.outcomes, violations=self.violations,
                    samples=self.samples, skips=self.skips, notes=self.notes, nviol=self.nviol)


def short(x, n=300):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


def mismatch(got, want, rtol, atol=0.0, scale=None):
    import numpy as np
    a = np.asarray(got, dtype=float)
    b = np.asarray(want, dtype=float)
    if a.shape != b.shape:
        return f'shape {a.shape} != {b.shape}'
    if a.size == 0:
        return None
    with np.errstate(all='ignore'):
        if scale is not None:
            tol = atol + rtol * np.maximum(np.abs(b), scale)
        else:
            tol = atol + rtol * np.maximum(np.abs(b), np.abs(a))
        ok = (np.abs(a - b) <= tol) | (a == b) | (np.isnan(a) & np.isnan(b))
    if ok.all():
        return None
    i = np.argwhere(~ok)[0]
    i = tuple(int(j) for j in i)
    return f'at {i if i else ""}: got {a[i]!r} want {b[i]!r} (rtol {rtol:g}, {int((~ok).sum())}/{a.size} differ)'


def load(prop):
    import importlib.util
    path = f'{V}/checks/{prop.lower()}.py'
    spec = importlib.util.spec_from_file_location(prop.lower(), path)
    m = importlib.util.module_from_spec(spec)
    sys.path.insert(0, f'{V}/checks')
    sys.path.insert(0, f'{V}/lib')
    spec.loader.exec_module(m)
    return m


def known(prop):
    """committed known findings: list of (key glob, text)."""
    out = []
    p = f'{V}/known_findings.txt'
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('KNOWN-FINDING:'):
                f = line.split(None, 3)
                if f[1] == f'property={prop}' and f[2].startswith('key='):
                    out.append((f[2][4:], f[3] if len(f) > 3 else ''))
    return out


def _child(mod, task, tier, wfd):
    try:
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
        if not os.environ.get('VERIF_STDERR'):
            os.dup2(dn, 2)
        import warnings
        warnings.simplefilter('ignore')
        ctx = Ctx(task, tier)
        try:
            mod.run(task, ctx)
            res = ('ok', ctx.result())
        except BaseException:
            res = ('error', traceback.format_exc())
    except BaseException:
        res = ('error', traceback.format_exc())
    data = pickle.dumps(res)
    with os.fdopen(wfd, 'wb') as f:
        f.write(data)
    os._exit(0)


def run_tasks(mod, tasks, tier, jobs, tmo, progress=False):
    """Run every task in its own forked child. Returns {index: (status, payload)}."""
    results = {}
    pending = list(range(len(tasks)))
    live = {}
    while pending or live:
        while pending and len(live) < jobs:
            i = pending.pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                os.setpgid(0, 0)
                _child(mod, tasks[i], tier, w)
            os.close(w)
            live[r] = [pid, i, time.time(), b'']
        rl, _, _ = select.select(list(live), [], [], 0.5)
        for fd in rl:
            chunk = os.read(fd, 1 << 20)
            ent = live[fd]
            if chunk:
                ent[3] += chunk
                continue
            os.close(fd)
            _, st = os.waitpid(ent[0], 0)
            del live[fd]
            if ent[3]:
                try:
                    results[ent[1]] = pickle.loads(ent[3])
                except Exception as e:
                    results[ent[1]] = ('crash', f'unreadable result ({e}), wait status {st}')
            else:
                sig = st & 0x7f
                results[ent[1]] = ('crash', f'killed by signal {sig}' if sig else f'exit status {st >> 8}')
            if progress:
                print(f'  [{len(results)}/{len(tasks)}] {time.time() - ent[2]:.1f}s {results[ent[1]][0]} {short(tasks[ent[1]], 120)}', flush=True)
        now = time.time()
        for fd in list(live):
            ent = live[fd]
            if now - ent[2] > tmo:
                try:
                    os.killpg(ent[0], signal.SIGKILL)
                except OSError:
                    os.kill(ent[0], signal.SIGKILL)
                os.waitpid(ent[0], 0)
                os.close(fd)
                del live[fd]
                results[ent[1]] = ('timeout', f'no result within {tmo:.0f} s')
    return results


def main(prop, argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--only', help='substring of the task descriptor')
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 8))
    ap.add_argument('-k', type=int, default=0, help='list all violations, this many characters each')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--list', action='store_true')
    a = ap.parse_args(argv)
    t0 = time.time()
    mod = load(prop)
    tmo = getattr(mod, 'TIMEOUT', 400 if a.tier == 'quick' else 20000)
    if a.replay:
        rep = json.load(open(a.replay))
        tasks = [rep['task']]
        a.tier = rep.get('tier', a.tier)
    else:
        tasks = json.loads(json.dumps(mod.tasks(a.tier)))
        if a.only:
            tasks = [t for t in tasks if a.only in json.dumps(t)]
    if a.list:
        for t in tasks:
            print(json.dumps(t))
        return 0
    if hasattr(mod, 'prepare'):
        mod.prepare(tasks, a.tier)
    res = run_tasks(mod, tasks, a.tier, a.jobs, tmo, a.v)
    # a crash or timeout is re-run alone before it is believed
    for i in list(res):
        if res[i][0] in ('crash', 'timeout'):
            again = run_tasks(mod, [tasks[i]], a.tier, 1, tmo * (1 if res[i][0] == 'crash' else 1.5))[0]
            res[i] = again
    errors = [(i, r) for i, r in res.items() if r[0] == 'error']
    viol = {}
    tot = dict(states=0, transitions=0, traces=0, evals=0)
    states, outcomes, samples, skips, notes, nviol = set(), set(), [], {}, {}, 0
    for i in sorted(res):
        st, pl = res[i]
        if st == 'ok':
            for k, v in pl['c'].items():
                tot[k] += v
            states |= pl['states']
            outcomes |= pl['outcomes']
            if len(samples) < 12:
                samples += pl['samples']
            for k, v in pl['skips'].items():
                skips[k] = skips.get(k, 0) + v
            for k, v in pl['notes'].items():
                notes[k] = notes.get(k, 0) + v
            nviol += pl['nviol']
            for k, (m, d) in pl['violations'].items():
                viol.setdefault(k, (i, m, d))
        elif st == 'crash':
            viol.setdefault(f'crash:{json.dumps(tasks[i])[:200]}', (i, f'the process exploring this task died: {pl}', None))
        elif st == 'timeout':
            viol.setdefault(f'hang:{json.dumps(tasks[i])[:200]}', (i, f'exploration does not terminate: {pl}', None))
    kf = known(prop)
    unlisted, listed = {}, {}
    for k, v in viol.items():
        for g, text in kf:
            if fnmatch.fnmatchcase(k, g):
                listed.setdefault((g, text), []).append(k)
                break
        else:
            unlisted[k] = v
    # replay before report: the task must fail the same way in a fresh process
    confirmed = {}
    for k, (i, m, d) in list(unlisted.items()):
        if k.startswith(('crash:', 'hang:')):
            confirmed[k] = (i, m, d)
    todo = sorted({i for k, (i, m, d) in unlisted.items() if k not in confirmed})
    if todo:
        # confirm the first few failing tasks; further ones add nothing
        todo = todo[:8] if not a.k else todo
        rr = run_tasks(mod, [tasks[i] for i in todo], a.tier, a.jobs, tmo * 1.5)
        for n, i in enumerate(todo):
            if rr[n][0] == 'ok':
                for k, (m, d) in rr[n][1]['violations'].items():
                    if k in unlisted:
                        confirmed.setdefault(k, (i, m, d))
            elif rr[n][0] in ('crash', 'timeout'):
                confirmed.setdefault(f'{rr[n][0]}:{json.dumps(tasks[i])[:200]}', (i, rr[n][1], None))
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cov = {}
    if mod.LEVEL == 'model_checking':
        cov.update(states=(len(states) + tot['states']), transitions=tot['transitions'], traces_validated_against_impl=tot['traces'],
                   property_evaluations=tot['evals'], distinct_outcomes=len(outcomes))
    else:
        cov.update(evaluations=tot['evals'], distinct_nontrivial=len(outcomes), histories=tot['traces'], operations=tot['transitions'])
    cov.update(rule=getattr(mod, 'RULE', ''), samples=samples[:12] or ['(none)'], exhaustive=True, tasks=len(tasks),
               bounds=getattr(mod, 'BOUNDS', {}).get(a.tier, ''), skipped=skips, notes=notes)
    evid = dict(property=prop, tier=a.tier if a.tier in ('quick', 'thorough') else 'quick', seed=seed, level=mod.LEVEL, coverage=cov,
                assumptions=list(getattr(mod, 'ASSUMPTIONS', [])), wall_s=round(time.time() - t0, 2), violations=len(confirmed))
    if not a.replay and not a.only:
        os.makedirs(f'{V}/evidence', exist_ok=True)
        with open(f'{V}/evidence/{prop}.json', 'w') as f:
            json.dump(evid, f, indent=1)
    for (g, text), ks in listed.items():
        print(f'KNOWN-FINDING: property={prop} {text} [{len(ks)} case(s), e.g. {ks[0]}]')
    print(f'{prop} {a.tier}: tasks={len(tasks)} states={len(states) + tot["states"]} transitions={tot["transitions"]} traces={tot["traces"]} '
          f'evals={tot["evals"]} outcomes={len(outcomes)} skips={sum(skips.values())} wall={time.time() - t0:.1f}s')
    if skips and a.v:
        for k, v in sorted(skips.items(), key=lambda t: -t[1])[:40]:
            print('   skip', v, k)
    if notes and a.v:
        for k, v in sorted(notes.items()):
            print('   note', v, k)
    for i, (st, pl) in errors[:5]:
        print(f'ERROR in task {short(tasks[i], 200)}:\n{pl}')
    if confirmed:
        os.makedirs(f'{V}/evidence/replay', exist_ok=True)
        for n, k in enumerate(sorted(confirmed, key=lambda k: (len(k), k))):
            i, m, d = confirmed[k]
            path = f'{V}/evidence/replay/{prop}-{n}.json'
            if n < 10:
                with open(path, 'w') as f:
                    json.dump(dict(property=prop, tier=a.tier, task=tasks[i], key=k, message=m, data=d), f, indent=1, default=str)
            if n < (60 if a.v else 10) or a.k:
                print(f'  {k}: {" ".join(m.split())[:a.k or 400]}')
                if n < 10:
                    print(f'VIOLATION property={prop} replay={path}')
        return 1
    for k in unlisted:
        print(f'note: not reproduced in a fresh process, not reported: {k}: {unlisted[k][1][:300]}')
    if errors:
        return 2
    return 0
