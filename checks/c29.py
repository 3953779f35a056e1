"""C29: every schedule, up to a preemption bound, of threads that create and use their own objects, on a thread-sanitized build."""
import os, re, shutil, subprocess, tempfile

PROPERTY, LEVEL = 'C29', 'model_checking'
BUILD = ['t:thr_main']
TECHNIQUE = ('stateless exploration of the real library under a cooperative scheduler that owns every mutex and guarded static initialisation: all schedules with at most 1 (2) preemptions at lock operations, '
             'each in a fresh process; the happens-before race detector judges every pair of accesses of each schedule (the hand-offs of the scheduler are invisible to it), deadlock is the absence of a runnable thread, '
             'and the results of each thread are compared with those of a run alone')
LEVEL_NOTE = ('In a program without data races the order of lock operations determines the result, so switching only there is complete; the race detector checks that premise on each schedule. '
              'Code outside of the library (yaml-cpp, fmt, SUNDIALS, OpenBLAS) is not instrumented.')
RULE = 'A case is one schedule; states are the distinct (scenario, decision point) pairs; transitions are the decision points passed.'
ASSUMPTIONS = ['threads share no phase, mechanism or reactor; process-wide settings (warning flags) are not changed while threads run',
               'shared factories start uninitialised in each schedule (a fresh process), except where the scenario says late']
BOUNDS = {'quick': '2-3 threads, <= 1 preemption, all decision points (at most 2500 schedules a scenario)',
          'thorough': '2-3 threads, <= 2 preemptions (at most 60000 schedules a scenario)'}
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXE = V + '/build/t/thr_main'
R = os.environ.get('VERIF_REPO', '/repo')
MEAN = {-1: 'deadlock: no thread can run', 66: 'data race', 95: 'a thread locks a mutex it holds', 97: 'the schedule could not be repeated', 1000 + 14: 'no progress'}


def names():
    src = open(V + '/harness/thr_main.cpp').read()
    n = re.findall(r't\["([\w-]+)"\]', src)
    n += ['model-' + x for x in re.findall(r'P\{"(\w+)"', src)]
    return sorted(set(n))


SHARDS = {}


def tasks(tier):
    out = []
    for n in names():
        k = 8 if tier == 'thorough' else 1
        for i in range(k):
            out.append({'name': f'{n}:{i}', 's': n, 'shard': i, 'shards': k})
    return out


def frames(rep):
    """the first function of the library in each of the two accesses, and the location"""
    secs = re.split(r'\|  (?=(?:Write|Read|Previous|Atomic|As if|Location|Mutex|Thread|Heap))', rep)
    out = []
    for s in secs:
        if not re.match(r'\s*(Write|Read|Previous|Atomic)', s):
            continue
        f = ''
        for m in re.finditer(r'#\d+ (.*?) (/\S+|\.\./\S+|<null>|\(\S+)', s):
            path = m.group(2)
            if '/repo/' in path or R in path:
                fn = re.sub(r'\(.*', '', m.group(1))
                f = fn.split(' ')[-1]
                file = os.path.basename(path.split(':')[0])
                f = f'{f}[{file}]'
                break
        out.append(f or 'external')
    return out[:2]


def brief(rep):
    return re.sub(r'\(BuildId[^)]*\)|\(libcantera[^)]*\)|std::__cxx11::|std::char_traits<char>, |std::allocator<char>|Cantera::', '', rep)[:2500]


def run(task, ctx):
    d = tempfile.mkdtemp(prefix='c29')
    deep = ctx.tier == 'thorough'
    env = dict({k: v for k, v in os.environ.items() if k != 'LD_LIBRARY_PATH'}, OPENBLAS_NUM_THREADS='1', CANTERA_DATA=f'{R}/data:{R}/test/data')
    try:
        p = subprocess.run([EXE, task['s'], d, '2' if deep else '1', '60000' if deep else '2500', str(task['shard']), str(task['shards'])],
                           capture_output=True, text=True, errors='replace', env=env)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    done = None
    for line in p.stdout.splitlines():
        w = line.split(' ', 4)
        if w[0] == 'DONE':
            done = [int(x) for x in line.split()[1:]]
        elif w[0] == 'ALONE':
            ctx.violation(f'alone:{task["s"]}', f'the thread alone failed: {line[:1500]}')
            return
        elif w[0] == 'BAD':
            code = int(w[1])
            rep = w[4] if len(w) > 4 else ''
            what = MEAN.get(code, f'ended with {code}')
            if 'ThreadSanitizer' in rep:
                kind = re.search(r'ThreadSanitizer: ([\w -]+)', rep).group(1).strip()
                fr = frames(rep)
                ctx.violation(f'race:{"|".join(sorted(fr))}', f'{kind} in {task["s"]} between {fr}, schedule {w[3]}: {brief(rep)}')
            else:
                ctx.violation(f'{"deadlock" if code == -1 else "end"}:{task["s"]}', f'{what} in {task["s"]}, schedule {w[3]}: {rep[-600:]}')
        elif w[0] == 'DIFF':
            ctx.violation(f'result:{task["s"]}:{w[1]}', f'thread {w[1]} of {task["s"]} observed other results than alone: schedule and results {line[:1500]}')
    if done is None:
        ctx.violation(f'harness:{task["s"]}', f'the exploration ended with {p.returncode}: {p.stdout[-300:]} {p.stderr[-300:]}')
        return
    runs, points, maxp, cut, nb = done
    ctx.ev(runs)
    ctx.trace(runs)
    ctx.trans(points)
    for i in range(maxp):
        ctx.state((task['s'], i))
    if cut:
        ctx.note(f'cut:{task["s"]}', runs)
    ctx.sample(f'{task["s"]}: {runs} schedules of {nb} threads, {maxp} decision points')
    ctx.outcome((task['s'], runs, maxp))
