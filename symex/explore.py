"""Exploration of all paths of harness cases by a pool of workers, replay of candidates, evidence."""
from __future__ import annotations
import collections, hashlib, importlib, json, multiprocessing as mp, os, queue, random, resource, signal, subprocess, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')


class PathTimeout(BaseException):
    pass


def _alarm(*a):
    raise PathTimeout()


class Worker:
    def __init__(self, cases, mods):
        from . import instr
        self.instr = instr
        self.cases = cases
        self.mods = mods
        self.snap = instr.Snapshot()

    def run_path(self, case, prefix, stats, path_limit, want_sample):
        """returns dict(alts, status, violation, sample)"""
        from .core import Engine, PathAbort, Unsupported, discharge
        from .api import SymH, evaluate
        eng = Engine(prefix, stats)
        Engine.cur = eng
        self.snap.restore()
        h = SymH(eng)
        so = (sys.stdout, sys.stderr, sys.stdin)
        status, viol, sample = 'ok', None, None
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, path_limit)
        try:
            try:
                getattr(self.mods[case['mod']], case['fn'])(h, **case['args'])
            finally:
                sys.stdout, sys.stderr, sys.stdin = so
                signal.setitimer(signal.ITIMER_REAL, 0)
        except PathAbort as e:
            status = 'abort'
        except PathTimeout:
            status = 'timeout'
            eng.check(False, 'does not terminate (%d s)' % path_limit)
        except Unsupported as e:
            status = 'unsupported'
            stats['unsupported_why'] = (str(e) + traceback.format_exc())[-700:]
        except RecursionError as e:
            status = 'exception'
            eng.check(False, 'unexpected exception RecursionError')
        except Exception as e:
            status = 'exception'
            stats['last_exception'] = traceback.format_exc()[-1500:]
            eng.check(False, 'unexpected exception %s' % type(e).__name__)
        if status != 'abort':
            try:
                if status == 'unsupported':
                    m = eng.sat(model=True)
                    if m is not None:
                        viol = ('path could not be encoded', eng.model_values(m), 'probe')
                else:
                    signal.setitimer(signal.ITIMER_REAL, 120)
                    r = discharge(eng)
                    if r is not None:
                        viol = (r[0], r[1], 'cand')
                    elif want_sample:
                        m = eng.sat(model=True)
                        if m is None:
                            status = 'abort'
                        else:
                            vals = eng.model_values(m)
                            sample = {'values': vals, 'observed': evaluate(eng.observed, vals), 'notes': eng.notes,
                                      'decisions': len(eng.decisions)}
            except (Unsupported, PathTimeout):
                status = 'unsupported'
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        Engine.cur = None
        return {'alts': eng.alts, 'status': status, 'viol': viol, 'sample': sample, 'obl': len(eng.obligations),
                'dec': len(eng.decisions)}


def load(modules):
    """imports the instrumented code (once, in the parent of the workers)"""
    from . import instr
    sys.setrecursionlimit(12000)
    instr.install(REPO, VERIF, True)
    mods = {}
    for m in modules:
        mods[m] = importlib.import_module('harness.' + m)
        if hasattr(mods[m], 'preload'):
            mods[m].preload()
    return mods


def worker_main(wid, cases, task_q, res_q, seed, deadline, chunk_s, path_limit, mods, sample_rate, hungry):
    from . import instr
    from .concrete import jsonable
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        w = Worker(cases, mods)
    except BaseException:
        res_q.put(('dead', wid, traceback.format_exc()))
        return
    rnd = random.Random(seed * 1000 + wid)
    while True:
        t = task_q.get()
        if t is None:
            return
        tid, ci, prefix = t
        case = cases[ci]
        stack = [prefix]
        stats = {}
        cnt = collections.Counter()
        samples, viols = [], []
        first = prefix == ()
        t_end = min(time.monotonic() + (chunk_s / 6 if first or hungry.value else chunk_s), deadline)
        while stack:
            p = stack.pop()
            want = first or len(samples) < 1 or rnd.random() < sample_rate
            first = False
            try:
                r = w.run_path(case, p, stats, path_limit, want)
            except BaseException:
                res_q.put(('dead', wid, traceback.format_exc()))
                return
            cnt[r['status']] += 1
            cnt['obl'] += r['obl']
            cnt['dec'] += r['dec']
            stack.extend(r['alts'])
            if r['viol'] is not None:
                viols.append((r['viol'][0], r['viol'][1], r['viol'][2], stats.pop('last_exception', None)))
            if r['sample'] is not None and len(samples) < 6:
                s = r['sample']
                s['observed'] = jsonable(s['observed'])
                samples.append(s)
            if time.monotonic() > t_end or len(viols) >= 3:
                break
        res_q.put(('done', wid, tid, ci, stack, dict(stats), dict(cnt), samples, viols))


class Concrete:
    """server process with the untouched code"""

    def __init__(self):
        self.p = None

    def run(self, case, values, limit=20):
        for attempt in range(2):
            if self.p is None:
                env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
                self.p = subprocess.Popen([sys.executable, os.path.join(VERIF, 'symex', 'concrete.py')], stdin=subprocess.PIPE,
                                          stdout=subprocess.PIPE, text=True, env=env, stderr=subprocess.DEVNULL)
            try:
                self.p.stdin.write(json.dumps({'case': case, 'values': values, 'limit': limit}) + '\n')
                self.p.stdin.flush()
                import select
                r, _, _ = select.select([self.p.stdout], [], [], limit + 30)
                if not r:
                    self.close()
                    return {'status': 'timeout', 'failed': ['does not terminate'], 'observed': {}, 'trace': None}
                line = self.p.stdout.readline()
                if line:
                    return json.loads(line)
            except (BrokenPipeError, OSError, ValueError):
                pass
            self.close()
        return {'status': 'crash', 'failed': ['interpreter crashed'], 'observed': {}, 'trace': None}

    def close(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p = None


def explore(cases, seed, budget_s, nproc=None, chunk_s=0.9, path_limit=20, validate=100, sample_rate=0.05, max_viol=3,
            log=None, known=lambda v: False):
    """cases: list of {'id','mod','fn','args'}"""
    t0 = time.monotonic()
    deadline = t0 + budget_s
    nproc = nproc or max(1, min(8, os.cpu_count() or 1))
    ctx = mp.get_context('fork')
    task_q, res_q = ctx.Queue(), ctx.Queue()
    hungry = ctx.Value('i', 1, lock=False)
    modules = sorted({c['mod'] for c in cases})
    R = {'stats': collections.Counter(), 'cnt': collections.Counter(), 'per_case': {}, 'samples': [], 'violations': [],
         'candidates': [], 'encoded': {}, 'errors': [], 'spurious': [], 'validated': 0, 'mismatch': [], 'probed': 0,
         'unsupported': [], 'complete': False, 'open_cases': len(cases), 'wall': 0.0, 'replays': 0}
    mods = load(modules)
    from . import instr
    R['encoded'] = {k: v for k, v in instr.ENCODED.items() if not k.startswith('harness')}
    procs = []
    for i in range(nproc):
        p = ctx.Process(target=worker_main, args=(i, cases, task_q, res_q, seed, deadline, chunk_s, path_limit, mods,
                                                  sample_rate, hungry), daemon=True)
        p.start()
        procs.append(p)
    pc = R['per_case']
    for i, c in enumerate(cases):
        pc[i] = {'paths': 0, 'open': 1, 'abort': 0}
    pending = collections.deque((i, ()) for i in range(len(cases)))
    running = 0
    tid = 0
    conc = Concrete()
    stop = False
    rnd = random.Random(seed)
    alive = nproc
    seen_v = set()

    def feed():
        nonlocal running, tid
        while pending and running < nproc * 3 and not stop and time.monotonic() < deadline:
            ci, p = pending.popleft()
            task_q.put((tid, ci, p))
            tid += 1
            running += 1
    feed()
    tested = 0
    while running and alive:
        try:
            m = res_q.get(timeout=1.0)
        except queue.Empty:
            dead = [p for p in procs if not p.is_alive()]
            if len(dead) == nproc:
                R['errors'].append('all workers died')
                break
            if time.monotonic() > deadline + 140:
                R['errors'].append('workers do not answer')
                break
            continue
        if m[0] == 'dead':
            alive -= 1
            running -= 1
            R['errors'].append(m[2][-3000:])
            break
        _, wid, t, ci, stack, stats, cnt, samples, viols = m
        running -= 1
        for k in ('unsupported_why',):
            if k in stats:
                R['unsupported'].append(stats.pop(k))
        R['stats'].update({k: v for k, v in stats.items() if isinstance(v, (int, float))})
        R['cnt'].update(cnt)
        pc[ci]['paths'] += sum(cnt.get(k, 0) for k in ('ok', 'exception', 'timeout', 'unsupported'))
        pc[ci]['abort'] += cnt.get('abort', 0)
        pc[ci]['open'] += len(stack) - 1
        for p in stack:
            pending.append((ci, p))
        hungry.value = 1 if len(pending) < 2 * nproc else 0
        feed()
        for msg, vals, kind, tr in viols:
            key = (ci, msg)
            if key in seen_v and kind == 'cand' and len([1 for v in R['violations'] if v['key'] == key]):
                continue
            r = conc.run(cases[ci], vals)
            tested += 1
            if r['failed']:
                seen_v.add(key)
                R['violations'].append({'key': key, 'case': cases[ci], 'values': vals, 'msg': r['failed'][0],
                                        'all': r['failed'], 'observed': r['observed'], 'trace': r['trace']})
            elif kind == 'probe':
                R['probed'] += 1
            else:
                R['spurious'].append({'case': cases[ci], 'values': vals, 'msg': msg, 'trace': tr, 'observed': r['observed'],
                                      'status': r['status']})
        for s in samples:
            R['samples'].append((ci, s))
            if R['validated'] + len(R['mismatch']) < validate:
                r = conc.run(cases[ci], s['values'])
                if r['failed']:
                    R['violations'].append({'key': (ci, 'sample'), 'case': cases[ci], 'values': s['values'],
                                            'msg': r['failed'][0], 'all': r['failed'], 'observed': r['observed'],
                                            'trace': r['trace']})
                elif r['status'] == 'ok' and r['observed'] == s['observed']:
                    R['validated'] += 1
                else:
                    R['mismatch'].append({'case': cases[ci], 'values': s['values'], 'sym': s['observed'], 'real': r['observed'],
                                          'status': r['status']})
        fresh = sum(1 for v in R['violations'] if not known(v))
        if fresh:
            deadline = min(deadline, time.monotonic() + 25)     # the verdict will not change any more
        if fresh >= max_viol or len(R['spurious']) > 60:
            stop = True
        if stop or time.monotonic() > deadline:
            # stop handing out work; running workers finish their chunk
            if stop:
                break
            continue
        feed()
    for p in procs:
        p.kill()
    conc.close()
    R['complete'] = (not stop and not R['errors'] and all(v['open'] <= 0 for v in pc.values()))
    R['open_cases'] = sum(1 for v in pc.values() if v['open'] > 0)
    R['wall'] = time.monotonic() - t0
    R['replays'] = tested
    return R
