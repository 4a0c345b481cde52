"""Runs harness cases concretely on the untouched code of /repo (JSON lines on stdin/stdout)."""
import importlib, json, os, signal, sys, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
REPO = os.environ.get('VP_REPO', '/repo')


def jsonable(x):
    if isinstance(x, bytes):
        return {'b': x.hex()}
    if isinstance(x, (list, tuple)):
        return [jsonable(i) for i in x]
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


class Timeout(BaseException):
    pass


def on_alarm(*a):
    raise Timeout()


def run_case(case, values, snap, limit=20):
    from symex.api import ConcH, MissingValue
    from symex.core import PathAbort
    h = ConcH(values)
    snap.restore()
    mod = importlib.import_module('harness.' + case['mod'])
    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    so = (sys.stdout, sys.stderr, sys.stdin)
    try:
        getattr(mod, case['fn'])(h, **case['args'])
        status = 'ok'
    except PathAbort as e:
        status = 'dropped'
    except MissingValue as e:
        status = 'harness'
    except Timeout:
        status = 'timeout'
        h.failed.append('does not terminate (%d s)' % limit)
    except Exception as e:
        status = 'exception'
        tb = e.__traceback__
        while tb.tb_next is not None:
            tb = tb.tb_next
        if isinstance(e, (ImportError, AttributeError)) and '/harness/' in tb.tb_frame.f_code.co_filename:
            status = 'api'       # an internal interface the harness uses is not there
        else:
            h.failed.append('unexpected exception %s' % type(e).__name__)
        h.trace = traceback.format_exc()[-1500:]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        sys.stdout, sys.stderr, sys.stdin = so
    return {'status': status, 'failed': h.failed, 'observed': jsonable(h.observed), 'trace': getattr(h, 'trace', None)}


def main():
    from symex import instr
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    instr.install(REPO, VERIF, False)
    out = os.fdopen(os.dup(1), 'w')
    inp = os.fdopen(os.dup(0), 'r')
    dn = open(os.devnull, 'w')
    sys.stdout = dn
    sys.stdin = open(os.devnull)
    import kolombos, pytermor
    snap = None
    for line in inp:
        req = json.loads(line)
        if snap is None or req['case']['mod'] not in loaded:
            try:
                m = importlib.import_module('harness.' + req['case']['mod'])
                pre = getattr(m, 'preload', None)
                if pre:
                    pre()
                loaded = {req['case']['mod']} | (loaded if snap else set())
                snap = instr.Snapshot()
            except Exception as e:
                out.write(json.dumps({'status': 'exception', 'failed': ['import failed: %s' % e], 'observed': {}, 'trace': traceback.format_exc()[-1500:]}) + '\n')
                out.flush()
                continue
        r = run_case(req['case'], req['values'], snap, req.get('limit', 20))
        out.write(json.dumps(r) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
