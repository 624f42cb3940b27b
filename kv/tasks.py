"""Symbolic jobs, run in worker processes: job -> plain data."""
import signal, time, traceback, sys
import z3
from . import cross, lexproof, oblig, oblig2, tol, pysrc, dom as D
from .values import Unsupported

TASKS = {'rt': oblig.rt_task, 'frame': oblig2.frame_task, 'iso': oblig2.iso_task, 'none': oblig2.none_task,
         'reject': oblig2.reject_task, 'refuse': oblig2.refuse_task, 'libid': oblig2.libid_task, 'lex': lexproof.lex_task, 'io': oblig2.io_task, 'new': oblig2.new_task, 'tol': tol.tol_task}
_prog = None


class TaskTimeout(BaseException):
    pass


def run(job):
    """job = (task name, key, kwargs)"""
    global _prog
    name, key, kw = job
    t0 = time.time()

    def h(*a):
        raise TaskTimeout()
    signal.signal(signal.SIGALRM, h)
    signal.alarm(int(kw.pop('_limit', 120)))
    out = {'task': name, 'key': key, 'obs': [], 'queries': 0, 'solver_s': 0.0, 'funcs': [], 'contracts': [], 'approx': []}
    T = None
    second = kw.pop('_cross', False)
    if second:
        cross.on()
    try:
        if _prog is None:
            _prog = pysrc.Program()
        T = TASKS[name](_prog, key, **kw)
    except TaskTimeout:
        out['obs'].append(dict(name='%s: %s' % (key, name), status='undecided', detail='time limit', hints=None))
    except (Exception, RecursionError) as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        out['obs'].append(dict(name='%s: %s' % (key, name), status='undecided',
                               detail='verifier: %s %s (%s:%d)' % (type(e).__name__, str(e)[:200], tb.filename.split('/')[-1], tb.lineno), hints=None))
    finally:
        signal.alarm(0)
    for X in ([] if T is None else T if isinstance(T, list) else [T]):
        for o in X.obs:
            hs = None
            if o.model is not None:
                try:
                    hs = oblig.hints(X.w, o.model) if not isinstance(o.model, dict) else o.model
                except Exception as e:
                    hs = {}
            out['obs'].append(dict(name=o.name, status=o.status, detail=o.detail[:600], hints=hs, func=o.func,
                                   approx=list(X.w.approx), extra=getattr(o, 'extra', None), textdep=getattr(o, 'textdep', False)))
        out['queries'] += X.w.queries
        out['solver_s'] += X.w.solver_s
        out['funcs'] += sorted({str(f) for f in X.I.funcs_seen})
        out['contracts'] += sorted({'%s.%s' % c for c in X.I.used_contracts})
        out['approx'] += X.w.approx
    if second:
        out['cross'] = c = cross.run()
        cross.LOG = None
        if c['refuted']:
            for o in out['obs']:
                if o['status'] == 'proved':
                    o['status'], o['detail'] = 'undecided', 'cvc5 does not confirm %d of z3\'s answers for this task' % c['refuted']
    out['time'] = time.time() - t0
    return out
