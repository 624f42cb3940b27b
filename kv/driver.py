"""Decide one property: generate the obligations from the current source, discharge
them, replay what fails against the real code, write the evidence."""
import sys, os, json, time, subprocess, hashlib, collections, shutil
from concurrent.futures import ThreadPoolExecutor, ProcessPoolExecutor
import multiprocessing as mp
from . import dom as D

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(VERIF, 'replays')
EVID = os.path.join(VERIF, 'evidence')


def closure(*roots):
    seen, todo = [], list(roots)

    def refs(t):
        if isinstance(t, (D.TOpt, D.TList)):
            yield from refs(t.t)
        elif isinstance(t, D.TObj):
            yield t.key
            for x in t.over.values():
                yield from refs(x)
        elif isinstance(t, D.TUnion):
            for a in t.alts:
                yield from refs(a)
        elif isinstance(t, D.TDict):
            yield from refs(t.k)
            yield from refs(t.v)
    while todo:
        k = todo.pop(0)
        if k in seen:
            continue
        seen.append(k)
        for t in D.table()[k].fields.values():
            todo.extend(refs(t))
    return seen


def worker(job, timeout):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    try:
        p = subprocess.run([sys.executable, '-m', 'kv.worker'], input=json.dumps(job), capture_output=True, text=True,
                           timeout=timeout, cwd=VERIF, env=env)
        if p.returncode == 0:
            return json.loads(p.stdout)
        return {'n': 0, 'distinct': 0, 'bad': [], 'error': (p.stderr or '')[-400:]}
    except subprocess.TimeoutExpired:
        return {'n': 0, 'distinct': 0, 'bad': [], 'error': 'time limit'}
    except Exception as e:
        return {'n': 0, 'distinct': 0, 'bad': [], 'error': repr(e)}


REPLAY = '''#!/usr/bin/env python3-vt
# property %(prop)s -- %(title)s
# failed obligation: %(ob)s
# observed: %(msg)s
# Replays the failing input against the real code in $KV_REPO (default /repo): exit 1 while it fails.
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, %(verif)r)
from kv import concrete, checks
concrete.setup()
JOB = %(job)r
r = checks.run_job(JOB)
for b in r['bad']:
    for k, m in b[2]:
        print(k + ': ' + m)
sys.exit(1 if r['bad'] else 0)
'''


class Run:
    def __init__(self, prop, spec, tier, seed):
        self.prop, self.spec, self.tier, self.seed = prop, spec, tier, seed
        self.t0 = time.time()
        self.violations = []
        self.obs = []
        self.sym = []
        self.bounded = []      # (what, n, distinct)
        self.notes = []
        self.samples = []
        d = os.path.join(REPLAYS, prop)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        os.makedirs(EVID, exist_ok=True)

    # ---------------------------------------------------------------- symbolic
    def symbolic(self):
        jobs = self.spec['tasks'](self.tier)
        if self.tier != 'quick':
            jobs = [(a, k, dict(kw, _cross=True, _limit=600)) for a, k, kw in jobs]
        from . import tasks
        ctx = mp.get_context('fork')
        with ProcessPoolExecutor(8, mp_context=ctx) as ex:
            futs = [(j, ex.submit(tasks.run, j)) for j in jobs]
            for j, f in futs:
                try:
                    r = f.result(timeout=600 if self.tier == 'quick' else 2400)
                except Exception as e:
                    r = {'task': j[0], 'key': j[1], 'obs': [dict(name='%s: %s' % (j[1], j[0]), status='undecided', detail='worker: %r' % e, hints=None)],
                         'queries': 0, 'solver_s': 0, 'funcs': [], 'contracts': [], 'approx': [], 'time': 0}
                self.sym.append(r)
        sel = self.spec.get('select', lambda r, o: True)
        for r in self.sym:
            for o in r['obs']:
                o['key'], o['task'] = r['key'], r['task']
                if sel(r, o):
                    self.obs.append(o)

    # ---------------------------------------------------------------- verdicts
    def replay_file(self, ob, job, msg, n):
        p = os.path.join(REPLAYS, self.prop, 'replay_%d.py' % n)
        with open(p, 'w') as f:
            f.write(REPLAY % dict(prop=self.prop, title=self.spec.get('title', ''), ob=ob.replace('\n', ' '), msg=msg.replace('\n', '\\n'), job=job, verif=VERIF))
        return p

    def violation(self, ob, job, msg):
        n = len(self.violations)
        p = self.replay_file(ob, job, msg, n)
        self.violations.append(dict(obligation=ob, replay=p, message=msg, input_found=True))
        print('VIOLATION property=%s replay=%s' % (self.prop, p))
        print('  obligation: %s' % ob)
        print('  observed on the real code: %s' % msg[:400])

    def violation_noinput(self, o):
        n = len(self.violations)
        p = os.path.join(REPLAYS, self.prop, 'obligation_%d.txt' % n)
        with open(p, 'w') as f:
            f.write('failed obligation: %s\nverifier output: %s\nsolver model of the input: %s\n' % (
                o['name'], o['detail'], json.dumps(o.get('hints'), indent=1, default=str)))
        self.violations.append(dict(obligation=o['name'], replay=p, message=o['detail'], input_found=False))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (self.prop, p))
        print('  obligation: %s' % o['name'])

    def jobs_for(self, key, task, hints=None, fields=None, n_random=60, budget=25):
        """Concrete jobs that could exhibit a failure of an obligation of `task` on `key`."""
        f = self.spec.get('concrete')
        j = f(task, key) if f else None
        if j is None:
            return []
        out = []
        for x in (j if isinstance(j, list) else [j]):
            x = dict(x)
            x.setdefault('kind', 'search')
            x.setdefault('key', key)
            x.update(seed=self.seed, n_random=n_random, budget=budget)
            if hints is not None:
                x['hints'] = hints
            if fields:
                x['fields'] = fields
            out.append(x)
        return out

    def decide(self):
        quick = self.tier == 'quick'
        failed = [o for o in self.obs if o['status'] == 'failed']
        undec = [o for o in self.obs if o['status'] == 'undecided']
        self.standins = []
        done = set()
        pool = ThreadPoolExecutor(8)
        # 1. failed obligations: replay
        groups = collections.OrderedDict()
        for o in failed:
            groups.setdefault((o['key'], o['task']), []).append(o)
        futs = []
        for (key, task), os_ in groups.items():
            for o in os_[:6]:
                for j in self.jobs_for(key, task, hints=o.get('hints') or {}, n_random=0, budget=10):
                    j['search'] = False
                    j.update(o.get('extra') or {})
                    futs.append((key, task, o, j, pool.submit(worker, j, 60)))
            for j in self.jobs_for(key, task, n_random=150, budget=40):
                futs.append((key, task, os_[0], j, pool.submit(worker, j, 90)))
        found = {}
        tried = collections.Counter()
        for key, task, o, j, f in futs:
            r = f.result()
            tried[(key, task)] += r.get('n', 0)
            if r['bad'] and (key, task) not in found:
                found[(key, task)] = (o, j, r['bad'][0])
        for (key, task), (o, j, b) in found.items():
            self.report(o['name'] if len(groups[(key, task)]) == 1 else '%s (and %d more of this function)' % (o['name'], len(groups[(key, task)]) - 1), j, b)
        for (key, task), os_ in groups.items():
            if (key, task) in found:
                continue
            exact = [o for o in os_ if not o.get('approx') and o.get('hints') is not None]
            if exact and not self.spec.get('weak'):
                self.violation_noinput(exact[0])
            else:
                for o in os_:
                    o['status'] = 'undecided'
                    o['detail'] = 'not reproduced on the real code in %d runs; %s' % (tried[(key, task)], o['detail'])
                    undec.append(o)
        # 2. undecided obligations: bounded stand-in.   3. cross-check of the verifier on the proved ones
        und = {(o['key'], o['task']) for o in undec}
        futs = []
        budget, nr = (12, 40) if quick else (150, 1500)
        allk = []
        for r in self.sym:
            if (r['key'], r['task']) not in allk:
                allk.append((r['key'], r['task']))
        for key, task in allk:
            if (key, task) in groups and (key, task) in found:
                continue
            u = (key, task) in und
            for j in self.jobs_for(key, task, n_random=nr * (4 if u else 1), budget=budget * (3 if u else 1)):
                futs.append((key, task, u, j, pool.submit(worker, j, j['budget'] + 45)))
        for j in self.spec.get('extra_jobs', lambda tier, seed: [])(self.tier, self.seed):
            futs.append((j.get('key', j['kind']), j.get('what', j['kind']), False, j, pool.submit(worker, j, j.get('budget', 30) + 60)))
        for key, task, u, j, f in futs:
            r = f.result()
            what = '%s %s (%s)' % (task, key, 'bounded stand-in for undecided obligations' if u else 'cross-check on the real code')
            if r.get('error'):
                self.notes.append('%s: %s' % (what, r['error']))
            self.samples += r.get('samples', [])[:1]
            self.bounded.append(dict(what=what, cases=r.get('n', 0), distinct=r.get('distinct', 0), standin=u))
            if r['bad']:
                self.report('%s: %s' % (key, what), j, r['bad'][0])
        pool.shutdown()

    def report(self, obname, j, b):
        label, src, msgs = b
        if isinstance(src, dict):
            job = dict(src)
        else:
            job = {k: j[k] for k in ('check', 'key', 'kinds', 'wide') if k in j}
            job.update(objects=[src], search=False, seed=self.seed, n_random=0, budget=0)
        self.violation(obname, job, '%s [%s] for %s' % (msgs[0][1], label, src if isinstance(src, str) and len(src) < 300 else str(src)[:300]))

    # ---------------------------------------------------------------- evidence
    def known(self):
        p = os.path.join(VERIF, 'known_findings.json')
        for k in json.load(open(p))['findings']:
            if k['property'] != self.prop:
                continue
            r = worker(dict(kind='known', expr=k['repro']), 60)
            if r.get('fails'):
                print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))

    def second(self):
        cs = [r['cross'] for r in self.sym if r.get('cross')]
        if not cs:
            return 'thorough tier only'
        d = {k: sum(c[k] for c in cs) for k in ('confirmed', 'unknown', 'refuted')}
        d['seconds'] = round(sum(c['seconds'] for c in cs), 2)
        d['what'] = 'unsat answers of z3 decided again by cvc5'
        d['notes'] = sorted({c['note'] for c in cs if c['note']})[:5]
        return d

    def evidence(self):
        c = collections.Counter(o['status'] for o in self.obs)
        funcs = sorted({f for r in self.sym for f in r['funcs']})
        asm = list(self.spec.get('assumptions', ()))
        for o in self.obs:
            if o['status'] == 'undecided':
                asm.append('undecided, bounded stand-in only: %s (%s)' % (o['name'], o['detail'][:160]))
        nd = sum(b['distinct'] for b in self.bounded)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.spec['level'],
                  coverage=dict(obligations=len(self.obs), discharged=c['proved'],
                                checker_cmd='python3-vt /verif/check.py %s --tier %s' % (self.prop, self.tier),
                                trusted_base=self.spec.get('trusted', []),
                                evaluations=sum(b['cases'] for b in self.bounded), distinct_nontrivial=nd,
                                rule='concrete runs on the real code (stand-ins and cross-check of the verifier; never counted as proved): objects generated from spec/domain.txt; distinct = distinct inputs',
                                samples=self.samples[:5],
                                undecided=c['undecided'], failed=c['failed'],
                                functions_under_contract=funcs,
                                contracts_used_at_calls=sorted({x for r in self.sym for x in r['contracts']}),
                                backend='z3 %s' % __import__('z3').get_version_string(),
                                solver_queries=sum(r['queries'] for r in self.sym),
                                solver_seconds=round(sum(r['solver_s'] for r in self.sym), 2),
                                second_solver=self.second(),
                                obligation_names=[o['name'] for o in self.obs][:2000],
                                bounded=dict(note='never counted as proved', runs=self.bounded)),
                  assumptions=asm, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        if self.notes:
            ev['notes'] = self.notes
        with open(os.path.join(EVID, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s: %d obligations, %d discharged, %d undecided, %d failed; %d functions; %d concrete cases; %.1f s' % (
            self.prop, len(self.obs), c['proved'], c['undecided'], c['failed'], len(funcs), sum(b['cases'] for b in self.bounded), time.time() - self.t0))

    def go(self):
        self.symbolic()
        self.decide()
        self.known()
        self.evidence()
        return 1 if self.violations else 0
