"""Run the harnesses of one property: explore, replay, report."""
import argparse
import importlib.util
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VENVSITE = '/opt/venv/lib/python3.12/site-packages'
VENV = '/opt/venv/bin/python'


def loadcheck(pid):
    cdir = os.path.join(HERE, 'checks')
    if cdir not in sys.path:
        sys.path.insert(0, cdir)
    path = os.path.join(HERE, 'checks', pid + '.py')
    spec = importlib.util.spec_from_file_location('check', path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod, path


class Worker:
    """Explores slices of the path tree of the harnesses."""
    def __init__(self, pid):
        if VENVSITE not in sys.path:
            sys.path.append(VENVSITE)
        from . import core, instrument, ctx, values
        self.core, self.instrument, self.ctx = core, instrument, ctx
        self.values = values
        self.check, _ = loadcheck(pid)
        self.engine = core.Engine()
        self.universe = None

    def getuniverse(self):
        if self.universe is None:
            u = self.instrument.Universe()
            u.lite = set(getattr(self.check, 'LITE', ()))
            self.values.SYMBYTES = getattr(self.check, 'SYMBYTES', False)
            setup = getattr(self.check, 'setup', None)
            if setup is not None:
                setup(u, self.instrument)
            self.universe = u
        return self.universe

    def explore(self, hname, params, prefix, seconds, maxtraces=2):
        core, ctx = self.core, self.ctx
        eng = self.engine
        h = self.check.HARNESSES[hname]
        fn = h['fn']
        steps = h.get('steps', 60000)
        for k in eng.stats:
            eng.stats[k] = 0
        eng.setprefix(prefix)
        base = len(prefix)
        deadline = time.monotonic() + seconds
        cands, traces, reached, incon = [], [], {}, {}
        n = 0
        universe = self.getuniverse()
        self.instrument.functions.clear()
        while True:
            eng.startpath()
            self.instrument.budget[:] = [0, steps]
            c = ctx.SymCtx(eng, universe, params)
            done = False
            try:
                fn(c)
                done = True
            except core.Violation as err:
                cands.append(dict(kind='violation', msg=err.msg,
                        values=self.conc(err.model)))
            except core.Infeasible:
                eng.stats['infeasible'] += 1
            except core.PathBudget as err:
                try:
                    cands.append(dict(kind='nontermination', msg=str(err),
                            values=self.conc(eng.getmodel())))
                except core.Control:
                    eng.stats['infeasible'] += 1
            except core.Inconclusive as err:
                eng.stats['inconclusive'] += 1
                self.note(incon, str(err), traceback.format_exc())
                self.fallback(cands, eng, 'engine limit: %s' % err)
            except core.SymHash:
                eng.stats['inconclusive'] += 1
                self.note(incon, 'native hash of a symbolic value',
                        traceback.format_exc())
                self.fallback(cands, eng, 'engine limit: hash')
            except core.Control:
                raise
            except Exception as err:
                try:
                    cands.append(dict(kind='exception',
                            msg='%s: %s' % (type(err).__name__,
                                safestr(err)),
                            tb=traceback.format_exc()[-2500:],
                            values=self.conc(eng.getmodel())))
                except core.Control:
                    eng.stats['infeasible'] += 1
            if done:
                try:
                    m = eng.getmodel()
                except core.Infeasible:
                    eng.stats['infeasible'] += 1
                else:
                    eng.stats['paths'] += 1
                    for t in c.e.reached:
                        reached[t] = reached.get(t, 0) + 1
                    if len(traces) < maxtraces and (n % 7 == 0):
                        traces.append(dict(values=self.conc(m),
                            observed=[ctx.modelplain(a, m)
                                for a in eng.observed]))
            n += 1
            if not eng.backtrack(base):
                front = []
                break
            if time.monotonic() > deadline or len(cands) >= 20:
                front = [self.trailprefix(eng)] + eng.frontier(base)
                # the trail ends in a flipped decision: hand it out too
                break
        return dict(stats=dict(eng.stats), cands=cands, traces=traces,
                reached=reached, incon=incon, front=front,
                functions=sorted(self.instrument.functions))

    def fallback(self, cands, eng, msg):
        """Engine limit: have the path's model run concretely at least."""
        try:
            cands.append(dict(kind='limit', msg=msg,
                    values=self.conc(eng.getmodel())))
        except self.core.Control:
            pass

    @staticmethod
    def trailprefix(eng):
        return [(x[1], x[4]) for x in eng.trail]

    def note(self, incon, msg, tb):
        if msg not in incon:
            incon[msg] = [0, tb[-2500:]]
        incon[msg][0] += 1

    def conc(self, model):
        return {k: self.ctx.enc(v)
                for k, v in self.engine.concretize(model).items()}


def safestr(err):
    try:
        return str(err)
    except BaseException:
        return '?'


def workermain(pid, conn):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(3000)
    devnull = open(os.devnull, 'w')
    sys.stdout = devnull
    try:
        w = Worker(pid)
        while True:
            task = conn.recv()
            if task is None:
                break
            hname, params, prefix, secs = task
            try:
                res = w.explore(hname, params, prefix, secs)
            except BaseException as err:
                res = dict(error='%s: %s' % (type(err).__name__, safestr(err)),
                        tb=traceback.format_exc())
                w = Worker(pid)
            conn.send(res)
    except EOFError:
        pass


class Run:
    def __init__(self, pid, tier, seed, opts):
        self.pid, self.tier, self.seed, self.opts = pid, tier, seed, opts
        self.check, self.path = loadcheck(pid)
        self.nproc = opts.jobs
        self.t0 = time.monotonic()
        self.stats = {}
        self.items = []
        self.confirmed = []
        self.unconfirmed = []
        self.errors = []
        self.functions = set()
        self.limits = 0
        self.traces = []
        self.builddir = None
        self.builderr = None
        self.validated = self.mismatches = 0

    # -- build -------------------------------------------------------------
    def startbuild(self):
        """Build in a separate process; output goes to files because the
        forked workers would keep the other end of a pipe open."""
        import tempfile
        from . import instrument
        self.buildout = tempfile.TemporaryFile('w+')
        self.builderrf = tempfile.TemporaryFile('w+')
        self.builder = subprocess.Popen([sys.executable, '-m', 'symx.build']
                + list(getattr(self.check, 'NEEDS', ['bit'])),
                stdin=subprocess.DEVNULL, stdout=self.buildout,
                stderr=self.builderrf, cwd=HERE,
                env=dict(os.environ, SYMX_REPO=instrument.REPO,
                    PYTHONDONTWRITEBYTECODE='1'))

    def joinbuild(self):
        if self.builddir is None and self.builderr is None:
            rc = self.builder.wait()
            self.buildout.seek(0)
            self.builderrf.seek(0)
            if rc:
                self.builderr = self.builderrf.read()[-3000:]
            else:
                self.builddir = self.buildout.read().split()[-1]

    def concrete(self, jobs):
        """Run jobs on the real package; return list of results."""
        self.joinbuild()
        if self.builderr:
            raise RuntimeError('build of /repo failed: ' + self.builderr)
        tmpdir = os.path.join(HERE, '.cache')
        os.makedirs(tmpdir, exist_ok=True)
        fname = os.path.join(tmpdir, 'jobs-%d-%d.json' % (os.getpid(),
                time.monotonic_ns()))
        env = dict(os.environ, PYTHONPATH=self.builddir, PYTHONHASHSEED='0',
                PYTHONDONTWRITEBYTECODE='1')
        out = []
        todo = list(jobs)
        while todo:
            with open(fname, 'w') as f:
                json.dump(todo, f)
            p = subprocess.run([VENV, '-m', 'symx.replay', self.path, fname],
                    env=dict(env, PYTHONPATH=self.builddir + ':' + HERE),
                    cwd=self.builddir,
                    stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                    text=True)
            res = [json.loads(a) for a in p.stdout.splitlines()
                    if a.startswith('{')]
            out.extend(res)
            todo = todo[len(res):]
            if todo and p.returncode >= 0:
                raise RuntimeError('replay failed: ' + p.stderr[-1500:])
            if todo:  # the interpreter died (segfault, abort) on this job
                out.append(dict(status='crash', msg='exit status %d: %s' % (
                        p.returncode, p.stderr[-1500:]), observed=[]))
                todo = todo[1:]
        os.unlink(fname)
        return out

    # -- exploration --------------------------------------------------------
    def plan(self):
        levels = {}
        for hname, h in self.check.HARNESSES.items():
            plist = h['params'].get(self.tier) or h['params']['quick']
            for lvl, params in enumerate(plist):
                if self.opts.only and str(lvl) not in self.opts.only.split(','):
                    continue
                levels.setdefault(lvl, []).append(dict(h=hname,
                        params=params, queue=[[]], active=0, stats={},
                        reached={}, incon={}, complete=False, cands=0,
                        started=False))
        return [it for lvl in sorted(levels) for it in levels[lvl]]

    def run(self):
        budget = self.opts.budget or getattr(self.check, 'BUDGET', {}).get(
                self.tier, 150 if self.tier == 'quick' else 1500)
        self.startbuild()
        ctx = mp.get_context('fork')
        workers = []
        for _ in range(self.nproc):
            a, b = ctx.Pipe()
            p = ctx.Process(target=workermain, args=(self.pid, b))
            p.daemon = True
            p.start()
            b.close()
            workers.append([p, a, None])
        self.items = items = self.plan()
        if self.opts.harness:
            self.items = items = [a for a in items
                    if a['h'] in self.opts.harness.split(',')]
        pending = []
        deadline = self.t0 + budget
        stop = False
        while not stop:
            # schedule
            for w in workers:
                if w[2] is not None:
                    continue
                if time.monotonic() > deadline:
                    break
                for it in items:
                    if it['queue']:
                        pre = it['queue'].pop()
                        # short slices while there is little to share
                        secs = 0.3 if len(it['queue']) < 4 else 2.0
                        w[1].send((it['h'], it['params'], pre, secs))
                        w[2] = it
                        it['active'] += 1
                        it['started'] = True
                        break
            busy = [w for w in workers if w[2] is not None]
            if not busy:
                break
            ready = mp.connection.wait([w[1] for w in busy], timeout=1.0)
            for w in busy:
                if w[1] not in ready:
                    if (time.monotonic() > deadline + 60):
                        w[0].kill()
                        self.errors.append('worker overran its time on %s' %
                                w[2]['h'])
                        w[2] = None
                    continue
                it = w[2]
                it['active'] -= 1
                w[2] = None
                try:
                    res = w[1].recv()
                except EOFError:
                    self.errors.append('worker died on %s' % it['h'])
                    a, b = ctx.Pipe()
                    p = ctx.Process(target=workermain, args=(self.pid, b))
                    p.daemon = True
                    p.start()
                    b.close()
                    w[0], w[1] = p, a
                    continue
                if 'error' in res:
                    self.errors.append('%s: %s' % (it['h'], res['error']))
                    it['incon'].setdefault(res['error'], [0, res['tb']])[0] += 1
                    continue
                for k, v in res['stats'].items():
                    it['stats'][k] = it['stats'].get(k, 0) + v
                    self.stats[k] = self.stats.get(k, 0) + v
                for k, v in res['reached'].items():
                    it['reached'][k] = it['reached'].get(k, 0) + v
                for k, v in res['incon'].items():
                    it['incon'].setdefault(k, [0, v[1]])[0] += v[0]
                self.functions.update(res['functions'])
                it['queue'].extend(res['front'])
                for c in res['cands']:
                    c.update(harness=it['h'], params=it['params'])
                    pending.append(c)
                    it['cands'] += 1
                for t in res['traces']:
                    if it.setdefault('ntr', 0) < 60:
                        it['ntr'] += 1
                        t.update(harness=it['h'], params=it['params'])
                        self.traces.append(t)
            if pending:
                stop = self.confirm(pending)
                pending = []
            for it in items:
                if it['cands'] >= 60:
                    # many unconfirmed candidates: stop exploring this one
                    it['queue'] = []
                    it['capped'] = True
        for it in items:
            it['complete'] = (it['started'] and not it['queue']
                    and not it['active'] and not it.get('capped'))
        for w in workers:
            w[0].kill()
        if not stop:
            self.validate()
        self.joinbuild()

    def confirm(self, cands):
        """Replay candidate counterexamples against the real code."""
        hard = [c for c in cands if c['kind'] != 'limit']
        soft = [c for c in cands if c['kind'] == 'limit']
        room = max(0, 300 - self.limits)
        self.limits += len(soft)
        cands = hard + soft[:room]
        if not cands:
            return False
        for c in cands:
            c['timeout'] = 20
        ress = self.concrete(cands)
        for c, r in zip(cands, ress):
            if r['status'] in ('violation', 'exception', 'crash', 'timeout'):
                c['concrete'] = dict(r)
                c['concrete'].pop('observed', None)
                self.confirmed.append(c)
            elif c['kind'] != 'limit':
                c['concrete'] = r
                self.unconfirmed.append(c)
        return bool(self.confirmed) and not self.opts.keep

    def validate(self):
        """Compare sampled symbolic paths with the real code."""
        if not self.traces:
            return
        ress = self.concrete(self.traces)
        bad = []
        for t, r in zip(self.traces, ress):
            if r['status'] == 'ok':
                if r['observed'] == json.loads(json.dumps(t['observed'])):
                    self.validated += 1
                else:
                    self.mismatches += 1
                    bad.append((t, r))
            elif r['status'] == 'skip':
                self.mismatches += 1
                bad.append((t, r))
            else:
                t['concrete'] = dict(r)
                t['kind'] = 'trace'
                t['msg'] = 'found when replaying a path on the real code'
                self.confirmed.append(t)
        self.bad = bad
        for t, r in bad[:3]:
            print('MISMATCH harness=%s params=%s values=%s\n symbolic %s\n '
                    'real     %s %s' % (t['harness'], t['params'],
                    t['values'], json.dumps(t['observed'])[:1500],
                    r['status'], json.dumps(r['observed'])[:1500]))

    # -- report -------------------------------------------------------------
    def report(self):
        wall = time.monotonic() - self.t0
        harnesses = []
        vacuous = []
        for it in self.items:
            h = self.check.HARNESSES[it['h']]
            need = h.get('reach', [])
            missing = [a for a in need if a not in it['reached']]
            if it['complete'] and missing and not self.confirmed:
                vacuous.append('%s %s: never reached %s' % (it['h'],
                        it['params'], missing))
            harnesses.append(dict(harness=it['h'], bounds=it['params'],
                    doc=(h['fn'].__doc__ or '').strip(),
                    completed=it['complete'],
                    started=it['started'],
                    **it['stats'], witnesses=it['reached'],
                    inconclusive_reasons={k: v[0]
                        for k, v in it['incon'].items()}))
        known = self.knownfindings()
        samples = [dict(harness=t['harness'], params=t['params'],
                values=t['values'], observed=t['observed'])
                for t in self.traces[:6]]
        evidence = dict(property=self.pid, tier=self.tier, seed=self.seed,
                level='model_checking',
                coverage=dict(
                    states=self.stats.get('paths', 0),
                    transitions=self.stats.get('branches', 0),
                    traces_validated_against_impl=self.validated,
                    samples=samples,
                    exhaustive=all(it['complete'] for it in self.items),
                    explanation='bounded symbolic execution; states = '
                        'feasible path ends, each a set of inputs described '
                        'by its path condition; transitions = symbolic '
                        'branch decisions settled by the solver; every '
                        'assertion is a solver query PC & not(property).',
                    queries=self.stats.get('queries', 0),
                    solver_time_s=round(self.stats.get('solver_time', 0), 2),
                    assertions=self.stats.get('checks', 0),
                    forks=self.stats.get('forks', 0),
                    inconclusive_paths=self.stats.get('inconclusive', 0),
                    functions_encoded=sorted(self.functions),
                    harnesses=harnesses,
                    outside_bounds=getattr(self.check, 'OUTSIDE', ''),
                    known_findings=known,
                    validation_mismatches=self.mismatches,
                    unconfirmed_candidates=[dict(harness=c['harness'],
                        msg=c['msg'], values=c['values'])
                        for c in self.unconfirmed[:5]]),
                assumptions=list(getattr(self.check, 'ASSUMPTIONS', []))
                    + ['z3 and the symx encoding (validated on the listed '
                       'number of concretely replayed paths) are trusted'],
                wall_s=round(wall, 2), violations=len(self.confirmed))
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', self.pid + '.json'),
                'w') as out:
            json.dump(evidence, out, indent=1, default=str)
        for it in self.items:
            s = it['stats']
            print('%-28s %-40s %s paths=%d branches=%d checks=%d queries=%d '
                    'solver=%.1fs incon=%d' % (it['h'],
                    json.dumps(it['params']), 'complete' if it['complete']
                    else 'PARTIAL' if it['started'] else 'not started',
                    s.get('paths', 0), s.get('branches', 0),
                    s.get('checks', 0), s.get('queries', 0),
                    s.get('solver_time', 0), s.get('inconclusive', 0)))
            for k, v in list(it['incon'].items())[:4]:
                print('   inconclusive x%d: %s' % (v[0], k))
                if self.opts.verbose:
                    print(v[1])
        print('validated=%d mismatches=%d wall=%.1fs' % (self.validated,
                self.mismatches, wall))
        if self.opts.keep:
            seen = set()
            for c in self.confirmed:
                key = c['harness'], c['msg'][:60], c['concrete'].get('msg',
                        '')[:60]
                if key in seen:
                    continue
                seen.add(key)
                print('FOUND', c['kind'], c['harness'], c['params'],
                        c['msg'][:300])
                print('   ', json.dumps(c['values']))
                print('   ', c['concrete']['status'], c['concrete'].get(
                        'msg', '')[:300])
                if c['concrete'].get('tb'):
                    print(c['concrete']['tb'][-900:])
        if self.confirmed:
            rdir = os.path.join(HERE, 'replays')
            os.makedirs(rdir, exist_ok=True)
            c = self.confirmed[0]
            path = os.path.join(rdir, '%s-%s.json' % (self.pid, c['harness']))
            with open(path, 'w') as out:
                json.dump(c, out, indent=1)
            print('%s [%s] %s\n  inputs: %s\n  real code: %s %s' % (
                    c['kind'], c['harness'], c['msg'],
                    json.dumps(c['values']), c['concrete']['status'],
                    c['concrete'].get('msg', '')))
            if c['concrete'].get('tb'):
                print(c['concrete']['tb'][-1200:])
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            return 1
        rc = 0
        for k in known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k))
        for c in self.unconfirmed[:3]:
            print('UNCONFIRMED %s [%s] %s\n  inputs: %s\n  real: %s' % (
                    c['kind'], c['harness'], c['msg'],
                    json.dumps(c['values']), c['concrete'].get('status')))
            if c.get('tb') and self.opts.verbose:
                print(c['tb'])
        for e in self.errors[:5]:
            print('ERROR', e)
        for v in vacuous:
            print('VACUOUS', v)
        if self.unconfirmed or self.mismatches or vacuous:
            rc = 2
        if not self.stats.get('paths'):
            print('ERROR no path was explored')
            rc = 2
        if self.stats.get('inconclusive', 0) > 0.5 * max(1,
                self.stats.get('paths', 0)):
            print('ERROR mostly inconclusive')
            rc = 2
        return rc

    def knownfindings(self):
        """Re-run each listed finding; report those that still fail."""
        path = os.path.join(HERE, 'known_findings.json')
        if not os.path.exists(path):
            return []
        with open(path) as inp:
            entries = [e for e in json.load(inp)['findings']
                    if e['property'] == self.pid]
        if not entries:
            return []
        ress = self.concrete([dict(harness=e['harness'],
                params=e.get('params', {}), values=e['values'])
                for e in entries])
        return [e['what'] for e, r in zip(entries, ress)
                if r['status'] in ('violation', 'exception', 'crash')]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--jobs', type=int, default=os.cpu_count() or 8)
    ap.add_argument('--budget', type=float, default=None)
    ap.add_argument('--harness', default=None)
    ap.add_argument('--only', default=None,
            help='comma-separated indices of sets of bounds (for debugging)')
    ap.add_argument('--keep', action='store_true',
            help='development: go on after a violation, list distinct ones')
    ap.add_argument('-v', '--verbose', action='store_true')
    opts = ap.parse_args()
    if opts.tier not in ('quick', 'thorough'):
        opts.tier = 'quick'
    run = Run(opts.pid, opts.tier, int(os.environ.get('VERIF_SEED', 1)), opts)
    run.run()
    rc = run.report()
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    main()
