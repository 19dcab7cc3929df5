"""Runs the check of one property: proofs, bounded stand-ins, native contract runs."""
import importlib, json, os, re, subprocess, sys, time, traceback, multiprocessing as mp, hashlib, shutil, tempfile
sys.setrecursionlimit(100000)
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
import z3
from dcv import front, exec as X, solver as SOLV, spec
from dcv.values import Unsupported

OUT = os.path.join(VERIF, 'out')


def model_dict(m):
    d = {}
    if m is None:
        return d
    for x in m.decls():
        if x.arity() == 0:
            v = m[x]
            try:
                if z3.is_int_value(v):
                    d[x.name()] = str(v.as_long())
                elif z3.is_rational_value(v):
                    d[x.name()] = repr(float(v.as_fraction()))
                elif z3.is_algebraic_value(v):
                    d[x.name()] = repr(float(v.approx(20).as_fraction()))
                elif z3.is_true(v) or z3.is_false(v):
                    d[x.name()] = '1' if z3.is_true(v) else '0'
            except Exception:
                pass
    return d


def run_task(args):
    db, task, run, mode, seed, tier, label = args
    t0 = time.time()
    r = {'task': task.name, 'label': label, 'mode': mode, 'funcs': task.funcs, 'status': None, 'obligs': 0, 'proved': 0, 'failed': [], 'paths': 0,
         'backends': {}, 'solver_s': {}, 'note': '', 'entered': [], 'bounded_note': ''}
    scale = 1 if tier == 'quick' else 6
    eng = X.Engine(db, mode=mode, unroll=task.unroll, timeout_ms=task.timeout_ms * (1 if tier == 'quick' else 3), seed=seed, max_paths=task.max_paths,
                   deadline=time.time() + task.budget * scale)
    eng.overrides = dict(task.overrides)
    eng.invariants = {k: list(v) for k, v in task.invariants.items()}
    eng.hooks = dict(task.hooks)
    eng.poly_rewrite = task.rewrite
    eng.unwind = task.unwind if mode == 'proof' else 0
    eng.cut_all = task.cut_all
    if os.environ.get('DCV_DEBUG'):
        def failed(it, o):
            print('FAILED', task.name, label, o.name, o.where, o.func, o.status, [x for x in it.taken])
            if os.environ['DCV_DEBUG'] == '2':
                print('   goal', o.goal)
                for f in it.pc:
                    print('   pc', f)
        def dead(fr, n, lab, why):
            print('DEAD', task.name, fr.func.name if fr.func else '', X.loc_of(n), lab, why)
        eng.hooks.setdefault('failed', failed)
        eng.hooks.setdefault('dead', dead)
    try:
        eng.explore(run)
        bad = [o for o in eng.obligs if o.status != 'proved']
        if not eng.obligs or len(eng.obligs) < task.min_obl:
            r['status'], r['note'] = 'vacuous', 'no obligation was generated'
        elif not bad and any(not v[1] for v in eng.cutexits.values()):
            r['status'], r['note'] = 'vacuous', 'exit of the loop at %s is unreachable under its invariants' % [v[0] for v in eng.cutexits.values() if not v[1]]
        elif not bad and not eng.completed:
            r['status'], r['note'] = 'vacuous', 'no path reaches the end of the contract'
        elif any(c not in eng.reached for c in task.covers):
            r['status'], r['note'] = 'vacuous', 'cover not reached: %s' % [c for c in task.covers if c not in eng.reached]
        elif not bad:
            r['status'] = 'proved'
        elif any(o.status == 'refuted' for o in bad) or any(o.goal is False for o in bad):
            r['status'] = 'refuted'
        else:
            r['status'] = 'unknown'
    except Unsupported as e:
        r['status'], r['note'] = 'unsupported', str(e)
        bad = []
        if os.environ.get('DCV_DEBUG'):
            traceback.print_exc()
    except X.Budget as e:
        r['status'], r['note'] = 'budget', str(e)
        bad = [o for o in eng.obligs if o.status == 'refuted']
        if bad:
            r['status'] = 'refuted'
    except RecursionError:
        r['status'], r['note'], bad = 'unsupported', 'recursion', []
    except Exception as e:
        r['status'], r['note'], bad = 'unsupported', 'internal: %s' % traceback.format_exc()[-600:], []
        if os.environ.get('DCV_DEBUG'):
            traceback.print_exc()
    r['extra'] = eng.extra
    r['obligs'] = len(eng.obligs)
    r['proved'] = sum(1 for o in eng.obligs if o.status == 'proved')
    r['paths'] = eng.paths
    r['backends'] = dict(eng.stats.by)
    r['solver_s'] = {k: round(v, 3) for k, v in eng.stats.time.items()}
    r['entered'] = sorted(eng.funcs_seen)
    r['bounded_note'] = sorted(eng.assumptions)
    r['secs'] = round(time.time() - t0, 2)
    for o in sorted(bad, key=lambda o: not (o.definite and o.status == 'refuted'))[:8]:
        r['failed'].append({'obligation': o.name, 'where': o.where, 'function': o.func, 'status': o.status, 'backend': o.backend,
                            'goal': str(o.goal)[:1500], 'definite': o.definite and o.status == 'refuted', 'model': model_dict(o.model)})
    return r


_ctx = {}


def _worker(i):
    return run_task(_ctx['jobs'][i])


def run_jobs(jobs, procs=8):
    """in forked processes, so that a solver that hangs cannot take the check down"""
    _ctx['jobs'] = jobs
    if not jobs:
        return []
    if os.environ.get('DCV_SERIAL'):
        return [run_task(j) for j in jobs]
    res = [None] * len(jobs)
    ctx = mp.get_context('fork')
    queue = list(range(len(jobs)))
    live = {}
    while queue or live:
        while queue and len(live) < procs:
            i = queue.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(i, b))
            p.start()
            b.close()
            live[i] = (p, a, time.time())
        mp.connection.wait([v[1] for v in live.values()], timeout=0.5)
        for i in list(live):
            p, a, t0 = live[i]
            task = jobs[i][1]
            lim = task.budget * (1 if jobs[i][5] == 'quick' else 6) * 1.5 + 30
            if a.poll():
                try:
                    res[i] = a.recv()
                except EOFError:
                    res[i] = dead_result(jobs[i], 'worker died')
                p.join(5)
                del live[i]
            elif not p.is_alive():
                res[i] = dead_result(jobs[i], 'worker died')
                del live[i]
            elif time.time() - t0 > lim:
                p.kill()
                p.join()
                res[i] = dead_result(jobs[i], 'worker over its time limit')
                del live[i]
    return res


def _child(i, conn):
    try:
        conn.send(_worker(i))
    finally:
        conn.close()
        os._exit(0)


def dead_result(job, why):
    return {'task': job[1].name, 'label': job[6], 'mode': job[3], 'funcs': job[1].funcs, 'status': 'budget', 'obligs': 0, 'proved': 0, 'failed': [],
            'paths': 0, 'backends': {}, 'solver_s': {}, 'note': why, 'entered': [], 'bounded_note': [], 'secs': 0}


# ------------------------------------------------------------------ native
def literals():
    """numbers in the sources: sizes (all of them), and values that are not in the reviewed list native/literals.txt.
    They only choose inputs of the native run."""
    fs = []
    for d in (front.REPO + '/src', front.REPO + '/include', front.MAV + '/src', front.MAV + '/include'):
        for b, ds, ns in os.walk(d):
            fs += [os.path.join(b, n) for n in ns if n.endswith(('.cpp', '.h', '.hpp')) and 'rpoly' not in b]
    seen = set()
    for f in fs:
        t = re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"', ' ', open(f, errors='replace').read(), flags=re.S)
        for x in re.findall(r"(?<![\w.])(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?(?=[uUlLfF]*(?![\w.]))", t):
            seen.add(float(x))
    p = os.path.join(VERIF, 'native', 'literals.txt')
    known = {float(x) for x in open(p).read().split()} if os.path.exists(p) else None
    if known is None:
        return sorted({int(x) for x in seen if x == int(x) and 6 <= x <= 5000}), [], []
    new = sorted(seen - known)[:40]
    sizes = sorted({int(x) for x in seen if x == int(x) and 6 <= x <= 5000})
    return sizes, [int(x) for x in new if x == int(x) and 3 <= x <= 5000], new


class Native:
    """the contract evaluated on the compiled code of /repo"""

    def __init__(self, prop, spec_, seed, tier):
        self.prop, self.spec, self.seed, self.tier = prop, spec_, seed, tier
        self.dir = tempfile.mkdtemp(prefix='dcv_native_%s_' % prop)
        self.exe = os.path.join(self.dir, 'h')
        self.procs = []
        self.log = ''
        self.ok = False
        flags = ['-std=gnu++17', '-O1', '-g0', '-w', '-DNDEBUG' if spec_.get('ndebug', False) else '-DDCV', '-fno-omit-frame-pointer'] + \
            ['-I' + front.MAV + '/include', '-I' + front.MAV + '/include/mav_msgs', '-I' + front.REPO + '/include',
             '-I' + front.REPO + '/include/dynamic_trajectory_generator', '-I/usr/include/eigen3', '-I' + os.path.join(VERIF, 'native')] + list(spec_.get('flags', ()))
        srcs = [os.path.join(VERIF, 'native', spec_['src'])] + [p.replace('$MAV', front.MAV).replace('$REPO', front.REPO) for p in spec_.get('with', ())]
        self.objs = []
        for i, s in enumerate(srcs):
            o = os.path.join(self.dir, '%d.o' % i)
            self.objs.append(o)
            e = open(o + '.log', 'w')
            self.procs.append((subprocess.Popen(['g++'] + flags + ['-c', s, '-o', o], stdout=e, stderr=e), s, o + '.log'))
        self.build_s = time.time()

    def finish_build(self):
        for p, s, lg in self.procs:
            if p.wait() != 0:
                self.log += 'compiling %s failed: %s\n' % (s, open(lg).read()[-1500:])
        if self.log:
            return False
        p = subprocess.run(['g++'] + self.objs + ['-o', self.exe] + self.spec.get('libs', ['-lglog', '-lgflags', '-lpthread']), capture_output=True, text=True)
        if p.returncode:
            self.log += 'link failed: ' + p.stderr[-1500:]
            return False
        self.build_s = round(time.time() - self.build_s, 1)
        self.ok = True
        return True

    def run(self, n=None, replay=None):
        """returns (violations, evaluations, distinct, raw)"""
        scratch = os.path.join(self.dir, 'scratch')
        os.makedirs(scratch, exist_ok=True)
        cmd = [self.exe, str(self.seed), str(n if n is not None else self.spec.get('n', 2000) * (1 if self.tier == 'quick' else self.spec.get('thorough', 20)))]
        if replay:
            cmd.append(replay)
        lim = self.spec.get('time', 60) * (1 if self.tier == 'quick' else 8)
        sizes, fresh, values = literals()
        env = dict(os.environ, DCV_SIZES=' '.join(map(str, sizes)), DCV_NEW_SIZES=' '.join(map(str, fresh)), DCV_VALUES=' '.join(map(repr, values)), DCV_SCRATCH=scratch, GLOG_minloglevel='3', GLOG_logtostderr='1')
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, timeout=lim, cwd=scratch, env=env, errors='replace')
            out, rc = p.stdout, p.returncode
            err = p.stderr
        except subprocess.TimeoutExpired as e:
            out = (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or '')
            rc, err = 'timeout', ''
        viol, evals, dist, cases, samples, cur = [], 0, 0, 0, [], None
        for l in out.splitlines():
            if l.startswith('FAIL '):
                viol.append(l[5:])
            elif l.startswith('EVALS '):
                evals, dist, cases = [int(x) for x in l.split()[1:4]]
            elif l.startswith('SAMPLE '):
                samples.append(l[7:])
            elif l.startswith('CASE '):
                cur = l[5:]
        return {'viol': viol, 'evals': evals, 'distinct': dist, 'cases': cases, 'samples': samples, 'rc': rc, 'case': cur, 'err': err[-800:]}

    def close(self):
        for p, s, lg in self.procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(self.dir, ignore_errors=True)


# ------------------------------------------------------------------ check
def load_known():
    p = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('KNOWN '):
                # KNOWN property=<id> match=<text> :: <what fails>
                head, what = l[6:].split(' :: ', 1)
                d = dict(x.split('=', 1) for x in head.split(' ', 1)[0:1])
                out.append((d['property'], head.split('match=', 1)[1].strip(), what))
    return out


def main(prop):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    mod = importlib.import_module('dcv.props.' + prop.lower())
    natspec = getattr(mod, 'NATIVE', None)
    nat = Native(prop, natspec, seed, tier) if natspec and not os.environ.get('DCV_NONATIVE') else None
    notes, results, stand_ins, undecided = [], [], [], []
    violations = []          # (obligation, replay dict, has_input)
    try:
        db = None
        try:
            db = front.DB().load(mod.TUS)
        except front.FrontError as e:
            notes.append('front end: %s' % e)
        tasks = []
        if db is not None:
            try:
                tasks = mod.tasks(db, tier)
            except Unsupported as e:
                notes.append('contract does not match the code: %s' % e)
            except Exception:
                notes.append('contract setup failed: %s' % traceback.format_exc()[-500:])
                if os.environ.get('DCV_DEBUG'):
                    traceback.print_exc()
            flt = os.environ.get('DCV_TASK')
            if flt:
                tasks = [t for t in tasks if flt in t.name]
            results = run_jobs([(db, t, t.run, t.mode, seed, tier, 'bounded' if t.mode == 'bounded' else 'proof') for t in tasks])
            byname = {t.name: t for t in tasks}
            jobs = []
            if hasattr(mod, 'finish') and tasks and not flt:
                # what must hold of all the contracts together
                t, r = mod.finish(db, results)
                byname[t.name] = t
                results.append(dict(dead_result((db, t, None, 'proof', seed, tier, 'proof'), ''), **r))
            for r in results:
                t = byname[r['task']]
                if r['status'] != 'proved':
                    for lab, run in t.bounded:
                        jobs.append((db, t, run, 'bounded', seed, tier, lab))
            stand_ins = run_jobs(jobs)
        # native contract evaluation
        natres = None
        if nat:
            if nat.finish_build():
                natres = nat.run()
            else:
                notes.append('native: ' + nat.log[:1500])
        failed_sites = []
        for r in results:
            if r['status'] == 'proved':
                continue
            t = byname[r['task']]
            subs = [s for s in stand_ins if s['task'] == r['task']]
            isbounded = (r['mode'] == 'bounded')
            for s in ([r] if (t.exact or isbounded) else []) + subs:
                if s['status'] == 'refuted':
                    for f in s['failed']:
                        if f['status'] == 'refuted' or f['goal'] == 'False':
                            failed_sites.append((r, s, f))
                            break
            if r['status'] in ('refuted', 'unknown', 'budget') and not subs and not t.exact and not isbounded and r['failed']:
                # an obligation is not accepted and nothing decides it otherwise
                failed_sites.append((r, r, r['failed'][0]))
            elif r['status'] in ('refuted', 'unknown') and subs and all(s['status'] in ('unknown', 'budget') for s in subs) and r['failed']:
                failed_sites.append((r, r, r['failed'][0]))
            elif r['mode'] != 'bounded' and not t.exact and any(f['definite'] for f in r['failed']):
                # beyond the bound of the stand-in, on a path that was followed exactly
                failed_sites.append((r, r, next(f for f in r['failed'] if f['definite'])))
            undecided.append({'task': r['task'], 'status': r['status'], 'note': r['note'], 'failed': r['failed'][:2],
                              'stand_in': [(s['label'], s['status'], s['note']) for s in subs]})
        seen = set()
        if natres:
            if natres['rc'] not in (0, 'timeout') and not natres['viol']:
                natres['viol'].append('crash the program ended with status %s in case: %s; stderr: %s' % (natres['rc'], natres['case'], natres['err'][-300:].replace('\n', ' ')))
            if natres['rc'] == 'timeout':
                notes.append('native run stopped at its time limit' + (' in case: %s' % natres['case'] if natres['case'] else ''))
                if natspec.get('hang_is_failure') and natres['case']:
                    natres['viol'].append('hang no progress in case: %s' % natres['case'])
            for v in natres['viol']:
                key = v.split(' ', 1)[0]
                if key in seen:
                    continue
                seen.add(key)
                violations.append((key, {'kind': 'native', 'obligation': key, 'input': v, 'command': 'native/%s seed=%d' % (natspec['src'], seed)}, True))
        for r, s, f in failed_sites:
            rec = {'kind': 'verifier', 'obligation': f['obligation'], 'where': f['where'], 'function': f['function'], 'task': r['task'], 'mode': s['label'],
                   'status': f['status'], 'backend': f['backend'], 'goal': f['goal'], 'counterexample': f['model'], 'note': s['note']}
            has = False
            if nat and nat.ok and f['model']:
                rp = os.path.join(nat.dir, 'cex.txt')
                with open(rp, 'w') as h:
                    for k, v in f['model'].items():
                        if ' ' not in k and '!' not in k:
                            h.write('%s %s\n' % (k, v))
                rr = nat.run(n=1, replay=rp)
                rec['replayed'] = rr['viol'][:2]
                has = bool(rr['viol'])
            violations.append((f['obligation'], rec, has or (bool(natres) and bool(natres['viol']))))
        # report
        known = [k for k in load_known() if k[0] == prop]
        real = []
        for ob, rec, has in violations:
            txt = json.dumps(rec)
            k = [x for x in known if x[1] in txt]
            if k:
                continue
            real.append((ob, rec, has))
        for k in known:
            print('KNOWN-FINDING: property=%s %s' % (prop, k[2]))
        ev = evidence(prop, mod, tier, seed, t0, results, stand_ins, natres, natspec, nat, notes, undecided, real, db)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as h:
            json.dump(ev, h, indent=1)
        for n in notes:
            print('NOTE', n[:600])
        for u in undecided:
            print('UNDECIDED task=%s status=%s %s %s' % (u['task'], u['status'], u['note'][:300], u['stand_in']))
        tot = sum(r['obligs'] for r in results)
        ok = sum(r['proved'] for r in results if r['mode'] == 'proof')
        print('%s: %d tasks, %d/%d obligations discharged, native %s evaluations, %.1fs' % (prop, len(results), ok, tot, natres['evals'] if natres else 'no', time.time() - t0))
        if real:
            real.sort(key=lambda x: not x[2])
            ob, rec, has = real[0]
            path = os.path.join(OUT, '%s.replay.json' % prop)
            with open(path, 'w') as h:
                json.dump({'property': prop, 'seed': seed, 'violations': [r for _, r, _ in real[:20]]}, h, indent=1)
            print('failed obligation: %s %s' % (ob, (rec.get('where') or rec.get('input', ''))[:400]))
            print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if has else ' no-failing-input-found'))
            return 1
        return 0
    finally:
        if nat:
            nat.close()


def evidence(prop, mod, tier, seed, t0, results, stand_ins, natres, natspec, nat, notes, undecided, real, db):
    pr = [r for r in results if r['mode'] == 'proof']
    bo = [r for r in results if r['mode'] == 'bounded'] + stand_ins
    back, secs = {}, {}
    for r in pr:
        for k, v in r['backends'].items():
            back[k] = back.get(k, 0) + v
        for k, v in r['solver_s'].items():
            secs[k] = round(secs.get(k, 0) + v, 3)
    funcs = sorted({f for r in results for f in r['funcs']})
    entered = sorted({f for r in results for f in r['entered'] if f} - set(funcs))
    cov = {
        'obligations': sum(r['obligs'] for r in pr),
        'discharged': sum(r['proved'] for r in pr),
        'checker_cmd': 'python3-vt /verif/check.py %s' % prop,
        'trusted_base': ['clang 18 AST of /repo (dcv/front.py)', 'the VC generator dcv/exec.py', 'the assumed library contracts dcv/models.py', 'z3, cvc5 and the polynomial normal form in dcv/solver.py'] + list(getattr(mod, 'TRUSTED', ())),
        'functions_under_contract': funcs,
        'functions_verified_in_place': entered,
        'tasks': [{'task': r['task'], 'label': r['label'], 'status': r['status'], 'obligations': r['obligs'], 'discharged': r['proved'], 'paths': r['paths'], 'seconds': r.get('secs'), 'note': r['note'][:300]} for r in results],
        'back_ends': back,
        'solver_seconds': secs,
        'bounded_stand_ins': [{'task': r['task'], 'label': r['label'], 'status': r['status'], 'obligations': r['obligs'], 'bound': r['bounded_note']} for r in bo],
        'undecided': undecided,
        'notes': notes,
        'ast_sha': db.dump_sha if db else {},
    }
    if natres:
        cov['evaluations'] = natres['cases']
        cov['contract_evaluations'] = natres['evals']
        cov['distinct_nontrivial'] = natres['distinct']
        cov['rule'] = natspec.get('rule', 'contract evaluated on the compiled code for pseudo-random and adversarial inputs')
        cov['samples'] = natres['samples'][:3]
        cov['native_build_s'] = nat.build_s
    level = getattr(mod, 'LEVEL', 'proof')
    if level == 'proof' and (not pr or any(r['status'] != 'proved' for r in pr)):
        level = 'other'
        cov['explanation'] = 'not every obligation was accepted on this tree; see undecided'
    elif level == 'other':
        cov['explanation'] = getattr(mod, 'EXPLANATION', '')
    return {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
            'assumptions': ['double arithmetic is real arithmetic (rounding, overflow, NaN and infinities are outside the proofs; the native run evaluates the contract in IEEE arithmetic with a tolerance)',
                            'int and size_t are mathematical integers (conversion to unsigned wraps)', 'containers hold fewer than 2^30 elements', 'distinct pointer arguments do not alias unless the contract says so'] + list(getattr(mod, 'ASSUMPTIONS', ())),
            'wall_s': round(time.time() - t0, 2), 'violations': len(real)}
