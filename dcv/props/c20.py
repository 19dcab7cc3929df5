"""C20: A reference is the trajectory at the local time plus waypoint deformations.

Contracts (any object, any number of waypoints, any time; E(t,k) is the trajectory's k-th derivative at t (C04), W(w,t,k) a waypoint's
deformation (C19)):
  evaluateModifiedTrajectory  E(clamp(local, 0, duration), k) plus, for a positive global time, the sum of W(w, global, k) over the waypoints
                              with a name; the evaluation is inside the trajectory; the object is not changed
  getReferences               position, velocity, acceleration are those of orders 0, 1, 2; positions only: order 0 and nothing else evaluated
  evaluateTrajectory          after taking in a finished plan: the references at t + offset (global) and t - start + offset (local); records t
                              and t - start unless plotting, and changes nothing else
  convertFromGlobalTime, convertIntoGlobalTime, getMinTime, getMaxTime   t - start, t + start, start, start + duration
  ThreadSafeTrajectory        evaluation, times and null comparisons are those of the trajectory it holds
"""
from .dynlib import *
TUS = DYN_TUS
NATIVE = dict(NAT, src='c20.cpp', n=3000)
ASSUMPTIONS = ['one thread at a time runs the function (its callees\' contracts hold; interleavings are C26, C27, C31)', 'the trajectory has dimension 3 and a non-negative duration', 'taking in a finished plan may change any part of the object (its own contract is C25)']


def tasks(db, tier):
    Dn = lambda x: DT + '::' + x
    f = {x: find(db, Dn(x)) for x in ('evaluateModifiedTrajectory', 'getReferences', 'evaluateTrajectory', 'convertFromGlobalTime', 'convertIntoGlobalTime', 'getMaxTime', 'getMinTime', 'getTimeCompensation', 'getSpeed', 'setSpeed', 'updateVehiclePosition', 'getVehiclePosition')}
    ts = {x: find(db, TS + '::' + x) for x in ('evaluate', 'getMaxTime', 'getMinTime')}
    P = [z3.Function('deformed%d' % i, z3.IntSort(), z3.RealSort()) for i in range(3)]
    ov = {TRAJ + '::evaluate': eval_contract, DW + '::trajectoryCompensation': comp_contract}

    def term(it, w, i):
        return ite(named(it, w), comp(it, w, it.ghost['gt'], it.ghost['k'])[i], Fraction(0))

    def run_mod(it):
        o = dyn(it, lists=('dynamic_waypoints_',))
        ol = new(it, o)
        k = it.choose(3) if bounded(it) else z3.Int('order')
        gt, lt = z3.Reals('global_time local_time')
        ws = o.f['dynamic_waypoints_']
        it.ghost.update(ws=ws, gt=gt, k=k)
        other = it.choose(2)
        tr = plan(it, 'other') if other else o.f['traj_']
        tl = new(it, tr) if other else ol.f('traj_')
        base = E(plan_name(it, tr), clamp(lt, duration(it, tr)), k)
        it.ghost['base'] = base
        if not bounded(it):
            for i in range(3):
                it.assume(P[i](z3.IntVal(0)) == 0)
        r = call(it, f['evaluateModifiedTrajectory'], ol, [tl, gt, lt, k])
        it.oblige('three components', cmp('==', size(r), 3))
        for i in range(3):
            if bounded(it):
                s = Fraction(0)
                for w in ws.items:
                    s = add(s, term(it, w, i))
            else:
                s = P[i](ws.n)
            it.oblige('component %d' % i, cmp('==', it.elem(r, i), add(base[i], ite(cmp('>', gt, 0), s, Fraction(0)))))
        keep(it, it.load(ol), o)
        unlocked(it)

    def inv_mod(L):
        it, G = L.it, L.it.ghost
        if 'base' not in G or bounded(it) or L.level != 1:
            return None
        idx, ws = iv(L.idx), G['ws']
        w = it.elem(ws, idx)
        for i in range(3):
            it.assume(implies(land(idx >= 0, idx < ws.n), P[i](idx + 1) == P[i](idx) + rv(term(it, w, i))))
        acc = next((x for x in (it.cells[c[0]] for c in L.mods) if isinstance(x, Mat) and len(x.d) == 3), None)
        if acc is None:
            return None
        return [idx >= 0, idx <= ws.n] + [cmp('==', acc.d[i], add(G['base'][i], P[i](idx))) for i in range(3)]

    def M(nm, gt, lt, k):
        return [z3.Function('%s.M%d' % (nm, i), z3.RealSort(), z3.RealSort(), z3.IntSort(), z3.RealSort())(rv(gt), rv(lt), iv(k)) for i in range(3)]

    def ov_mod(it, func, this, args, node):
        tr = it.load(args[0])
        k = it.val(args[3]) if len(args) > 3 else 0
        it.ghost.setdefault('orders', []).append(k)
        return vec(M(plan_name(it, tr), it.val(args[1]), it.val(args[2]), k))

    def check_refs(it, r, nm, gt, lt, only):
        for k, n in enumerate(('position', 'velocity', 'acceleration')):
            if only is True and k:
                break
            for i, w in enumerate(M(nm, gt, lt, k)):
                it.oblige(n, cmp('==', it.elem(r.f[n], i), w))
        if only is True:
            it.oblige('the other orders are left out', all(k == 0 for k in it.ghost.get('orders', [])))

    def run_refs(it):
        o = dyn(it)
        ol = new(it, o)
        gt, lt = z3.Reals('global_time local_time')
        only = bool(it.choose(2))
        r = call(it, f['getReferences'], ol, [ol.f('traj_'), gt, lt, only])
        check_refs(it, r, 'o.traj', gt, lt, only)
        keep(it, it.load(ol), o)
        unlocked(it)

    def ov_check(it, func, this, args, node):
        """takes in a finished plan, if any: the object may change as a whole"""
        it.oblige('plans are taken in first, holding no lock', not it.ghost.get('orders') and not it.locks)
        n = dyn(it, 'n')
        it.ghost['n'] = n
        it.store(this, n)
        return True

    def run_eval(it):
        o = dyn(it)
        ol = new(it, o)
        it.ghost['n'] = None
        t = z3.Real('t')
        only, plot = bool(it.choose(2)), bool(it.choose(2))
        rl = new(it, it.fresh_named(cls(REFS), 'refs'))
        r = call(it, f['evaluateTrajectory'], ol, [t, rl, only, plot])
        n = it.ghost['n']
        it.oblige('a finished plan is taken in', n is not None)
        if n is None:
            return
        p = n.f['parameters_'].f
        start, off = p['global_time_last_trajectory_generated'], p['t_offset']
        check_refs(it, it.load(rl), 'n.traj', add(t, off), add(sub(t, start), off), only)
        it.oblige('succeeds', r if isinstance(r, bool) else bv(r))
        g = it.load(ol)
        keep(it, g, n, ('parameters_',))
        for x in p:
            want = {'last_global_time_evaluated': t, 'last_local_time_evaluated': sub(t, start)}.get(x, p[x]) if not plot else p[x]
            it.oblige(('recorded: ' if x.startswith('last_') and not plot else 'kept: ') + x, cmp('==', g.f['parameters_'].f[x], want))
        unlocked(it)

    def run_conv(it):
        o = dyn(it)
        ol = new(it, o)
        t = z3.Real('t')
        s = o.f['parameters_'].f['global_time_last_trajectory_generated']
        a, b = call(it, f['convertFromGlobalTime'], ol, [t]), call(it, f['convertIntoGlobalTime'], ol, [t])
        it.oblige('local time', cmp('==', a, sub(t, s)))
        it.oblige('global time', cmp('==', b, add(t, s)))
        it.oblige('there and back', cmp('==', call(it, f['convertFromGlobalTime'], ol, [b]), t))
        it.oblige('back and there', cmp('==', call(it, f['convertIntoGlobalTime'], ol, [a]), t))
        keep(it, it.load(ol), o)
        unlocked(it)

    def run_span(it):
        null = bool(it.choose(2))
        o = dyn(it, traj=plan(it, null=True) if null else None)
        ol = new(it, o)
        it.ghost['n'] = None
        which = it.choose(2)
        r = call(it, f['getMaxTime' if which else 'getMinTime'], ol, [])
        if null:
            it.oblige('without a trajectory, waits for the first plan', it.ghost['n'] is not None)
        now = it.ghost['n'] or o
        want = now.f['parameters_'].f['global_time_last_trajectory_generated']
        if which:
            want = add(want, duration(it, now.f['traj_']))
        it.oblige('end in global time' if which else 'start in global time', cmp('==', r, want))
        keep(it, it.load(ol), now)
        unlocked(it)

    def run_ts(it):
        tr = plan(it, 'tr')
        tl = new(it, tr)
        t = z3.Real('t')
        k = it.choose(3)
        it.assume(z3.And(t >= 0, t <= duration(it, tr)))
        r = call(it, ts['evaluate'], tl, [t, k])
        for i, w in enumerate(E('tr', t, k)):
            it.oblige('the trajectory\'s value', cmp('==', it.elem(r, i), w))
        it.oblige('its duration', cmp('==', call(it, ts['getMaxTime'], tl, []), duration(it, tr)))
        it.oblige('it starts at zero', cmp('==', call(it, ts['getMinTime'], tl, []), 0))
        keep(it, it.load(tl), tr)
        unlocked(it)

    def run_small(it):
        o = dyn(it)
        ol = new(it, o)
        it.oblige('reported offset', cmp('==', call(it, f['getTimeCompensation'], ol, []), o.f['parameters_'].f['t_offset']))
        it.oblige('reported speed', cmp('==', call(it, f['getSpeed'], ol, []), o.f['parameters_'].f['speed']))
        keep(it, it.load(ol), o)
        v = z3.Real('speed')
        call(it, f['setSpeed'], ol, [v])
        g = it.load(ol)
        keep(it, g, o, ('parameters_', 'new_parameters_'))
        for pn in ('parameters_', 'new_parameters_'):
            for x in g.f[pn].f:
                it.oblige(('speed set: ' if x == 'speed' else 'kept: ') + x, cmp('==', g.f[pn].f[x], v if x == 'speed' else o.f[pn].f[x]))
        p = vec(reals('pos', 3))
        call(it, f['updateVehiclePosition'], ol, [new(it, p, V3)])
        r = call(it, f['getVehiclePosition'], ol, [])
        for i in range(3):
            it.oblige('vehicle position', cmp('==', it.elem(r, i), p.d[i]))
        keep(it, it.load(ol), g, ('vehicle_position_',))
        unlocked(it)

    ovm = {Dn('evaluateModifiedTrajectory'): ov_mod, Dn('checkTrajectoryGenerated'): ov_check}
    b = 'at most 2 waypoints'
    return [
        Task('evaluateModifiedTrajectory', run_mod, [Dn('evaluateModifiedTrajectory')], overrides=ov, invariants={'evaluateModifiedTrajectory': [('sum', inv_mod)]}, bounded=[(b, run_mod)]),
        Task('getReferences', run_refs, [Dn('getReferences'), REFS + '::operator[]'], overrides=ovm, exact=False, bounded=[('all inputs', run_refs)]),
        Task('evaluateTrajectory', run_eval, [Dn('evaluateTrajectory')], overrides=ovm, bounded=[('all inputs', run_eval)]),
        Task('time conversion', run_conv, [Dn('convertFromGlobalTime'), Dn('convertIntoGlobalTime')], bounded=[('all inputs', run_conv)]),
        Task('first and last time', run_span, [Dn('getMaxTime'), Dn('getMinTime')], overrides=ovm, bounded=[('all inputs', run_span)]),
        Task('thread-safe trajectory', run_ts, [TS + '::evaluate', TS + '::getMaxTime', TS + '::getMinTime'], overrides=ov, bounded=[('all inputs', run_ts)]),
        Task('speed, offset and vehicle position', run_small, [Dn('setSpeed'), Dn('getSpeed'), Dn('getTimeCompensation'), Dn('updateVehiclePosition')], bounded=[('all inputs', run_small)]),
    ]
