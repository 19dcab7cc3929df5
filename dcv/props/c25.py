"""C25: Swapping in a plan fits its time to where the vehicle is.

Contracts (any object state, plans of any duration, any number of samples):
  timeFittingWithVehiclePosition   only the offset of the parameters of the new plan changes: it becomes the last sample i*0.1 s before one and a half planning times where the
                                   deformed plan is closest to the position, minus the time flown since the plan was started, plus one step; without a plan nothing changes
  swapTrajectory        the finished plan replaces the trajectory, its parameters (with the fitted offset) replace the parameters, the caller will be told; the fit is made to the
                        vehicle position for a plan from scratch and to the current reference otherwise; the plan is taken from the future under a lock held since it was seen finished,
                        so that two clients cannot take the same plan
  setSpeed              whether or not a plan is being computed, the speed set is that of the parameters in force and of those the next swap puts in force
  swapDynamicWaypoints  the flown waypoints become the planned ones
  checkTrajectoryGenerated   waits while there is no trajectory; swaps trajectory and waypoints exactly when a plan is being computed and is seen finished, and then none is being computed
  getWasTrajectoryRegenerated   whatever another thread does between any two accesses of the flag, no report is lost or made twice
"""
from .dynlib import *
from .. import models
TUS = DYN_TUS
NATIVE = dict(NAT, src='c25.cpp', n=3000)
ASSUMPTIONS = ['evaluation of the deformed trajectory (C20) by contract', 'std::future: get() of a ready future returns the plan once; valid, wait and wait_for as in the standard']
FOOT = {'future_mutex_', 'parameters_mutex_', 'vehicle_position_mutex_', 'dynamic_waypoints_mutex_', 'time_measure_mutex_'}


def tasks(db, tier):
    Dn = lambda x: DT + '::' + x
    f = {x: find(db, Dn(x)) for x in ('swapTrajectory', 'swapDynamicWaypoints', 'checkTrajectoryGenerated', 'timeFittingWithVehiclePosition', 'getWasTrajectoryRegenerated', 'setSpeed')}
    TD = ('seq', TW, 'deque')
    STEP = Fraction(0.1).limit_denominator(10)

    def POS(nm, g, l, k):
        return [z3.Function('%s.pos%d' % (nm, i), z3.RealSort(), z3.RealSort(), z3.IntSort(), z3.RealSort())(rv(g), rv(l), iv(k)) for i in range(3)]

    def ov_eval(it, func, this, args, node):
        it.oblige('the locks evaluation takes are free', not (set(it.locks) & FOOT), node)
        ts = it.load(args[0]) if isinstance(args[0], LV) else args[0]
        nm = plan_name(it, ts)
        if nm is None:
            it.oblige('a trajectory is evaluated', False, node)
            raise Infeasible()
        return vec(POS(nm, it.val(args[1]), it.val(args[2]), it.val(args[3]) if len(args) > 3 else 0))

    # ------------------------------------------------ fit
    def dist(it, v):
        if bounded(it):
            return models.norm2(it, v)
        return z3.Function('norm', *[z3.RealSort()] * 4)(*[rv(it.elem(v, i)) for i in range(3)])

    def m_norm(it, n, obj, argn):
        v = it.val(obj)
        return NotImplemented if bounded(it) or size(v) != 3 else dist(it, v)

    def run_fit(it):
        none = bool(it.choose(2))
        tr = plan(it, 'plan', null=none)
        tl = new(it, tr, cls(TS))
        o = dyn(it)
        ol = new(it, o)
        veh = vec(reals('veh', 3))
        P, Q = o.f['parameters_'].f, o.f['new_parameters_'].f
        start = Q['global_time_last_trajectory_generated']
        hi = mul(3, o.f['time_constant_'])
        d = lambda i: dist(it, vec([sub(x, y) for x, y in zip(POS('plan', add(mul(STEP, i), start), mul(STEP, i), 0), [it.elem(veh, q) for q in range(3)])]))
        if bounded(it):
            it.assume(cmp('<=', hi, Fraction(35, 100)))
        it.ghost.update(d=d, hi=hi)
        call(it, f['timeFittingWithVehiclePosition'], ol, [tl, veh])
        g = it.load(ol)
        if none:
            keep(it, g, o)
            unlocked(it)
            return
        flown = sub(P['last_global_time_evaluated'], start)
        got = sub(add(g.f['new_parameters_'].f['t_offset'], flown), STEP)      # the sample chosen
        if bounded(it):
            best, i = 0, 1
            while it.branch(cmp('<', mul(STEP, i), hi)):
                if it.branch(cmp('<=', d(i), d(best))):
                    best = i
                i += 1
            it.oblige('the closest sample is chosen, the last one of several', cmp('==', got, mul(STEP, best)))
        else:
            m, j = it.ghost.get('m', 0), z3.Int('j0')
            it.oblige('a sample is chosen', land(cmp('==', mul(STEP, m), got), cmp('>=', m, 0), implies(cmp('>', m, 0), cmp('<', got, hi))))
            it.oblige('no sample is closer', implies(land(j >= 0, lor(cmp('==', j, 0), cmp('<', mul(STEP, j), hi))), land(cmp('>=', d(j), d(m)), implies(cmp('>', j, m), cmp('>', d(j), d(m))))))
        keep(it, g, o, ('new_parameters_',))
        for x in Q:
            if x != 't_offset':
                it.oblige('kept: ' + x, cmp('==', g.f['new_parameters_'].f[x], Q[x]))
        unlocked(it)

    def inv_fit(L):
        it, G = L.it, L.it.ghost
        if 'd' not in G or bounded(it):
            return None
        t, mt, md = L['t'], L['min_time'], L['min_distance']
        j = z3.Int('j0')
        # witnesses: the number of samples looked at, and the one chosen so far
        if L.phase == 'entry':
            k, m = 0, 0
        elif L.phase == 'assume':
            k, m = G['k'], G['m'] = it.fresh(('int', True, 64), 'k'), it.fresh(('int', True, 64), 'm')
        else:
            k = G['k'] + 1
            m = z3.If(bv(cmp('==', mt, mul(STEP, G['m']))), G['m'], k)
        return [cmp('>=', k, 0), cmp('==', t, mul(STEP, add(k, 1))), cmp('==', mt, mul(STEP, m)), land(cmp('>=', m, 0), cmp('<=', m, k)), implies(cmp('>', m, 0), cmp('<', mt, G['hi'])),
                cmp('==', md, G['d'](m)),
                implies(land(j >= 0, cmp('<=', j, k)), cmp('>=', G['d'](j), md)), implies(land(j >= 0, cmp('<=', j, k), cmp('>', j, m)), cmp('>', G['d'](j), md))]

    # ------------------------------------------------ swap
    def watch(it):
        """ghost: the locks held without interruption since the plan was last seen finished"""
        G = it.ghost
        G.setdefault('since', frozenset())

        def hook(kind, it, label, node):
            if kind == 'release':
                it.ghost['since'] = it.ghost['since'] - {label}
        it.e.lock_hook = hook

    def fut(it, obj):
        return isinstance(it.load(obj) if isinstance(obj, LV) else obj, Opaque)

    def seen(it, yes):
        it.ghost['since'] = frozenset(it.locks) if yes else frozenset()

    def m_get(it, n, obj, argn):
        G = it.ghost
        if 'future' not in G or not isinstance(obj, LV) or obj.path[-1:] != (('f', 'future_traj_'),):
            return NotImplemented
        it.oblige('the future is read with its lock held', 'future_mutex_' in it.locks, n)
        it.oblige('a finished plan is taken once: it was seen finished under a lock that is still held', bool(G['since']), n)
        it.oblige('the plan is taken once', 'taken' not in G, n)
        G['taken'] = True
        G['since'] = frozenset()
        return G['new']

    def run_swap(it):
        tr, nw = plan(it, 'traj'), plan(it, 'plan')
        if it.choose(2):
            tr = plan(it, 'traj', null=True)
            it.ghost['no traj'] = True
        o = dyn(it, traj=tr)
        if tr.f['trajectory_ptr_'] is NULL:
            it.assume(o.f['from_scratch_'])       # a plan is stitched only if there is a trajectory (C24)
        ol = new(it, o)
        it.ghost.update(future=True, new=nw, ol=ol)
        watch(it)
        # precondition: a finished plan was seen, under a lock the caller still holds
        it.locks.append('the lock of the caller')
        it.ghost['since'] = frozenset(it.locks)
        call(it, f['swapTrajectory'], ol, [])
        it.locks.remove('the lock of the caller')
        g, G = it.load(ol), it.ghost
        it.oblige('the plan is taken', 'taken' in G)
        it.oblige('its time is fitted once', len(G.get('fits', ())) == 1)
        if len(G.get('fits', ())) == 1:
            P = o.f['parameters_'].f
            pl, pos, off = G['fits'][0]
            it.oblige('the new plan is fitted', pl == 'plan')
            sc = o.f['from_scratch_']
            ref = POS('traj', add(P['last_global_time_evaluated'], P['t_offset']), add(P['last_local_time_evaluated'], P['t_offset']), 0)
            for i in range(3):
                it.oblige('fitted to the vehicle or to the current reference', cmp('==', it.elem(pos, i), rv(it.elem(o.f['vehicle_position_'], i)) if it.branch(sc) else ref[i]))
            Q = o.f['new_parameters_'].f
            for x in Q:
                it.oblige('parameters of the plan: ' + x, cmp('==', g.f['parameters_'].f[x], off if x == 't_offset' else Q[x]))
        it.oblige('the new plan is flown', plan_name(it, g.f['traj_']) == 'plan')
        it.oblige('the caller will be told', g.f['trajectory_regenerated_'])
        it.oblige('the next plan is not from scratch by default', lnot(g.f['from_scratch_']))
        keep(it, g, o, ('parameters_', 'new_parameters_', 'traj_', 'trajectory_regenerated_', 'from_scratch_', 'future_traj_'))
        unlocked(it)

    def ov_fit(it, func, this, args, node):
        it.oblige('the locks fitting takes are free', not (set(it.locks) & FOOT), node)
        ts = it.load(args[0]) if isinstance(args[0], LV) else args[0]
        off = z3.Real('fitted')
        it.ghost.setdefault('fits', []).append((plan_name(it, ts), it.val(args[1]), off))
        it.store(this.f('new_parameters_').f('t_offset'), off)

    def run_wps(it):
        o = dyn(it, lists=('dynamic_waypoints_', 'next_trajectory_waypoint_'))
        ol = new(it, o)
        call(it, f['swapDynamicWaypoints'], ol, [])
        g = it.load(ol)
        same(it, 'the planned waypoints are flown', g.f['dynamic_waypoints_'], o.f['next_trajectory_waypoint_'])
        keep(it, g, o, ('dynamic_waypoints_',))
        unlocked(it)

    # ------------------------------------------------ check
    def m_valid(it, n, obj, argn):
        G = it.ghost
        if 'future' not in G or not isinstance(obj, LV) or obj.path[-1:] != (('f', 'future_traj_'),):
            return NotImplemented
        it.oblige('the future is read with its lock held', 'future_mutex_' in it.locks, n)
        G['valid asked'] = True
        # another thread may store a plan between two looks, and another client may take it unless this one holds the lock of the swap
        if not it.locks or 'valid' not in G or not (set(it.locks) & set(G['valid'][0])):
            G['looks'] = G.get('looks', 0) + 1
            v = z3.Bool('valid%d' % G['looks'])
            if 'valid' in G and not G.get('others', True):
                it.assume(implies(G['valid'][1], v))
            G['valid'] = (tuple(it.locks), v)
        return G['valid'][1]

    def m_wait(it, n, obj, argn):
        G = it.ghost
        it.oblige('the future is read with its lock held', 'future_mutex_' in it.locks, n)
        it.oblige('only a valid future is waited for', G['valid'][1] if 'valid' in G else False, n)
        G['waited'] = True
        G['done'] = True

    def m_wait_for(it, n, obj, argn):
        G = it.ghost
        it.oblige('the future is read with its lock held', 'future_mutex_' in it.locks, n)
        it.oblige('only a valid future is waited for', land(G['valid'][1] if 'valid' in G else False, bool(set(G['valid'][0]) & set(it.locks)) if 'valid' in G else False), n)
        r = z3.Bool('ready')
        G['ready asked'] = True
        if G.get('done'):
            it.assume(r)        # the planning task does not become unfinished
        if it.branch(r):
            seen(it, True)
            G['ready'] = True
            return Opaque('enum', 'ready')
        return Opaque('enum', 'timeout')

    def run_check(it):
        null = bool(it.choose(2))
        tr = plan(it, 'traj', null=null)
        o = dyn(it, traj=tr)
        ol = new(it, o)
        watch(it)
        G = it.ghost
        G.update(future=True, ol=ol)
        r = call(it, f['checkTrajectoryGenerated'], ol, [])
        g = it.load(ol)
        it.oblige('there is a trajectory or a finished plan', lor(not null, G.get('waited', False)))
        it.oblige('reported', r)
        comp = o.f['computing_new_trajectory_']
        if G.get('swapped'):
            it.oblige('swapped only while a plan is being computed and it is finished', land(comp, G.get('ready', False)))
            it.oblige('trajectory, then waypoints', G['swapped'] == ['trajectory', 'waypoints'])
            it.oblige('the plan is not being computed any more', lnot(g.f['computing_new_trajectory_']))
            keep(it, g, G['after swap'], ('computing_new_trajectory_',))
        else:
            it.oblige('a finished plan is swapped in', lor(lnot(comp), lnot(G['valid'][1]) if 'valid' in G else False, land(G.get('ready asked', False), not G.get('ready', False))))
            keep(it, g, o)
        unlocked(it)

    def ov_swap(it, func, this, args, node):
        G = it.ghost
        it.oblige('the locks the swap takes are free', not (set(it.locks) & FOOT), node)
        it.oblige('a finished plan was seen, under a lock that is still held', bool(G['since']), node)
        G['since'] = frozenset()
        G.setdefault('swapped', []).append('trajectory')
        o = it.load(this)
        it.oblige('the plan counts as being computed until it is swapped in', o.f['computing_new_trajectory_'], node)
        it.store(this.f('traj_'), plan(it, 'swapped in'))
        it.store(this.f('trajectory_regenerated_'), True)
        G['after swap'] = it.load(this)

    def ov_swapw(it, func, this, args, node):
        G = it.ghost
        it.oblige('the lock of the waypoints is free', not (set(it.locks) & FOOT), node)
        G.setdefault('swapped', []).append('waypoints')
        o = it.load(this)
        it.oblige('the planned waypoints are still those of the plan: none is being made', o.f['computing_new_trajectory_'], node)
        it.store(this.f('dynamic_waypoints_'), it.fresh_named(TD, 'swapped waypoints') if not bounded(it) else Seq(TW, 'deque', []))
        G['after swap'] = it.load(this)

    # ------------------------------------------------ the report
    def fld(it, n):
        G = it.ghost
        if 'told' not in G:
            return NotImplemented
        # another thread may report before any access
        if it.choose(2):
            G['told'] = True
            it.store(G['ol'].f('trajectory_regenerated_'), True)
        return NotImplemented

    def run_told(it):
        o = dyn(it)
        ol = new(it, o)
        it.ghost.update(ol=ol, told=False)
        r = call(it, f['getWasTrajectoryRegenerated'], ol, [])
        told = lor(o.f['trajectory_regenerated_'], it.ghost.pop('told'))
        g = it.load(ol)
        it.oblige('a report is not lost', implies(told, lor(r, g.f['trajectory_regenerated_'])))
        it.oblige('nothing is reported that did not happen', implies(lor(r, g.f['trajectory_regenerated_']), told))
        it.oblige('a report is made once', implies(r, lor(lnot(g.f['trajectory_regenerated_']), told)))
        keep(it, g, o, ('trajectory_regenerated_',))
        unlocked(it)

    def run_once(it):
        o = dyn(it)
        ol = new(it, o)
        r = call(it, f['getWasTrajectoryRegenerated'], ol, [])
        g = it.load(ol)
        it.oblige('reported as it is', cmp('==', bv(r), bv(o.f['trajectory_regenerated_'])))
        it.oblige('and only once', lnot(g.f['trajectory_regenerated_']))
        keep(it, g, o, ('trajectory_regenerated_',))

    def run_speed(it):
        o = dyn(it)
        ol = new(it, o)
        v = z3.Real('speed')
        call(it, f['setSpeed'], ol, [v])
        g = it.load(ol)
        # the swap makes the parameters of the new plan (their offset apart) those in force
        for pn in ('parameters_', 'new_parameters_'):
            it.oblige('the speed set is the one now and after the next swap', cmp('==', g.f[pn].f['speed'], v))
        unlocked(it)

    hk = {'member:get': m_get, 'member:valid': m_valid, 'member:wait': m_wait, 'member:wait_for': m_wait_for, 'free:sleep_for': lambda it, n, *a: None}
    b = 'at most 3 samples after the first'
    return [
        Task('timeFittingWithVehiclePosition', run_fit, [Dn('timeFittingWithVehiclePosition')], overrides={Dn('evaluateModifiedTrajectory'): ov_eval}, hooks={'member:norm': m_norm}, invariants={'timeFittingWithVehiclePosition': [('closest so far', inv_fit)]}, bounded=[(b, run_fit)]),
        Task('swapTrajectory', run_swap, [Dn('swapTrajectory')], overrides={Dn('evaluateModifiedTrajectory'): ov_eval, Dn('timeFittingWithVehiclePosition'): ov_fit}, hooks=hk, exact=True),
        Task('swapDynamicWaypoints', run_wps, [Dn('swapDynamicWaypoints')], bounded=[('at most 2 waypoints', run_wps)]),
        Task('checkTrajectoryGenerated', run_check, [Dn('checkTrajectoryGenerated')], overrides={Dn('swapTrajectory'): ov_swap, Dn('swapDynamicWaypoints'): ov_swapw}, hooks=hk, bounded=[('all inputs, at most 4 looks at the future', run_check)]),
        Task('setSpeed', run_speed, [Dn('setSpeed')], exact=True),
        Task('getWasTrajectoryRegenerated', run_once, [Dn('getWasTrajectoryRegenerated')], exact=True),
        Task('getWasTrajectoryRegenerated with other threads', run_told, [Dn('getWasTrajectoryRegenerated')], hooks={'field:trajectory_regenerated_': fld}, exact=True),
    ]
