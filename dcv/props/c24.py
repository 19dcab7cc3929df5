"""C24: Replanning starts only when it is safe and one plan at a time.

Contracts (any object state, waypoint lists of any length):
  checkInSecurityZone   there is a trajectory and the first named waypoint scheduled after the last evaluated time is at most five planning times away
  checkIfTrajectoryCanBeGenerated   outside the security zone, no plan being computed
  checkStitchTrajectory   there is a trajectory and at least twice the planning time of it remains after the last evaluated time
  applyWaypointModification   every flown waypoint of that name (never an unnamed one) is moved to the position at the last evaluated time, the others are untouched
  todoThreadLoop        one arbitrary iteration of the worker: a plan is started exactly when asked for, allowed and there are waypoints: parameters and start time are frozen,
                        the plan is stitched or started from the vehicle as checkStitchTrajectory says; otherwise pending modifications are applied in order while no plan
                        is being computed, to the flown waypoints and to those waiting to be planned, and then they are no longer pending; nothing else changes
"""
from .dynlib import *
TUS = DYN_TUS
NATIVE = dict(NAT, src='c24.cpp', n=4000)
ASSUMPTIONS = ['moving a waypoint (C19), combining pending requests (C21), stitching (C22) by contract']
NP = 'dynamic_traj_generator::'


def tasks(db, tier):
    Dn = lambda x: DT + '::' + x
    f = {x: find(db, Dn(x)) for x in ('checkInSecurityZone', 'checkIfTrajectoryCanBeGenerated', 'checkStitchTrajectory', 'applyWaypointModification', 'todoThreadLoop')}
    TD, TV, TM = ('seq', TW, 'deque'), ('seq', TW, 'vector'), ('seq', MOD, 'vector')

    def maybe_plan(it):
        return plan(it, 'o.traj', null=bool(it.choose(2)))

    def last(o):
        return o.f['parameters_'].f['last_global_time_evaluated']

    def run_zone(it):
        tr = maybe_plan(it)
        ws = waypoints(it, 'ws', hi=3)
        o = dyn(it, traj=tr, dynamic_waypoints_=ws)
        ol = new(it, o)
        n = size(ws)
        t = last(o)
        ahead = lambda i: land(named(it, it.elem(ws, i)), cmp('>', it.elem(ws, i).f['t_assigned_'], t))
        close = lambda i: cmp('<=', sub(it.elem(ws, i).f['t_assigned_'], t), mul(10, o.f['time_constant_']))
        it.ghost.update(ws=ws, ahead=ahead)
        if not bounded(it):
            F = z3.Int('first')
            it.assume(land(F >= 0, F <= n, implies(F < n, ahead(F))))
        r = call(it, f['checkInSecurityZone'], ol, [])
        if tr.f['trajectory_ptr_'] is NULL:
            it.oblige('without a trajectory there is no security zone', lnot(r))
        elif bounded(it):
            k = 0
            while k < n and not it.branch(ahead(k)):
                k += 1
            it.oblige('the next named waypoint ahead is close', cmp('==', bv(r), bv(close(k) if k < n else False)))
        else:
            it.oblige('the next named waypoint ahead is close', cmp('==', bv(r), land(F < n, close(F))))
        keep(it, it.load(ol), o)
        unlocked(it)

    def inv_zone(L):
        it, G = L.it, L.it.ghost
        if 'ahead' not in G or bounded(it):
            return None
        i, F = iv(L.idx), z3.Int('first')
        # "first" is the first named waypoint ahead (or the end)
        it.assume(implies(land(i >= 0, i < F), lnot(G['ahead'](i))))
        return [i >= 0, i <= iv(size(G['ws'])), i <= F]

    def run_can(it):
        o = dyn(it)
        ol = new(it, o)
        zone = z3.Bool('zone')
        it.ghost['zone'] = zone
        r = call(it, f['checkIfTrajectoryCanBeGenerated'], ol, [])
        it.oblige('outside the security zone, one plan at a time', cmp('==', bv(r), land(lnot(zone), lnot(o.f['computing_new_trajectory_']))))
        keep(it, it.load(ol), o)
        unlocked(it)

    def ov_zone(it, func, this, args, node):
        it.oblige('no lock is held', not it.locks, node)
        return it.ghost['zone']

    def run_check(it):
        tr = maybe_plan(it)
        o = dyn(it, traj=tr)
        ol = new(it, o)
        r = call(it, f['checkStitchTrajectory'], ol, [])
        if tr.f['trajectory_ptr_'] is NULL:
            it.oblige('without a trajectory nothing is stitched', lnot(r))
        else:
            left = sub(add(duration(it, tr), o.f['parameters_'].f['global_time_last_trajectory_generated']), last(o))
            it.oblige('enough of the trajectory remains', cmp('==', bv(r), cmp('>=', left, mul(4, o.f['time_constant_']))))
        keep(it, it.load(ol), o)
        unlocked(it)

    # ------------------------------------------------ modifications of the flown waypoints
    def moved(it, w, p, t):
        s = it.S.sort(TW)
        r = sval(it, TW, z3.Function('moved', s, *[z3.RealSort()] * 4, s)(sterm(it, TW, w), *[rv(it.elem(p, i)) for i in range(3)], rv(t)))
        it.assume(cmp('==', r.f['name_'], w.f['name_']))
        return r

    def ov_move(it, func, this, args, node):
        it.store(this, moved(it, it.load(this), it.val(args[0]), it.val(args[1]) if len(args) > 1 else Fraction(0)))

    def pick(it, c, a, b):
        return sval(it, TW, z3.If(bv(c), sterm(it, TW, a), sterm(it, TW, b)))

    def hit(it, w, nm):
        return land(cmp('==', w.f['name_'], nm), cmp('!=', nm, it.S.term(STR, '')))

    def run_apply(it):
        ws = waypoints(it, 'ws', hi=3)
        o = dyn(it, dynamic_waypoints_=ws)
        ol = new(it, o)
        nm, p = it.fresh_named(STR, 'name'), vec(reals('p', 3))
        to = lambda i: pick(it, hit(it, it.elem(ws, i), nm), moved(it, it.elem(ws, i), p, last(o)), it.elem(ws, i))
        it.ghost.update(ws=ws, to=to, ol=ol, o=o, nm=nm)
        r = call(it, f['applyWaypointModification'], ol, [new(it, nm, STR), new(it, p, V3)])
        g = it.load(ol)
        got = g.f['dynamic_waypoints_']
        it.oblige('as many waypoints', cmp('==', size(got), size(ws)))
        n = size(ws)
        if not bounded(it):
            j = z3.Int('j0')
            it.oblige('those of that name are moved, the others kept', implies(land(j >= 0, j < n), eqt(it, it.elem(got, j), to(j))))
            h = lambda i: hit(it, it.elem(ws, i), nm)
            it.oblige('a moved waypoint is reported', implies(land(j >= 0, j < n, h(j)), land(r, g.f['trajectory_regenerated_'])))
            it.oblige('and only then', implies(r, exists(it, n, h)))
            it.oblige('the caller is told the trajectory changed, only then', implies(g.f['trajectory_regenerated_'], lor(o.f['trajectory_regenerated_'], r)))
            it.oblige('an earlier report stays', implies(o.f['trajectory_regenerated_'], g.f['trajectory_regenerated_']))
        else:
            for i in range(min(n, size(got))):
                it.oblige('those of that name are moved, the others kept', eqt(it, it.elem(got, i), to(i)))
            any_ = lor(False, *[hit(it, it.elem(ws, i), nm) for i in range(n)])
            it.oblige('a moved waypoint is reported', cmp('==', bv(r), bv(any_)))
            it.oblige('the caller is told the trajectory changed', cmp('==', bv(g.f['trajectory_regenerated_']), bv(lor(o.f['trajectory_regenerated_'], any_))))
        keep(it, g, o, ('dynamic_waypoints_', 'trajectory_regenerated_'))
        unlocked(it)

    def inv_apply(L):
        it, G = L.it, L.it.ghost
        if 'to' not in G or bounded(it):
            return None
        i, j, ws, g, o = iv(L.idx), z3.Int('j0'), G['ws'], it.load(G['ol']), G['o']
        cur = g.f['dynamic_waypoints_']
        h = lambda x: hit(it, it.elem(ws, x), G['nm'])
        flags = [v for v in [it.load(LV(c[0], tuple(('f', x) for x in c[1]))) for c in L.mods] if isinstance(v, bool) or (is_sym(v) and z3.is_bool(v))]
        regen, was = g.f['trajectory_regenerated_'], o.f['trajectory_regenerated_']
        ex = exists(it, i, h)
        out = [i >= 0, i <= ws.n, cmp('==', size(cur), ws.n), implies(land(j >= 0, j < i), eqt(it, it.elem(cur, j), G['to'](j))), implies(land(j >= i, j < ws.n, j >= 0), eqt(it, it.elem(cur, j), it.elem(ws, j))),
               implies(was, regen), implies(regen, lor(was, ex)), implies(land(j >= 0, j < i, h(j)), regen)]
        own = [v for v in flags if v is not regen][:1] + [True]
        out += [implies(land(j >= 0, j < i, h(j)), own[0]), implies(own[0], ex) if len(own) > 1 else True, implies(regen, lor(was, own[0])) if len(own) > 1 else True]
        return out

    # ------------------------------------------------ the worker
    def F(it, nm, t, *a):
        so = it.S.sort(t)
        return z3.Function(nm, so, *[x.sort() for x in a], so)

    def stop(it, n):
        k = it.ghost.get('asked', 0)
        it.ghost['asked'] = k + 1
        return it.alloc(k > 0, ('bool',))

    def ov_can(it, func, this, args, node):
        it.oblige('the check is made holding no lock', not it.locks, node)
        it.ghost['can_asked'] = True
        return it.ghost['can']

    def ov_next(it, func, this, args, node):
        G = it.ghost
        it.oblige('requests are taken in once, holding no lock', not it.locks and 'planned' not in G, node)
        o = it.load(this)
        G['planned'] = G['next']
        G['taken_from'] = o
        fs = dict(o.f)
        for n in ('waypoints_to_be_set_', 'waypoints_to_be_added_'):
            fs[n] = Seq(TW, 'vector', [])
        fs['waypoints_to_be_modified_'] = Seq(MOD, 'vector', [])
        fs['generate_new_traj_'] = False
        it.store(this, SV(o.cls, fs))
        return G['next']

    def ov_stitchable(it, func, this, args, node):
        it.oblige('the check is made holding no lock', not it.locks, node)
        it.ghost['stitch_asked'] = True
        return it.ghost['stitch']

    def ov_stitch(it, func, this, args, node):
        G = it.ghost
        it.oblige('stitching holds no lock', not it.locks, node)
        w = it.load(args[1]) if not isinstance(args[1], Seq) else args[1]
        it.oblige('the planned waypoints are stitched', w is G.get('planned'), node)
        G['frozen'] = it.load(this).f['new_parameters_']
        G['result'] = it.fresh_named(TD, 'stitched') if not bounded(it) else Seq(TW, 'deque', [it.fresh_named(TW, 'stitched0')])
        G['kind'] = 'stitched'
        return G['result']

    def ov_drone(it, func, this, args, node):
        G = it.ghost
        it.oblige('no lock is held', not it.locks, node)
        it.oblige('the vehicle is put in front of the planned waypoints', it.load(args[0]) is G.get('planned'), node)
        G['result'] = it.fresh_named(TD, 'from_vehicle') if not bounded(it) else Seq(TW, 'deque', [it.fresh_named(TW, 'from_vehicle0')])
        G['kind'] = 'scratch'
        it.store(args[0], G['result'])

    def ov_start(it, func, this, args, node):
        G = it.ghost
        it.oblige('planning starts once, holding no lock', not it.locks and 'started' not in G, node)
        G['started'] = it.load(args[0]) if not isinstance(args[0], Seq) else args[0]
        o = it.load(this)
        G['at_start'] = o
        it.store(this.f('computing_new_trajectory_'), True)

    def app(it, s, m, t):
        return F(it, 'applied', TD, z3.IntVal(0), *[z3.RealVal(0)] * 4)(s, it.S.term(STR, m.f['first']), *[rv(it.elem(m.f['second'], i)) for i in range(3)], rv(t))

    def res(it, s, nm, p):
        return F(it, 'reset_named', TV, z3.IntVal(0), *[z3.RealVal(0)] * 3)(s, it.S.term(STR, nm), *[rv(it.elem(p, i)) for i in range(3)])

    def ov_apply(it, func, this, args, node):
        it.oblige('modifications are applied holding the request lock only', it.locks == ['todo_mutex'], node)
        o = it.load(this)
        m = SV('$pair', {'first': it.val(args[0]), 'second': it.val(args[1])})
        d = sval(it, TD, app(it, sterm(it, TD, o.f['dynamic_waypoints_']), m, last(o)))
        r = it.fresh(('bool',), 'modified')
        it.ghost.setdefault('applied', []).append(m)
        it.store(this.f('dynamic_waypoints_'), d)
        it.store(this.f('trajectory_regenerated_'), lor(o.f['trajectory_regenerated_'], r))
        return r

    def ov_pending(it, func, this, args, node):
        lv = args[0]
        v = it.load(lv)
        it.store(lv, sval(it, TV, res(it, sterm(it, TV, v), it.val(args[1]), it.val(args[2]))))

    FOLD = {'dynamic_waypoints_': TD, 'waypoints_to_be_set_': TV, 'waypoints_to_be_added_': TV}

    def fold(it, n, k):
        return z3.Function('modified%s ' % (it.ghost.get('seen') or '') + n, z3.IntSort(), it.S.sort(FOLD[n]))(iv(k))

    def step(it, n, s, m, t):
        return app(it, s, m, t) if n == 'dynamic_waypoints_' else res(it, s, m.f['first'], m.f['second'])

    def run_work(it):
        nxt = it.fresh_named(TD, 'next') if not bounded(it) else Seq(TW, 'deque', [it.fresh_named(TW, 'next%d' % i) for i in range(it.choose(2))])
        tr = maybe_plan(it)
        o = dyn(it, traj=tr, lists=('waypoints_to_be_set_', 'waypoints_to_be_added_', 'waypoints_to_be_modified_'), hi=1 if bounded(it) else 2)
        if bounded(it):
            o = o.with_('waypoints_to_be_modified_', seq_of(it, MOD, 'mods', hi=2))
        ms = o.f['waypoints_to_be_modified_']
        ol = new(it, o)
        G = it.ghost
        G.update(o=o, ol=ol, next=nxt, can=z3.Bool('can'), stitch=z3.Bool('stitch'), ms=ms)
        def relate(o):
            if not bounded(it):
                for n in FOLD:
                    it.assume(fold(it, n, 0) == sterm(it, FOLD[n], o.f[n]))
        relate(o)
        G['relate'] = relate
        asked, can = o.f['generate_new_traj_'], G['can']
        call(it, f['todoThreadLoop'], ol, [])
        g, o, ms = it.load(ol), G['o'], G['ms']
        go = land(asked, can)
        took = 'planned' in G
        it.oblige('requests are taken in exactly when a plan is asked for and allowed', cmp('==', bv(took), bv(go)))
        nonempty = cmp('>', size(nxt), 0)
        it.oblige('a plan is started exactly when there are waypoints for it', cmp('==', bv('started' in G), bv(land(go, nonempty))))
        if took:
            it.oblige('the check was made', 'can_asked' in G)
        REQ = ('waypoints_to_be_set_', 'waypoints_to_be_added_', 'waypoints_to_be_modified_')
        if 'started' in G:
            P, Q = o.f['parameters_'].f, G['at_start'].f['new_parameters_'].f
            for x in P:
                it.oblige('frozen for the plan: ' + x, cmp('==', Q[x], P['last_global_time_evaluated'] if x == 'global_time_last_trajectory_generated' else P[x]))
            if 'frozen' in G:
                it.oblige('parameters are frozen before stitching', G['frozen'] is G['at_start'].f['new_parameters_'])
            it.oblige('the check was made', 'stitch_asked' in G)
            it.oblige('stitched when enough remains, else from the vehicle', cmp('==', bv(G.get('kind') == 'stitched'), bv(G['stitch'])))
            it.oblige('the kind of plan is remembered', cmp('==', bv(G['at_start'].f['from_scratch_']), bv(G.get('kind') == 'scratch')))
            it.oblige('the plan is made for these waypoints', G['started'] is G.get('result') and G['at_start'].f['next_trajectory_waypoint_'] is G.get('result'))
            it.oblige('a plan is being computed', bv(g.f['computing_new_trajectory_']))
            keep(it, g, o, REQ + ('generate_new_traj_', 'new_parameters_', 'next_trajectory_waypoint_', 'from_scratch_', 'computing_new_trajectory_', 'inital_time_traj_generation_'))
        elif took:
            keep(it, g, o, REQ + ('generate_new_traj_', 'next_trajectory_waypoint_'))
        else:
            some = land(cmp('>', size(ms), 0), lnot(o.f['computing_new_trajectory_']))
            left = g.f['waypoints_to_be_modified_']
            if it.branch(some):
                it.oblige('applied modifications are no longer pending', cmp('==', size(left), 0))
                for n in FOLD:
                    if bounded(it):
                        s = sterm(it, FOLD[n], o.f[n])
                        for m in ms.items:
                            s = step(it, n, s, m, last(o))
                    else:
                        s = fold(it, n, size(ms))
                    it.oblige('modifications are applied in order: ' + n.strip('_'), sterm(it, FOLD[n], g.f[n]) == s)
                keep(it, g, o, ('waypoints_to_be_modified_', 'trajectory_regenerated_') + tuple(FOLD))
            else:
                # (other threads may have emptied the list before the lock was taken)
                keep(it, g, o, ('trajectory_regenerated_',) if 'seen' in G else ())
        unlocked(it)

    def inv_work(L):
        it, G = L.it, L.it.ghost
        if 'next' not in G or bounded(it):
            return None
        o, g, i = G['o'], it.load(G['ol']), iv(L.idx)
        out = [i >= 0, i <= iv(size(G['ms']))]
        for n in FOLD:
            for x in (z3.simplify(i - 1), i):
                it.assume(implies(land(x >= 0, x < iv(size(G['ms']))), fold(it, n, x + 1) == step(it, n, fold(it, n, x), it.elem(G['ms'], x), last(o))))
            out.append(sterm(it, FOLD[n], g.f[n]) == fold(it, n, i))
        return out

    f_pend = [x for x in db.by_qname.get(NP + 'modifyPendingWaypoints', []) if x.body is not None]

    def run_pend(it):
        ws = waypoints(it, 'ws', kind='vector', hi=3)
        wl = new(it, ws, TV)
        nm, p = it.fresh_named(STR, 'name'), vec(reals('p', 3))
        to = lambda i: pick(it, hit(it, it.elem(ws, i), nm), reset(it, it.elem(ws, i), p), it.elem(ws, i))
        it.ghost.update(pws=ws, to=to, wl=wl)
        call(it, f_pend[0], None, [wl, new(it, nm, STR), new(it, p, V3)])
        r = it.load(wl)
        it.oblige('as many waypoints', cmp('==', size(r), size(ws)))
        if bounded(it):
            for i in range(min(size(ws), size(r))):
                it.oblige('those of that name are reset, the others kept', eqt(it, it.elem(r, i), to(i)))
        else:
            j = arb(it, 'j0', size(ws))
            it.oblige('those of that name are reset, the others kept', eqt(it, it.elem(r, j), to(j)))

    def reset(it, w, p):
        s = it.S.sort(TW)
        r = sval(it, TW, z3.Function('reset_to', s, *[z3.RealSort()] * 3, s)(sterm(it, TW, w), *[rv(it.elem(p, i)) for i in range(3)]))
        it.assume(cmp('==', r.f['name_'], w.f['name_']))
        return r

    def ov_reset(it, func, this, args, node):
        it.store(this, reset(it, it.load(this), it.val(args[0])))

    def inv_pend(L):
        it, G = L.it, L.it.ghost
        if 'pws' not in G or bounded(it):
            return None
        i, j, ws, cur = iv(L.idx), z3.Int('j0'), G['pws'], it.load(G['wl'])
        return [i >= 0, i <= ws.n, cmp('==', size(cur), ws.n), implies(land(j >= 0, j < i), eqt(it, it.elem(cur, j), G['to'](j))), implies(land(j >= i, j < ws.n, j >= 0), eqt(it, it.elem(cur, j), it.elem(ws, j)))]

    ovw = {Dn('checkIfTrajectoryCanBeGenerated'): ov_can, Dn('generateWaypointsForTheNextTrajectory'): ov_next, Dn('checkStitchTrajectory'): ov_stitchable, Dn('stitchActualTrajectoryWithNewWaypoints'): ov_stitch,
           Dn('appendDronePositionWaypoint'): ov_drone, Dn('generateTrajectory'): ov_start, Dn('applyWaypointModification'): ov_apply, NP + 'modifyPendingWaypoints': ov_pending}
    b = 'at most 3 waypoints'
    out = [
        Task('checkInSecurityZone', run_zone, [Dn('checkInSecurityZone')], invariants={'checkInSecurityZone': [('none yet', inv_zone)]}, bounded=[(b, run_zone)]),
        Task('checkIfTrajectoryCanBeGenerated', run_can, [Dn('checkIfTrajectoryCanBeGenerated')], overrides={Dn('checkInSecurityZone'): ov_zone}, bounded=[('all inputs', run_can)]),
        Task('checkStitchTrajectory', run_check, [Dn('checkStitchTrajectory')], bounded=[('all inputs', run_check)]),
        Task('applyWaypointModification', run_apply, [Dn('applyWaypointModification')], overrides={DW + '::setCurrentPosition': ov_move}, invariants={'applyWaypointModification': [('moved', inv_apply)]}, bounded=[(b, run_apply)]),
        Task('todoThreadLoop', run_work, [Dn('todoThreadLoop')], overrides=ovw, hooks={'field:stop_process_': stop, 'free:now': lambda it, n, *a: Opaque('clock')}, invariants={'todoThreadLoop': [('applied', inv_work)]}, bounded=[('at most 2 pending modifications', run_work)]),
    ]
    if f_pend:
        out.append(Task('modifyPendingWaypoints', run_pend, [NP + 'modifyPendingWaypoints'], overrides={DW + '::resetWaypoint': ov_reset}, invariants={'modifyPendingWaypoints': [('reset', inv_pend)]}, bounded=[(b, run_pend)]))
    return out
