"""C22: A stitched plan starts on the trajectory being flown.

Contracts (any plan, parameters and waypoint list of any length):
  stitchActualTrajectoryWithNewWaypoints   the first waypoint is constrained to the deformed trajectory's position, velocity and acceleration at the time of
                       evaluation frozen for the plan plus the offset, the second to the position five planning times later; both are stitching points, untimed and
                       undeformed; then the given waypoints in their order, but for those with a time assigned that falls before the end of the look-ahead
  appendDronePositionWaypoint   a waypoint at the vehicle's position with zero velocity and acceleration is put in front, the others follow unchanged
"""
from .dynlib import *
TUS = DYN_TUS
NATIVE = dict(NAT, src='c22.cpp', n=5000)
ASSUMPTIONS = ['getReferences returns the deformed trajectory (C20)', 'copies of waypoints are equal to the original (C19)']


def tasks(db, tier):
    Dn = lambda x: DT + '::' + x
    f = {x: find(db, Dn(x)) for x in ('stitchActualTrajectoryWithNewWaypoints', 'appendDronePositionWaypoint')}
    TD = ('seq', TW, 'deque')
    KEPT = uf('stitched_before', 'i', 'i')

    def M(nm, gt, lt, k):
        return [z3.Function('%s.R%d' % (nm, i), z3.RealSort(), z3.RealSort(), z3.IntSort(), z3.RealSort())(rv(gt), rv(lt), iv(k)) for i in range(3)]

    def ov_refs(it, func, this, args, node):
        tr = it.load(args[0])
        only = it.val(args[3]) if len(args) > 3 else False
        gt, lt = it.val(args[1]), it.val(args[2])
        nm = plan_name(it, tr)
        r = it.fresh(cls(REFS), 'refs')
        f = dict(r.f)
        for k, n in enumerate(('position', 'velocity', 'acceleration')):
            f[n] = vec(M(nm, gt, lt, k)) if k == 0 else vec([ite(only, it.elem(r.f[n], i), M(nm, gt, lt, k)[i]) for i in range(3)])
        return SV(r.cls, f)

    def constrained(it, what, w, want):
        """the vertex has exactly these constraints"""
        v = w.f['vertex_']
        c = v.f['constraints_']
        for k in range(6):
            has = it.map_has(c, k)
            it.oblige('%s: %s' % (what, 'constrained' if k in want else 'no other constraint'), cmp('==', bv(has), bv(k in want)))
            if k in want:
                x = it.map_get(c, k)
                it.oblige('%s: three components' % what, cmp('==', size(x), 3))
                for i in range(3):
                    it.oblige('%s: value' % what, cmp('==', it.elem(x, i), want[k][i]))

    def front(it, what, w, want, name):
        constrained(it, what, w, want)
        it.oblige(what + ': name', cmp('==', it.S.term(STR, w.f['name_']), it.S.term(STR, name)))
        it.oblige(what + ': untimed', cmp('==', w.f['t_assigned_'], 0))
        it.oblige(what + ': undeformed', cmp('==', size(w.f['modifiers_']), 0))
        for i in range(3):
            it.oblige(what + ': current position', cmp('==', it.elem(w.f['current_position_'], i), want[0][i]))
            it.oblige(what + ': original position', cmp('==', it.elem(w.f['original_position_'], i), want[0][i]))

    def run_stitch(it):
        o = dyn(it)
        ws = waypoints(it, 'ws')
        ol, wl = new(it, o), new(it, ws, TD)
        P, Q = o.f['parameters_'].f, o.f['new_parameters_'].f
        start = P['global_time_last_trajectory_generated']
        t0 = add(Q['last_local_time_evaluated'], P['t_offset'])
        step = mul(10, o.f['time_constant_'])   # five planning times of twice the time constant
        t1 = add(t0, step)
        end = add(start, add(t1, step))
        kept = lambda w: lor(cmp('>=', w.f['t_assigned_'], end), cmp('<=', w.f['t_assigned_'], 0))
        it.ghost.update(ws=ws, kept=kept)
        if not bounded(it):
            it.assume(KEPT(0) == 0)
        r = call(it, f['stitchActualTrajectoryWithNewWaypoints'], ol, [z3.Real('unused'), wl])
        R = lambda t, k: M('o.traj', add(start, t), t, k)
        w0, w1 = it.elem(r, 0), it.elem(r, 1)
        front(it, 'first', w0, {k: R(t0, k) for k in range(3)}, 'stitching_point')
        front(it, 'second', w1, {0: R(t1, 0)}, 'stitching_point')
        if bounded(it):
            want = [w for w in ws.items if it.branch(kept(w))]
            it.oblige('the remaining ones', cmp('==', size(r), 2 + len(want)))
            for i, w in enumerate(want):
                if 2 + i < size(r):
                    same(it, 'the remaining ones, in order', r.items[2 + i], w)
        else:
            q = z3.Int('q0')
            it.oblige('as many as remain', iv(size(r)) == 2 + KEPT(ws.n))
            it.oblige('the remaining ones, in order', implies(land(q >= 0, q < ws.n, kept(it.elem(ws, q))), eqt(it, it.elem(r, 2 + KEPT(q)), it.elem(ws, q))))
        keep(it, it.load(ol), o)
        it.oblige('the given list is not changed', it.load(wl) is ws)
        unlocked(it)

    def inv_stitch(L):
        it, G = L.it, L.it.ghost
        if 'kept' not in G or bounded(it):
            return None
        cell = next((c[0] for c in L.mods if isinstance(it.cells[c[0]], Seq) and it.cells[c[0]].kind == 'deque'), None)
        over = it.load(L.extra['seq']) if L.extra and 'seq' in L.extra else None
        ws = G['ws']
        if cell is None or over is not ws:
            return None
        cur, before = it.cells[cell], L._entry[cell]
        if not before.conc or len(before.items) != 2:
            return None
        i, q = iv(L.idx), z3.Int('q0')
        it.assume(implies(land(i >= 0, i < ws.n), KEPT(i + 1) == KEPT(i) + z3.If(bv(G['kept'](it.elem(ws, i))), 1, 0)))
        kq = KEPT(q)
        live = land(q >= 0, q < i, G['kept'](it.elem(ws, q)))
        return [i >= 0, i <= ws.n, KEPT(i) >= 0, cmp('==', size(cur), add(2, KEPT(i))), implies(live, land(kq >= 0, kq < KEPT(i))),
                implies(live, eqt(it, it.elem(cur, add(2, kq)), it.elem(ws, q)))] + [eqt(it, it.elem(cur, k), before.items[k]) for k in range(2)]

    def run_drone(it):
        o = dyn(it)
        ws = waypoints(it, 'ws')
        ol, wl = new(it, o), new(it, ws, TD)
        call(it, f['appendDronePositionWaypoint'], ol, [wl])
        r = it.load(wl)
        z = [Fraction(0)] * 3
        it.oblige('one more', cmp('==', size(r), add(size(ws), 1)))
        front(it, 'first', it.elem(r, 0), {0: [it.elem(o.f['vehicle_position_'], i) for i in range(3)], 1: z, 2: z}, '')
        if bounded(it) and not size(ws):
            return
        j = arb(it, 'j0', size(ws)) if not bounded(it) else it.choose(size(ws))
        it.oblige('the planned ones follow', eqt(it, it.elem(r, add(j, 1)), it.elem(ws, j)))
        keep(it, it.load(ol), o)
        unlocked(it)

    b = 'at most 2 waypoints'
    return [
        Task('stitchActualTrajectoryWithNewWaypoints', run_stitch, [Dn('stitchActualTrajectoryWithNewWaypoints')], overrides={Dn('getReferences'): ov_refs},
             invariants={'stitchActualTrajectoryWithNewWaypoints': [('kept', inv_stitch)]}, bounded=[(b, run_stitch)]),
        Task('appendDronePositionWaypoint', run_drone, [Dn('appendDronePositionWaypoint')], bounded=[(b, run_drone)]),
    ]
