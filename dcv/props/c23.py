"""C23: Waypoint times, indices and remaining counts follow the planned segments.

Contracts (any plan, any number of waypoints):
  getCummulativeTime   the sum of the first i durations for 0 <= i <= number of segments; every other index is refused
  extractVerticesFromWaypoints   one vertex per waypoint, the waypoint's own, the last one constrained to zero velocity and acceleration as well
  computeTrajectory    the optimiser is given those vertices, times for them, the speed and the acceleration limits; the plan returned is the optimiser's; waypoint i
                       gets index i and the plan's start time plus the durations of the first i segments; fewer than two waypoints are refused
  setTime, setIndex    store exactly the time and the index given; getTime and getIndex return them
  getNextTrajectoryWaypoints, getRemainingWaypoints   exactly those scheduled after the last evaluated time, in order; their number without the leading stitching points
"""
from .dynlib import *
from ..exec import isint
from .c19 import MODS
TUS = DYN_TUS
# (the native driver includes dynamic_trajectory.cpp itself to reach its static functions)
NATIVE = dict(NAT, src='c23.cpp', n=3000, **{'with': WITH[1:]})
ASSUMPTIONS = ['the optimiser returns one segment fewer than vertices (C12)', 'the clock never runs backwards and its values are arbitrary otherwise', 'the deformations of a waypoint move with its time (C19)']
NP = 'dynamic_traj_generator::'


def tasks(db, tier):
    Dn = lambda x: DT + '::' + x
    f = {x: find(db, Dn(x)) for x in ('computeTrajectory', 'getNextTrajectoryWaypoints', 'getRemainingWaypoints')}
    f_cum, f_ext = find(db, NP + 'getCummulativeTime'), find(db, NP + 'extractVerticesFromWaypoints')
    TD, TV = ('seq', TW, 'deque'), ('seq', TW, 'vector')
    tv, tsg = cls(VERT), cls(SEG)
    T = uf('elapsed', 'i', 'r')
    KEPT = uf('upcoming_before', 'i', 'i')

    def durations(it, S):
        return lambda i: it.elem(S, i).f['time_']

    def run_cum(it):
        S = seq_of(it, tsg, 'segs', hi=3) if not bounded(it) else Seq(tsg, 'vector', [it.fresh_named(tsg, 's%d' % i) for i in range(it.choose(4))])
        k = z3.Int('index') if not bounded(it) else it.choose(7) - 2
        sl = new(it, S, ('seq', tsg, 'vector'))
        dur = durations(it, S)
        it.ghost.update(S=S, k=k, dur=dur)
        if not bounded(it):
            it.assume(T(0) == 0)
        inside = land(cmp('>=', k, 0), cmp('<=', k, size(S)))
        try:
            r = call(it, f_cum, None, [sl, new(it, k, INT)])
        except ThrowX:
            it.oblige('only an index outside the segments is refused', lnot(inside))
            return
        it.oblige('an index outside the segments is refused', inside)
        if bounded(it):
            want = Fraction(0)
            for i in range(max(0, min(k, size(S)))):
                want = add(want, dur(i))
        else:
            want = T(k)
        it.oblige('the sum of the first durations', cmp('==', r, want))

    def inv_cum(L):
        it, G = L.it, L.it.ghost
        if 'dur' not in G or bounded(it):
            return None
        i, k, v = iv(L.idx), iv(G['k']), L.real('value')
        it.assume(implies(land(i >= 1, i <= iv(size(G['S']))), T(i) == T(i - 1) + rv(G['dur'](i - 1))))
        up = land(True)
        it.assume(implies(land(i >= 0, i < iv(size(G['S']))), T(i + 1) == T(i) + rv(G['dur'](i))))
        # counting down (what is left) or up (what is done)
        return [land(i >= 0, i <= k), cmp('==', v, T(k) - T(i)), cmp('==', v, T(i)), i >= 0, i <= k]

    # ------------------------------------------------ vertices
    Z3 = [Fraction(0)] * 3

    def cons(it, v, k):
        m = v.f['constraints_']
        return it.map_has(m, k), m

    def vertex_same(it, name, a, b, but=()):
        """equal vertices (constraints compared at every order below 6 but those excluded)"""
        it.oblige(name + ' (dimension)', cmp('==', a.f['D_'], b.f['D_']))
        for k in range(6):
            if k in but:
                continue
            ha, hb = it.map_has(a.f['constraints_'], k), it.map_has(b.f['constraints_'], k)
            it.oblige(name + ' (orders)', cmp('==', bv(ha), bv(hb)))
            if ha is False or hb is False:
                continue
            if not it.branch(hb):
                continue
            x, y = it.map_get(a.f['constraints_'], k), it.map_get(b.f['constraints_'], k)
            it.oblige(name + ' (size)', cmp('==', size(x), size(y)))
            j = z3.Int('jc')
            if isinstance(size(x), int) and isinstance(size(y), int):
                for j in range(size(x)):
                    it.oblige(name + ' (values)', cmp('==', it.elem(x, j), it.elem(y, j)))
            else:
                it.oblige(name + ' (values)', implies(land(j >= 0, j < iv(size(y))), cmp('==', it.elem(x, j), it.elem(y, j))))

    def at_rest(it, name, v):
        for k in (1, 2):
            it.oblige(name, bv(it.map_has(v.f['constraints_'], k)))
            x = it.map_get(v.f['constraints_'], k)
            it.oblige(name, cmp('==', size(x), 3))
            for i in range(3):
                it.oblige(name, cmp('==', it.elem(x, i), 0))

    def run_ext(it):
        ws = waypoints(it, 'ws', lo=1)
        if not bounded(it):
            it.assume(ws.n >= 1)
        # waypoints hold three-dimensional vertices (C19)
        it.assume(land(*[cmp('==', it.elem(ws, i).f['vertex_'].f['D_'], 3) for i in ([sub(ws.n, 1)] if not bounded(it) else range(size(ws)))]))
        wl = new(it, ws, TD)
        it.ghost.update(ws=ws)
        r = call(it, f_ext, None, [wl])
        n = size(ws)
        it.oblige('one vertex per waypoint', cmp('==', size(r), n))
        it.oblige('the waypoints are unchanged', it.load(wl) is ws)
        if bounded(it):
            for j in range(min(n, size(r))):
                vertex_same(it, 'the waypoint\'s vertex', it.elem(r, j), it.elem(ws, j).f['vertex_'], () if j < n - 1 else (1, 2))
        else:
            j = z3.Int('j0')
            it.oblige('each is the waypoint\'s vertex', implies(land(j >= 0, j < sub(n, 1)), sterm(it, tv, it.elem(r, j)) == sterm(it, tv, it.elem(ws, j).f['vertex_'])))
            vertex_same(it, 'the last is the waypoint\'s vertex', it.elem(r, sub(n, 1)), it.elem(ws, sub(n, 1)).f['vertex_'], (1, 2))
        at_rest(it, 'the last one is at rest', it.elem(r, sub(n, 1)))

    def inv_ext(L):
        it, G = L.it, L.it.ghost
        if 'ws' not in G or bounded(it):
            return None
        cur = next((it.cells[c[0]] for c in L.mods if isinstance(it.cells[c[0]], Seq) and it.cells[c[0]].kind == 'vector'), None)
        if cur is None:
            return None
        i, j, ws = iv(L.idx), z3.Int('j0'), G['ws']
        eq = lambda x: sterm(it, tv, it.elem(cur, x)) == sterm(it, tv, it.elem(ws, x).f['vertex_'])
        return [i >= 0, i <= ws.n, cmp('==', size(cur), i), implies(land(j >= 0, j < i), eq(j)), implies(i >= 1, eq(i - 1))]

    # ------------------------------------------------ planning
    def plan_segments(it, K):
        if bounded(it):
            return Seq(tsg, 'vector', [it.fresh_named(tsg, 'seg%d' % i) for i in range(K)])
        S = it.fresh_named(('seq', tsg, 'vector'), 'segs')
        it.assume(S.n == iv(K))
        return S

    def ov_ext(it, func, this, args, node):
        ws = it.load(args[0])
        it.ghost['extracted'] = ws
        if bounded(it):
            V = Seq(tv, 'vector', [it.fresh_named(tv, 'v%d' % i) for i in range(size(ws))])
        else:
            V = it.fresh_named(('seq', tv, 'vector'), 'V')
            it.assume(V.n == iv(size(ws)))
        it.oblige('vertices are only extracted from waypoints', cmp('>=', size(ws), 1))
        it.ghost['V'] = V
        return V

    def ov_est(it, func, this, args, node):
        it.ghost['est'] = (it.load(args[0]) if not isinstance(args[0], (Seq, Mat)) else args[0], it.val(args[1]), it.val(args[2]))
        n = sub(size(it.ghost['V']), 1)
        tm = Seq(REAL, 'vector', [z3.Real('t%d' % i) for i in range(n)]) if bounded(it) else it.fresh_named(vseq(REAL), 'times')
        if not bounded(it):
            it.assume(tm.n == n)
        it.ghost['times'] = tm
        return tm

    def ctor(it, n, t, argn):
        q = n['type']['qualType']
        if 'PolynomialOptimization' in q and 'Non' not in q or 'PolynomialOptimizationNonLinear' in q:
            it.ghost['opt'] = {'calls': [], 'dim': it.val(it.rvalue(argn[0]))}
            return Opaque('opt')
        if 'NonlinearOptimizationParameters' in q:
            return SV('$record', {})
        return NotImplemented

    def is_opt(it, obj):
        v = it.val(obj)
        return isinstance(v, Opaque) and v.tag == 'opt'

    def member(name):
        def h(it, n, obj, argn):
            if not is_opt(it, obj):
                return NotImplemented
            o = it.ghost['opt']
            xs = [it.val(it.ev(a)) for a in argn if a.get('kind') != 'CXXDefaultArgExpr']
            if name == 'getTrajectory':
                p = xs[0]
                S = plan_segments(it, sub(size(it.ghost['V']), 1))
                tr = it.load(p.lv)
                fs = dict(tr.f)
                fs['segments_'] = S
                fs['max_time_'] = z3.Real('plan.duration')
                fs['D_'] = 3
                it.store(p.lv, SV(tr.cls, fs))
                it.ghost['plan_lv'], it.ghost['S'] = p.lv, S
                return True
            o['calls'].append((name, xs))
            return {'setupFromVertices': True, 'optimize': 1, 'solveLinear': True, 'addMaximumMagnitudeConstraint': True}[name]
        return h

    def timed(it, w, t, k=None):
        """the waypoint rescheduled (and renumbered)"""
        s = it.S.sort(TW)
        g = z3.Function('rescheduled', s, z3.RealSort(), z3.IntSort(), s)
        r = sval(it, TW, g(sterm(it, TW, w), rv(t), iv(k)))
        it.assume(land(cmp('==', r.f['t_assigned_'], t), cmp('==', r.f['index_'], k)))
        return r

    def ov_time(it, func, this, args, node):
        w, t = it.load(this), it.val(args[0])
        if bounded(it):
            it.store(this, w.with_('t_assigned_', t))
            return
        it.store(this, timed(it, it.load(this), t, w.f['index_']))

    def ov_index(it, func, this, args, node):
        if bounded(it):
            return NotImplemented
        w, k = it.load(this), it.val(args[0])
        s = it.S.sort(TW)
        r = sval(it, TW, z3.Function('renumbered', s, z3.IntSort(), s)(sterm(it, TW, w), iv(k)))
        it.assume(land(cmp('==', r.f['index_'], k), cmp('==', r.f['t_assigned_'], w.f['t_assigned_'])))
        it.store(this, r)

    def ov_cum(it, func, this, args, node):
        if bounded(it):
            return NotImplemented
        S, k = it.load(args[0]), it.val(args[1])
        it.oblige('the cumulative time is asked of the planned segments', S is it.ghost.get('S'), node)
        it.oblige('the index is within the segments', land(cmp('>=', k, 0), cmp('<=', k, size(S))), node)
        return T(iv(k))

    def clock(it, n, *a):
        return Opaque('clock')

    def count(it, n, obj, argn):
        return z3.Int('elapsed_us') if isinstance(it.val(obj), Opaque) else NotImplemented

    def run_comp(it):
        ws = waypoints(it, 'ws', lo=0, hi=3)
        o = dyn(it, next_trajectory_waypoint_=ws, **constants(it))
        if bounded(it):
            it.assume(size(ws) >= 1)
            if size(ws) < 1:
                return
        else:
            it.assume(ws.n >= 1)
            it.assume(T(0) == 0)
        ol = new(it, o)
        start = o.f['new_parameters_'].f['global_time_last_trajectory_generated']
        linear = bool(it.choose(2))
        it.ghost.update(ws=ws, ol=ol, start=start)
        arg = new(it, ws, TD)
        try:
            r = call(it, f['computeTrajectory'], ol, [arg, new(it, linear, ('bool',))])
        except ThrowX:
            it.oblige('only fewer than two waypoints are refused', cmp('<', size(ws), 2))
            unlocked(it)
            return
        G = it.ghost
        it.oblige('fewer than two waypoints are refused', cmp('>=', size(ws), 2))
        it.oblige('the plan is made for the waypoints', G.get('extracted') is ws and 'opt' in G and 'plan_lv' in G)
        if 'opt' not in G or 'plan_lv' not in G:
            return
        sp = o.f['parameters_'].f['speed']
        V, vm, am = G['est']
        it.oblige('times are estimated for its vertices', V is G['V'])
        it.oblige('with the speed limit', cmp('==', vm, sp))
        it.oblige('and the acceleration limit', cmp('==', am, o.f['a_max_']))
        it.oblige('three dimensions', cmp('==', G['opt']['dim'], 3))
        calls = G['opt']['calls']
        names = [c[0] for c in calls]
        it.oblige('set up once, then solved once', names.count('setupFromVertices') == 1 and names[0] == 'setupFromVertices' and (names.count('solveLinear') if linear else names.count('optimize')) == 1 and names[-1] in ('optimize', 'solveLinear'))
        xs = calls[0][1]
        it.oblige('set up with its vertices and times', xs[0] is G['V'] and xs[1] is G['times'])
        it.oblige('optimising the chosen derivative', cmp('==', xs[2], o.f['derivative_to_optimize_']))
        if not linear:
            lim = {c[1][0]: c[1][1] for c in calls if c[0] == 'addMaximumMagnitudeConstraint'}
            it.oblige('velocity and acceleration are limited', set(lim) == {1, 2})
            if set(lim) == {1, 2}:
                it.oblige('by the speed', cmp('==', lim[1], sp))
                it.oblige('by the acceleration limit', cmp('==', lim[2], o.f['a_max_']))
        p = r.f['trajectory_ptr_']
        it.oblige('the plan returned is the optimiser\'s', isinstance(p, Ptr) and it.load(p.lv) is it.load(G['plan_lv']) and it.load(p.lv).f['segments_'] is G['S'])
        g = it.load(ol)
        got = g.f['next_trajectory_waypoint_']
        it.oblige('as many waypoints', cmp('==', size(got), size(ws)))
        dur = durations(it, G['S'])
        if bounded(it):
            t = start
            for i in range(min(size(got), size(ws))):
                w, x = it.elem(ws, i), it.elem(got, i)
                it.oblige('index', cmp('==', x.f['index_'], i))
                it.oblige('scheduled at the start plus the durations before it', cmp('==', x.f['t_assigned_'], t))
                for nm in x.f:
                    if nm not in ('index_', 't_assigned_', 'modifiers_'):
                        same(it, 'kept: ' + nm.strip('_'), x.f[nm], w.f[nm])
                if i < size(G['S']):
                    t = add(t, dur(i))
        else:
            j = z3.Int('j0')
            x = it.elem(got, j)
            w = it.elem(ws, j)
            it.oblige('index', implies(land(j >= 0, j < ws.n), cmp('==', x.f['index_'], j)))
            it.oblige('scheduled at the start plus the durations before it', implies(land(j >= 0, j < ws.n), cmp('==', x.f['t_assigned_'], add(start, T(j)))))
        keep(it, g, o, ('next_trajectory_waypoint_', 'time_constant_', 'inital_time_traj_generation_'))
        unlocked(it)

    def inv_comp(L):
        it, G = L.it, L.it.ghost
        if 'S' not in G or bounded(it):
            return None
        ws, got = G['ws'], it.load(G['ol']).f['next_trajectory_waypoint_']
        k, j = iv(L.idx), z3.Int('j0')
        x = it.elem(got, j)
        own = next((v for v in [it.cells[c[0]] for c in L.mods if not c[1]] if isint(v)), None)
        out = [k >= 0, k <= ws.n, cmp('==', size(got), ws.n), implies(land(j >= 0, j < k), land(cmp('==', x.f['index_'], j), cmp('==', x.f['t_assigned_'], add(G['start'], T(j)))))]
        out += [cmp('==', own, k) if own is not None else True]
        return out

    # ------------------------------------------------ reports
    def run_next(it):
        ws = waypoints(it, 'ws', hi=3)
        o = dyn(it, dynamic_waypoints_=ws)
        ol = new(it, o)
        last = o.f['parameters_'].f['last_global_time_evaluated']
        ahead = lambda i: cmp('>', it.elem(ws, i).f['t_assigned_'], last)
        it.ghost.update(ws=ws, ahead=ahead)
        if not bounded(it):
            it.assume(KEPT(0) == 0)
        r = call(it, f['getNextTrajectoryWaypoints'], ol, [])
        if bounded(it):
            same(it, 'those scheduled later, in order', r, Seq(TW, 'vector', [w for i, w in enumerate(ws.items) if it.branch(ahead(i))]))
        else:
            q = z3.Int('q0')
            it.oblige('as many as are scheduled later', iv(size(r)) == KEPT(ws.n))
            it.oblige('those scheduled later, in order', implies(land(q >= 0, q < ws.n, ahead(q)), eqt(it, it.elem(r, KEPT(q)), it.elem(ws, q))))
        keep(it, it.load(ol), o)
        unlocked(it)

    def inv_next(L):
        it, G = L.it, L.it.ghost
        if 'ahead' not in G or bounded(it):
            return None
        cell = next((c[0] for c in L.mods if isinstance(it.cells[c[0]], Seq)), None)
        if cell is None:
            return None
        cur, ws, i, q = it.cells[cell], G['ws'], iv(L.idx), z3.Int('q0')
        it.assume(implies(land(i >= 0, i < ws.n), KEPT(i + 1) == KEPT(i) + z3.If(bv(G['ahead'](i)), 1, 0)))
        kq = KEPT(q)
        live = land(q >= 0, q < i, G['ahead'](q))
        return [i >= 0, i <= ws.n, KEPT(i) >= 0, cmp('==', size(cur), KEPT(i)), implies(live, land(kq >= 0, kq < KEPT(i))), implies(live, eqt(it, it.elem(cur, kq), it.elem(ws, q)))]

    def run_rem(it):
        o = dyn(it)
        ol = new(it, o)
        ws = waypoints(it, 'up', kind='vector', hi=3)
        it.ghost.update(up=ws)
        st = lambda i: cmp('==', it.S.term(STR, it.elem(ws, i).f['name_']), it.S.term(STR, 'stitching_point'))
        it.ghost['st'] = st
        r = call(it, f['getRemainingWaypoints'], ol, [])
        n = size(ws)
        if bounded(it):
            k = 0
            while k < n and it.branch(st(k)):
                k += 1
            it.oblige('the upcoming ones but the leading stitching points', cmp('==', r, n - k))
        else:
            k = iv(sub(n, r))
            j = z3.Int('j0')
            it.oblige('at most the upcoming ones', land(k >= 0, k <= iv(n)))
            it.oblige('only leading stitching points are left out', implies(land(j >= 0, j < k), st(j)))
            it.oblige('all leading stitching points are left out', implies(k < iv(n), lnot(st(k))))
        keep(it, it.load(ol), o)
        unlocked(it)

    def inv_rem(L):
        it, G = L.it, L.it.ghost
        if 'up' not in G or bounded(it):
            return None
        i, n, j = iv(L.idx), iv(size(G['up'])), z3.Int('j0')
        own = [v for v in [it.cells[c[0]] for c in L.mods if not c[1]] if isint(v)]
        out = [i >= 0, i <= n, implies(land(j >= 0, j < i), G['st'](j))]
        for v in own[:2]:
            out += [cmp('==', v, sub(n, i)), cmp('==', v, i)]
        return out + [True] * (7 - len(out))

    def ov_next(it, func, this, args, node):
        return it.ghost['up']

    def run_set(it):
        w = it.fresh_named(TW, 'w')
        if bounded(it):
            w = SV(w.cls, dict(w.f, modifiers_=Seq(MODS[1], 'vector', [it.fresh_named(MODS[1], 'w.m%d' % i) for i in range(it.choose(3))])))
        wl = new(it, w)
        t, i = z3.Real('t'), z3.Int('index')
        call(it, find(db, DW + '::setTime'), wl, [new(it, t, REAL)])
        call(it, find(db, DW + '::setIndex'), wl, [i])
        g = it.load(wl)
        it.oblige('the time given is the time assigned', cmp('==', g.f['t_assigned_'], t))
        it.oblige('the index given is the index assigned', cmp('==', g.f['index_'], i))
        keep(it, g, w, ('modifiers_', 't_assigned_', 'index_'))
        it.oblige('the time is read back', cmp('==', call(it, find(db, DW + '::getTime'), wl, []), t))
        it.oblige('the index is read back', cmp('==', call(it, find(db, DW + '::getIndex'), wl, []), i))

    hk = {'ctor': ctor, 'free:now': clock, 'free:duration_cast': clock, 'member:count': count, 'op:-': lambda it, n, *a: NotImplemented}
    hk.pop('op:-')
    for nm in ('setupFromVertices', 'addMaximumMagnitudeConstraint', 'optimize', 'solveLinear', 'getTrajectory'):
        hk['member:' + nm] = member(nm)
    b = 'at most 3 waypoints'
    return [
        Task('getCummulativeTime', run_cum, [NP + 'getCummulativeTime'], invariants={'getCummulativeTime': [('sum', inv_cum)]}, bounded=[('at most 3 segments', run_cum)]),
        Task('extractVerticesFromWaypoints', run_ext, [NP + 'extractVerticesFromWaypoints'], invariants={'extractVerticesFromWaypoints': [('copied', inv_ext)]}, bounded=[('at most 2 waypoints', run_ext)]),
        Task('computeTrajectory', run_comp, [Dn('computeTrajectory')], overrides={NP + 'extractVerticesFromWaypoints': ov_ext, NS + 'estimateSegmentTimes': ov_est, NP + 'getCummulativeTime': ov_cum, DW + '::setTime': ov_time, DW + '::setIndex': ov_index},
             hooks=hk, invariants={'computeTrajectory': [('scheduled', inv_comp)]}, bounded=[(b, run_comp)]),
        Task('setTime and setIndex', run_set, [DW + '::setTime', DW + '::setIndex', DW + '::getTime', DW + '::getIndex'], bounded=[('at most 2 deformations', run_set)]),
        Task('getNextTrajectoryWaypoints', run_next, [Dn('getNextTrajectoryWaypoints')], invariants={'getNextTrajectoryWaypoints': [('upcoming', inv_next)]}, bounded=[(b, run_next)]),
        Task('getRemainingWaypoints', run_rem, [Dn('getRemainingWaypoints')], overrides={Dn('getNextTrajectoryWaypoints'): ov_next}, invariants={'getRemainingWaypoints': [('leading', inv_rem)]}, bounded=[(b, run_rem)]),
    ]
