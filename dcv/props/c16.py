"""C16: Sampled vehicle states are the trajectory's derivatives at the stamped time.

Contracts (any trajectory or segment of any dimension, any time; E(t,k) is the k-th derivative at t, C04/C05):
  sampleTrajectoryAtTime / sampleSegmentAtTime   refused iff the time is outside or there are fewer than three dimensions;
        otherwise position .. snap are the first three components of E(t,0) .. E(t,4), the stamp is t in nanoseconds; with four
        dimensions heading, rate and acceleration come from component 3 of E(t,0..2); with six orientation and rates from the
        last three; otherwise attitude fields are left alone
  sampleTrajectoryInRange        the same at start + i*interval, one state per sample of the trajectory
  sampleTrajectoryStartDuration, sampleWholeTrajectory   the range [start, start+duration], [0, duration]
Attitude conversions enter through their contracts (C17).
"""
from ..spec import *
TUS = ['sampling', 'mavmsgs', 'trajectory', 'segment']
NATIVE = {'src': 'c16.cpp', 'with': ['$MAV/src/' + x for x in ('trajectory_sampling.cpp', 'trajectory.cpp', 'segment.cpp', 'polynomial.cpp', 'vertex.cpp', 'motion_defines.cpp', 'rpoly/rpoly_ak1.cpp')], 'n': 3000}
ASSUMPTIONS = ['times are below 2^63 nanoseconds', 'evaluation at a time gives a vector of the trajectory\'s dimension (C04), a range gives the values at start + i*interval (C05)']
PT = 'mav_msgs::EigenTrajectoryPoint'


def tasks(db, tier):
    f = {x: find(db, NS + x) for x in ('sampleTrajectoryAtTime', 'sampleTrajectoryInRange', 'sampleTrajectoryStartDuration', 'sampleWholeTrajectory', 'sampleSegmentAtTime')}
    tp, vp, V3 = cls(PT), vseq(cls(PT)), ('eig', 'r', 3, 1)
    Q = ('quat',)
    f9 = [z3.RealSort()]
    FIELDS = ('position_W', 'velocity_W', 'acceleration_W', 'jerk_W', 'snap_W')

    def q_yaw(it, y):
        return sval(it, Q, z3.Function('quaternion_from_yaw', z3.RealSort(), it.S.sort(Q))(rv(y)))

    def q_rot(it, v):
        return sval(it, Q, z3.Function('quaternion_from_rotation_vector', *[z3.RealSort()] * 3 + [it.S.sort(Q)])(*[rv(x) for x in v]))

    def w_uf(it, nm, args):
        xs = [rv(x) for a in args for x in a]
        return vec([z3.Function('%s_%d' % (nm, i), *[z3.RealSort()] * (len(xs) + 1))(*xs) for i in range(3)])

    def three(it, v):
        v = deref(it, v)
        return [it.elem(v, i) for i in range(3)]

    def ov_yaw(it, func, this, args, node):
        return q_yaw(it, it.val(args[0]))

    MT = {}

    def ov_mat(it, func, this, args, node):
        """matrixFromRotationVector: nine components, functions of the vector"""
        v = three(it, args[0])
        m = Mat(3, 3, [z3.Function('rotation_%d' % i, *[z3.RealSort()] * 4)(*[rv(x) for x in v]) for i in range(9)])
        it.ghost.setdefault('rot', []).append((m, v))
        it.store(it.val(args[1]).lv, m)
        return None

    def h_quat(it, m, *a):
        for mm, v in it.ghost.get('rot', ()):
            if len(mm.d) == len(m.d) and all(x is y or z3.is_expr(x) and z3.is_expr(y) and x.eq(y) for x, y in zip(mm.d, m.d)):
                return q_rot(it, v)
        return NotImplemented

    def ov_w(it, func, this, args, node):
        return w_uf(it, 'omega', [three(it, a) for a in args])

    def ov_wd(it, func, this, args, node):
        return w_uf(it, 'omega_dot', [three(it, a) for a in args])

    def E(it, who, t, k, D):
        if bounded(it) or isinstance(D, int):
            return vec([z3.Function('E%d' % d, z3.RealSort(), z3.IntSort(), z3.RealSort())(rv(t), iv(k)) for d in range(D)])
        e = sval(it, EV, vec_uf(it, 'E', 'r', 'i')(rv(t), iv(k)))
        it.assume(iv(size(e)) == iv(D))
        return e

    def ov_eval(it, func, this, args, node):
        o = it.load(this)
        it.oblige('the sampled object is the given one', o is it.ghost['obj'])
        return E(it, None, it.val(args[0]), it.val(args[1]) if len(args) > 1 else 0, it.ghost['D'])

    def ints(it, name, lo, hi):
        """dimension: any"""
        if bounded(it):
            return it.choose(hi - lo + 1) + lo
        D = z3.Int(name)
        it.assume(z3.And(D >= 0, D < 2 ** 31))
        return D

    def traj(it):
        D = ints(it, 'D', 0, 7)
        mt = z3.Real('duration')
        it.assume(z3.And(mt >= 0, mt < 9 * 10 ** 9))
        it.ghost['D'] = D
        t = SV(TRAJ, {'D_': D, 'N_': z3.Int('N'), 'max_time_': mt, 'segments_': it.fresh_named(vseq(cls(SEG)), 'segs')})
        it.ghost['obj'] = t
        return t, mt

    def segm(it):
        D = ints(it, 'D', 0, 7)
        mt = z3.Real('duration')
        it.assume(z3.And(mt >= 0, mt < 9 * 10 ** 9))
        it.ghost['D'] = D
        s = SV(SEG, {'polynomials_': it.fresh_named(vseq(cls(POLY)), 'ps'), 'time_': mt, 'N_': z3.Int('N'), 'D_': D})
        it.ghost['obj'] = s
        return s, mt

    def point(it, name):
        p = it.fresh_named(tp, name)
        return p

    def state(it, st, old, t, ev, D):
        """what the state at time t must be; ev(k) is the k-th derivative"""
        out = []
        for k, nm in enumerate(FIELDS):
            e, g = ev(k), st.f[nm]
            for d in range(3):
                out.append((nm + ' is the derivative at that time', cmp('==', it.elem(g, d), it.elem(e, d))))
        out.append(('the time is stamped in nanoseconds', land(cmp('<=', rabs(sub(norm(z3.ToReal(iv(st.f['time_from_start_ns']))), mul(Fraction(10 ** 9), t))), 1))))
        four, six = cmp('==', D, 4), cmp('==', D, 6)
        qe = lambda a, b: land(*[cmp('==', a.f[c], b.f[c]) for c in 'wxyz'])
        ve = lambda a, b: land(*[cmp('==', it.elem(a, i), b[i]) for i in range(3)])
        q, w, wd = st.f['orientation_W_B'], st.f['angular_velocity_W'], st.f['angular_acceleration_W']
        z = Fraction(0)
        if four is not False:
            out += [('heading', implies(four, qe(q, q_yaw(it, it.elem(ev(0), 3))))), ('heading rate', implies(four, ve(w, [z, z, it.elem(ev(1), 3)]))), ('heading acceleration', implies(four, ve(wd, [z, z, it.elem(ev(2), 3)])))]
        if six is not False:
            r, v, a = ([it.elem(ev(k), i) for i in (3, 4, 5)] for k in range(3))
            out += [('orientation', implies(six, qe(q, q_rot(it, r)))), ('angular velocity', implies(six, ve(w, w_uf(it, 'omega', [r, v]).d))), ('angular acceleration', implies(six, ve(wd, w_uf(it, 'omega_dot', [r, v, a]).d)))]
        rest = lnot(lor(four, six))
        o = old.f
        out.append(('attitude is left alone otherwise', implies(rest, land(qe(q, o['orientation_W_B']), ve(w, items(o['angular_velocity_W'])), ve(wd, items(o['angular_acceleration_W']))))))
        return out

    def run_at(kind, mk):
        def run(it):
            o, mt = mk(it)
            t = z3.Real('t')
            old = point(it, 'old')
            sl = new(it, old)
            r = call(it, f[kind], None, [new(it, o), t, Ptr(sl)])
            D = it.ghost['D']
            valid = land(t >= 0, t <= mt, cmp('>=', D, 3))
            it.oblige('refused exactly when outside or below three dimensions', cmp('==', bv(r), bv(valid)))
            if not it.branch(r):
                it.oblige('a refused sample leaves the state alone', it.load(sl) is old)
                return
            for nm, g in state(it, it.load(sl), old, t, lambda k: E(it, None, t, k, D), D):
                it.oblige(nm, g)
        return run

    def ov_range(it, func, this, args, node):
        """evaluateRange (C05): the values at start + i*dt; the number of samples depends on the range only"""
        a, b, dt, k = (it.val(x) for x in args[:4])
        D = it.ghost['D']
        it.oblige('the sampled object is the given one', it.load(this) is it.ghost['obj'])
        n = it.ghost.get('nsamples')
        if bounded(it):
            if n is None:
                n = it.ghost['nsamples'] = it.choose(3)
            v = Seq(EV, 'vector', [E(it, None, add(a, mul(Fraction(i), dt)), k, D) for i in range(n)])
        else:
            n = z3.Function('samples', *[z3.RealSort()] * 3 + [z3.IntSort()])(rv(a), rv(b), rv(dt))
            it.assume(z3.And(n >= 0, n < 2 ** 31))
            arr = z3.Function('range', z3.RealSort(), z3.RealSort(), z3.RealSort(), z3.IntSort(), z3.ArraySort(z3.IntSort(), it.S.sort(EV)))(rv(a), rv(b), rv(dt), iv(k))
            v = Seq(EV, 'vector', None, n, arr)
            q = z3.Int('qr')
            it.assume(forall(q, implies(land(q >= 0, q < n), iv(size(it.elem(v, q))) == iv(D)), z3.Select(arr, q)))
        it.store(it.val(args[4]).lv, v)
        it.ghost.setdefault('range', []).append((a, b, dt, k))
        return None

    def rng(it, a, b, dt, k, i):
        """i-th value of the range"""
        D = it.ghost['D']
        if bounded(it):
            return E(it, None, add(a, mul(Fraction(i), dt)), k, D)
        arr = z3.Function('range', z3.RealSort(), z3.RealSort(), z3.RealSort(), z3.IntSort(), z3.ArraySort(z3.IntSort(), it.S.sort(EV)))(rv(a), rv(b), rv(dt), iv(k))
        return sval(it, EV, z3.Select(arr, iv(i)))

    def run_range(it):
        tr, mt = traj(it)
        a, b, dt = z3.Reals('a b dt')
        it.assume(z3.And(a <= b, dt > 0))
        old = seq_of(it, tp, 'old', hi=1)
        it.ghost.update(a=a, b=b, dt=dt, old=old)
        sl = new(it, old, vp)
        r = call(it, f['sampleTrajectoryInRange'], None, [new(it, tr), a, b, dt, Ptr(sl)])
        D = it.ghost['D']
        valid = land(a >= 0, b <= mt, cmp('>=', D, 3))
        it.oblige('refused exactly when outside or below three dimensions', cmp('==', bv(r), bv(valid)))
        if not it.branch(r):
            it.oblige('a refused range leaves the states alone', it.load(sl) is old)
            return
        got = it.load(sl)
        n = it.ghost.get('nsamples', 0) if bounded(it) else z3.Function('samples', *[z3.RealSort()] * 3 + [z3.IntSort()])(a, b, dt)
        it.oblige('as many states as samples', cmp('==', size(got), n))
        i = arb(it, 'i0', n)
        it.assume(add(a, mul(norm(z3.ToReal(i)) if is_sym(i) else Fraction(i), dt)) < 9 * 10 ** 9)
        st = it.elem(got, i)
        for nm, g in at_i(it, st, i):
            it.oblige(nm, g)

    def at_i(it, st, i):
        G = it.ghost
        t = add(G['a'], mul(norm(z3.ToReal(i)) if is_sym(i) else Fraction(i), G['dt']))
        D = G['D']
        return [x for x in state(it, st, st, t, lambda k: rng(it, G['a'], G['b'], G['dt'], k, i), D) if 'left alone' not in x[0]]

    def inv_range(L):
        it = L.it
        if 'dt' not in it.ghost:
            return None
        k, i = iv(L.idx), z3.Int('i0')
        ss = L['states']
        ss = it.load(ss.lv) if isinstance(ss, Ptr) else ss
        n = z3.Function('samples', *[z3.RealSort()] * 3 + [z3.IntSort()])(it.ghost['a'], it.ghost['b'], it.ghost['dt'])
        small = add(it.ghost['a'], mul(z3.ToReal(i), it.ghost['dt'])) < 9 * 10 ** 9
        return [k >= 0, k <= n, cmp('==', size(ss), n)] + [implies(land(i >= 0, i < k, small), g) for _, g in at_i(it, it.elem(ss, i), i)]

    def ov_inrange(it, func, this, args, node):
        it.ghost['call'] = [it.val(x) for x in args]
        return z3.Bool('range_ok')

    def run_whole(kind):
        def run(it):
            tr, mt = traj(it)
            sl = new(it, seq_of(it, tp, 'old', hi=1), vp)
            dt, a, d = z3.Reals('dt a d')
            whole = kind == 'sampleWholeTrajectory'
            tl = new(it, tr)
            r = call(it, f[kind], None, [tl, dt, Ptr(sl)] if whole else [tl, a, d, dt, Ptr(sl)])
            c = it.ghost.get('call')
            it.oblige('the range is sampled', c is not None and c[0] is tr and isinstance(c[4], Ptr) and c[4].lv == sl)
            if c:
                it.oblige('start of the range', cmp('==', c[1], Fraction(0) if whole else a))
                it.oblige('end of the range', cmp('==', c[2], mt if whole else add(a, d)))
                it.oblige('interval', cmp('==', c[3], dt))
            it.oblige('tells whether it worked', cmp('==', bv(r), z3.Bool('range_ok')))
        return run

    ov = {TRAJ + '::evaluate': ov_eval, SEG + '::evaluate': ov_eval, TRAJ + '::evaluateRange': ov_range, 'mav_msgs::quaternionFromYaw': ov_yaw, 'mav_msgs::matrixFromRotationVector': ov_mat,
          'mav_msgs::omegaFromRotationVector': ov_w, 'mav_msgs::omegaDotFromRotationVector': ov_wd}
    hk = {'quat_from_mat': h_quat}
    kw = dict(overrides=ov, hooks=hk, budget=60)
    b = 'every dimension up to 7, up to 2 samples'
    return [
        Task('sampleTrajectoryAtTime', run_at('sampleTrajectoryAtTime', traj), funcs=[NS + 'sampleTrajectoryAtTime', NS + 'sampleFlatStateAtTime'], exact=True, bounded=[(b, run_at('sampleTrajectoryAtTime', traj))], **kw),
        Task('sampleSegmentAtTime', run_at('sampleSegmentAtTime', segm), funcs=[NS + 'sampleSegmentAtTime', NS + 'sampleFlatStateAtTime'], exact=True, bounded=[(b, run_at('sampleSegmentAtTime', segm))], **kw),
        Task('sampleTrajectoryInRange', run_range, funcs=[NS + 'sampleTrajectoryInRange'], invariants={'sampleTrajectoryInRange': [('', inv_range)]}, bounded=[(b, run_range)], **kw),
        Task('sampleTrajectoryStartDuration', run_whole('sampleTrajectoryStartDuration'), funcs=[NS + 'sampleTrajectoryStartDuration'], exact=True, overrides={NS + 'sampleTrajectoryInRange': ov_inrange}),
        Task('sampleWholeTrajectory', run_whole('sampleWholeTrajectory'), funcs=[NS + 'sampleWholeTrajectory'], exact=True, overrides={NS + 'sampleTrajectoryInRange': ov_inrange}),
    ]
