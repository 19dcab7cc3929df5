"""C08: Stretching time keeps the path and its limits only ever slow it down.

Contracts (any number of segments, dimensions and coefficients; sc(p, f) is the polynomial t -> p(f t), contract of C02):
  scaleSegmentTimes(s)   refused with nothing changed iff s < 1e-6; otherwise every segment time and the duration are
                         multiplied by s and every polynomial p becomes sc(p, 1/s); shapes are kept
  scaleSegmentTimesToMeetConstraints   there is F >= 1 such that the trajectory is the given one stretched by F; a limit
                         exceeded by v at first means F >= v for the velocity and F^2 >= v for the acceleration; success only
                         when the maxima measured on the final trajectory are within 0.1% of the limits; a trajectory within
                         the limits is left unchanged and accepted
  computeMaxVelocityAndAcceleration    the maximum magnitudes of derivatives 1 and 2 over all dimensions
  lemma: sc composes, and the k-th derivative of sc(p, f) at u is f^k p^(k)(f u), for every length up to 22
"""
from ..spec import *
TUS = ['trajectory', 'segment', 'polynomial']
NATIVE = {'src': 'c08.cpp', 'with': ['$MAV/src/trajectory.cpp', '$MAV/src/segment.cpp', '$MAV/src/polynomial.cpp', '$MAV/src/vertex.cpp', '$MAV/src/motion_defines.cpp', '$MAV/src/rpoly/rpoly_ak1.cpp'], 'n': 4000}
ASSUMPTIONS = ['limits are positive, segment times are not negative', 'the duration of the trajectory is the sum of its segment times before the call (C06)',
               'the measured maxima are a function of the trajectory (their value is C09)']


def tasks(db, tier):
    f_sc = find(db, TRAJ + '::scaleSegmentTimes')
    f_lim = find(db, TRAJ + '::scaleSegmentTimesToMeetConstraints')
    f_max = find(db, TRAJ + '::computeMaxVelocityAndAcceleration')
    f_poly = find(db, POLY + '::scalePolynomialInTime')
    tseg, tpoly = cls(SEG), cls(POLY)
    T = uf('T', 'i', 'r')

    def P(it, v):
        return sterm(it, tpoly, v)

    def S(it, v):
        return sterm(it, tseg, v)

    def A(it, segs):
        return sterm(it, vseq(tseg), segs)

    def st(it):
        s = it.S.sort(tpoly)
        return z3.Function('poly_slowed', s, z3.RealSort(), s)

    def slowed(it, p, g):
        """the polynomial t -> p(t / g)"""
        r = st(it)(P(it, p), rv(g))
        if not is_sym(g) and g == 1:
            return it.S.val(tpoly, P(it, p))
        v = sval(it, tpoly, r)
        it.assume(land(cmp('==', v.f['N_'], p.f['N_']), implies(cmp('==', g, 1), r == P(it, p))))
        return v

    def named(it, g):
        """a constant for a scaling factor"""
        if not is_sym(g) or (z3.is_const(g) and z3.is_app(g)):
            return g
        m = it.ghost.setdefault('names', {})
        if g.get_id() not in m:
            c = it.fresh(REAL, 'factor')
            it.assume(c == g)
            m[g.get_id()] = (c, g)
        return m[g.get_id()][0]

    def sc_contract(it, func, this, args, node):
        if bounded(it):
            return NotImplemented
        f = it.val(args[0])
        it.oblige('the stretching factor is positive', cmp('>', f, 0), node)
        # the factors the code uses are reciprocals of the time scaling
        if is_sym(f) and z3.is_app(f) and f.decl().kind() == z3.Z3_OP_DIV and z3.is_rational_value(f.arg(0)) and f.arg(0).as_fraction() == 1:
            g = named(it, f.arg(1))
        else:
            g = it.fresh(REAL, 'slow')
            it.assume(land(mul(g, f) == 1, g > 0))
        it.store(this, slowed(it, it.load(this), g))
        return None

    def traj(it, hi=2):
        if bounded(it):
            n, D, N = it.choose(hi) + 1, it.choose(2) + 1, it.choose(2) + 1
            segs, tot = [], Fraction(0)
            for i in range(n):
                ps = Seq(tpoly, 'vector', [poly(it, reals('t%d.c%d_' % (i, d), N)) for d in range(D)])
                tm = z3.Real('t%d.time' % i)
                it.assume(tm >= 0)
                tot = add(tot, tm)
                segs.append(SV(SEG, {'polynomials_': ps, 'time_': tm, 'N_': N, 'D_': D}))
            return SV(TRAJ, {'D_': D, 'N_': N, 'max_time_': tot, 'segments_': Seq(tseg, 'vector', segs)})
        segs = it.fresh_named(vseq(tseg), 't.segments_')
        D, N = z3.Int('t.D'), z3.Int('t.N')
        it.assume(z3.And(D >= 0, D < 1000, N >= 0, N < 1000))
        q = z3.Int('qi')
        g = it.elem(segs, q)
        it.assume(forall(q, implies(land(q >= 0, q < iv(segs.n)), land(cmp('==', g.f['D_'], D), cmp('==', size(g.f['polynomials_']), D), cmp('==', g.f['N_'], N), cmp('>=', g.f['time_'], 0))), z3.Select(segs.arr, q)))
        it.assume(T(0) == 0)
        mt = z3.Real('t.max_time')
        it.assume(mt == T(iv(segs.n)))
        return SV(TRAJ, {'D_': D, 'N_': N, 'max_time_': mt, 'segments_': segs})

    def index(it, tr):
        segs = tr.f['segments_']
        j = arb(it, 'j0', size(segs))
        d = arb(it, 'd0', tr.f['D_'])
        return j, d

    def stretched(it, got, want, d, F):
        """segment `got` is segment `want` slowed by F, looked at in dimension d"""
        gp, wp = it.elem(got.f['polynomials_'], d), it.elem(want.f['polynomials_'], d)
        out = [('shape is kept', land(cmp('==', got.f['D_'], want.f['D_']), cmp('==', got.f['N_'], want.f['N_']), cmp('==', size(got.f['polynomials_']), size(want.f['polynomials_'])))),
               ('the segment time is multiplied by the scaling', cmp('==', got.f['time_'], mul(want.f['time_'], F)))]
        if bounded(it):
            inv = rdiv(Fraction(1), F)
            out.append(('the path is unchanged', land(*[cmp('==', x, mul(c, power(inv, k))) for k, (x, c) in enumerate(zip(items(gp.f['coefficients_']), items(wp.f['coefficients_'])))],
                                                      len(items(gp.f['coefficients_'])) == len(items(wp.f['coefficients_'])))))
        else:
            out.append(('the path is unchanged', P(it, gp) == P(it, slowed(it, wp, F))))
        return out

    def goals(it, R, tr, F):
        segs0, segs = tr.f['segments_'], R.f['segments_']
        it.oblige('the number of segments is kept', cmp('==', size(segs), size(segs0)))
        it.oblige('the duration is multiplied by the scaling', cmp('==', R.f['max_time_'], mul(tr.f['max_time_'], F)))
        it.oblige('dimension and count are kept', land(cmp('==', R.f['D_'], tr.f['D_']), cmp('==', R.f['N_'], tr.f['N_'])))
        j, d = index(it, tr)
        for nm, g in stretched(it, it.elem(segs, j), it.elem(segs0, j), d, F):
            it.oblige(nm, g)

    # ---- scaleSegmentTimes
    def t_scale(it):
        tr = traj(it)
        s = z3.Real('scaling')
        it.ghost.update(tr=tr, lev=0, cur=s)
        tl = new(it, tr)
        it.ghost['tl'] = tl
        r = call(it, f_sc, tl, [s])
        small = s < Fraction(1, 10 ** 6)
        it.oblige('refused exactly below 1e-6', cmp('==', bv(r), lnot(small)))
        if not it.branch(lnot(small)):
            it.oblige('a refused scaling changes nothing', it.load(tl) is tr)
            return
        goals(it, it.load(tl), tr, s)

    def factor(L, G):
        """(what the stretching of one pass is, how much was stretched before it)"""
        if 'cur' in G:
            return G['cur'], Fraction(1)
        for nm in ('violation_scaling',):
            if L.has(nm):
                return named(L.it, L[nm]), G['F']
        raise KeyError('scaling')

    def inv_seg(L):
        """loop over the segments"""
        it, G = L.it, L.it.ghost
        if 'tr' not in G or bounded(it):
            return None
        base = L.this0.f['segments_']        # at entry of this loop
        segs = L.this.f['segments_']
        if L.level != 1 + G['lev']:
            return None
        v, F = factor(L, G)
        k = iv(L.idx)
        tr, j, d = G['tr'], z3.Int('j0'), z3.Int('d0')
        t0 = tr.f['segments_']
        it.assume(implies(land(k >= 0, k < iv(t0.n)), T(k + 1) == T(k) + rv(it.elem(t0, k).f['time_'])))
        q = z3.Int('qs')
        out = [k >= 0, k <= iv(t0.n), cmp('==', size(segs), t0.n), cmp('==', L.real('new_max_time'), mul(mul(T(k), F), v)),
               forall(q, implies(land(q >= k, q < iv(t0.n)), z3.Select(segs.arr, q) == z3.Select(base.arr, q)), z3.Select(segs.arr, q)),
               implies(j >= k, z3.Select(segs.arr, j) == z3.Select(base.arr, j))]
        inr = land(j >= 0, j < k, j < iv(t0.n))
        for x, (_, g) in enumerate(stretched(it, it.elem(segs, j), it.elem(base, j), d, v)):
            out.append(implies(inr if x < 2 else land(inr, d >= 0, d < iv(tr.f['D_'])), g))
        return out

    def inv_dim(L):
        """loop over the dimensions of one segment"""
        it, G = L.it, L.it.ghost
        if 'tr' not in G or bounded(it) or L.level != 2 + G['lev']:
            return None
        v, F = factor(L, G)
        base, segs = L.this0.f['segments_'], L.this.f['segments_']
        i, k = iv(L['i']), iv(L['d'])
        tr, j, d = G['tr'], z3.Int('j0'), z3.Int('d0')
        a, b = it.elem(segs, i), it.elem(base, i)
        q = z3.Int('qd')
        pa, pb = a.f['polynomials_'], b.f['polynomials_']
        return [k >= 0, k <= iv(b.f['D_']), cmp('==', size(segs), base.n),
                land(cmp('==', a.f['time_'], b.f['time_']), cmp('==', a.f['D_'], b.f['D_']), cmp('==', a.f['N_'], b.f['N_']), cmp('==', size(pa), size(pb))),
                forall(q, implies(q != i, z3.Select(segs.arr, q) == z3.Select(base.arr, q)), z3.Select(segs.arr, q)),
                implies(land(d >= k, d < iv(size(pb))), P(it, it.elem(pa, d)) == P(it, it.elem(pb, d))),
                implies(land(d >= 0, d < k, d < iv(size(pb))), P(it, it.elem(pa, d)) == P(it, slowed(it, it.elem(pb, d), v)))]

    # ---- stretching until the limits are met
    def measure(it, tr):
        a = A(it, tr.f['segments_'])
        sv = a.sort()
        return z3.Function('max_velocity', sv, z3.RealSort())(a), z3.Function('max_acceleration', sv, z3.RealSort())(a)

    def max_contract(it, func, this, args, node):
        G = it.ghost
        if bounded(it):
            # the measured maxima, as multiples of the limits; within the limits by the third measurement
            k = G['n'] = G.get('n', 0) + 1
            v = [Fraction(1, 2), Fraction(1), Fraction(5, 2)][it.choose(3 if k < 3 else 2)]
            a = [Fraction(1, 2), Fraction(1), Fraction(9)][it.choose(3 if k < 3 else 2)]
            G['rv'], G['ra'] = v, a
            G.setdefault('first', (v, a))
            vm, am = mul(v, G['vmax']), mul(a, G['amax'])
            G['at'] = it.load(this)
        else:
            vm, am = measure(it, it.load(this))
        for p, x in zip(args, (vm, am)):
            it.store(it.val(p).lv, x)
        return it.fresh(('bool',), 'measured')

    def t_lim(it):
        tr = traj(it, hi=1)
        V, M = (Fraction(2), Fraction(3)) if bounded(it) else (z3.Real('v_max'), z3.Real('a_max'))
        it.assume(land(cmp('>', V, 0), cmp('>', M, 0)))
        G = it.ghost
        tl = new(it, tr)
        G.update(tr=tr, lev=1, F=Fraction(1), lim=(V, M), vmax=V, amax=M)
        r = call(it, f_lim, tl, [V, M])
        R = it.load(tl)
        tol = Fraction(1001, 1000)
        if bounded(it):
            v0, a0 = G['first']
            fits = v0 <= 1 and a0 <= 1
            it.oblige('a trajectory within the limits is accepted', implies(fits, r))
            it.oblige('a trajectory within the limits is unchanged', implies(fits, R is tr or sterm(it, cls(TRAJ), R) == sterm(it, cls(TRAJ), tr)))
            it.oblige('success only when the maxima measured last are within the limits', implies(r, land(G['rv'] <= tol, G['ra'] <= tol, G['at'] is R or sterm(it, cls(TRAJ), R) == sterm(it, cls(TRAJ), G['at']))))
            s0, s1 = it.elem(tr.f['segments_'], 0).f['time_'], it.elem(R.f['segments_'], 0).f['time_']
            F = z3.Real('F')
            it.assume(mul(s0, F) == rv(s1))
            it.assume(s0 > 0)
            it.oblige('segments never get shorter', F >= 1)
            it.oblige('a limit that is exceeded slows the trajectory at least by the excess', implies(v0 > tol or a0 > tol, land(F >= rv(v0), F * F >= rv(a0))))
            goals(it, R, tr, F)
            return
        vm0, am0 = measure(it, tr)
        vm, am = measure(it, R)
        fits = land(vm0 <= V, am0 <= M)
        it.oblige('a trajectory within the limits is accepted', implies(fits, r))
        it.oblige('a trajectory within the limits is unchanged', implies(fits, sterm(it, cls(TRAJ), R) == sterm(it, cls(TRAJ), tr)))
        it.oblige('success only when the maxima measured last are within the limits', implies(r, land(vm <= mul(V, tol), am <= mul(M, tol))))
        it.oblige('segments never get shorter', cmp('>=', G['F'], 1))
        it.oblige('a limit that is exceeded slows the trajectory at least by the excess',
                  implies(lor(vm0 > mul(V, tol), am0 > mul(M, tol)), slow_enough(it, tr, G['F'])))
        goals(it, R, tr, G['F'])

    def slow_enough(it, tr, F):
        G = it.ghost
        vm0, am0 = measure(it, tr)
        return land(cmp('>=', mul(F, G['vmax']), vm0), cmp('>=', mul(mul(F, F), G['amax']), am0))

    def inv_slow(L):
        it, G = L.it, L.it.ghost
        if 'lim' not in G or bounded(it) or L.level != 1:
            return None
        F, tr = Fraction(1), G['tr']
        if L.phase == 'assume':
            F = G['F']
        elif L.phase != 'entry':
            F = mul(G['F'], named(it, L['violation_scaling']))
        try:
            first = cmp('==', L.idx, 0)
        except KeyError:
            first = True
        return lor(land(first, cmp('==', F, 1), sterm(it, cls(TRAJ), L.this) == sterm(it, cls(TRAJ), tr)), slow_enough(it, tr, F))

    def inv_lim(L):
        it, G = L.it, L.it.ghost
        if 'lim' not in G or bounded(it) or L.level != 1:
            return None
        tr = G['tr']
        R = L.this
        if L.phase == 'entry':
            F = Fraction(1)
        elif L.phase == 'assume':
            F = it.fresh(REAL, 'F')
            G['F'] = F
        else:
            v = named(it, L['violation_scaling'])
            F = mul(G['F'], v)
            p = it.elem(it.elem(tr.f['segments_'], z3.Int('j0')).f['polynomials_'], z3.Int('d0'))
            # stretching twice stretches by the product (lemma)
            it.assume(st(it)(st(it)(P(it, p), rv(G['F'])), rv(v)) == st(it)(P(it, p), rv(F)))
        vm0, am0 = measure(it, tr)
        fits = land(vm0 <= G['vmax'], am0 <= G['amax'])
        segs, t0 = R.f['segments_'], tr.f['segments_']
        n = iv(t0.n)
        out = [cmp('>=', F, 1), cmp('==', R.f['max_time_'], mul(tr.f['max_time_'], F)), cmp('==', R.f['D_'], tr.f['D_']), cmp('==', R.f['N_'], tr.f['N_']),
               cmp('==', size(segs), n), implies(fits, land(cmp('==', F, 1), sterm(it, cls(TRAJ), R) == sterm(it, cls(TRAJ), tr)))]
        try:
            out.append(implies(fits, cmp('==', L.idx, 0)))
        except KeyError:
            out.append(True)
        j, d = z3.Int('j0'), z3.Int('d0')

        def every(x):
            a, b = it.elem(segs, x), it.elem(t0, x)
            return implies(land(x >= 0, x < n), land(cmp('==', a.f['D_'], b.f['D_']), cmp('==', a.f['N_'], b.f['N_']), cmp('==', size(a.f['polynomials_']), size(b.f['polynomials_'])),
                                                     cmp('==', a.f['time_'], mul(b.f['time_'], F))))
        if L.phase == 'assume':
            # proved for the arbitrary index j0, so it holds for every index
            q = z3.Int('qf')
            out.append(forall(q, every(q), z3.Select(segs.arr, q)))
        else:
            out.append(every(j))
        gp, wp = it.elem(it.elem(segs, j).f['polynomials_'], d), it.elem(it.elem(t0, j).f['polynomials_'], d)
        out.append(implies(land(j >= 0, j < n, d >= 0, d < iv(tr.f['D_'])), P(it, gp) == P(it, slowed(it, wp, F))))
        return out

    def inv_flag(L):
        if 'lim' not in L.it.ghost or L.level != 1:
            return None
        return lnot(L['within_range'])

    def t_max(it):
        tr = traj(it, hi=1)
        calls = []

        def minmax(it, func, this, args, node):
            der, dims, mn, mx = it.val(args[0]), it.val(args[1]), it.val(args[2]), it.val(args[3])
            x = it.fresh(REAL, 'extreme')
            k = len(calls)
            e = it.load(mx.lv)
            it.store(mx.lv, SV(e.cls, dict(e.f, value=x)))
            ok = it.fresh(('bool',), 'ok')
            calls.append((der, dims, x, ok))
            return ok
        it.e.overrides[TRAJ + '::computeMinMaxMagnitude'] = minmax
        tl = new(it, tr)
        v, a = new(it, z3.Real('v'), REAL), new(it, z3.Real('a'), REAL)
        r = call(it, f_max, tl, [Ptr(v), Ptr(a)])
        it.oblige('velocity and acceleration are measured', len(calls) == 2)
        D = tr.f['D_']
        j = arb(it, 'd0', D) if not (isinstance(D, int) and D == 0) else None
        for der, dims, x, ok in calls:
            it.oblige('over all dimensions', land(cmp('==', size(dims), D), cmp('==', it.elem(dims, j), j)))
        by = {k[0]: k for k in calls if not is_sym(k[0])}
        it.oblige('velocity is derivative 1', 1 in by and bool(cmp('==', it.load(v), by[1][2]) is True or z3.eq(it.load(v), by[1][2])))
        it.oblige('acceleration is derivative 2', 2 in by and bool(z3.eq(it.load(a), by[2][2])))
        it.oblige('succeeds only when both could be measured', cmp('==', bv(r), bv(land(*[c[3] for c in calls]))))

    pc = {POLY + '::scalePolynomialInTime': sc_contract}
    B = 'at most 2 segments, dimensions and coefficients'

    # ---- lemma
    def t_lemma(N):
        def run(it):
            c = reals('c', N)
            f, g, u = z3.Real('f'), z3.Real('g'), z3.Real('u')
            p = new(it, poly(it, c))
            call(it, f_poly, p, [f])
            x = items(it.load(p).f['coefficients_'])
            it.oblige('number of coefficients is kept', len(x) == N)
            for k in range(min(N, 5)):
                it.oblige('derivative %d of the stretched polynomial' % k, cmp('==', poly_value(x, k, u), mul(power(f, k), poly_value(c, k, mul(f, u)))))
            call(it, f_poly, p, [g])
            for k, y in enumerate(items(it.load(p).f['coefficients_'])):
                it.oblige('stretching twice stretches by the product', cmp('==', y, mul(c[k], power(mul(f, g), k))))
        return run
    out = [Task('scale segment times', t_scale, [TRAJ + '::scaleSegmentTimes'], overrides=pc, invariants={'scaleSegmentTimes': [('segments', inv_seg), ('dimensions', inv_dim)]}, bounded=[(B, t_scale)], budget=90)]
    out.append(Task('stretch to meet the limits', t_lim, [TRAJ + '::scaleSegmentTimesToMeetConstraints'], overrides={TRAJ + '::computeMaxVelocityAndAcceleration': max_contract, **pc}, cut_all=('scaleSegmentTimesToMeetConstraints',),
                    invariants={'scaleSegmentTimesToMeetConstraints': [('pass', inv_lim), ('slowed by the excess', inv_slow), ('not yet within', inv_flag), ('segments', inv_seg), ('dimensions', inv_dim)]},
                    bounded=[('one segment, at most 2 dimensions and coefficients, at most 2 stretchings', t_lim)], budget=120, unroll=30))
    out.append(Task('measured maxima', t_max, [TRAJ + '::computeMaxVelocityAndAcceleration'], bounded=[(B, t_max)]))
    out.append(Task('stretching a polynomial', lambda it: t_lemma(it.choose(22) + 1)(it), [POLY + '::scalePolynomialInTime'], exact=True))
    return out
