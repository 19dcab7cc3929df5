"""C09: Magnitude extrema over chosen dimensions bound the whole path.

Contracts (any number of segments, dimensions, candidates; every coefficient count up to the stated N and every derivative):
  Segment::computeMinMaxMagnitudeCandidateTimes  refused when no dimension is given, one does not exist, the interval is
        reversed or the derivative has no further derivative; otherwise the candidates are those (C03) of the polynomial
        sum over the dimensions of p^(k) p^(k+1) (for one dimension: of p^(k) itself) over the given interval
  lemma: that polynomial is half the derivative of the squared norm, so its roots are the norm's critical points
  Segment::computeMinMaxMagnitudeCandidates      candidate j has the j-th time and the norm of the derivative there
  Segment::selectMinMaxMagnitudeFromCandidates   refused when reversed; otherwise minimum and maximum over the candidates inside
  Trajectory::computeMinMaxMagnitude             fails if a segment fails; otherwise the extremes over all segments' extremes, each
                                                 with its time and segment
"""
from ..spec import *
TUS = ['trajectory', 'segment', 'polynomial']
NATIVE = {'src': 'c09.cpp', 'with': ['$MAV/src/trajectory.cpp', '$MAV/src/segment.cpp', '$MAV/src/polynomial.cpp', '$MAV/src/vertex.cpp', '$MAV/src/motion_defines.cpp', '$MAV/src/rpoly/rpoly_ak1.cpp'], 'n': 4000}
ASSUMPTIONS = ['the numerical root finder returns every root of the polynomial it is given (not claimed, see C32)', 'values are below the largest double',
               'std::pow(x, 2) is x*x, std::sqrt is the monotone real square root']
EXT = NS + 'Extremum'


def tasks(db, tier):
    f_times, f_cand, f_sel = (find(db, SEG + '::' + x) for x in ('computeMinMaxMagnitudeCandidateTimes', 'computeMinMaxMagnitudeCandidates', 'selectMinMaxMagnitudeFromCandidates'))
    f_traj = find(db, TRAJ + '::computeMinMaxMagnitude')
    tseg, tpoly, text = cls(SEG), cls(POLY), cls(EXT)
    ti, tr_ = vseq(INT), vseq(REAL)

    def P(it, v):
        return sterm(it, tpoly, v)

    def dc(it):
        return z3.Function('derivative_coefficient', it.S.sort(tpoly), z3.IntSort(), z3.IntSort(), z3.RealSort())

    def val(it):
        return z3.Function('derivative_value', it.S.sort(tpoly), z3.RealSort(), z3.IntSort(), z3.RealSort())

    def segment(it, N=None, hi=3):
        if bounded(it):
            D = it.choose(hi) + 1
            ps = Seq(tpoly, 'vector', [poly(it, reals('c%d_' % d, N)) for d in range(D)])
        else:
            ps = it.fresh_named(vseq(tpoly), 'polynomials_')
            D = ps.n
        return SV(SEG, {'polynomials_': ps, 'time_': z3.Real('time'), 'N_': N, 'D_': D})

    def dimlist(it, D, hi=3, lo=0):
        if bounded(it):
            n = it.choose(hi - lo + 1) + lo
            return Seq(INT, 'vector', [it.choose(D + 2) - 1 if i < 2 else 0 for i in range(n)])
        return it.fresh_named(ti, 'dims')

    inr = lambda d, D: land(cmp('>=', d, 0), cmp('<', d, D))

    # ---- candidate times
    def coef_contract(it, func, this, args, node):
        if bounded(it):
            return NotImplemented
        k, N = it.val(args[0]), it.ghost['N']
        p = P(it, it.load(this))
        if is_sym(k):
            return NotImplemented
        return vec([dc(it)(p, k, i) if i < N - k else Fraction(0) for i in range(N)])

    def conv_spec(a, b):
        r = [Fraction(0)] * max(len(a) + len(b) - 1, 0)
        for i, x in enumerate(a):
            for j, y in enumerate(b):
                r[i + j] = add(r[i + j], mul(x, y))
        return r

    def conv_contract(it, func, this, args, node):
        a, b = it.val(args[0]), it.val(args[1])
        if not (isinstance(a, Mat) and isinstance(b, Mat)):
            return NotImplemented
        return vec(conv_spec(items(a), items(b)))

    def mm_contract(it, func, this, args, node):
        if bounded(it):
            return NotImplemented
        v = [it.val(x) for x in args]
        it.ghost.setdefault('asked', []).append((it.load(this), v))
        p = it.load(this)
        if it.branch(lor(cmp('>', v[0], v[1]), cmp('<', sub(sub(p.f['N_'], v[2]), 1), 0))):
            return False
        it.store(v[3].lv, it.ghost['CAND'] if len(it.ghost['asked']) == 1 else it.ghost['CANDZ'])
        return True

    def roots_contract(it, func, this, args, node):
        # the root finder (not verified): remembers what it was asked for
        p = it.load(this)
        it.ghost.setdefault('roots', []).append((p, it.val(args[0])))
        if not bounded(it):
            return NotImplemented
        it.store(it.val(args[1]).lv, Mat(1, 1, [Cplx(z3.Real('root'), Fraction(0))], 'c'))
        return True

    S = lambda k: uf('S%d' % k, 'i', 'r')

    def conv_of(it, p, k, N):
        nd = N - k
        a = [dc(it)(P(it, p), k, i) for i in range(nd)]
        b = [dc(it)(P(it, p), k + 1, i) for i in range(nd - 1)]
        return conv_spec(a, b)

    def norm_conv(it, s, dims, k, N):
        tot = [Fraction(0)] * max(2 * (N - k) - 2, 0)
        for d in dims:
            c = items(it.elem(s.f['polynomials_'], d).f['coefficients_'])
            a = [mul(Fraction(ff(i + k, k)), c[i + k]) for i in range(N - k)]
            b = [mul(Fraction(ff(i + k + 1, k + 1)), c[i + k + 1]) for i in range(N - k - 1)]
            tot = [add(x, y) for x, y in zip(tot, conv_spec(a, b))]
        return tot

    def t_times(Ns):
        def run(it):
            N = Ns[it.choose(len(Ns))]
            k = it.choose(N + 2)
            s = segment(it, N)
            D = s.f['D_']
            dims = dimlist(it, D)
            n = size(dims)
            a, b = z3.Real('a'), z3.Real('b')
            it.ghost.update(N=N, k=k, dims=dims, s=s, CAND=it.fresh_named(tr_, 'CAND'), CANDZ=it.fresh_named(tr_, 'CANDZ'))
            if not bounded(it):
                q = z3.Int('qi')
                it.assume(forall(q, implies(land(q >= 0, q < iv(D)), cmp('==', it.elem(s.f['polynomials_'], q).f['N_'], N)), z3.Select(s.f['polynomials_'].arr, q)))
                for i in range(len(conv_spec([1] * max(N - k, 0), [1] * max(N - k - 1, 0)))):
                    it.assume(S(i)(0) == 0)
                for i in (0, 1):
                    unfold(it, i)
            sl, dl = new(it, s), new(it, dims, ti)
            cl = new(it, it.fresh_named(tr_, 'old') if not bounded(it) else Seq(REAL, 'vector', [Fraction(7)]), tr_)
            r = call(it, f_times, sl, [k, a, b, dl, Ptr(cl)])
            it.oblige('the segment and the list of dimensions are unchanged', it.load(sl) is s and it.load(dl) is dims)
            j = arb(it, 'j0', n) if not (isinstance(n, int) and n == 0) else None
            rev = cmp('>', a, b)
            deg = N - k - 1 < 0
            if j is not None:
                it.oblige('refused when a dimension does not exist', implies(r, inr(it.elem(dims, j), D)))
            it.oblige('refused without dimensions, for a reversed interval or an order without derivative', implies(r, land(cmp('>', n, 0), lnot(rev), not deg)))
            why = lor(cmp('==', n, 0), rev, deg, exists(it, n, lambda x: lnot(inr(it.elem(dims, x), D))))
            it.oblige('refused only for one of these reasons', implies(lnot(r), why))
            if not it.branch(r):
                return
            L = it.load(cl)
            if bounded(it):
                got = items(L)
                x = z3.Real('root')
                for g in got:
                    it.oblige('candidates are ends or roots', lor(cmp('==', g, a), cmp('==', g, b), land(cmp('==', g, x), x >= a, x <= b)))
                it.oblige('the ends are candidates', land(lor(*[cmp('==', g, a) for g in got]), lor(*[cmp('==', g, b) for g in got])))
                it.oblige('a root inside is a candidate', implies(land(x >= a, x <= b), lor(*[cmp('==', g, x) for g in got])))
                polys = []
                for p, kk in it.ghost['roots']:
                    c = items(p.f['coefficients_'])
                    polys.append([mul(Fraction(ff(i + kk, kk)), c[i + kk]) for i in range(len(c) - kk)])
                if n == 1:
                    cc = items(it.elem(s.f['polynomials_'], dims.items[0]).f['coefficients_'])
                    wants = [('roots of the derivative', k + 1), ('roots of the value', k)]
                    wants = [(l, [mul(Fraction(ff(i + o, o)), cc[i + o]) for i in range(N - o)]) for l, o in wants]
                else:
                    wants = [('roots of the derivative of the squared norm', norm_conv(it, s, dims.items, k, N))]
                # the same polynomial up to trailing zeros
                same = lambda g, w: land(*[cmp('==', g[i] if i < len(g) else 0, w[i] if i < len(w) else 0) for i in range(max(len(g), len(w)))])
                for l, w in wants:
                    it.oblige(l, lor(*[same(g, w) for g in polys]))
                return
            A = it.ghost.get('asked', [])
            CZ = (it.ghost['CAND'], it.ghost['CANDZ'])
            for p, v in A:
                it.oblige('over the given interval', land(cmp('==', v[0], a), cmp('==', v[1], b)))
            if it.branch(cmp('==', n, 1)):
                it.oblige('one dimension: that polynomial twice', len(A) == 2 and land(*[P(it, p) == P(it, it.elem(s.f['polynomials_'], it.elem(dims, 0))) for p, v in A]))
                it.oblige('one dimension: the extrema and the zeros of that derivative', lor(land(cmp('==', A[0][1][2], k), cmp('==', A[1][1][2], k - 1)), land(cmp('==', A[0][1][2], k - 1), cmp('==', A[1][1][2], k))))
                q = arb(it, 'q0', size(L))
                n0, n1 = size(CZ[0]), size(CZ[1])
                cat = lambda X, Y: implies(cmp('<', q, size(X)), cmp('==', it.elem(L, q), it.elem(X, q))), lambda X, Y: implies(cmp('>=', q, size(X)), cmp('==', it.elem(L, q), it.elem(Y, sub(q, size(X)))))
                both = lambda X, Y: land(*[f(X, Y) for f in cat])
                it.oblige('all of both are the result', land(cmp('==', size(L), add(n0, n1)), lor(both(*CZ), both(CZ[1], CZ[0]))))
                return
            it.oblige('candidates are computed once', len(A) == 1)
            p, v = A[0]
            it.oblige('and are the result', L is it.ghost['CAND'])
            it.oblige('several dimensions: the integral of the polynomial', cmp('==', v[2], -1))
            c = p.f['coefficients_']
            for i in range(2 * (N - k) - 2):
                it.oblige('sum over the dimensions of derivative times next derivative', cmp('==', it.elem(c, i), S(i)(iv(n))))
            it.oblige('number of coefficients', cmp('==', size(c), 2 * (N - k) - 2))
        return run

    def unfold(it, i):
        # definition of the sum over the first i dimensions
        G = it.ghost
        dims, i = G['dims'], iv(i)
        c = conv_of(it, it.elem(G['s'].f['polynomials_'], it.elem(dims, i)), G['k'], G['N'])
        for x, t in enumerate(c):
            it.assume(implies(land(i >= 0, i < iv(dims.n)), S(x)(i + 1) == S(x)(i) + rv(t)))
        return c

    def inv_times(L):
        it, G = L.it, L.it.ghost
        if 'dims' not in G or bounded(it):
            return None
        N, k, dims, s = G['N'], G['k'], G['dims'], G['s']
        D = s.f['D_']
        i = iv(L.idx)
        c = unfold(it, i)
        m = L['convolved_coefficients']
        j = z3.Int('j0')
        out = [i >= 0, i <= iv(dims.n), implies(land(j >= 0, j < i), inr(it.elem(dims, j), D))]
        for x in range(len(c)):
            out.append(cmp('==', it.elem(m, x), S(x)(i)))
        return out

    def t_half(it):
        N = it.choose(12) + 1
        k = it.choose(N)
        c = reals('c', N)
        t = z3.Real('t')
        a = [mul(Fraction(ff(i + k, k)), c[i + k]) for i in range(N - k)]
        b = [mul(Fraction(ff(i + k + 1, k + 1)), c[i + k + 1]) for i in range(N - k - 1)]
        w = conv_spec(a, b)
        # d/dt (p^(k))^2 / 2 = p^(k) p^(k+1)
        it.oblige('value of the convolution', cmp('==', poly_value(w, 0, t), mul(poly_value(c, k, t), poly_value(c, k + 1, t))))
        sq = conv_spec(a, a)
        der = [mul(Fraction(i + 1), sq[i + 1]) for i in range(len(sq) - 1)]
        for i in range(len(der)):
            it.oblige('half the derivative of the square', cmp('==', mul(Fraction(2), w[i]), der[i]))

    # ---- candidates with their magnitudes
    def Q(it):
        return uf('sumsq', 'r', 'i', 'r')

    def ev_contract(it, func, this, args, node):
        if len(args) != 2 or isinstance(it.val(args[1]), Ptr):
            return NotImplemented
        return val(it)(P(it, it.load(this)), rv(it.val(args[0])), iv(it.val(args[1])))

    def times_contract(it, func, this, args, node):
        v = [it.val(x) for x in args]
        it.ghost.setdefault('asked', []).append((it.load(this), v))
        ok = z3.Bool('times_ok')
        if it.branch(ok):
            it.store(v[4].lv, it.ghost['CAND'])
            return True
        return False

    def sumsq(it, s, dims, t, k):
        r = Fraction(0)
        for d in dims:
            x = val(it)(P(it, it.elem(s.f['polynomials_'], d)), rv(t), iv(k))
            r = add(r, mul(x, x))
        return r

    def t_cand(it):
        s = segment(it, 3, hi=2)
        if not bounded(it):
            s.f['N_'] = z3.Int('N')
        D = s.f['D_']
        dims = dimlist(it, D) if not bounded(it) else Seq(INT, 'vector', [it.choose(D) for _ in range(it.choose(3) + 1)])
        k = z3.Int('k')
        a, b = z3.Real('a'), z3.Real('b')
        C = seq_of(it, REAL, 'CAND', hi=2)
        j = z3.Int('j0')
        it.ghost.update(CAND=C, s=s, dims=dims, k=k)
        old = it.fresh_named(vseq(text), 'old') if not bounded(it) else Seq(text, 'vector', [])
        sl, dl, ol = new(it, s), new(it, dims, ti), new(it, old, vseq(text))
        it.ghost['ol'] = ol
        if not bounded(it):
            # the candidate times come with valid dimensions (contract of the candidate times)
            q = z3.Int('qi')
            it.assume(forall(q, implies(land(q >= 0, q < iv(dims.n)), inr(it.elem(dims, q), D)), z3.Select(dims.arr, q)))
            q2 = z3.Real('qt')
            it.assume(z3.ForAll([q2], Q(it)(q2, 0) == 0, patterns=[Q(it)(q2, 0)]))
        r = call(it, f_cand, sl, [k, a, b, dl, Ptr(ol)])
        A = it.ghost.get('asked', [])
        it.oblige('the candidate times are asked for once', len(A) == 1)
        v = A[0][1]
        it.oblige('for the same derivative, interval and dimensions', land(cmp('==', v[0], k), cmp('==', v[1], a), cmp('==', v[2], b), v[3] is dims))
        it.oblige('fails exactly when the candidate times fail', cmp('==', bv(r), z3.Bool('times_ok')))
        if not it.branch(r):
            return
        O = it.load(ol)
        it.oblige('one candidate per time', cmp('==', size(O), size(C)))
        j = arb(it, 'j0', size(C))
        e, t = it.elem(O, j), it.elem(C, j)
        it.oblige('at its time', cmp('==', e.f['time'], t))
        tot = sumsq(it, s, dims.items, t, k) if bounded(it) else Q(it)(rv(t), iv(dims.n))
        from ..models import F_sqrt
        it.oblige('with the norm of the derivative there', cmp('==', e.f['value'], F_sqrt(rv(tot))))

    def inv_cand(L):
        it, G = L.it, L.it.ghost
        if 'ol' not in G or bounded(it):
            return None
        dims, s, C, k = G['dims'], G['s'], G['CAND'], G['k']
        i = iv(L.idx)
        if L.level == 1:
            from ..models import F_sqrt
            O = it.load(G['ol'])
            j = z3.Int('j0')
            e = it.elem(O, j)
            return [i >= 0, cmp('==', size(O), C.n), implies(land(j >= 0, j < i, j < iv(C.n)), land(cmp('==', e.f['time'], it.elem(C, j)), cmp('==', e.f['value'], F_sqrt(rv(Q(it)(rv(it.elem(C, j)), iv(dims.n)))))))]
        m = L.real('magnitude')
        t = it.elem(C, L['i'])
        x = val(it)(P(it, it.elem(s.f['polynomials_'], it.elem(dims, i))), rv(t), k)
        it.assume(Q(it)(rv(t), i + 1) == Q(it)(rv(t), i) + x * x)
        it.assume(Q(it)(rv(t), 0) == 0)
        return [i >= 0, i <= iv(dims.n), cmp('==', m, Q(it)(rv(t), i))]

    # ---- selection
    def ext(it, nm):
        return it.fresh_named(text, nm)

    def t_sel(it):
        s = segment(it, 2, hi=1)
        a, b = z3.Real('a'), z3.Real('b')
        C = seq_of(it, text, 'cand', hi=3)
        n = size(C)
        dims = dimlist(it, s.f['D_'], hi=1)
        if not bounded(it):
            s.f['N_'] = z3.Int('N')
        mn0, mx0 = ext(it, 'mn'), ext(it, 'mx')
        mn, mx = new(it, mn0), new(it, mx0)
        it.assume(DBL_MAX > 1)
        inside = lambda e: land(cmp('>=', e.f['time'], a), cmp('<=', e.f['time'], b))
        if not bounded(it):
            q = z3.Int('qi')
            e = it.elem(C, q)
            it.assume(forall(q, implies(land(q >= 0, q < iv(n)), land(cmp('<', e.f['value'], DBL_MAX), cmp('>=', e.f['value'], 0))), z3.Select(C.arr, q)))
            it.ghost.update(C=C, a=a, b=b, mn=mn, mx=mx, inside=inside)
        else:
            for e in items(C):
                it.assume(land(cmp('<', e.f['value'], DBL_MAX), cmp('>=', e.f['value'], 0)))
        cl = new(it, C, vseq(text))
        r = call(it, f_sel, new(it, s), [z3.Int('k'), a, b, new(it, dims, ti), cl, Ptr(mn), Ptr(mx)])
        it.oblige('refused exactly when the interval is reversed', cmp('==', bv(r), a <= b))
        it.oblige('the candidates are unchanged', it.load(cl) is C)
        if not it.branch(r):
            return
        MN, MX = it.load(mn), it.load(mx)
        j = arb(it, 'j0', n)
        e = it.elem(C, j)
        T = lambda x: sterm(it, text, x)
        it.oblige('the minimum bounds every candidate inside', implies(inside(e), cmp('<=', MN.f['value'], e.f['value'])))
        it.oblige('the maximum bounds every candidate inside', implies(inside(e), cmp('>=', MX.f['value'], e.f['value'])))
        it.oblige('the minimum is a candidate inside', implies(inside(e), exists(it, n, lambda x: land(inside(it.elem(C, x)), T(it.elem(C, x)) == T(MN)))))
        it.oblige('the maximum is a candidate inside', implies(inside(e), exists(it, n, lambda x: land(inside(it.elem(C, x)), T(it.elem(C, x)) == T(MX)))))

    def inv_sel(L):
        it, G = L.it, L.it.ghost
        if 'C' not in G:
            return None
        C, inside = G['C'], G['inside']
        i, j = iv(L.idx), z3.Int('j0')
        T = lambda x: sterm(it, text, x)
        MN, MX = it.load(G['mn']), it.load(G['mx'])
        e = it.elem(C, j)
        seen = land(j >= 0, j < i, inside(e))
        return [i >= 0, i <= iv(C.n), implies(seen, cmp('<=', MN.f['value'], e.f['value'])), implies(seen, cmp('>=', MX.f['value'], e.f['value'])),
                lor(cmp('==', MN.f['value'], DBL_MAX), exists(it, i, lambda x: land(inside(it.elem(C, x)), T(it.elem(C, x)) == T(MN)))),
                lor(cmp('==', MX.f['value'], -DBL_MAX), exists(it, i, lambda x: land(inside(it.elem(C, x)), T(it.elem(C, x)) == T(MX))))]

    # ---- whole trajectory
    def lo_(it):
        return z3.Function('segment_minimum', it.S.sort(tseg), it.S.sort(text))

    def hi_(it):
        return z3.Function('segment_maximum', it.S.sort(tseg), it.S.sort(text))

    def okf(it):
        return z3.Function('segment_ok', it.S.sort(tseg), z3.BoolSort())

    def cf(it):
        return z3.Function('segment_candidates', it.S.sort(tseg), it.S.sort(vseq(text)))

    def same_args(it, v, sg, node):
        G = it.ghost
        it.oblige('the requested derivative on the whole segment', land(cmp('==', v[0], G['k']), cmp('==', v[1], 0), cmp('==', v[2], sg.f['time_'])), node)
        it.oblige('over the requested dimensions', v[3] is G['dims'], node)

    def cand_contract(it, func, this, args, node):
        v = [it.val(x) for x in args]
        sg = it.load(this)
        same_args(it, v, sg, node)
        t = sterm(it, tseg, sg)
        if it.branch(okf(it)(t)):
            it.store(v[4].lv, sval(it, vseq(text), cf(it)(t)))
            return True
        return False

    def sel_contract(it, func, this, args, node):
        v = [it.val(x) for x in args]
        sg = it.load(this)
        t = sterm(it, tseg, sg)
        same_args(it, v, sg, node)
        it.oblige('from the candidates of that segment', sterm(it, vseq(text), v[4]) == cf(it)(t), node)
        for p, f in ((v[5], lo_(it)), (v[6], hi_(it))):
            x = sval(it, text, f(t))
            it.assume(land(cmp('<', x.f['value'], DBL_MAX), cmp('>=', x.f['value'], 0)))
            it.store(p.lv, x)
        return True

    def t_traj(it):
        if bounded(it):
            n = it.choose(4)
            segs = Seq(tseg, 'vector', [SV(SEG, {'polynomials_': Seq(tpoly, 'vector', [poly(it, reals('c%d_' % i, 1))]), 'time_': z3.Real('t%d' % i), 'N_': 1, 'D_': 1}) for i in range(n)])
        else:
            segs = it.fresh_named(vseq(tseg), 'segs')
            n = segs.n
        tr = SV(TRAJ, {'D_': z3.Int('D'), 'N_': z3.Int('N'), 'max_time_': z3.Real('mt'), 'segments_': segs})
        dims = it.fresh_named(ti, 'dims')
        k = z3.Int('k')
        it.assume(DBL_MAX > 1)
        it.assume(it.val(iv(n)) < 2 ** 31)
        mn, mx = new(it, ext(it, 'mn')), new(it, ext(it, 'mx'))
        it.ghost.update(k=k, dims=dims, segs=segs, mn=mn, mx=mx)
        if not bounded(it):
            q = z3.Int('qi')
            x, y = sval(it, text, lo_(it)(z3.Select(segs.arr, q))), sval(it, text, hi_(it)(z3.Select(segs.arr, q)))
            it.assume(z3.ForAll([q], land(*[land(cmp('<', z.f['value'], DBL_MAX), cmp('>=', z.f['value'], 0)) for z in (x, y)]), patterns=[z3.Select(segs.arr, q)]))
        r = call(it, f_traj, new(it, tr), [k, new(it, dims, ti), Ptr(mn), Ptr(mx)])
        S_ = lambda i: sterm(it, tseg, it.elem(segs, i))
        if not it.branch(r):
            it.oblige('fails only when a segment fails', exists(it, n, lambda i: lnot(okf(it)(S_(i)))))
            return
        j = arb(it, 'j0', n)
        it.oblige('fails when a segment fails', okf(it)(S_(j)))
        MN, MX = it.load(mn), it.load(mx)
        lo, hi = sval(it, text, lo_(it)(S_(j))), sval(it, text, hi_(it)(S_(j)))
        if bounded(it):
            for z in (lo, hi):
                it.assume(land(cmp('<', z.f['value'], DBL_MAX), cmp('>=', z.f['value'], 0)))
        it.oblige('the minimum bounds every segment', cmp('<=', MN.f['value'], lo.f['value']))
        it.oblige('the maximum bounds every segment', cmp('>=', MX.f['value'], hi.f['value']))
        for nm, M, f in (('minimum', MN, lo_), ('maximum', MX, hi_)):
            i = M.f['segment_idx']
            if bounded(it):
                att = lor(*[land(cmp('==', i, x), attained(it, M, f, S_(x))) for x in range(n)])
            else:
                att = land(cmp('>=', i, 0), cmp('<', i, n), attained(it, M, f, S_(i)))
            it.oblige('the %s is attained at its time in its segment' % nm, att)

    def attained(it, M, f, s):
        e = sval(it, text, f(it)(s))
        return land(cmp('==', M.f['time'], e.f['time']), cmp('==', M.f['value'], e.f['value']))

    def inv_traj(L):
        it, G = L.it, L.it.ghost
        if 'segs' not in G or bounded(it):
            return None
        segs = G['segs']
        S_ = lambda i: z3.Select(segs.arr, iv(i))
        i, j = iv(L.idx), z3.Int('j0')
        MN, MX = it.load(G['mn']), it.load(G['mx'])
        lo, hi = sval(it, text, lo_(it)(S_(j))), sval(it, text, hi_(it)(S_(j)))
        seen = land(j >= 0, j < i)
        out = [i >= 0, i <= iv(segs.n), implies(seen, okf(it)(S_(j))), implies(seen, cmp('<=', MN.f['value'], lo.f['value'])), implies(seen, cmp('>=', MX.f['value'], hi.f['value']))]
        for M, f, e in ((MN, lo_, DBL_MAX), (MX, hi_, -DBL_MAX)):
            x = M.f['segment_idx']
            out.append(lor(land(i == 0, cmp('==', M.f['value'], e)), land(cmp('>=', x, 0), cmp('<', x, i), attained(it, M, f, S_(x)))))
        return out

    out = []
    for grp in ([[1, 2, 3, 4], [5, 6], [7], [8], [9], [10]] if tier == 'quick' else [[n] for n in range(1, 23)]):
        out.append(Task('candidate times (%s coefficients)' % ','.join(map(str, grp)), t_times(grp), [SEG + '::computeMinMaxMagnitudeCandidateTimes'],
                        overrides={POLY + '::getCoefficients': coef_contract, POLY + '::convolve': conv_contract, POLY + '::computeMinMaxCandidates': mm_contract, POLY + '::getRoots': roots_contract},
                        invariants={'computeMinMaxMagnitudeCandidateTimes': [('sum', inv_times)]}, bounded=[('at most 3 of 3 dimensions, at most 3 coefficients, one root', t_times([2, 3]))] , budget=100, unroll=12, bound_note='coefficient counts %s, every derivative' % grp))
    out.append(Task('derivative of the squared norm', t_half, [], exact=True, lemma=True))
    out.append(Task('candidates with magnitudes', t_cand, [SEG + '::computeMinMaxMagnitudeCandidates'], overrides={SEG + '::computeMinMaxMagnitudeCandidateTimes': times_contract, POLY + '::evaluate': ev_contract},
                    invariants={'computeMinMaxMagnitudeCandidates': [('magnitudes', inv_cand)]}, bounded=[('at most 2 candidates, 3 dimensions', t_cand)]))
    out.append(Task('selection of a segment', t_sel, [SEG + '::selectMinMaxMagnitudeFromCandidates'], invariants={'selectMinMaxMagnitudeFromCandidates': [('extrema', inv_sel)]}, bounded=[('at most 3 candidates', t_sel)]))
    out.append(Task('whole trajectory', t_traj, [TRAJ + '::computeMinMaxMagnitude'], overrides={SEG + '::computeMinMaxMagnitudeCandidates': cand_contract, SEG + '::selectMinMaxMagnitudeFromCandidates': sel_contract},
                    invariants={'computeMinMaxMagnitude': [('extrema', inv_traj)]}, bounded=[('at most 3 segments', t_traj)]))
    return out
