"""C07: Splitting and stacking dimensions preserves the path.

Contracts (any number of segments, dimensions and coefficients):
  Segment::getSegmentWithSingleDimension   refused iff the index does not exist; otherwise one dimension, the same polynomial,
                                           duration and coefficient count
  Trajectory::getTrajectoryWithSingleDimension   segment k is dimension d of segment k, with its duration
  Segment::getSegmentWithAppendedDimension  an empty operand gives the other; otherwise this segment's dimensions followed by the
                                           other's, duration the longer one, count the larger one, and polynomial d is the
                                           original stretched by (own duration / common duration) and padded with zeros
  Trajectory::getTrajectoryWithAppendedDimension   the same segment by segment, in order; empty operands give the other one
Stretching and padding of one polynomial enter through their contracts (C02).
"""
from ..spec import *
TUS = ['trajectory', 'segment', 'polynomial']
NATIVE = {'src': 'c07.cpp', 'with': ['$MAV/src/trajectory.cpp', '$MAV/src/segment.cpp', '$MAV/src/polynomial.cpp', '$MAV/src/vertex.cpp', '$MAV/src/motion_defines.cpp', '$MAV/src/rpoly/rpoly_ak1.cpp'], 'n': 3000}
ASSUMPTIONS = ['polynomials of a segment have the segment\'s coefficient count; the result object is not one of the operands; stacked trajectories have equally many segments']


def tasks(db, tier):
    s_single, s_app = find(db, SEG + '::getSegmentWithSingleDimension'), find(db, SEG + '::getSegmentWithAppendedDimension')
    t_single, t_app = find(db, TRAJ + '::getTrajectoryWithSingleDimension'), find(db, TRAJ + '::getTrajectoryWithAppendedDimension')
    tseg, tpoly = cls(SEG), cls(POLY)

    def seg(it, name, N=None, lo=0, hi=2):
        if bounded(it):
            N = it.choose(2) + 1 if N is None else N
            D = it.choose(hi - lo + 1) + lo
            ps = Seq(tpoly, 'vector', [poly(it, reals('%s.c%d_' % (name, d), N)) for d in range(D)])
            tmv = Fraction(it.choose(3))
        else:
            N = z3.Int(name + '.N')
            it.assume(z3.And(N >= 0, N < 1000))
            ps = it.fresh_named(vseq(tpoly), name + '.polynomials_')
            D = ps.n
            if lo:
                it.assume(D >= lo)
            tmv = z3.Real(name + '.time')
            it.assume(tmv >= 0)
        return SV(SEG, {'polynomials_': ps, 'time_': tmv, 'N_': N, 'D_': D})

    def allN(it, s):
        # every polynomial of the segment has N coefficients
        if bounded(it):
            return
        j = z3.Int('qi')
        ps = s.f['polynomials_']
        it.assume(z3.ForAll([j], implies(land(j >= 0, j < iv(ps.n)), cmp('==', it.elem(ps, j).f['N_'], s.f['N_'])), patterns=[z3.Select(ps.arr, j)]))

    def S(it, v):
        return sterm(it, tseg, v)

    def P(it, v):
        return sterm(it, tpoly, v)

    # ---- split a segment
    def t_ss(it):
        s = seg(it, 's')
        d = z3.Int('d') if not bounded(it) else it.choose(4) - 1
        if not bounded(it):
            it.assume(z3.And(d >= -2 ** 31, d < 2 ** 31))
        o = seg(it, 'o', N=1, hi=1)
        sl, ol = new(it, s), new(it, o)
        r = call(it, s_single, sl, [d, Ptr(ol)])
        valid = land(cmp('>=', d, 0), cmp('<', d, s.f['D_']))
        it.oblige('refused exactly when the dimension does not exist', cmp('==', bv(r), bv(valid)))
        it.oblige('the segment is unchanged', it.load(sl) is s)
        R = it.load(ol)
        if not it.branch(valid):
            return
        it.oblige('one dimension', land(cmp('==', R.f['D_'], 1), cmp('==', size(R.f['polynomials_']), 1)))
        it.oblige('coefficient count and duration are kept', land(cmp('==', R.f['N_'], s.f['N_']), cmp('==', R.f['time_'], s.f['time_'])))
        it.oblige('exactly that dimension\'s polynomial', P(it, it.elem(R.f['polynomials_'], 0)) == P(it, it.elem(s.f['polynomials_'], d)))

    # ---- trajectories
    def traj(it, name, lo=0, hi=2, **kw):
        if bounded(it):
            n = it.choose(hi - lo + 1) + lo
            N, D = it.choose(2) + 1, it.choose(2) + 1
            segs = Seq(tseg, 'vector', [seg(it, '%s.s%d' % (name, i), N=N, lo=D, hi=D) for i in range(n)])
            if not n:
                N, D = 0, 0
        else:
            segs = it.fresh_named(vseq(tseg), name + '.segments_')
            n = segs.n
            if lo:
                it.assume(n >= lo)
            D, N = z3.Int(name + '.D'), z3.Int(name + '.N')
            it.assume(z3.And(D >= 0, D < 1000, N >= 0, N < 1000))
            j = z3.Int('qi')
            g = it.elem(segs, j)
            it.assume(z3.ForAll([j], implies(land(j >= 0, j < iv(n)), land(cmp('==', g.f['D_'], D), cmp('==', size(g.f['polynomials_']), D), cmp('==', g.f['N_'], N))), patterns=[z3.Select(segs.arr, j)]))
        return SV(TRAJ, {'D_': D, 'N_': N, 'max_time_': z3.Real(name + '.max_time'), 'segments_': segs})

    def set_contract(it, func, this, args, node):
        # setSegments (C06)
        s = it.val(args[0])
        it.oblige('the trajectory gets at least one segment', cmp('>', size(s), 0), node)
        if not it.branch(cmp('>', size(s), 0)):
            raise PathEnd()
        f = it.elem(s, 0)
        it.events.append('set')
        it.store(this, SV(TRAJ, {'D_': f.f['D_'], 'N_': f.f['N_'], 'max_time_': z3.Real('sum'), 'segments_': s}))
        return None

    def t_ts(it):
        tr = traj(it, 't', lo=1)
        n = size(tr.f['segments_'])
        d = z3.Int('d') if not bounded(it) else it.choose(3)
        it.assume(land(cmp('>=', d, 0), cmp('<', d, tr.f['D_'])))
        it.ghost.update(tr=tr, d=d)
        tl = new(it, tr)
        R = call(it, t_single, tl, [d])
        it.oblige('the trajectory is unchanged', it.load(tl) is tr)
        it.oblige('the result is set from its segments', 'set' in it.events)
        it.oblige('one dimension', cmp('==', R.f['D_'], 1))
        it.oblige('coefficient count is kept', cmp('==', R.f['N_'], tr.f['N_']))
        it.oblige('number of segments', cmp('==', size(R.f['segments_']), n))
        j = arb(it, 'j0', n)
        split_goal(it, R.f['segments_'], tr.f['segments_'], j, d, True)

    def split_list(it, out, segs, j, d):
        g, s = it.elem(out, j), it.elem(segs, j)
        return [('durations are kept', cmp('==', g.f['time_'], s.f['time_'])),
                ('each segment has one dimension', land(cmp('==', g.f['D_'], 1), cmp('==', size(g.f['polynomials_']), 1), cmp('==', g.f['N_'], s.f['N_']))),
                ('each segment keeps exactly that dimension', P(it, it.elem(g.f['polynomials_'], 0)) == P(it, it.elem(s.f['polynomials_'], d)))]

    def split_goal(it, out, segs, j, d, ob):
        for nm, g in split_list(it, out, segs, j, d):
            it.oblige(nm, g)

    def inv_ts(L):
        it, G = L.it, L.it.ghost
        if 'd' not in G:
            return None
        k, j, out = iv(L.idx), z3.Int('j0'), L['segments']
        segs = G['tr'].f['segments_']
        r = [k >= 0, k <= iv(segs.n), cmp('==', size(out), k)]
        e0 = it.elem(out, z3.Int('z0'))
        r.append(implies(k > 0, land(cmp('==', it.elem(out, 0).f['D_'], 1), cmp('==', it.elem(out, 0).f['N_'], G['tr'].f['N_']))))
        return r + [implies(land(j >= 0, j < k), g) for _, g in split_list(it, out, segs, j, G['d'])]

    # ---- stack two segments
    def sc(it):
        s = it.S.sort(tpoly)
        return z3.Function('poly_stretched', s, z3.RealSort(), s)

    def pd(it):
        s = it.S.sort(tpoly)
        return z3.Function('poly_padded', s, z3.IntSort(), s)

    def scaled(it, p, f):
        # contract of scalePolynomialInTime: the polynomial t -> p(f t), same number of coefficients
        r = sc(it)(P(it, p), rv(f))
        it.assume(implies(cmp('==', f, 1), r == P(it, p)))
        v = sval(it, tpoly, r)
        it.assume(cmp('==', v.f['N_'], p.f['N_']))
        return v

    def padded(it, p, n):
        r = pd(it)(P(it, p), iv(n))
        it.assume(implies(cmp('==', n, p.f['N_']), r == P(it, p)))
        v = sval(it, tpoly, r)
        it.assume(cmp('==', v.f['N_'], n))
        return v

    def sc_contract(it, func, this, args, node):
        if bounded(it):
            return NotImplemented
        it.store(this, scaled(it, it.load(this), it.val(args[0])))
        return None

    def pad_contract(it, func, this, args, node):
        if bounded(it):
            return NotImplemented
        p, n, o = it.load(this), it.val(args[0]), it.val(args[1])
        if it.branch(cmp('<', n, p.f['N_'])):
            it.store(o.lv, p)
            return False
        it.store(o.lv, padded(it, p, n))
        return True

    def stacked_poly(it, a, b, i, T, N):
        """expected polynomial i of the stack of a and b"""
        def one(s, d):
            p = it.elem(s.f['polynomials_'], d)
            f = ite(cmp('==', T, 0), Fraction(1), rdiv(s.f['time_'], T)) if not (not is_sym(T) and T == 0) else Fraction(1)
            if bounded(it):
                c = list(p.f['coefficients_'].d)
                c = [mul(x, power(f, k)) for k, x in enumerate(c)]
                return c + [Fraction(0)] * (N - len(c))
            return P(it, padded(it, scaled(it, p, f), N))
        if isinstance(i, int):
            return one(a, i) if i < a.f['D_'] else one(b, i - a.f['D_'])
        return z3.If(bv(cmp('<', i, a.f['D_'])), one(a, i), one(b, sub(i, a.f['D_'])))

    def common(it, a, b):
        T = rmax(a.f['time_'], b.f['time_'])
        N = rmax(a.f['N_'], b.f['N_']) if not bounded(it) else max(a.f['N_'], b.f['N_'])
        return norm(T), norm(N)

    def t_sa(it, order=None):
        if bounded(it):
            a, b, o = seg(it, 'a'), seg(it, 'b'), seg(it, 'o', N=1, hi=0)
        else:
            a, b, o = seg(it, 'a'), seg(it, 'b'), seg(it, 'o')
            allN(it, a)
            allN(it, b)
        if order:
            it.assume(cmp(order, a.f['time_'], b.f['time_']))
        al, bl, ol = new(it, a), new(it, b), new(it, o)
        T, N = common(it, a, b)
        it.ghost.update(a=a, b=b, T=T, N=N, ol=ol)
        r = call(it, s_app, al, [bl, Ptr(ol)])
        R = it.load(ol)
        it.oblige('the operands are unchanged', it.load(al) is a and it.load(bl) is b)
        it.oblige('stacking succeeds', r)
        ea = lor(cmp('==', a.f['N_'], 0), cmp('==', a.f['D_'], 0))
        eb = lor(cmp('==', b.f['N_'], 0), cmp('==', b.f['D_'], 0))
        if it.branch(ea):
            it.oblige('stacking onto an empty segment gives the other', S(it, R) == S(it, b))
            return
        if it.branch(eb):
            it.oblige('stacking an empty segment gives this one', S(it, R) == S(it, a))
            return
        D = add(a.f['D_'], b.f['D_'])
        it.oblige('dimensions of both', land(cmp('==', R.f['D_'], D), cmp('==', size(R.f['polynomials_']), D)))
        it.oblige('the larger coefficient count', cmp('==', R.f['N_'], N))
        it.oblige('the longer duration', cmp('==', R.f['time_'], T))
        i = arb(it, 'i0', D)
        got = it.elem(R.f['polynomials_'], i)
        want = stacked_poly(it, a, b, i, T, N)
        if bounded(it):
            eq_list(it, 'each original keeps its shape, stretched and padded', items(got.f['coefficients_']), want)
        else:
            it.oblige('each original keeps its shape, stretched and padded', P(it, got) == want)

    def inv_sa(L):
        it, G = L.it, L.it.ghost
        if 'ol' not in G:
            return None
        a, b, T, N = G['a'], G['b'], G['T'], G['N']
        k, i0 = iv(L.idx), z3.Int('i0')
        for nm in ('current_segment', 'segment_to_append_temp'):
            L[nm]
        R = it.load(G['ol'])
        q = z3.Int('qi')
        out = []
        if L.has('i') and L.has('new_segment'):        # the loops that fill the result
            D = add(a.f['D_'], b.f['D_'])
            ps = R.f['polynomials_']
            out += [k >= 0, cmp('==', size(ps), D), cmp('==', R.f['D_'], D), cmp('==', R.f['N_'], N),
                    implies(land(i0 >= 0, i0 < k, i0 < iv(D)), P(it, it.elem(ps, i0)) == stacked_poly(it, a, b, i0, T, N))]
        else:
            for nm, s in (('current_segment', a), ('segment_to_append_temp', b)):
                c = L[nm]
                f = rdiv(s.f['time_'], T)
                ps, p0 = c.f['polynomials_'], s.f['polynomials_']
                for x in (i0, sub(i0, a.f['D_'])):
                    done = land(x >= 0, x < k, x < iv(p0.n))
                    out.append(implies(done, P(it, it.elem(ps, x)) == P(it, scaled(it, it.elem(p0, x), f))))
                    out.append(implies(land(x >= k, x >= 0, x < iv(p0.n)), P(it, it.elem(ps, x)) == P(it, it.elem(p0, x))))
                out += [cmp('==', size(ps), size(p0)), cmp('==', c.f['D_'], s.f['D_']), cmp('==', c.f['N_'], s.f['N_']), cmp('==', c.f['time_'], s.f['time_'])]
                pn = lambda p: it.elem(p, q).f['N_']
                out.append(z3.ForAll([q], implies(land(q >= k, q < iv(p0.n)), P(it, it.elem(ps, q)) == P(it, it.elem(p0, q)))))
                out.append(z3.ForAll([q], implies(land(q >= 0, q < iv(p0.n)), cmp('==', pn(ps), s.f['N_']))))
            out += [k >= 0]
        return out

    # ---- stack two trajectories
    def ap(it):
        s = it.S.sort(tseg)
        return z3.Function('segment_stacked', s, s, s)

    def app_contract(it, func, this, args, node):
        # contract of Segment::getSegmentWithAppendedDimension (proved above)
        if bounded(it):
            return NotImplemented
        a, b, o = it.load(this), it.val(args[0]), it.val(args[1])
        v = sval(it, tseg, ap(it)(S(it, a), S(it, b)))
        it.store(o.lv, v)
        return True

    def t_ta(it):
        if bounded(it):
            # shapes that differ in every respect the code distinguishes
            a = traj(it, 'a', hi=1)
            b = traj(it, 'b', hi=1)
            o = SV(TRAJ, {'D_': 0, 'N_': 0, 'max_time_': Fraction(0), 'segments_': Seq(tseg, 'vector', [])})
        else:
            a, b, o = traj(it, 'a'), traj(it, 'b'), traj(it, 'o')
        al, bl, ol = new(it, a), new(it, b), new(it, o)
        ea = lor(cmp('==', a.f['N_'], 0), cmp('==', a.f['D_'], 0))
        eb = lor(cmp('==', b.f['N_'], 0), cmp('==', b.f['D_'], 0))
        sa, sb = a.f['segments_'], b.f['segments_']
        it.assume(lor(ea, eb, land(cmp('==', size(sa), size(sb)), cmp('>', size(sa), 0))))
        it.ghost.update(sa=sa, sb=sb)
        r = call(it, t_app, al, [bl, Ptr(ol)])
        R = it.load(ol)
        tt = cls(TRAJ)
        it.oblige('the operands are unchanged', it.load(al) is a and it.load(bl) is b)
        it.oblige('stacking succeeds', r)
        if it.branch(ea):
            it.oblige('stacking onto an empty trajectory gives the other', sterm(it, tt, R) == sterm(it, tt, b))
            return
        if it.branch(eb):
            it.oblige('stacking an empty trajectory gives this one', sterm(it, tt, R) == sterm(it, tt, a))
            return
        it.oblige('the result is set from its segments', 'set' in it.events)
        it.oblige('number of segments', cmp('==', size(R.f['segments_']), size(sa)))
        j = arb(it, 'j0', size(sa))
        g = it.elem(R.f['segments_'], j)
        if bounded(it):
            x, y = it.elem(sa, j), it.elem(sb, j)
            T, N = common(it, x, y)
            D = x.f['D_'] + y.f['D_']
            it.oblige('segment shape', land(cmp('==', g.f['D_'], D), cmp('==', g.f['N_'], N), cmp('==', g.f['time_'], T)))
            for d in range(D):
                eq_list(it, 'segments are stacked in order', items(it.elem(g.f['polynomials_'], d).f['coefficients_']), stacked_poly(it, x, y, d, T, N))
        else:
            it.oblige('segments are stacked in order', S(it, g) == ap(it)(S(it, it.elem(sa, j)), S(it, it.elem(sb, j))))

    def inv_ta(L):
        it, G = L.it, L.it.ghost
        if 'sb' not in G:
            return None
        k, j, out = iv(L.idx), z3.Int('j0'), L['segments']
        return [k >= 0, k <= iv(G['sa'].n), cmp('==', size(out), k),
                implies(land(j >= 0, j < k), S(it, it.elem(out, j)) == ap(it)(S(it, it.elem(G['sa'], j)), S(it, it.elem(G['sb'], j))))]

    pc = {POLY + '::scalePolynomialInTime': sc_contract, POLY + '::getPolynomialWithAppendedCoefficients': pad_contract}
    B = 'at most 2 segments, dimensions and coefficients'
    mk = lambda nm, run, fs, **kw: Task(nm, run, fs, bounded=[(B, run)], **kw)
    return [mk('split a segment', t_ss, [SEG + '::getSegmentWithSingleDimension']),
            mk('split a trajectory', t_ts, [TRAJ + '::getTrajectoryWithSingleDimension'], overrides={TRAJ + '::setSegments': set_contract}, invariants={'getTrajectoryWithSingleDimension': [('split', inv_ts)]}),
            *[mk('stack segments (%s)' % nm, lambda it, o=o: t_sa(it, o), [SEG + '::getSegmentWithAppendedDimension'], overrides=pc, invariants={'getSegmentWithAppendedDimension': [('stack', inv_sa)]}, budget=120, unroll=8) for nm, o in (('first longer', '>'), ('second longer', '<'), ('equally long', '=='))],
            mk('stack trajectories', t_ta, [TRAJ + '::getTrajectoryWithAppendedDimension'], overrides={TRAJ + '::setSegments': set_contract, SEG + '::getSegmentWithAppendedDimension': app_contract, **pc},
               invariants={'getTrajectoryWithAppendedDimension': [('stack', inv_ta)]}, unroll=8)]
