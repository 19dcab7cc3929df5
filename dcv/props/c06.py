"""C06: Trajectory bookkeeping: duration, sizes and segment order stay consistent.

Contracts (any number of segments, trajectories and dimensions; T(i) = sum of the first i given segment times):
  setSegments / addSegments   segments are the old ones (none for set) followed by the given ones in order; duration is the old
                              one (0 for set) plus T(n); dimension and coefficient count are those of the segments
  addTrajectories             true iff every trajectory has this dimension and coefficient count; then the merged segments are
                              this trajectory's followed by each one's in order, duration the sum; operands unchanged
  offsetSegment               refused iff the vector is shorter than min(D,3) (nothing changed); otherwise coefficient 0 of the
                              first min(D,3) polynomials grows by the offset and nothing else changes
  offsetTrajectory            refused iff the vector is shorter than min(D,3); otherwise every segment is offset, duration kept
  getSegmentTimes, clear, size, emptiness and accessor functions reflect exactly the segments
  operator==                  segment: dimension, time and every polynomial equal; trajectory: same count and equal segments
"""
from ..spec import *
TUS = ['trajectory', 'segment', 'polynomial']
NATIVE = {'src': 'c06.cpp', 'with': ['$MAV/src/trajectory.cpp', '$MAV/src/segment.cpp', '$MAV/src/polynomial.cpp', '$MAV/src/vertex.cpp', '$MAV/src/motion_defines.cpp', '$MAV/src/rpoly/rpoly_ak1.cpp'], 'n': 3000}
ASSUMPTIONS = ['the list of segments handed in is not the trajectory\'s own, and the merged trajectory is not one of the operands', 'comparison of two std::vector is element-wise comparison']


def tasks(db, tier):
    add_s, set_s = find(db, TRAJ + '::addSegments'), find(db, TRAJ + '::setSegments')
    add_t = find(db, TRAJ + '::addTrajectories')
    times_f = find(db, TRAJ + '::getSegmentTimes')
    off_s, off_t = find(db, SEG + '::offsetSegment'), find(db, TRAJ + '::offsetTrajectory')
    eq_s, eq_t = find(db, SEG + '::operator=='), find(db, TRAJ + '::operator==')
    ne_s, ne_t = find(db, SEG + '::operator!='), find(db, TRAJ + '::operator!=')
    T = uf('T', 'i', 'r')
    tseg = cls(SEG)

    def traj(it, name, lo=0, hi=2):
        segs = seq_of(it, tseg, name + '.segments_', hi=hi, lo=lo)
        D, N, mt = z3.Int(name + '.D'), z3.Int(name + '.N'), z3.Real(name + '.max_time')
        it.assume(z3.And(D >= 0, D < 1000, N >= 0, N < 1000))
        return SV(TRAJ, {'D_': D, 'N_': N, 'max_time_': mt, 'segments_': segs})

    def tm(it, segs, i):
        return it.elem(segs, i).f['time_']

    def sums(it, segs):
        s = [Fraction(0)]
        for i in range(size(segs)):
            s.append(add(s[-1], tm(it, segs, i)))
        return s

    def uniform(it, segs, D, N, at):
        # every given segment has dimension D and N coefficients
        for i in at:
            it.assume(implies(land(cmp('>=', i, 0), cmp('<', i, size(segs))), land(cmp('==', it.elem(segs, i).f['D_'], D), cmp('==', it.elem(segs, i).f['N_'], N))))

    def eqseg(it, a, b):
        return sterm(it, tseg, a) == sterm(it, tseg, b)

    # ---- set / add
    def t_add(isset):
        def run(it):
            old = traj(it, 'old', hi=1)
            given = seq_of(it, tseg, 'given', hi=2, lo=1 if isset else 0)
            n = size(given)
            if isset:
                D, N = it.elem(given, 0).f['D_'], it.elem(given, 0).f['N_']
            else:
                D, N = old.f['D_'], old.f['N_']
            if bounded(it):
                uniform(it, given, D, N, range(n))
                total = sums(it, given)[n]
            else:
                it.assume(T(0) == 0)
                it.assume(implies(iv(n) > 0, T(1) == T(0) + rv(tm(it, given, 0))))
                j = z3.Int('qi')
                g = it.elem(given, j)
                it.assume(z3.ForAll([j], implies(land(j >= 0, j < iv(n)), land(cmp('==', g.f['D_'], D), cmp('==', g.f['N_'], N))), patterns=[z3.Select(given.arr, j)]))
                total = T(iv(n))
                it.ghost.update(given=given, base=Fraction(0) if isset else old.f['max_time_'])
            tr = new(it, old)
            gl = new(it, given, vseq(tseg))
            it.ghost['tr'] = tr
            call(it, set_s if isset else add_s, tr, [gl])
            R = it.load(tr)
            nold = 0 if isset else size(old.f['segments_'])
            it.oblige('dimension is that of the segments', cmp('==', R.f['D_'], D))
            it.oblige('coefficient count is that of the segments', cmp('==', R.f['N_'], N))
            it.oblige('duration is the sum of the segment times', cmp('==', R.f['max_time_'], add(Fraction(0) if isset else old.f['max_time_'], total)))
            S = R.f['segments_']
            it.oblige('number of segments', cmp('==', size(S), add(nold, n)))
            if not (isinstance(size(S), int) and isinstance(n, int) and size(S) != add(nold, n)):
                for j in (range(n) if bounded(it) else [z3.Int('j0')]):
                    it.oblige('the given segments follow in order', implies(land(cmp('>=', j, 0), cmp('<', j, n)), eqseg(it, it.elem(S, add(nold, j)), it.elem(given, j))))
                if not isset:
                    for j in (range(nold) if bounded(it) else [z3.Int('j1')]):
                        it.oblige('earlier segments stay in place', implies(land(cmp('>=', j, 0), cmp('<', j, nold)), eqseg(it, it.elem(S, j), it.elem(old.f['segments_'], j))))
            it.oblige('the given list is unchanged', it.load(gl) is given)
        return run

    def inv_add(L):
        it, G = L.it, L.it.ghost
        if 'given' not in G:
            return None
        k = iv(L.idx)
        it.assume(T(k + 1) == T(k) + rv(tm(it, G['given'], k)))
        return [k >= 0, k <= iv(size(G['given'])), cmp('==', L.this.f['max_time_'], add(G['base'], T(k)))]

    # ---- merge
    def t_merge(it):
        me = traj(it, 'this', hi=1)
        tt = cls(TRAJ)
        if bounded(it):
            m = it.choose(3)
            L = [traj(it, 'operand%d' % i, hi=1) for i in range(m)]
            lst = Seq(tt, 'vector', L)
        else:
            lst = it.fresh_named(vseq(tt), 'operands')
            m = lst.n
        merged0 = traj(it, 'merged', hi=1)
        mel, ll, mg = new(it, me), new(it, lst, vseq(tt)), new(it, merged0)
        same_shape = lambda x: land(cmp('==', x.f['D_'], me.f['D_']), cmp('==', x.f['N_'], me.f['N_']))
        if not bounded(it):
            O, M = uf('O', 'i', 'i'), uf('M', 'i', 'r')
            q = z3.Int('q0')
            it.assume(z3.And(q >= 0, O(0) == iv(size(me.f['segments_'])), M(0) == rv(me.f['max_time_'])))
            e0 = it.elem(lst, 0)
            it.assume(implies(iv(m) > 0, land(O(1) == O(0) + iv(size(e0.f['segments_'])), M(1) == M(0) + rv(e0.f['max_time_']))))
            eq = it.elem(lst, q)
            it.assume(z3.And(iv(size(eq.f['segments_'])) >= 0, O(q + 1) == O(q) + iv(size(eq.f['segments_'])), O(q) >= iv(size(me.f['segments_']))))
            it.ghost.update(me=me, lst=lst, q=q, mg=mg, O=O, M=M)
        r = call(it, add_t, mel, [ll, Ptr(mg)])
        allsame = land(*[same_shape(it.elem(lst, i)) for i in range(m)]) if bounded(it) else None
        if bounded(it):
            it.oblige('refused exactly when a dimension or coefficient count differs', cmp('==', r, allsame))
        else:
            q = z3.Int('q0')
            it.oblige('accepted only when all dimensions and counts agree', implies(land(r, q < iv(m)), same_shape(it.elem(lst, q))))
            it.oblige('refused only when one differs', implies(lnot(r), exists(it, m, lambda j: lnot(same_shape(it.elem(lst, j))))))
        it.oblige('this trajectory is unchanged', it.load(mel) is me)
        it.oblige('the operands are unchanged', it.load(ll) is lst)
        if not it.branch(r):
            return
        R = it.load(mg)
        it.oblige('dimension and count are kept', land(cmp('==', R.f['D_'], me.f['D_']), cmp('==', R.f['N_'], me.f['N_'])))
        S = R.f['segments_']
        if bounded(it):
            want = list(me.f['segments_'].items)
            dur = me.f['max_time_']
            for i in range(m):
                want += list(lst.items[i].f['segments_'].items)
                dur = add(dur, lst.items[i].f['max_time_'])
            it.oblige('duration is the sum of the durations', cmp('==', R.f['max_time_'], dur))
            it.oblige('number of merged segments', cmp('==', size(S), len(want)))
            if size(S) == len(want):
                for j, w in enumerate(want):
                    it.oblige('merged segments in order', eqseg(it, it.elem(S, j), w))
            return
        it.oblige('duration is the sum of the durations', cmp('==', R.f['max_time_'], M(iv(m))))
        it.oblige('number of merged segments', cmp('==', size(S), O(iv(m))))
        j = z3.Int('j0')
        n0 = iv(size(me.f['segments_']))
        it.oblige('this trajectory\'s segments come first', implies(land(j >= 0, j < n0), eqseg(it, it.elem(S, j), it.elem(me.f['segments_'], j))))
        sq = it.elem(lst, q).f['segments_']
        it.oblige('each operand\'s segments follow in order', implies(land(q < iv(m), j >= 0, j < iv(size(sq))), eqseg(it, it.elem(S, O(q) + j), it.elem(sq, j))))

    def add_contract(it, func, this, args, node):
        # contract of addSegments: proved above
        t, s = it.load(this), it.val(args[0])
        from ..models import seq_append
        a = t.f['segments_']
        if a.conc and s.conc:
            S = Seq(a.et, a.kind, a.items + s.items)
            tot = Fraction(0)
            for x in s.items:
                it.oblige('appended segments have the trajectory\'s shape', land(cmp('==', x.f['D_'], t.f['D_']), cmp('==', x.f['N_'], t.f['N_'])), node)
                tot = add(tot, x.f['time_'])
            it.store(this, t.with_('segments_', S).with_('max_time_', add(t.f['max_time_'], tot)))
        else:
            S = seq_append(it, a, s, 0, s.n)
            k = iv(L_index(it))
            it.store(this, t.with_('segments_', S).with_('max_time_', add(t.f['max_time_'], it.elem(it.ghost['lst'], k).f['max_time_'])))
        return None

    def L_index(it):
        return it.ghost['cur']()

    def inv_merge(L):
        it, G = L.it, L.it.ghost
        if 'mg' not in G:
            return None
        me, lst, q, O, M = G['me'], G['lst'], G['q'], G['O'], G['M']
        k = iv(L.idx)
        if L.extra:
            kk = L.extra['k']
            it.ghost['cur'] = lambda: kk()
        else:
            it.ghost['cur'] = lambda: L.idx
        e = it.elem(lst, k)
        # class invariant of each operand: duration is the sum of its segment times (M grows by it), sizes are not negative
        it.assume(land(iv(size(e.f['segments_'])) >= 0, O(k + 1) == O(k) + iv(size(e.f['segments_'])), M(k + 1) == M(k) + rv(e.f['max_time_'])))
        R = it.load(G['mg'])
        S = R.f['segments_']
        j = z3.Int('j0')
        n0 = iv(size(me.f['segments_']))
        sq = it.elem(lst, q).f['segments_']
        same_shape = land(cmp('==', it.elem(lst, q).f['D_'], me.f['D_']), cmp('==', it.elem(lst, q).f['N_'], me.f['N_']))
        return [k >= 0, k <= iv(lst.n), cmp('==', R.f['max_time_'], M(k)), iv(size(S)) == O(k), O(k) >= n0,
                cmp('==', R.f['D_'], me.f['D_']), cmp('==', R.f['N_'], me.f['N_']), implies(q < k, same_shape), implies(q < k, O(q + 1) <= O(k)), implies(q == k, O(q) == O(k)),
                implies(land(j >= 0, j < n0), eqseg(it, it.elem(S, j), it.elem(me.f['segments_'], j))),
                implies(land(q < k, j >= 0, j < iv(size(sq))), eqseg(it, it.elem(S, O(q) + j), it.elem(sq, j)))]

    # ---- segment times
    def t_times(it):
        tr = traj(it, 't', hi=3)
        tl = new(it, tr)
        it.ghost['segs'] = tr.f['segments_']
        r = call(it, times_f, tl, [])
        it.oblige('one time per segment', cmp('==', size(r), size(tr.f['segments_'])))
        j = arb(it, 'j0', size(tr.f['segments_']))
        it.oblige('time of each segment', cmp('==', it.elem(r, j), tm(it, tr.f['segments_'], j)))
        it.oblige('trajectory unchanged', it.load(tl) is tr)

    def inv_times(L):
        it, G = L.it, L.it.ghost
        if 'segs' not in G:
            return None
        i, j, r = iv(L.idx), z3.Int('j0'), L['segment_times']
        return [i >= 0, cmp('==', size(r), size(G['segs'])), implies(land(j >= 0, j < i), cmp('==', it.elem(r, j), tm(it, G['segs'], j)))]

    # ---- accessors
    def t_acc(it):
        tr = traj(it, 't', hi=2)
        n = size(tr.f['segments_'])
        tl = new(it, tr)
        g = lambda nm, *a: call(it, find(db, TRAJ + '::' + nm), tl, list(a))
        it.oblige('D', cmp('==', g('D'), tr.f['D_']))
        it.oblige('N', cmp('==', g('N'), tr.f['N_']))
        it.oblige('K', cmp('==', g('K'), n))
        it.oblige('empty', cmp('==', bv(g('empty')), bv(cmp('==', n, 0))) if is_sym(n) else g('empty') == (n == 0))
        it.oblige('earliest time', cmp('==', g('getMinTime'), 0))
        it.oblige('duration', cmp('==', g('getMaxTime'), tr.f['max_time_']))
        out = new(it, seq_of(it, tseg, 'out', hi=1), vseq(tseg))
        g('getSegments', Ptr(out))
        sg = lambda v: sterm(it, vseq(tseg), v)
        it.oblige('copy of the segments', sg(it.load(out)) == sg(tr.f['segments_']))
        it.oblige('segments', sg(g('segments')) == sg(tr.f['segments_']))
        it.oblige('reading changes nothing', it.load(tl) is tr)
        g('clear')
        R = it.load(tl)
        it.oblige('cleared', land(cmp('==', size(R.f['segments_']), 0), cmp('==', R.f['D_'], 0), cmp('==', R.f['N_'], 0), cmp('==', R.f['max_time_'], 0)))
        s = it.fresh_named(tseg, 'segment')
        sl = new(it, s)
        h = lambda nm, *a: call(it, find(db, SEG + '::' + nm), sl, list(a))
        it.oblige('segment dimension', cmp('==', h('D'), s.f['D_']))
        it.oblige('segment coefficient count', cmp('==', h('N'), s.f['N_']))
        it.oblige('segment time', cmp('==', h('getTime'), s.f['time_']))
        x = z3.Real('x')
        h('setTime', x)
        it.oblige('segment time set', cmp('==', it.load(sl).f['time_'], x))
        it.oblige('only the time is set', sterm(it, tseg, it.load(sl).with_('time_', s.f['time_'])) == sterm(it, tseg, s))
        t0 = it.construct(TRAJ, [], None)
        t0 = it.val(t0)
        it.oblige('a new trajectory is empty', land(cmp('==', size(t0.f['segments_']), 0), cmp('==', t0.f['D_'], 0), cmp('==', t0.f['N_'], 0), cmp('==', t0.f['max_time_'], 0)))

    # ---- offset
    def t_offs(it):
        polys = seq_of(it, cls(POLY), 'poly', hi=4)
        D = size(polys)
        if bounded(it):
            for p in polys.items:
                pass
        s = SV(SEG, {'polynomials_': polys, 'time_': z3.Real('time'), 'N_': z3.Int('N'), 'D_': D})
        v = seq_of(it, REAL, 'offset', 'eig', hi=4) if bounded(it) else it.fresh_named(EV, 'offset')
        sl = new(it, s)
        r = call(it, off_s, sl, [new(it, v, EV)])
        short = cmp('<', size(v), rmin(D, 3))
        it.oblige('refused exactly when the vector is too short', cmp('==', bv(r), bv(lnot(short))))
        R = it.load(sl)
        it.oblige('time, dimension and count are kept', land(cmp('==', R.f['time_'], s.f['time_']), cmp('==', R.f['D_'], D), cmp('==', R.f['N_'], s.f['N_']), cmp('==', size(R.f['polynomials_']), D)))
        for d in (range(D) if bounded(it) else [z3.Int('d0')]):
            inr = land(cmp('>=', d, 0), cmp('<', d, D))
            new_, old = it.elem(R.f['polynomials_'], d), it.elem(polys, d)
            moved = land(inr, cmp('<', d, 3), lnot(short))
            shifted = poly_off(it)(sterm(it, cls(POLY), old), rv(it.elem(v, d))) if not (isinstance(size(v), int) and isinstance(d, int) and d >= size(v)) else None
            if shifted is not None:
                it.oblige('the first three dimensions move by the offset', implies(moved, sterm(it, cls(POLY), new_) == shifted))
            it.oblige('nothing else moves', implies(land(inr, lnot(moved)), sterm(it, cls(POLY), new_) == sterm(it, cls(POLY), old)))

    def poly_off(it):
        s = it.S.sort(cls(POLY))
        return z3.Function('poly_offset', s, z3.RealSort(), s)

    def poly_contract(it, func, this, args, node):
        # C02: offsetting adds to coefficient 0 and changes nothing else
        it.store(this, sval(it, cls(POLY), poly_off(it)(sterm(it, cls(POLY), it.load(this)), rv(it.val(args[0])))))
        return None

    def seg_off(it):
        s = it.S.sort(tseg)
        return z3.Function('segment_offset', s, it.S.sort(EV), s)

    def segoff_contract(it, func, this, args, node):
        # contract of offsetSegment: proved above
        s, v = it.load(this), it.val(args[0])
        short = cmp('<', size(v), rmin(s.f['D_'], 3))
        if it.branch(short):
            return False
        it.store(this, sval(it, tseg, seg_off(it)(sterm(it, tseg, s), sterm(it, EV, v))))
        return True

    def t_offt(it):
        tr = traj(it, 't', hi=2)
        segs = tr.f['segments_']
        n = size(segs)
        v = seq_of(it, REAL, 'offset', 'eig', hi=3) if bounded(it) else it.fresh_named(EV, 'offset')
        if bounded(it):
            uniform(it, segs, tr.f['D_'], tr.f['N_'], range(n))
        else:
            j = z3.Int('qi')
            g = it.elem(segs, j)
            it.assume(z3.ForAll([j], implies(land(j >= 0, j < iv(n)), land(cmp('==', g.f['D_'], tr.f['D_']), cmp('==', g.f['N_'], tr.f['N_']))), patterns=[z3.Select(segs.arr, j)]))
            it.ghost.update(segs=segs, v=v)
        tl = new(it, tr)
        it.ghost['tl'] = tl
        r = call(it, off_t, tl, [new(it, v, EV)])
        R = it.load(tl)
        short = cmp('<', size(v), rmin(tr.f['D_'], 3))
        it.oblige('refused exactly when the vector is too short', cmp('==', bv(r), bv(lnot(short))))
        it.oblige('duration, sizes and count are kept', land(cmp('==', R.f['max_time_'], tr.f['max_time_']), cmp('==', R.f['D_'], tr.f['D_']), cmp('==', R.f['N_'], tr.f['N_']), cmp('==', size(R.f['segments_']), n)))
        for j in (range(n) if bounded(it) else [z3.Int('j0')]):
            inr = land(cmp('>=', j, 0), cmp('<', j, n))
            a, b = it.elem(R.f['segments_'], j), it.elem(segs, j)
            it.oblige('every segment is offset', implies(land(inr, lnot(short)), sterm(it, tseg, a) == seg_off(it)(sterm(it, tseg, b), sterm(it, EV, v))))
            it.oblige('a refusal changes nothing', implies(land(inr, short), eqseg(it, a, b)))

    def inv_offt(L):
        it, G = L.it, L.it.ghost
        if 'v' not in G:
            return None
        k, j = iv(L.idx), z3.Int('j0')
        S, segs = L.this.f['segments_'], G['segs']
        new_ = sterm(it, tseg, it.elem(S, j))
        n = iv(size(segs))
        if not S.conc:
            # what is not yet visited is untouched, at the current index and at the arbitrary one
            x = [implies(land(k >= 0, k < n), z3.Select(S.arr, k) == z3.Select(segs.arr, k))]
        else:
            x = [True]
        q = z3.Int('qi')
        return [k >= 0, k <= n, iv(size(S)) == n, z3.ForAll([q], implies(land(q >= k, q < n), z3.Select(S.arr, q) == z3.Select(segs.arr, q))),
                implies(land(j >= 0, j < k), new_ == seg_off(it)(sterm(it, tseg, it.elem(segs, j)), sterm(it, EV, G['v'])))] + x

    # ---- equality
    def peq(it):
        s = it.S.sort(cls(POLY))
        return z3.Function('poly_equal', s, s, z3.BoolSort())

    def peq_contract(it, func, this, args, node):
        return peq(it)(sterm(it, cls(POLY), it.load(this)), sterm(it, cls(POLY), it.val(args[0])))

    def t_eqs(neg):
        def run(it):
            a, b = seq_of(it, cls(POLY), 'pa', hi=2), seq_of(it, cls(POLY), 'pb', hi=2)
            A = SV(SEG, {'polynomials_': a, 'time_': z3.Real('ta'), 'N_': z3.Int('Na'), 'D_': size(a)})
            B = SV(SEG, {'polynomials_': b, 'time_': z3.Real('tb'), 'N_': z3.Int('Nb'), 'D_': size(b)})
            it.ghost.update(a=a, b=b)
            r = call(it, ne_s if neg else eq_s, new(it, A), [new(it, B)])
            if neg:
                r = lnot(r)
            head = land(cmp('==', size(a), size(b)), cmp('==', A.f['time_'], B.f['time_']))
            P = lambda d: peq(it)(sterm(it, cls(POLY), it.elem(a, d)), sterm(it, cls(POLY), it.elem(b, d)))
            if bounded(it):
                it.oblige('equal exactly when dimension, time and polynomials are', cmp('==', bv(r), bv(land(head, *[P(d) for d in range(min(size(a), size(b)))]))))
                return
            d = z3.Int('d0')
            it.oblige('equal segments have equal dimension and time', implies(r, head))
            it.oblige('equal segments have equal polynomials', implies(land(r, d >= 0, d < iv(size(a))), P(d)))
            it.oblige('segments differ only by dimension, time or a polynomial', implies(lnot(r), lor(lnot(head), exists(it, size(a), lambda j: lnot(P(j))))))
        return run

    def inv_eqs(L):
        it, G = L.it, L.it.ghost
        if 'a' not in G:
            return None
        i, d = iv(L.idx), z3.Int('d0')
        P = lambda d: peq(it)(sterm(it, cls(POLY), it.elem(G['a'], d)), sterm(it, cls(POLY), it.elem(G['b'], d)))
        return [i >= 0, i <= iv(size(G['a'])), implies(land(d >= 0, d < i), P(d))]

    def seq_fn(it):
        s = it.S.sort(tseg)
        return z3.Function('segment_equal', s, s, z3.BoolSort())

    def seg_eq_contract(it, func, this, args, node):
        r = seq_fn(it)(sterm(it, tseg, it.load(this)), sterm(it, tseg, it.val(args[0])))
        return lnot(r) if func.name == 'operator!=' else r

    def vec_eq(it, n, a, b, xs):
        # std::vector comparison: same length and pairwise operator==
        if bounded(it) or a.conc or b.conc:
            if a.conc and b.conc and bounded(it):
                if len(a.items) != len(b.items):
                    return False
                return land(*[seq_fn(it)(sterm(it, tseg, x), sterm(it, tseg, y)) for x, y in zip(a.items, b.items)])
            return None
        r = it.fresh(('bool',), 'veq')
        E = lambda j: seq_fn(it)(sterm(it, tseg, it.elem(a, j)), sterm(it, tseg, it.elem(b, j)))
        j = z3.Int('j0')
        it.assume(implies(r, land(iv(a.n) == iv(b.n), implies(land(j >= 0, j < iv(a.n)), E(j)))))
        it.assume(implies(lnot(r), lor(iv(a.n) != iv(b.n), exists(it, a.n, lambda q: lnot(E(q))))))
        return r

    def t_eqt(neg):
        def run(it):
            A, B = traj(it, 'a', hi=2), traj(it, 'b', hi=2)
            a, b = A.f['segments_'], B.f['segments_']
            r = call(it, ne_t if neg else eq_t, new(it, A), [new(it, B)])
            if neg:
                r = lnot(r)
            E = lambda j: seq_fn(it)(sterm(it, tseg, it.elem(a, j)), sterm(it, tseg, it.elem(b, j)))
            if bounded(it):
                want = land(size(a) == size(b), *[E(d) for d in range(min(size(a), size(b)))])
                it.oblige('equal exactly when the segments are', cmp('==', bv(r), bv(want)))
                return
            j = z3.Int('j0')
            it.oblige('equal trajectories have equally many segments', implies(r, iv(size(a)) == iv(size(b))))
            it.oblige('equal trajectories have equal segments', implies(land(r, j >= 0, j < iv(size(a))), E(j)))
            it.oblige('trajectories differ only by a segment', implies(lnot(r), lor(iv(size(a)) != iv(size(b)), exists(it, size(a), lambda q: lnot(E(q))))))
        return run

    def inv_eqt(L):
        it = L.it
        i = iv(L.idx)
        a, b = L.this.f['segments_'], L['rhs'].f['segments_']
        E = lambda j: seq_fn(it)(sterm(it, tseg, it.elem(a, j)), sterm(it, tseg, it.elem(b, j)))
        j = z3.Int('j0')
        return [i >= 0, i <= iv(size(a)), implies(i > 0, implies(land(j >= 0, j < iv(size(a))), E(j))), implies(land(j >= 0, j < i), E(j))]

    q = TRAJ + '::'
    B2 = 'at most 2 segments and operands'
    poff = {POLY + '::offsetPolynomial': poly_contract}
    soff = {SEG + '::offsetSegment': segoff_contract}
    seqo = {SEG + '::operator==': seg_eq_contract, SEG + '::operator!=': seg_eq_contract}
    mk = lambda nm, run, fs, **kw: Task(nm, run, fs, bounded=[(B2, run)], **kw)
    return [mk('set segments', t_add(True), [q + 'setSegments', q + 'addSegments'], invariants={'addSegments': [('sum', inv_add)]}),
            mk('add segments', t_add(False), [q + 'addSegments'], invariants={'addSegments': [('sum', inv_add)]}),
            mk('merge', t_merge, [q + 'addTrajectories'], invariants={'addTrajectories': [('merge', inv_merge)]}, overrides={q + 'addSegments': add_contract}, unroll=6),
            mk('segment times', t_times, [q + 'getSegmentTimes'], invariants={'getSegmentTimes': [('times', inv_times)]}),
            mk('accessors', t_acc, [q + x for x in ('D', 'N', 'K', 'empty', 'clear', 'getMinTime', 'getMaxTime', 'getSegments', 'segments', 'Trajectory')] + [SEG + '::' + x for x in ('D', 'N', 'getTime', 'setTime')]),
            mk('offset a segment', t_offs, [SEG + '::offsetSegment'], overrides=poff, unwind=4),
            mk('offset a trajectory', t_offt, [q + 'offsetTrajectory'], overrides=soff, invariants={'offsetTrajectory': [('offset', inv_offt)]}),
            mk('segments equal', t_eqs(False), [SEG + '::operator=='], overrides={POLY + '::operator==': peq_contract}, invariants={'operator==': [('eq', inv_eqs)]}),
            mk('segments differ', t_eqs(True), [SEG + '::operator!='], overrides={POLY + '::operator==': peq_contract}, invariants={'operator==': [('eq', inv_eqs)]}),
            mk('trajectories equal', t_eqt(False), [q + 'operator=='], overrides=seqo, hooks={'seq_equal': vec_eq}, invariants={'operator==': [('eq', inv_eqt)]}),
            mk('trajectories differ', t_eqt(True), [q + 'operator!='], overrides=seqo, hooks={'seq_equal': vec_eq}, invariants={'operator==': [('eq', inv_eqt)]})]
