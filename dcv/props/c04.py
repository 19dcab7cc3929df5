"""C04: Trajectory evaluation uses the segment that covers the time.

Contracts (any number of segments and dimensions, any segment times >= 0, any time and derivative order):
  Segment::evaluate      result has one entry per dimension, entry d is polynomial d evaluated at the local time
  Trajectory::evaluate   with T(i) the sum of the first i segment times: T(i)<=t<T(i+1) gives segment i at t-T(i);
                         t=T(n) gives the last segment at its end; t>T(n) gives the zero vector of dimension D
  Segment::operator[]    hands out polynomial idx of the segment
Polynomial::evaluate enters through its contract (C01).
"""
from ..spec import *
TUS = ['trajectory', 'segment']
NATIVE = {'src': 'c04.cpp', 'with': ['$MAV/src/trajectory.cpp', '$MAV/src/segment.cpp', '$MAV/src/polynomial.cpp', '$MAV/src/vertex.cpp', '$MAV/src/motion_defines.cpp', '$MAV/src/rpoly/rpoly_ak1.cpp'], 'n': 15000}
ASSUMPTIONS = ['segment times are not negative; the trajectory has at least one segment (an empty trajectory is only evaluated beyond its end)']


def tasks(db, tier):
    seg_ev = find(db, SEG + '::evaluate')
    tr_ev = find(db, TRAJ + '::evaluate')
    T = uf('T', 'i', 'r')

    # ---- one segment
    def poly_contract(it, func, this, args, node):
        if len(args) != 2 or isinstance(it.val(args[1]), Ptr):
            return NotImplemented
        p = it.load(this)
        pe = z3.Function('poly_at', it.S.sort(cls(POLY)), z3.RealSort(), z3.IntSort(), z3.RealSort())
        return pe(sterm(it, cls(POLY), p), rv(it.val(args[0])), iv(it.val(args[1])))

    def t_seg(it):
        polys = seq_of(it, cls(POLY), 'poly', hi=3)
        t, k = z3.Real('t'), z3.Int('k')
        s = SV(SEG, {'polynomials_': polys, 'time_': z3.Real('time'), 'N_': z3.Int('N'), 'D_': size(polys)})
        it.assume(k >= 0)
        it.ghost.update(polys=polys, t=t, k=k)
        r = call(it, seg_ev, new(it, s), [t, k])
        pe = z3.Function('poly_at', it.S.sort(cls(POLY)), z3.RealSort(), z3.IntSort(), z3.RealSort())
        it.oblige('one value per dimension', cmp('==', size(r), size(polys)))
        d = arb(it, 'd0', size(polys))
        it.oblige('each dimension is its polynomial at the local time', cmp('==', it.elem(r, d), pe(sterm(it, cls(POLY), it.elem(polys, d)), t, k)))

    def inv_seg(L):
        it, G = L.it, L.it.ghost
        if 'polys' not in G:
            return None
        pe = z3.Function('poly_at', it.S.sort(cls(POLY)), z3.RealSort(), z3.IntSort(), z3.RealSort())
        i, d0, r = iv(L.idx), z3.Int('d0'), L['result']
        return [i >= 0, i <= iv(size(G['polys'])), cmp('==', size(r), size(G['polys'])),
                implies(land(d0 >= 0, d0 < i), cmp('==', it.elem(r, d0), pe(sterm(it, cls(POLY), it.elem(G['polys'], d0)), G['t'], G['k'])))]

    # ---- a trajectory
    def seg_at(it, s, t, k):
        f = vec_uf(it, 'segment_at', it.S.sort(cls(SEG)), 'r', 'i')
        return sval(it, EV, f(sterm(it, cls(SEG), s), rv(t), iv(k)))

    def seg_contract(it, func, this, args, node):
        r = seg_at(it, it.load(this), it.val(args[0]), it.val(args[1]))
        it.assume(r.n >= 0)
        return r

    def t_traj(it):
        segs = seq_of(it, cls(SEG), 'segment', hi=3, lo=1)
        n = size(segs)
        t, k, D = z3.Real('t'), z3.Int('k'), z3.Int('D')
        it.assume(z3.And(D >= 1, D < 100, k >= 0))
        it.assume(t >= 0)
        tm = lambda i: it.elem(segs, i).f['time_']
        i0 = arb(it, 'i0', n)
        if bounded(it):
            sums = [Fraction(0)]
            for i in range(n):
                it.assume(rv(tm(i)) >= 0)
                sums.append(add(sums[-1], tm(i)))
            TT = lambda i: sums[i]
        else:
            TT = T
            prefix(it, T, tm, at=[0, i0, n - 1])
            mono(it, n, tm, [0, 1, i0, i0 + 1, n - 1, n])
            it.ghost.update(segs=segs, t=t, i0=i0, n=n)
        tr = new(it, SV(TRAJ, {'D_': D, 'N_': z3.Int('N'), 'max_time_': z3.Real('maxt'), 'segments_': segs}))
        r = call(it, tr_ev, tr, [t, k])
        if it.branch(cmp('>', t, TT(n))):
            it.oblige('zero vector beyond the end (dimension)', cmp('==', size(r), D))
            j = arb(it, 'jv', size(r))
            it.oblige('zero vector beyond the end', cmp('==', it.elem(r, j), 0))
            return
        inside = land(cmp('<=', TT(i0), t), cmp('<', t, TT(i0 + 1)))
        if it.branch(inside):
            same_vec(it, 'the segment whose span contains the time, at its local time', r, seg_at(it, it.elem(segs, i0), sub(t, TT(i0)), k))
        if it.branch(cmp('==', t, TT(n))):
            same_vec(it, 'the end of the last segment at the very end', r, seg_at(it, it.elem(segs, n - 1), tm(n - 1), k))

    def mono(it, n, tm, at):
        # prefix sums of non-negative times grow (lemma proved below by induction)
        for a in at:
            it.assume(implies(land(iv(a) >= 0, iv(a) < iv(n)), rv(tm(a)) >= 0))
            for b in at:
                if not a is b:
                    it.assume(implies(land(iv(a) >= 0, iv(a) <= iv(b), iv(b) <= iv(n)), T(iv(a)) <= T(iv(b))))

    def inv_traj(L):
        it, G = L.it, L.it.ghost
        if 'segs' not in G:
            return None
        i, n, t, i0 = iv(L.idx), iv(G['n']), G['t'], G['i0']
        tm = lambda x: it.elem(G['segs'], x).f['time_']
        it.assume(T(i + 1) == T(i) + rv(tm(i)))
        mono(it, n, tm, [i, i + 1, i0, i0 + 1, n])
        acc = L.real('accumulated_time')
        return [i >= 0, i <= n, cmp('==', acc, T(i)), implies(i > 0, T(i) <= t)]

    def t_mono(it):
        # induction step: T(a)<=T(b) and time(b)>=0 give T(a)<=T(b+1); the base case is T(a)<=T(a)
        a, b, x = z3.Int('a'), z3.Int('b'), z3.Real('x')
        it.assume(z3.And(T(a) <= T(b), x >= 0, T(b + 1) == T(b) + x))
        it.oblige('prefix sums of non-negative times grow (step)', T(a) <= T(b + 1))

    def t_idx(const):
        f = [g for g in db.by_qname.get(SEG + '::operator[]', []) if g.body is not None and ('const' in g.node['type']['qualType'].split(')')[-1]) == const]
        if len(f) != 1:
            raise Unsupported('Segment::operator[]')

        def run(it):
            polys = seq_of(it, cls(POLY), 'poly', hi=3, lo=1)
            s = new(it, SV(SEG, {'polynomials_': polys, 'time_': z3.Real('time'), 'N_': z3.Int('N'), 'D_': size(polys)}))
            d = arb(it, 'd0', size(polys))
            r = it.call(f[0], s, [d], None, want_lv=True)
            p = it.load(r) if isinstance(r, LV) else r
            it.oblige('polynomial of that dimension', sterm(it, cls(POLY), p) == sterm(it, cls(POLY), it.elem(polys, d)))
        return run

    return [Task('segment value', t_seg, [SEG + '::evaluate'], invariants={'evaluate': [('values', inv_seg)]}, overrides={POLY + '::evaluate': poly_contract},
                 bounded=[('at most 3 dimensions', t_seg)]),
            Task('trajectory value', t_traj, [TRAJ + '::evaluate'], invariants={'evaluate': [('search', inv_traj)]}, overrides={SEG + '::evaluate': seg_contract},
                 bounded=[('at most 3 segments', t_traj)]),
            Task('prefix sums', t_mono, [], exact=True, lemma=True),
            Task('polynomial of a dimension', t_idx(False), [SEG + '::operator[]'], bounded=[('at most 3 dimensions', t_idx(False))]),
            Task('polynomial of a dimension (const)', t_idx(True), [SEG + '::operator[] const'], bounded=[('at most 3 dimensions', t_idx(True))])]
