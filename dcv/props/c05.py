"""C05: Range sampling yields the requested, equally spaced samples.

Contract of Trajectory::evaluateRange (any number of segments and samples, 0<=t_start<=t_end<=duration, dt>0, S(k)=t_start+k*dt,
T(i) = sum of the first i segment times):
  number of samples m      S(m)>=t_end and S(k)<t_end for every k<m; as many times as samples
  time k                   is S(k)
  sample k                 is segment i at S(k)-T(i) when S(k) is strictly inside segment i, and either neighbour's value at a joint
  earlier results          are discarded; a start beyond the end gives no samples
"""
from ..spec import *
TUS = ['trajectory', 'segment']
NATIVE = {'src': 'c05.cpp', 'with': ['$MAV/src/trajectory.cpp', '$MAV/src/segment.cpp', '$MAV/src/polynomial.cpp', '$MAV/src/vertex.cpp', '$MAV/src/motion_defines.cpp', '$MAV/src/rpoly/rpoly_ak1.cpp'], 'n': 10000}
ASSUMPTIONS = ['segment times are positive', 'the number of samples fits the index type']


def tasks(db, tier):
    f = find(db, TRAJ + '::evaluateRange')
    T, S = uf('T', 'i', 'r'), uf('S', 'i', 'r')

    def seg_at(it, s, t, k):
        g = vec_uf(it, 'segment_at', it.S.sort(cls(SEG)), 'r', 'i')
        return g(sterm(it, cls(SEG), s), rv(t), iv(k))

    def seg_contract(it, func, this, args, node):
        r = sval(it, EV, seg_at(it, it.load(this), it.val(args[0]), it.val(args[1])))
        return r

    def mono(it, n, tm, at):
        for a in at:
            it.assume(implies(land(iv(a) >= 0, iv(a) < iv(n)), rv(tm(a)) > 0))
            for b in at:
                if a is not b:
                    it.assume(implies(land(iv(a) >= 0, iv(a) < iv(b), iv(b) <= iv(n)), T(iv(a)) < T(iv(b))))

    def smono(it, dt, at):
        for a in at:
            for b in at:
                if a is not b:
                    it.assume(implies(land(iv(a) >= 0, iv(a) < iv(b)), S(iv(a)) < S(iv(b))))

    def run(beyond, withtimes):
        def t(it):
            segs = seq_of(it, cls(SEG), 'segment', hi=2, lo=1)
            n = size(segs)
            t0, t1, dt, k, D = z3.Real('t_start'), z3.Real('t_end'), z3.Real('dt'), z3.Int('k'), z3.Int('D')
            it.assume(z3.And(D >= 1, D < 100, k >= 0, dt > 0, t0 >= 0, t1 >= t0))
            tm = lambda i: it.elem(segs, i).f['time_']
            if bounded(it):
                i0 = it.choose(n)
                sums = [Fraction(0)]
                for i in range(n):
                    it.assume(rv(tm(i)) > 0)
                    sums.append(add(sums[-1], tm(i)))
                TT = lambda i: sums[i]
                SS = lambda j: add(t0, mul(j, dt))
                it.assume(t1 - t0 <= 2 * dt)
            else:
                TT, SS = T, S
                i0 = arb(it, 'i0', n)
                prefix(it, T, tm, at=[0, i0, n - 1])
                it.assume(implies(i0 > 0, T(i0) == T(i0 - 1) + rv(tm(i0 - 1))))
                mono(it, n, tm, [0, 1, i0, i0 + 1, n - 1, n])
                it.assume(S(0) == t0)
                it.assume(S(1) == S(0) + dt)
                j0 = z3.Int('j0')
                it.assume(j0 >= 0)
                smono(it, dt, [0, 1, j0])
                it.ghost.update(segs=segs, t=t0, t1=t1, dt=dt, i0=i0, n=n, k=k)
            dur = TT(n)
            it.assume(bv(cmp('>', t0, dur) if beyond else cmp('<=', t1, dur)))
            old = seq_of(it, EV, 'oldresult', hi=1)
            oldt = seq_of(it, REAL, 'oldtimes', hi=1)
            res, times = new(it, old, vseq(EV)), new(it, oldt, vseq(REAL))
            tr = new(it, SV(TRAJ, {'D_': D, 'N_': z3.Int('N'), 'max_time_': z3.Real('maxt'), 'segments_': segs}))
            if not bounded(it):
                it.ghost.update(res=res, times=times if withtimes else None)
            call(it, f, tr, [t0, t1, dt, k, Ptr(res), Ptr(times) if withtimes else NULL])
            R, M = it.load(res), it.load(times)
            m = size(R)
            if beyond:
                it.oblige('no samples when starting beyond the end', cmp('==', m, 0))
                if withtimes:
                    it.oblige('no times when starting beyond the end', cmp('==', size(M), 0))
                return
            if withtimes:
                it.oblige('as many times as samples', cmp('==', size(M), m))
            it.oblige('sampling reaches the requested end', cmp('>=', SS(m), t1))
            j = arb(it, 'j0', m)
            it.oblige('every sample lies before the requested end', cmp('<', SS(j), t1))
            if withtimes:
                it.oblige('each reported time is its instant', cmp('==', it.elem(M, j), SS(j)))
            got = sterm(it, EV, it.elem(R, j))
            at = lambda q, x: got == seg_at(it, it.elem(segs, q), x, k)
            it.oblige('each sample is the value at its instant', implies(land(cmp('<', TT(i0), SS(j)), cmp('<', SS(j), TT(i0 + 1))), at(i0, sub(SS(j), TT(i0)))))
            if isinstance(i0, int) and i0 == 0:
                it.oblige('the first instant of the trajectory is its start', implies(cmp('==', SS(j), 0), at(0, Fraction(0))))
            else:
                joint = lor(at(i0, Fraction(0)), land(cmp('>', i0, 0), at(sub(i0, 1), tm(sub(i0, 1)))))
                it.oblige('a sample at a joint is the value of a neighbour', implies(cmp('==', SS(j), TT(i0)), joint))
        return t

    def inv(L):
        it, G = L.it, L.it.ghost
        if 'res' not in G:
            return None
        segs, n, t, i0, t1, dt, k = (G[x] for x in ('segs', 'n', 't', 'i0', 't1', 'dt', 'k'))
        tm = lambda x: it.elem(segs, x).f['time_']
        i, acc = iv(L['i']), L['accumulated_time']
        it.assume(T(i + 1) == T(i) + rv(tm(i)))
        mono(it, n, tm, [i, i + 1, i0, i0 + 1, n])
        n = iv(n)
        if not L.has('time_in_segment'):
            return [i >= 0, i <= n, cmp('==', acc, T(i)), implies(i > 0, T(i) <= t)]
        j0 = z3.Int('j0')
        R = it.load(G['res'])
        m = iv(size(R))
        it.assume(S(m + 1) == S(m) + dt)
        smono(it, dt, [j0, m, m + 1])
        tis = L['time_in_segment']
        out = [i >= 0, i < n, cmp('==', acc, S(m)), cmp('==', acc, add(T(i), tis)), cmp('>=', tis, 0), m >= 0,
               implies(land(j0 < m), S(j0) < t1)]
        got = sterm(it, EV, it.elem(R, j0))
        at = lambda q, x: got == seg_at(it, it.elem(segs, q), x, k)
        out += [implies(land(j0 < m, T(i0) < S(j0), S(j0) < T(i0 + 1)), at(i0, S(j0) - T(i0))),
                implies(land(j0 < m, T(i0) == S(j0)), lor(at(i0, Fraction(0)), land(i0 > 0, at(i0 - 1, tm(i0 - 1)))))]
        if G['times'] is not None:
            M = it.load(G['times'])
            out += [cmp('==', size(M), m), implies(j0 < m, cmp('==', it.elem(M, j0), S(j0)))]
        return out

    def lemma(it):
        a, b, x = z3.Int('a'), z3.Int('b'), z3.Real('x')
        it.assume(z3.And(z3.Or(a == b, T(a) < T(b)), x > 0, T(b + 1) == T(b) + x))
        it.oblige('prefix sums of positive times grow strictly (step)', T(a) < T(b + 1))
        t0, dt, m = z3.Real('t0'), z3.Real('dt'), z3.Real('m')
        it.assume(z3.And(S(a) == t0 + m * dt, S(a + 1) == S(a) + dt))
        it.oblige('instant k is the start plus k steps (step)', S(a + 1) == t0 + (m + 1) * dt)

    ov = {SEG + '::evaluate': seg_contract}
    B = 'at most 2 segments and 2 steps'
    mk = lambda nm, b, w: Task(nm, run(b, w), [TRAJ + '::evaluateRange'], invariants={'evaluateRange': [('sampling', inv)]}, overrides=ov, bounded=[(B, run(b, w))], budget=100, unroll=6)
    return [mk('samples with times', False, True), mk('samples without times', False, False), mk('start beyond the end with times', True, True),
            mk('start beyond the end without times', True, False), Task('instants and prefix sums', lemma, [], exact=True, lemma=True)]
