"""C28: Vertices read back from a trajectory are its states at the joints.

Contracts (any number of segments and dimensions, any requested order; q is an arbitrary order, j an arbitrary joint; state(t,k) = Trajectory::evaluate, C04):
  getVertexAtTime    a vertex of the trajectory's dimension holding order q exactly for 0 <= q <= the requested one, with value state(t,q)
  getStartVertex / getGoalVertex    the vertex at time 0 / at the duration
  getVertices        true; n+1 vertices, vertex j being the one at T(j) = sum of the first j segment times
  getVertices (position and heading)   for at least four dimensions true; n+1 vertices each; vertex j holds order q exactly up to its own order,
                     with components 0,1,2 (position) or 3 (heading) of state(T(j), q)
The trajectory is not changed.
"""
from ..spec import *
TUS = ['trajectory', 'vertex']
NATIVE = {'src': 'c28.cpp', 'with': ['$MAV/src/trajectory.cpp', '$MAV/src/segment.cpp', '$MAV/src/polynomial.cpp', '$MAV/src/vertex.cpp', '$MAV/src/motion_defines.cpp', '$MAV/src/rpoly/rpoly_ak1.cpp'], 'n': 4000}
ASSUMPTIONS = ['the trajectory has at least one segment; requested orders are not negative', 'contracts of Trajectory::evaluate (C04) and Vertex::getSubdimension, addConstraint (C10)']
TM = ('map', INT, EV)
TVX = cls(VERT)


def tasks(db, tier):
    Tn = lambda x: TRAJ + '::' + x
    f_at, f_start, f_goal = (find(db, Tn(x)) for x in ('getVertexAtTime', 'getStartVertex', 'getGoalVertex'))
    two = [f for f in db.by_qname[Tn('getVertices')] if f.body is not None]
    f_all = next(f for f in two if len(f.params) == 2)
    f_sep = next(f for f in two if len(f.params) == 4)
    T = uf('T', 'i', 'r')

    def traj(it, hi=2, Dmin=0):
        segs = seq_of(it, cls(SEG), 'tr.segments_', hi=hi, lo=1)
        D = it.choose(6 - Dmin) + Dmin if bounded(it) else z3.Int('tr.D')
        mt = z3.Real('tr.max_time')
        if not bounded(it):
            it.assume(z3.And(D >= Dmin, D < 1000))
            it.assume(land(T(0) == 0, T(1) == rv(it.elem(segs, 0).f['time_'])))
        return SV(TRAJ, {'D_': D, 'N_': z3.Int('tr.N'), 'max_time_': mt, 'segments_': segs})

    def F(it, nm='state'):
        return z3.Function(nm, z3.RealSort(), z3.IntSort(), it.S.sort(EV))

    def state(it, D, t, k):
        if bounded(it):
            return vec([z3.Function('state%d' % d, z3.RealSort(), z3.IntSort(), z3.RealSort())(rv(t), iv(k)) for d in range(D)])
        v = sval(it, EV, F(it)(rv(t), iv(k)))
        it.assume(iv(v.n) == iv(D))
        return v

    def ov_eval(it, func, this, args, node):
        return state(it, it.load(this).f['D_'], it.val(args[0]), it.val(args[1]) if len(args) > 1 else 0)

    has = lambda it, m, q: it.map_has(m, q)

    def at(it, m, q):
        m = it.symmap(m)
        return it.S.val(m.vt, z3.Select(m.val, iv(q)))

    def joint(it, segs, j):
        if bounded(it):
            t = Fraction(0)
            for i in range(j):
                t = add(t, it.elem(segs, i).f['time_'])
            return t
        return T(iv(j))

    def is_state(it, v, D, t, K, dims=None):
        """vertex v holds the state at t up to order K (in those dimensions), as one formula"""
        m = v.f['constraints_']
        n = len(dims) if dims else D
        out = [cmp('==', v.f['D_'], n)]
        for q in (range(-1, 8) if bounded(it) else [z3.Int('q0')]):
            want = land(cmp('>=', q, 0), cmp('<=', q, K))
            out.append(cmp('==', bv(has(it, m, q)), bv(want)))
            if bounded(it):
                if want is True and q in m.d:
                    s = items(state(it, D, t, q))
                    x = items(m.d[q])
                    s = [s[d] for d in dims] if dims else s
                    out.append(len(s) == len(x))
                    out += [cmp('==', a, b) for a, b in zip(s, x)]
                continue
            s, x = state(it, D, t, q), at(it, m, q)
            if dims:
                out.append(implies(want, land(cmp('==', size(x), n), *[cmp('==', it.elem(x, i), it.elem(s, d)) for i, d in enumerate(dims)])))
            else:
                j = z3.Int('c0')
                out.append(implies(want, land(cmp('==', size(x), n), implies(land(j >= 0, j < iv(n)), cmp('==', it.elem(x, j), it.elem(s, j))))))
                if n is D:
                    for i in range(4):
                        out.append(implies(land(want, iv(n) > i), cmp('==', it.elem(x, i), it.elem(s, i))))
        return land(*out)

    def order(it, name):
        if bounded(it):
            return it.choose(3)
        k = z3.Int(name)
        it.assume(z3.And(k >= 0, k < 2 ** 31 - 1))
        return k

    # ---- one vertex
    def run_at(it):
        tr = traj(it, hi=1)
        tl = new(it, tr)
        t, K = z3.Real('t'), order(it, 'order')
        it.ghost.update(tr=tr, t=t, K=K)
        v = call(it, f_at, tl, [t, K])
        it.oblige('the state at that time, up to the order and no other', is_state(it, v, tr.f['D_'], t, K))
        it.oblige('the trajectory is unchanged', it.load(tl) is tr)

    def inv_at(L):
        it, G = L.it, L.it.ghost
        if 't' not in G or bounded(it):
            return None
        v = next((it.cells[c[0]] for c in L.mods if isinstance(it.cells[c[0]], SV) and it.cells[c[0]].cls == VERT), None)
        if v is None:
            return None
        i = iv(L.idx)
        return [i >= 0, i <= iv(G['K']) + 1, is_state(it, v, G['tr'].f['D_'], G['t'], sub(i, 1))]

    def ov_at(it, func, this, args, node):
        if bounded(it):
            return NotImplemented
        D = it.load(this).f['D_']
        v = SV(VERT, {'D_': D, 'constraints_': it.fresh(TM, 'vertex.constraints')})
        it.oblige('the requested order is not negative', cmp('>=', it.val(args[1]), 0), node)
        it.assume(is_state(it, v, D, it.val(args[0]), it.val(args[1])))
        return v

    def run_end(fn, goal):
        def run(it):
            tr = traj(it, hi=1)
            tl = new(it, tr)
            K = order(it, 'order')
            v = call(it, fn, tl, [K])
            it.oblige('the state at the duration' if goal else 'the state at time zero', is_state(it, v, tr.f['D_'], tr.f['max_time_'] if goal else Fraction(0), K))
            it.oblige('the trajectory is unchanged', it.load(tl) is tr)
        return run

    def ov_end(goal):
        def f(it, func, this, args, node):
            if bounded(it):
                return NotImplemented
            o = it.load(this)
            v = SV(VERT, {'D_': o.f['D_'], 'constraints_': it.fresh(TM, 'vertex.constraints')})
            it.assume(is_state(it, v, o.f['D_'], o.f['max_time_'] if goal else Fraction(0), it.val(args[0])))
            return v
        return f

    # ---- all vertices
    def run_all(it):
        tr = traj(it)
        tl = new(it, tr)
        K = order(it, 'order')
        old = Seq(TVX, 'vector', [it.fresh_named(TVX, 'old%d' % i) for i in range(it.choose(3) + 1)]) if bounded(it) else it.fresh_named(vseq(TVX), 'old')
        ol = new(it, old, vseq(TVX))
        n = size(tr.f['segments_'])
        j = it.choose(n + 1) if bounded(it) else z3.Int('j0')
        it.ghost.update(tr=tr, lists=[(ol, None, K)], j=j, n=n)
        if not bounded(it):
            it.assume(implies(land(j >= 0, j < iv(n)), T(j + 1) == T(j) + rv(it.elem(tr.f['segments_'], j).f['time_'])))
        r = call(it, f_all, tl, [K, Ptr(ol)])
        finish(it, tr, tl, r)

    def finish(it, tr, tl, r):
        G = it.ghost
        it.oblige('it succeeds', r)
        for lv, dims, K in G['lists']:
            vs = it.load(lv)
            it.oblige('one vertex more than segments', cmp('==', size(vs), add(G['n'], 1)))
            if bounded(it) and size(vs) <= G['j']:
                continue
            j = G['j']
            ok = is_state(it, it.elem(vs, j), tr.f['D_'], joint(it, tr.f['segments_'], j), K, dims)
            it.oblige('vertex j is the state at the j-th joint', ok if bounded(it) else implies(land(j >= 0, j <= iv(G['n'])), ok))
        it.oblige('the trajectory is unchanged', it.load(tl) is tr)

    def inv_all(L):
        it, G = L.it, L.it.ghost
        if 'lists' not in G or bounded(it):
            return None
        i, n, j = iv(L.idx), iv(G['n']), G['j']
        segs = G['tr'].f['segments_']
        for x in (z3.simplify(i - 1), i):
            it.assume(implies(land(x >= 0, x < n), T(x + 1) == T(x) + rv(it.elem(segs, x).f['time_'])))
        out = [i >= 0, i <= n]
        if L.has('t'):
            out.append(cmp('==', L.real('t'), T(i)))
        for lv, dims, K in G['lists']:
            vs = it.load(lv)
            out += [cmp('==', size(vs), n + 1), implies(land(j >= 0, j <= i), is_state(it, it.elem(vs, j), G['tr'].f['D_'], T(j), K, dims))]
        return out

    # ---- position and heading
    def ov_sub(it, func, this, args, node):
        if bounded(it):
            return NotImplemented
        v, dims, mx = it.load(this), it.val(args[0]), it.val(args[1])
        d = [it.elem(dims, i) for i in range(size(dims))]
        if not all(isinstance(x, int) for x in d):
            raise Unsupported('a list of dimensions that is not constant')
        out = args[2].lv
        if not it.branch(land(*[cmp('<', x, v.f['D_']) for x in d])):
            it.store(out, it.fresh(TVX, 'unusable'))
            return False
        m = it.fresh(TM, 'part.constraints')
        q = z3.Int('q0')
        om = v.f['constraints_']
        kept = land(has(it, om, q), cmp('<=', q, mx))
        x, y = at(it, m, q), at(it, om, q)
        it.assume(cmp('==', bv(has(it, m, q)), bv(kept)))
        it.assume(implies(kept, land(cmp('==', size(x), len(d)), *[cmp('==', it.elem(x, i), it.elem(y, e)) for i, e in enumerate(d)])))
        it.store(out, SV(VERT, {'D_': len(d), 'constraints_': m}))
        return True

    def run_sep(it):
        tr = traj(it, Dmin=4 if not bounded(it) else 4)
        tl = new(it, tr)
        Kp, Ky = order(it, 'position order'), order(it, 'heading order')
        olds = [Seq(TVX, 'vector', []) if bounded(it) else it.fresh_named(vseq(TVX), 'old%d' % i) for i in range(2)]
        ols = [new(it, o, vseq(TVX)) for o in olds]
        n = size(tr.f['segments_'])
        j = it.choose(n + 1) if bounded(it) else z3.Int('j0')
        it.ghost.update(tr=tr, lists=[(ols[0], (0, 1, 2), Kp), (ols[1], (3,), Ky)], j=j, n=n)
        if not bounded(it):
            it.assume(implies(land(j >= 0, j < iv(n)), T(j + 1) == T(j) + rv(it.elem(tr.f['segments_'], j).f['time_'])))
        r = call(it, f_sep, tl, [Kp, Ky, Ptr(ols[0]), Ptr(ols[1])])
        finish(it, tr, tl, r)

    ev = {Tn('evaluate'): ov_eval}
    vx = dict(ev, **{Tn('getVertexAtTime'): ov_at, Tn('getStartVertex'): ov_end(False), Tn('getGoalVertex'): ov_end(True)})
    b = 'at most 2 segments, orders at most 2, dimension at most 5'
    return [
        Task('getVertexAtTime', run_at, [Tn('getVertexAtTime')], overrides=ev, invariants={'getVertexAtTime': [('filled', inv_at)]}, bounded=[(b, run_at)]),
        Task('getStartVertex', run_end(f_start, False), [Tn('getStartVertex')], overrides=dict(vx, **{Tn('getStartVertex'): lambda *a: NotImplemented}), bounded=[(b, run_end(f_start, False))]),
        Task('getGoalVertex', run_end(f_goal, True), [Tn('getGoalVertex')], overrides=dict(vx, **{Tn('getGoalVertex'): lambda *a: NotImplemented}), bounded=[(b, run_end(f_goal, True))]),
        Task('getVertices', run_all, [Tn('getVertices')], overrides=vx, invariants={'getVertices': [('read', inv_all)]}, bounded=[(b, run_all)]),
        Task('getVertices (position and heading)', run_sep, [Tn('getVertices')], overrides=dict(vx, **{VERT + '::getSubdimension': ov_sub}), invariants={'getVertices': [('read', inv_all)]}, bounded=[(b, run_sep)]),
    ]
