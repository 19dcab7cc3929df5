"""C13: The linear optimiser minimises exactly the integral of the squared derivative.

Contracts (any number of segments and dimensions):
  computeQuadraticCostJacobian   entry by entry 2 i!/(i-r)! j!/(j-r)! T^(i+j-2r+1) / (i+j-2r+1), every derivative 0..9, symbolically in T
  computeCost         half the sum, over all segments and dimensions, of the quadratic form of the coefficients with the matrix of the segment
  constructR          M^T U M with U block diagonal, the block of a segment being A^-T Q A^-1
  solveLinear         Rpp p + Rpf f = 0 in every dimension, with the blocks at the right place, and the segments assembled from p
  getA, getAInverse, getM, getR, getMpinv   what the names say, entry by entry
Lemmas: half the form is the integral of the squared derivative (zero at T = 0, its derivative in T is the squared derivative at T) and a sum of squares with positive weights; the cost in terms of
end derivatives; a solution of the normal equations of a form that is not negative is a minimum. (Linear algebra in the last two is shown for small sizes, where the normal form of every entry is expanded.)
"""
from .optlib import *
from .optsolve import solver_tasks
ASSUMPTIONS = ['Eigen sparse matrix assembly (setFromTriplets adds what is recorded per entry), block, transpose and product as documented', 'SparseQR returns a solution of a consistent system',
               'integration inverts differentiation (the cost matrix is shown to have the squared derivative as its derivative in the segment time and to vanish at zero)', 'segment times of at least 2^-52 s']
NATIVE = {'src': 'c13.cpp', 'with': ['$MAV/src/' + x for x in ('trajectory.cpp', 'segment.cpp', 'polynomial.cpp', 'vertex.cpp', 'motion_defines.cpp', 'rpoly/rpoly_ak1.cpp')], 'n': 1500, 'flags': ['-fno-access-control']}


def tasks(db, tier):
    q = PO + '::'
    F = lambda x, **kw: find(db, q + x, **kw)
    T = z3.Real('T')

    # ------------------------------------------------ cost of one segment
    def t_matrix(it):
        it.assume(T >= rv(MIN_T))
        r = it.choose(N)
        A = new(it, it.fresh_named(SQ, 'A'), SQ)
        call(it, F('computeQuadraticCostJacobian'), None, [r, T, Ptr(A)])
        same(it, 'entries of the cost matrix', rows(it.load(A)), hessian(r, T))

    def quad(Qm, c):
        return fold(mul(mul(Qm[i][j], c[i]), c[j]) for i in range(N) for j in range(N))

    def l_integral(it):
        """half the quadratic form is zero at T = 0 and grows with the squared derivative at T"""
        c = reals('c', N)
        for r in range(H):
            grow = [[mul(Fraction(2 * ff(i, r) * ff(j, r)), power(T, i + j - 2 * r)) if i >= r and j >= r else Fraction(0) for j in range(N)] for i in range(N)]
            for i in range(N):
                for j in range(N):
                    if i >= r and j >= r:       # the derivative of a power
                        e = i + j - 2 * r + 1
                        it.oblige('derivative of an entry in the segment time', cmp('==', mul(Fraction(2 * ff(i, r) * ff(j, r), e) * e, power(T, e - 1)), grow[i][j]))
            p = poly_value(c, r, T)
            it.oblige('the cost grows with the squared derivative', cmp('==', mul(Fraction(1, 2), quad(grow, c)), mul(p, p)))
            it.oblige('no cost without duration', cmp('==', quad(hessian(r, Fraction(0)), c), 0))

    def ldl(A):
        n = len(A)
        L = [[Fraction(int(i == j)) for j in range(n)] for i in range(n)]
        D = []
        for j in range(n):
            D.append(A[j][j] - sum(L[j][k] ** 2 * D[k] for k in range(j)))
            for i in range(j + 1, n):
                L[i][j] = (A[i][j] - sum(L[i][k] * L[j][k] * D[k] for k in range(j))) / D[j]
        return L, D

    def l_positive(it):
        """the cost is a sum of squares with positive weights"""
        it.assume(T > 0)
        c = reals('c', N)
        for r in range(H):
            n = N - r
            L, D = ldl([[Fraction(2 * ff(i, r) * ff(j, r), i + j - 2 * r + 1) for j in range(r, N)] for i in range(r, N)])
            sq = Fraction(0)
            for k in range(n):
                x = fold(mul(mul(L[i][k], power(T, i)), c[i + r]) for i in range(k, n))
                sq = add(sq, mul(D[k], mul(x, x)))
            it.oblige('weights are positive', all(d > 0 for d in D))
            it.oblige('sum of squares', cmp('==', quad(hessian(r, T), c), mul(T, sq)))

    # ------------------------------------------------ cost of the trajectory
    def bil(it, Qm, x, y):
        t = it.S.term(SQ, Qm)
        return z3.Function('form', t.sort(), *[z3.RealSort()] * (2 * N + 1))(t, *[rv(a) for a in list(x) + list(y)])

    P = z3.Function('cost_before', z3.IntSort(), z3.IntSort(), z3.RealSort())

    def coeffs(it, o, i, d):
        c = it.elem(it.elem(o.f['segments_'], i).f['polynomials_'], d).f['coefficients_']
        return [it.elem(c, j) for j in range(N)]

    def term(it, o, i, d):
        c = coeffs(it, o, i, d)
        return bil(it, it.elem(o.f['cost_matrices_'], i), c, c)

    def t_cost(it):
        if bounded(it):
            return b_cost(it)
        o = arbitrary(it)
        S_, D = iv(o.f['n_segments_']), iv(o.f['dimension_'])
        it.assume(z3.And(S_ >= 1, D >= 1, D < 1000, o.f['segments_'].n == S_, o.f['cost_matrices_'].n == S_))
        i, d = z3.Ints('i! d!')
        s = it.elem(o.f['segments_'], i)
        p = it.elem(s.f['polynomials_'], d)
        inr = z3.And(i >= 0, i < S_)
        at = z3.Select(o.f['segments_'].arr, i)
        it.assume(every([i], z3.Implies(inr, z3.And(s.f['polynomials_'].n == D, s.f['D_'] == D, s.f['N_'] == N)), [at]))
        it.assume(every([i, d], z3.Implies(z3.And(inr, d >= 0, d < D), z3.And(p.f['N_'] == N, size(p.f['coefficients_']) == N)), [it.S.term(('class', POLY), p)]))
        it.assume(P(0, 0) == 0)
        it.assume(every([i, d], z3.Implies(z3.And(inr, d >= 0, d < D), P(i, d + 1) == P(i, d) + term(it, o, i, d)), [P(i, d), it.S.term(('class', POLY), p)]))
        it.assume(every([i], z3.Implies(inr, P(i + 1, 0) == P(i, D)), [P(i, D)]))
        it.ghost.update(cst=o)
        it.e.peel = 0
        ol = new(it, o)
        got = call(it, F('computeCost'), ol, [])
        it.oblige('half the sum over segments and dimensions', cmp('==', got, mul(Fraction(1, 2), P(S_, 0))))
        kept_all(it, it.load(ol), o)

    def kept_all(it, g, o):
        for k in g.f:
            if g.f[k] is not o.f[k]:
                t = dict(it.S.fields(PO))[k]
                it.oblige('kept: ' + k, it.S.term(t, g.f[k]) == it.S.term(t, o.f[k]))

    def inv_cost(L):
        it, G = L.it, L.it.ghost
        if 'cst' not in G or bounded(it):
            return None
        o = G['cst']
        cost, = L.real('cost') if False else (L['cost'],)
        i, D = iv(L['segment_idx']), iv(o.f['dimension_'])
        d = iv(L['dimension_idx']) if L.level >= 2 else z3.IntVal(0)
        return [z3.And(i >= 0, i <= iv(o.f['n_segments_']), d >= 0, d <= D), cmp('==', cost, P(i, d))]

    def h_transpose(it, n, obj, argn):
        if 'cst' not in it.ghost:
            return NotImplemented
        v = it.val(obj)
        if isinstance(v, Seq) and not v.conc:
            it.oblige('ten coefficients', cmp('==', v.n, N), n)
            return Opaque('row', [it.elem(v, j) for j in range(N)])
        return NotImplemented

    def column(it, v):
        if isinstance(v, Seq) and not v.conc:
            it.oblige('ten coefficients', cmp('==', v.n, N))
            return [it.elem(v, j) for j in range(N)]
        return None

    def h_form(it, n, xs, V):
        if 'cst' not in it.ghost:
            return NotImplemented
        a, b = V[0], V[1]
        if isinstance(a, Opaque) and a.tag == 'row' and isinstance(b, Mat) and (b.r, b.c) == (N, N):
            return Opaque('rowQ', (a.data, b))
        if isinstance(a, Opaque) and a.tag == 'rowQ':
            y = column(it, b)
            if y:
                return Mat(1, 1, [bil(it, a.data[1], a.data[0], y)])
        if isinstance(a, Mat) and (a.r, a.c) == (N, N):
            y = column(it, b)
            if y:
                return Opaque('Qcol', (a, y))
        if isinstance(a, Opaque) and a.tag == 'row' and isinstance(b, Opaque) and b.tag == 'Qcol':
            return Mat(1, 1, [bil(it, b.data[0], a.data, b.data[1])])
        return NotImplemented

    def h_dot(it, n, obj, argn):
        if 'cst' not in it.ghost:
            return NotImplemented
        x, b = column(it, it.val(obj)), it.rvalue(argn[0])
        if x and isinstance(b, Opaque) and b.tag == 'Qcol':
            return bil(it, b.data[0], x, b.data[1])
        return NotImplemented

    def b_cost(it):
        S_, D = [(1, 1), (1, 2), (2, 1)][it.choose(3)]
        r = it.choose(H)
        o = it.construct(PO, [D], None)
        Ts = reals('T', S_)
        it.assume(z3.And(*[t >= rv(MIN_T) for t in Ts]))
        segs, want = [], Fraction(0)
        for i in range(S_):
            cs = [reals('c%d_%d_' % (i, d), N) for d in range(D)]
            s = it.default_value(SG).with_('time_', Ts[i]).with_('N_', N).with_('D_', D)
            segs.append(s.with_('polynomials_', Seq(('class', POLY), 'vector', [poly(it, c) for c in cs])))
            for c in cs:
                want = add(want, quad(hessian(r, Ts[i]), c))
        o = o.with_('n_segments_', S_).with_('segments_', Seq(SG, 'vector', segs)).with_('cost_matrices_', Seq(SQ, 'vector', [mat(hessian(r, t)) for t in Ts])).with_('derivative_to_optimize_', r)
        got = call(it, F('computeCost'), new(it, o), [])
        it.oblige('half the quadratic forms of all segments and dimensions', cmp('==', got, mul(Fraction(1, 2), want)))

    # ------------------------------------------------ the compact matrices
    ENTRY = lambda it: z3.Function('entry', it.S.sort(SQ), z3.IntSort(), z3.IntSort(), z3.RealSort())
    CONGR = lambda it: z3.Function('entry_of_AtQB', *[it.S.sort(SQ)] * 3, z3.IntSort(), z3.IntSort(), z3.RealSort())
    MAP = lambda s: z3.Function('mapping_matrix', z3.RealSort(), s)

    def start_matrices(it, kind):
        o = arbitrary(it)
        S_ = iv(o.f['n_segments_'])
        it.assume(z3.And(S_ >= 1, S_ < 10 ** 8, o.f['inverse_mapping_matrices_'].n == S_, o.f['cost_matrices_'].n == S_, o.f['segment_times_'].n == S_))
        t = z3.Int('t!')
        x = z3.Select(o.f['segment_times_'].arr, t)
        it.assume(every([t], z3.Implies(z3.And(t >= 0, t < S_), x >= rv(MIN_T)), [x]))
        o = o.with_('constraint_reordering_', Opaque('sparse', 'M'))
        i0, a0, j0, b0 = z3.Ints('i0 a0 j0 b0')
        it.assume(z3.And(i0 >= 0, i0 < S_, j0 >= 0, j0 < S_, a0 >= 0, a0 < N, b0 >= 0, b0 < N))
        ol = new(it, o)
        it.ghost.update(mtx=kind, o=o, ol=ol, S=S_, E=it.alloc(Fraction(0), REAL), at=(i0, a0, j0, b0), r0=10 * i0 + a0, c0=10 * j0 + b0)
        it.e.peel = 0
        return o, ol

    def h_push(it, lv, seq, x):
        """the sum of what is recorded for entry (r0, c0)"""
        G = it.ghost
        if G.get('mtx') != 'R' or seq.et != ('triplet',):
            return
        if seq.conc and not seq.items:
            it.store(G['E'], Fraction(0))
        it.oblige('entries inside the matrix', land(cmp('>=', x.f['row'], 0), cmp('<', x.f['row'], 10 * G['S']), cmp('>=', x.f['col'], 0), cmp('<', x.f['col'], 10 * G['S'])))
        hit = land(cmp('==', x.f['row'], G['r0']), cmp('==', x.f['col'], G['c0']))
        it.store(G['E'], add(it.load(G['E']), ite(hit, x.f['value'], Fraction(0))))

    def factors(v):
        if isinstance(v, Opaque) and v.tag == 'mprod':
            return list(v.data)
        if isinstance(v, Opaque) and v.tag == 'sparse':
            return [('m', v)]
        if isinstance(v, Mat) and (v.r, v.c) == (N, N):
            return [('m', v)]
        return None

    def m_transpose(it, n, obj, argn):
        if 'mtx' not in it.ghost:
            return h_transpose(it, n, obj, argn)
        f = factors(it.val(obj))
        if f is None or len(f) != 1:
            return NotImplemented
        return Opaque('mprod', [('t' if f[0][0] == 'm' else 'm', f[0][1])])

    def m_times(it, n, xs, V):
        if 'mtx' not in it.ghost:
            return h_form(it, n, xs, V)
        f, g = factors(V[0]), factors(V[1])
        if f is None or g is None:
            return NotImplemented
        return Opaque('mprod', f + g)

    def m_ctor(it, n, t, argn):
        G = it.ghost
        if 'mtx' not in G:
            return NotImplemented
        if 'SparseMatrix' in n['type']['qualType'] and len(argn) == 2:
            return Opaque('sparse', [it.rvalue(a) for a in argn])
        if len(argn) == 1 and t == SQ:
            v = it.rvalue(argn[0])
            if isinstance(v, Opaque) and v.tag == 'mprod':
                if [k for k, _ in v.data] != ['t', 'm', 'm']:
                    raise Unsupported('another product')
                A, Q, B = [it.S.term(SQ, m) for _, m in v.data]
                return mat([[CONGR(it)(A, Q, B, i, j) for j in range(N)] for i in range(N)])
            return v
        return NotImplemented

    def m_triplets(it, n, obj, argn):
        G = it.ghost
        if G.get('mtx') != 'R':
            return NotImplemented
        b, e = [it.rvalue(a) for a in argn[:2]]
        seq = it.load(b.lv)
        it.oblige('all triplets are used', land(cmp('==', b.idx, 0), cmp('==', e.idx, seq.n), b.lv.key() == e.lv.key()), n)
        r, c = it.val(obj).data
        it.oblige('size of the unconstrained matrix', land(cmp('==', r, 10 * G['S']), cmp('==', c, 10 * G['S'])), n)
        it.store(obj, Opaque('sparse', 'U'))
        G['U'] = it.load(G['E'])
        return None

    def want_R(it, i=None):
        G = it.ghost
        i0, a0, j0, b0 = G['at']
        o = G['o']
        A, Q = [it.S.term(SQ, it.elem(o.f[k], i0)) for k in ('inverse_mapping_matrices_', 'cost_matrices_')]
        on = i0 == j0 if i is None else z3.And(i0 == j0, i0 < i)
        return z3.If(on, CONGR(it)(A, Q, A, a0, b0), z3.RealVal(0))

    def t_R(it):
        o, ol = start_matrices(it, 'R')
        out = new(it, Opaque('sparse', 'old'), SPARSE)
        call(it, F('constructR'), ol, [Ptr(out)])
        G = it.ghost
        it.oblige('the unconstrained matrix is assembled', 'U' in G)
        if 'U' in G:
            it.oblige('block of each segment: A^-T Q A^-1', cmp('==', G['U'], want_R(it)))
        f = factors(it.load(out)) or []
        it.oblige('R = M^T U M', [(k, v.data) for k, v in f] == [('t', 'M'), ('m', 'U'), ('m', 'M')])
        kept_all(it, it.load(ol), o)

    def inv_R(L):
        it, G = L.it, L.it.ghost
        if G.get('mtx') != 'R' or L.level > 1:
            return None
        i = iv(L.idx)
        return [z3.And(i >= 0, i <= G['S']), cmp('==', it.load(G['E']), want_R(it, i))]

    def ov_R(it, func, this, args, node):
        if it.ghost.get('mtx') != 'get':
            return NotImplemented
        it.store(args[0].lv, Opaque('sparse', 'R'))
        return None

    def ov_map(it, func, this, args, node):
        if 'mtx' not in it.ghost:
            return NotImplemented
        it.oblige('segment time not negligible', cmp('>=', args[0], MIN_T), node)
        it.store(args[1].lv, it.S.val(SQ, MAP(it.S.sort(SQ))(rv(args[0]))))
        return None

    def dense(it, obj):
        v = it.val(obj) if not isinstance(obj, Opaque) else obj
        return isinstance(v, Opaque) and v.tag == 'dense'

    def d_resize(it, n, obj, argn):
        if 'mtx' not in it.ghost or not dense(it, obj):
            return NotImplemented
        it.store(obj, Opaque('dense', [it.rvalue(a) for a in argn]))
        it.store(it.ghost['E'], it.fresh(REAL, 'any'))
        return None

    def d_zero(it, n, obj, argn):
        if 'mtx' not in it.ghost or not dense(it, obj):
            return NotImplemented
        it.store(it.ghost['E'], Fraction(0))
        return obj

    def d_block(it, n, obj, argn):
        if 'mtx' not in it.ghost or not dense(it, obj):
            return NotImplemented
        r, c = it.val(obj).data
        x = [it.rvalue(a) for a in argn]
        it.oblige('block inside the matrix', land(cmp('>=', x[0], 0), cmp('>=', x[1], 0), cmp('<=', add(x[0], N), r), cmp('<=', add(x[1], N), c)), n)
        return Opaque('dblock', x)

    def d_assign(it, n, xs, V):
        G = it.ghost
        if 'mtx' not in G:
            return NotImplemented
        if isinstance(V[0], Opaque) and V[0].tag == 'dblock':
            r, c = [iv(x) for x in V[0].data]
            r0, c0 = G['r0'], G['c0']
            inside = z3.And(r0 >= r, r0 < r + N, c0 >= c, c0 < c + N)
            it.store(G['E'], z3.If(inside, ENTRY(it)(it.S.term(SQ, V[1]), r0 - r, c0 - c), rv(it.load(G['E']))))
            return xs[0]
        if isinstance(V[0], Opaque) and V[0].tag == 'drow' and isinstance(V[1], Opaque) and V[1].tag == 'drow':
            it.oblige('a row is scaled in place', cmp('==', V[0].data[0], V[1].data[0]), n)
            hit = G['r0'] == iv(V[0].data[0])
            it.store(G['E'], z3.If(hit, rv(it.load(G['E'])) * rv(V[1].data[1]), rv(it.load(G['E']))))
            it.store(G['scaled'], add(iv(V[0].data[0]), 1))
            return xs[0]
        if isinstance(V[0], Opaque) and V[0].tag in ('dense', 'sparse') and isinstance(V[1], Opaque):
            it.store(xs[0], V[1] if V[1].tag != 'mprod' or G['mtx'] != 'pinv' else Opaque('dense', (V[1], [])))
            return xs[0]
        return NotImplemented

    def t_blocks(name):
        def run(it):
            o, ol = start_matrices(it, 'blocks')
            out = new(it, Opaque('dense', [it.fresh(INT, 'r'), it.fresh(INT, 'c')]), SPARSE)
            call(it, F(name), ol, [Ptr(out)])
            G = it.ghost
            r, c = it.load(out).data
            it.oblige('size', land(cmp('==', r, 10 * G['S']), cmp('==', c, 10 * G['S'])))
            it.oblige('block diagonal of the matrices of the segments', cmp('==', it.load(G['E']), want_blocks(it, name)))
            kept_all(it, it.load(ol), o)
        return run

    def want_blocks(it, name, i=None):
        G = it.ghost
        i0, a0, j0, b0 = G['at']
        m = it.S.term(SQ, it.elem(G['o'].f['inverse_mapping_matrices_'], i0)) if name == 'getAInverse' else MAP(it.S.sort(SQ))(rv(it.elem(G['o'].f['segment_times_'], i0)))
        on = i0 == j0 if i is None else z3.And(i0 == j0, i0 < i)
        return z3.If(on, ENTRY(it)(m, a0, b0), z3.RealVal(0))

    def inv_blocks(name):
        def inv(L):
            it, G = L.it, L.it.ghost
            if G.get('mtx') != 'blocks':
                return None
            i = iv(L.idx)
            return [z3.And(i >= 0, i <= G['S']), cmp('==', it.load(G['E']), want_blocks(it, name, i))]
        return inv

    def t_get(it):
        o, ol = start_matrices(it, 'get')
        out = new(it, Opaque('dense', [0, 0]), SPARSE)
        call(it, F('getM'), ol, [Ptr(out)])
        it.oblige('getM hands the reordering matrix out', isinstance(it.load(out), Opaque) and it.load(out).data == 'M')
        call(it, F('getR'), ol, [Ptr(out)])
        it.oblige('getR hands R out', isinstance(it.load(out), Opaque) and it.load(out).data == 'R')
        kept_all(it, it.load(ol), o)

    # pseudo inverse
    MT = z3.Function('reordering', z3.IntSort(), z3.IntSort(), z3.RealSort())
    SUM = z3.Function('column_sum', z3.IntSort(), z3.RealSort())

    def t_pinv(it):
        o, ol = start_matrices(it, 'pinv')
        G = it.ghost
        r0, c0, m = z3.Ints('r0 c0 m')
        it.assume(z3.And(m >= 0, m < 2 ** 30, r0 >= 0, r0 < m, c0 >= 0))
        r = z3.Int('r!')
        it.assume(every([r], z3.Implies(z3.And(r >= 0, r < m), SUM(r) >= 1), [SUM(r)]))
        G.update(r0=r0, c0=c0, m=m, E=it.alloc(MT(c0, r0), REAL), scaled=it.alloc(0, INT))
        out = new(it, Opaque('dense', [it.fresh(INT, 'r'), it.fresh(INT, 'c')]), SPARSE)
        call(it, F('getMpinv'), ol, [Ptr(out)])
        it.oblige('the transposed with each row divided by its sum', cmp('==', mul(it.load(G['E']), SUM(r0)), MT(c0, r0)))
        kept_all(it, it.load(ol), o)

    def pin(it, obj):
        v = it.val(obj)
        if it.ghost.get('mtx') != 'pinv' or not (isinstance(v, Opaque) and v.tag == 'dense'):
            return False
        ok = isinstance(v.data[0], Opaque) and [(k, x.data) for k, x in v.data[0].data] == [('t', 'M')]
        it.oblige('made from the transposed reordering matrix', ok)
        return ok

    def p_rows(it, n, obj, argn):
        return it.ghost['m'] if 'mtx' in it.ghost and pin(it, obj) else NotImplemented

    def p_row(it, n, obj, argn):
        if 'mtx' not in it.ghost or not pin(it, obj):
            return NotImplemented
        i = it.rvalue(argn[0])
        it.oblige('row inside the matrix', land(cmp('>=', i, 0), cmp('<', i, it.ghost['m'])), n)
        return Opaque('drow', (i, Fraction(1)))

    def p_sum(it, n, obj, argn):
        v = it.val(obj)
        if 'mtx' not in it.ghost or not (isinstance(v, Opaque) and v.tag == 'drow'):
            return NotImplemented
        it.oblige('the sum is that of the row as it was', cmp('>=', v.data[0], it.load(it.ghost['scaled'])), n)
        return mul(SUM(iv(v.data[0])), v.data[1])

    def p_div(it, n, xs, V):
        if 'mtx' not in it.ghost or not (isinstance(V[0], Opaque) and V[0].tag == 'drow'):
            return NotImplemented
        return Opaque('drow', (V[0].data[0], rdiv(V[0].data[1], V[1])))

    def inv_pinv(L):
        it, G = L.it, L.it.ghost
        if G.get('mtx') != 'pinv':
            return None
        i = iv(L.idx)
        E = rv(it.load(G['E']))
        return [z3.And(i >= 0, i <= G['m'], iv(it.load(G['scaled'])) <= i), z3.If(G['r0'] < i, E * SUM(G['r0']) == MT(G['c0'], G['r0']), E == MT(G['c0'], G['r0']))]

    # ------------------------------------------------ optimality
    def l_optimal(it):
        """J(f, p + w) >= J(f, p) when Rpp p + Rpf f = 0: a symmetric form B, its value on pairs of the parts"""
        ff_, fp, pp, fw, pw, ww = reals('B', 6)
        # B(z, w) = B_fw + B_pw with z = (f, p): the rows of R that belong to the free part give Rpf f + Rpp p = 0
        it.assume(fw + pw == 0)
        # the cost is a sum of squares (see 'cost is not negative'), so the form is not negative on (0, w)
        it.assume(ww >= 0)
        J = lambda a, b, c: (a + 2 * b + c) / 2
        it.oblige('no other free values cost less', J(ff_, fp + fw, pp + 2 * pw + ww) >= J(ff_, fp, pp))

    def l_expand(it):
        """J(f, p + w) = J(f, p) + w' (Rpf f + Rpp p) + w' Rpp w / 2 for symmetric R, here with two fixed and three free values"""
        a, b = 2, 3
        n = a + b
        sym = {}
        R = [[sym.setdefault((min(i, j), max(i, j)), z3.Real('R%d_%d' % (min(i, j), max(i, j)))) for j in range(n)] for i in range(n)]
        f, p, w = reals('f', a), reals('p', b), reals('w', b)
        J = lambda y: mul(Fraction(1, 2), fold(mul(mul(R[i][j], y[i]), y[j]) for i in range(n) for j in range(n)))
        grad = [add(fold(mul(R[a + i][j], f[j]) for j in range(a)), fold(mul(R[a + i][a + j], p[j]) for j in range(b))) for i in range(b)]
        rest = add(fold(mul(w[i], grad[i]) for i in range(b)), mul(Fraction(1, 2), fold(mul(mul(R[a + i][a + j], w[i]), w[j]) for i in range(b) for j in range(b))))
        it.oblige('the change of the cost', cmp('==', J(f + [add(x, y) for x, y in zip(p, w)]), add(J(f + p), rest)))

    def l_congruence(it):
        """(A x)' Q (A x) = x' (A' Q A) x, here with four rows"""
        n = 4
        A, Q, x = [[z3.Real('A%d_%d' % (i, j)) for j in range(n)] for i in range(n)], [[z3.Real('Q%d_%d' % (i, j)) for j in range(n)] for i in range(n)], reals('x', n)
        c = [fold(mul(A[i][j], x[j]) for j in range(n)) for i in range(n)]
        lhs = fold(mul(mul(Q[i][j], c[i]), c[j]) for i in range(n) for j in range(n))
        Hm = [[fold(mul(mul(A[k][i], Q[k][l]), A[l][j]) for k in range(n) for l in range(n)) for j in range(n)] for i in range(n)]
        it.oblige('the cost in terms of the end derivatives', cmp('==', lhs, fold(mul(mul(Hm[i][j], x[i]), x[j]) for i in range(n) for j in range(n))))

    mh = {'push': h_push, 'member:transpose': m_transpose, 'op:operator*': m_times, 'ctor': m_ctor, 'member:setFromTriplets': m_triplets, 'member:resize': d_resize, 'member:setZero': d_zero, 'member:block': d_block,
          'op:operator=': d_assign, 'member:rows': p_rows, 'member:row': p_row, 'member:sum': p_sum, 'op:operator/': p_div}
    mo = {q + 'constructR': ov_R, q + 'setupMappingMatrix': ov_map}
    return [
        Task('cost matrix', t_matrix, [q + 'computeQuadraticCostJacobian'], exact=True),
        Task('cost matrix is the integral', l_integral, [], exact=True, lemma=True),
        Task('cost is not negative', l_positive, [], exact=True, lemma=True),
        Task('cost of the trajectory', t_cost, [q + 'computeCost'], invariants={'computeCost': [('cost', inv_cost)]}, hooks={'member:transpose': h_transpose, 'op:operator*': h_form, 'member:dot': h_dot},
             cut_all=('computeCost',), bounded=[('at most 2 segments, 2 dimensions', t_cost)]),
        Task('matrix of the normal equations', t_R, [q + 'constructR'], invariants={'constructR': [('R', inv_R)]}, hooks=mh, budget=200),
        Task('getA', t_blocks('getA'), [q + 'getA'], invariants={'getA': [('blocks', inv_blocks('getA'))]}, hooks=mh, overrides=mo),
        Task('getAInverse', t_blocks('getAInverse'), [q + 'getAInverse'], invariants={'getAInverse': [('blocks', inv_blocks('getAInverse'))]}, hooks=mh, overrides=mo),
        Task('getM and getR', t_get, [q + 'getM', q + 'getR'], hooks=mh, overrides=mo),
        Task('pseudo inverse', t_pinv, [q + 'getMpinv'], invariants={'getMpinv': [('pinv', inv_pinv)]}, hooks=mh),
        Task('stationary is optimal', l_optimal, [], exact=True, lemma=True),
        Task('change of the cost', l_expand, [], exact=True, lemma=True),
        Task('cost in terms of the end derivatives', l_congruence, [], exact=True, lemma=True),
    ] + solver_tasks(db)
