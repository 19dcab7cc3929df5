"""C12: Optimised trajectories meet every vertex constraint and are continuous.

Contracts (any number of vertices and dimensions, any constraint pattern and values, any times of at least 2^-52 s, any history of the object that keeps its list sizes):
  setupMappingMatrix, invertMappingMatrix   the derivatives 0..4 at both ends as a function of the ten coefficients, and the inverse of that map, symbolically in the segment time
  setupFromVertices         constraints up to order 4 are taken over with their values and higher ones dropped; sizes, times and derivative are set before they are used
  setupConstraintReorderingMatrix   row 10 i + 5 e + k stands for derivative k of vertex i + e, the column has its one in exactly the column of that derivative, a fixed column carries the value
                            of the constraint, the free values have the size of the free derivatives
  updateSegmentTimes        times stored, the matrices of every segment recomputed for its time
  updateSegmentsFromCompactConstraints   each segment gets its time and, per dimension, the inverse mapping of the end derivatives its rows stand for
  setFreeConstraints, solveLinear   end with that assembly on the final values, whatever they are
  getters                   hand out what is stored
Lemmas: these coefficients have the wanted derivatives at both ends; a row has exactly one column, shared across a joint.
"""
from .optlib import *
from .optsolve import solver_tasks
ASSUMPTIONS = ['Eigen sparse matrix assembly (setFromTriplets adds what is recorded per entry), block and product as documented', 'the inverse of the 5x5 end block computed by Eigen is its inverse', 'segment times of at least 2^-52 s']
NATIVE = {'src': 'c12.cpp', 'with': ['$MAV/src/' + x for x in ('trajectory.cpp', 'segment.cpp', 'polynomial.cpp', 'vertex.cpp', 'motion_defines.cpp', 'rpoly/rpoly_ak1.cpp')], 'n': 3000, 'flags': ['-fno-access-control']}


def tasks(db, tier):
    F = lambda x, **kw: find(db, PO + '::' + x, **kw)
    T = z3.Real('T')

    def t_mapping(it):
        it.assume(T >= rv(MIN_T))
        A = new(it, it.fresh_named(SQ, 'A'), SQ)
        call(it, F('setupMappingMatrix'), None, [T, Ptr(A)])
        same(it, 'derivatives at the start and the end of the segment', rows(it.load(A)), mapping(T))

    def inverse_hook(it, m, n):
        """the unique inverse, given explicitly"""
        cand = [[x for x in row[H:]] for row in mapping_inverse(T)[H:]]
        D = rows(m)
        P = [[fold(mul(D[i][k], cand[k][j]) for k in range(H)) for j in range(H)] for i in range(H)]
        same(it, 'the block inverted is invertible', P, [[int(i == j) for j in range(H)] for i in range(H)])
        return mat(cand)

    def t_inverse(it):
        it.assume(T >= rv(MIN_T))
        A = new(it, mat(mapping(T)), SQ)
        B = new(it, it.fresh_named(SQ, 'B'), SQ)
        call(it, F('invertMappingMatrix'), None, [A, Ptr(B)])
        b = rows(it.load(B))
        a = mapping(T)
        I = [[Fraction(int(i == j)) for j in range(N)] for i in range(N)]
        same(it, 'the inverse of the mapping', [[fold(mul(b[i][k], a[k][j]) for k in range(N)) for j in range(N)] for i in range(N)], I)
        same(it, 'closed form of the inverse', b, mapping_inverse(T))

    # ------------------------------------------------ numbering of the vertex derivatives
    def t_order(it):
        a, b = [it.fresh_named(CON, x) for x in 'ab']
        al, bl = new(it, a, CON), new(it, b, CON)
        lt = call(it, find(db, NS + 'Constraint::operator<'), al, [bl])
        eq = call(it, find(db, NS + 'Constraint::operator=='), al, [bl])
        va, ca, vb, cb = [iv(x) for x in (a.f['vertex_idx'], a.f['constraint_idx'], b.f['vertex_idx'], b.f['constraint_idx'])]
        it.oblige('ordered by vertex, then derivative', bv(lt) == z3.Or(va < vb, z3.And(va == vb, ca < cb)))
        it.oblige('equal when of the same vertex and derivative', bv(eq) == z3.And(va == vb, ca == cb))

    KT = ('pair', S64, S64)

    def pair(it, a, b):
        return it.S.term(KT, SV('$pair', {'first': a, 'second': b}))

    def vert(it, o, v):
        return it.elem(o.f['vertices_'], v)

    def con(it, o, v, k):
        """is derivative k of vertex v constrained, and to what"""
        m = vert(it, o, v).f['constraints_']
        return bv(it.map_has(m, k)), m

    def t_reorder(it):
        o = arbitrary(it)
        S_, D = iv(o.f['n_segments_']), iv(o.f['dimension_'])
        it.assume(z3.And(S_ >= 1, o.f['n_vertices_'] == S_ + 1, o.f['vertices_'].n == S_ + 1, D >= 1, o.f['fixed_constraints_compact_'].n == D, o.f['free_constraints_compact_'].n == D))
        i0, e0, k0, c0, d0, q1, q2 = z3.Ints('i0 e0 k0 c0 d0 q1 q2')
        it.assume(z3.And(i0 >= 0, i0 < S_, e0 >= 0, e0 <= 1, k0 >= 0, k0 < H, c0 >= 0, d0 >= 0, d0 < D, q1 >= 0, q2 >= 0))
        ol = new(it, o)
        # constraint values have the dimension of the problem
        v, k = z3.Ints('v! k!')
        h, m = con(it, o, v, k)
        x = it.S.term(EVT, it.map_get(m, k))
        it.assume(every([v, k], z3.Implies(z3.And(v >= 0, v <= S_, h), it.S.acc(it.S.sort(EVT), 0, x) == D), [x]))
        M = it.alloc(Fraction(0), REAL)
        it.ghost.update(o=o, ol=ol, S=S_, D=D, v0=i0 + e0, k0=k0, r0=10 * i0 + 5 * e0 + k0, c0=c0, d0=d0, q=(q1, q2), M=M)
        it.e.peel = 0
        call(it, F('setupConstraintReorderingMatrix'), ol, [])
        G = it.ghost
        g = it.load(ol)
        same_but(it, 'nothing else changes', g, o, ('constraint_reordering_', 'fixed_constraints_compact_', 'free_constraints_compact_', 'n_all_constraints_', 'n_fixed_constraints_', 'n_free_constraints_'))
        kf, kp, nf, np_ = column(it, *G['sets'], c0)
        it.oblige('one row per derivative at each end of each segment', cmp('==', g.f['n_all_constraints_'], 10 * S_))
        it.oblige('the numbers of fixed and free derivatives', land(cmp('==', g.f['n_fixed_constraints_'], nf), cmp('==', g.f['n_free_constraints_'], np_)))
        it.oblige('size of the reordering matrix', land(cmp('==', G['dims'][0], 10 * S_), cmp('==', G['dims'][1], nf + np_)))
        k0p = pair(it, i0 + e0, k0)
        it.assume(c0 < nf + np_)
        hit = z3.If(c0 < nf, kf == k0p, kp == k0p)
        it.oblige('the entry is one where the column is that derivative of that vertex and zero elsewhere', cmp('==', G['final'], z3.If(hit, z3.RealVal(1), z3.RealVal(0))))
        h, m = con(it, o, i0 + e0, k0)
        fx, fr = [it.symset(x) for x in G['sets']]
        it.oblige('a derivative is among the fixed ones when constrained, else among the free ones', z3.And(z3.Select(fx.dom, k0p) == h, z3.Select(fr.dom, k0p) == z3.Not(h)))
        fc = g.f['fixed_constraints_compact_']
        it.oblige('fixed values of every dimension', land(cmp('==', fc.n, D), cmp('==', size(it.elem(fc, d0)), nf)))
        dp = g.f['free_constraints_compact_']
        it.oblige('free values of every dimension', land(cmp('==', dp.n, D), cmp('==', size(it.elem(dp, d0)), np_)))
        it.oblige('the fixed value is the one of the constraint', z3.Implies(z3.And(c0 < nf, kf == k0p), rv(it.elem(it.elem(fc, d0), c0)) == rv(it.elem(it.map_get(m, k0), d0))))

    def same_but(it, nm, a, b, names):
        for k in b.f:
            if k not in names and a.f[k] is not b.f[k]:
                t = dict(it.S.fields(PO))[k]
                it.oblige(nm + ': ' + k, it.S.term(t, a.f[k]) == it.S.term(t, b.f[k]))

    def column(it, fx, fr, c):
        """the (vertex, derivative) a column of the reordering matrix stands for"""
        Kf, _, nf = it.map_enum(it.symset(fx))
        Kp, _, np_ = it.map_enum(it.symset(fr))
        return Kf(c), Kp(c - nf), iv(nf), iv(np_)

    def on_push(it, lv, seq, x):
        """the sum of what is recorded for entry (r0, c0)"""
        G = it.ghost
        if 'M' not in G or seq.et != ('triplet',):
            return
        if seq.conc and not seq.items:
            it.store(G['M'], Fraction(0))
        hit = land(cmp('==', x.f['row'], G['r0']), cmp('==', x.f['col'], G['c0']))
        it.store(G['M'], add(it.load(G['M']), ite(hit, x.f['value'], Fraction(0))))

    def inv_sort(L):
        """first loop nest: what has been collected after p vertices, o occurrences and k derivatives of the current one"""
        it, G = L.it, L.it.ghost
        if 'M' not in G or bounded(it) or L.has('row') or L.extra or not L.has('vertex_idx'):
            return None
        v = iv(L['vertex_idx'])
        occ = iv(L['co']) if L.level >= 2 else z3.IntVal(0)
        k = iv(L['constraint_idx']) if L.level >= 3 else z3.IntVal(0)
        al, fx, fr = L['all_constraints'], it.symset(L['fixed_constraints']), it.symset(L['free_constraints'])
        S_, o = G['S'], G['o']
        base = z3.If(v == 0, 0, z3.If(v <= S_, 10 * v - 5, 10 * S_))
        out = [v >= 0, v <= S_ + 1, iv(al.n) == base + H * occ + k]
        if L.level >= 2:
            nocc = z3.If(z3.Or(v == 0, v == S_), 1, 2)
            out += [v <= S_, occ >= 0, occ <= nocc]
        if L.level >= 3:
            out += [occ < nocc, k >= 0, k <= H]
        r = it.elem(al, G['r0'])
        y = z3.Const('q!', fx.dom.sort().domain())
        e = z3.Select(fx.val, y)
        out.append(every([y], z3.Implies(z3.Select(fx.dom, y), iv(size(it.S.val(CON, e).f['value'])) == G['D']), [e]))
        out.append(z3.Implies(G['r0'] < iv(al.n), land(cmp('==', r.f['vertex_idx'], G['v0']), cmp('==', r.f['constraint_idx'], G['k0']))))
        for a, b in ((G['v0'], G['k0']), G['q']):
            h, m = con(it, o, a, b)
            q = pair(it, a, b)
            seen = z3.And(b < H, z3.Or(a < v, z3.And(a == v, z3.Or(occ >= 1, b < k))))
            out.append(z3.Select(fx.dom, q) == z3.And(seen, h))
            out.append(z3.Select(fr.dom, q) == z3.And(seen, z3.Not(h)))
            for st in (fx, fr):
                e = it.S.val(CON, z3.Select(st.val, q))
                out.append(z3.Implies(z3.Select(st.dom, q), land(cmp('==', e.f['vertex_idx'], a), cmp('==', e.f['constraint_idx'], b), cmp('==', size(e.f['value']), G['D']),
                                                              *([cmp('==', it.elem(e.f['value'], G['d0']), it.elem(it.map_get(m, b), G['d0']))] if st is fx else []))))
        return out

    def inv_fill(L):
        """the loops that number the columns and fill the matrix"""
        it, G = L.it, L.it.ghost
        if 'M' not in G or bounded(it) or not L.has('all_constraints') or not (L.extra or L.has('row')):
            return None
        o = it.load(G['ol'])
        fc = o.f['fixed_constraints_compact_']
        fx, fr = L['fixed_constraints'], L['free_constraints']
        kf, kp, nf, np_ = column(it, fx, fr, G['c0'])
        c0, d0, r0 = G['c0'], G['d0'], G['r0']
        G['sets'] = fx, fr
        if True:
            it.assume(z3.Implies(c0 < nf, kf == pair(it, *G['q'])))          # q is any key: the one of column c0
            it.assume(z3.Implies(z3.And(c0 >= nf, c0 < nf + np_), kp == pair(it, *G['q'])))
        dp = o.f['free_constraints_compact_']
        out = [iv(fc.n) == G['D'], iv(dp.n) == G['D']]
        df = it.elem(fc, d0)
        y = z3.Int('d!')
        for nm, q, sz in (('fixed', fc, nf), ('free', dp, np_)):
            over = not L.has('row') and L.extra['seq'].key() == G['ol'].f(nm + '_constraints_compact_').key()
            lim = iv(L.extra['k']()) if over else G['D']
            fact = every([y], z3.Implies(z3.And(y >= 0, y < lim), it.S.acc(it.S.sort(EVT), 0, z3.Select(q.arr, y)) == sz), [z3.Select(q.arr, y)])
            out.append(fact)
        if not L.has('row'):
            return out
        row, col = iv(L['row']), iv(L['col'])
        k0 = pair(it, G['v0'], G['k0'])
        hit = z3.If(c0 < nf, kf == k0, z3.And(c0 < nf + np_, kp == k0))
        h, m = con(it, o, G['v0'], G['k0'])
        want = it.elem(it.map_get(m, G['k0']), d0)
        M = rv(it.load(G['M']))
        part = z3.And(r0 == row, c0 < col)
        if L.level == 1:
            out += [row == iv(L.extra['k']()), col == 0]
        elif L.level == 2:
            j = iv(L.extra['k']())
            out.append(col == (j if L.extra['set'].cell == L.frame.names['fixed_constraints'].cell else nf + j))
        if L.level < 3:
            out.append(M == z3.If(z3.And(z3.Or(r0 < row, part), hit), z3.RealVal(1), z3.RealVal(0)))
        else:
            part = z3.Or(part, z3.And(c0 == col, iv(L.idx) > d0))
        out.append(z3.Implies(z3.And(z3.Or(r0 < row, part), c0 < nf, kf == k0), rv(it.elem(df, c0)) == rv(want)))
        return out

    def check_matrix(it, n, obj, argn):
        """the matrix is assembled from exactly the list that was summed up"""
        G = it.ghost
        if 'M' not in G:
            return NotImplemented
        b, e = [it.rvalue(a) for a in argn[:2]]
        seq = it.load(b.lv)
        it.oblige('all triplets are used', land(cmp('==', b.idx, 0), cmp('==', e.idx, seq.n), b.lv.key() == e.lv.key()), n)
        G['final'] = it.load(G['M'])
        G['dims'] = it.val(obj).data
        return None

    def sparse_ctor(it, n, t, argn):
        if 'SparseMatrix' not in n['type']['qualType'] or len(argn) != 2:
            return NotImplemented
        return Opaque('sparse', [it.rvalue(a) for a in argn])


    # ------------------------------------------------ assembly of the segments
    COL = z3.Function('column_of_row', z3.IntSort(), z3.IntSort())

    def mv(it, M, x):
        """matrix times vector, by name"""
        m = it.S.term(SQ, M)
        return [z3.Function('row%d_times' % j, m.sort(), *[z3.RealSort()] * N, z3.RealSort())(m, *[rv(y) for y in x]) for j in range(N)]

    def compact(it, o, d, r):
        """the end derivative that row r stands for, from the compact values of dimension d"""
        nf = iv(o.f['n_fixed_constraints_'])
        c = COL(r)
        return z3.If(c < nf, rv(it.elem(it.elem(o.f['fixed_constraints_compact_'], d), c)), rv(it.elem(it.elem(o.f['free_constraints_compact_'], d), c - nf)))

    def solved(it, o, i, d):
        """coefficients of segment i in dimension d"""
        return mv(it, it.elem(o.f['inverse_mapping_matrices_'], i), [compact(it, o, d, 10 * i + j) for j in range(N)])

    def shaped(it, o):
        """sizes after setup, and a reordering matrix with one entry per row"""
        S_, D = iv(o.f['n_segments_']), iv(o.f['dimension_'])
        nf, np_ = iv(o.f['n_fixed_constraints_']), iv(o.f['n_free_constraints_'])
        it.assume(z3.And(S_ >= 1, D >= 1, D < 1000, nf + np_ == 5 * (S_ + 1)))
        for k, n in (('segments_', S_), ('segment_times_', S_), ('inverse_mapping_matrices_', S_), ('cost_matrices_', S_), ('fixed_constraints_compact_', D), ('free_constraints_compact_', D), ('vertices_', S_ + 1)):
            it.assume(iv(o.f[k].n) == n)
        r = z3.Int('r!')
        it.assume(every([r], z3.Implies(z3.And(r >= 0, r < 10 * S_), z3.And(COL(r) >= 0, COL(r) < nf + np_)), [COL(r)]))
        return S_, D, nf, np_

    def sized(it, seq, t, acc, lo, hi, n):
        """every element lo..hi of a list has size(s) n"""
        i = z3.Int('z!')
        ys = acc(z3.Select(seq.arr, i))
        return every([i], z3.Implies(z3.And(i >= lo, i < hi), z3.And(*[y == n for y in ys])), [z3.Select(seq.arr, i)])

    def vsize(it):
        return lambda x: [it.S.acc(it.S.sort(EVT), 0, x)]

    def psize(it):
        names = [k for k, _ in it.S.fields(SG[1])]
        ft = dict(it.S.fields(SG[1]))['polynomials_']
        at = lambda x, k: it.S.acc(it.S.sort(SG), names.index(k), x)
        return lambda x: [it.S.acc(it.S.sort(ft), 0, at(x, 'polynomials_')), at(x, 'D_')]

    def t_assemble(it):
        o = arbitrary(it)
        S_, D, nf, np_ = shaped(it, o)
        it.assume(sized(it, o.f['fixed_constraints_compact_'], EVT, vsize(it), 0, D, nf))
        it.assume(sized(it, o.f['free_constraints_compact_'], EVT, vsize(it), 0, D, np_))
        it.assume(sized(it, o.f['segments_'], SG, psize(it), 0, S_, D))
        i0, d0 = z3.Ints('i0 d0')
        it.assume(z3.And(i0 >= 0, i0 < S_, d0 >= 0, d0 < D))
        ol = new(it, o)
        it.ghost.update(asm=o, ol=ol, i0=i0, d0=d0, want=solved(it, o, i0, d0))
        it.e.peel = 0
        call(it, F('updateSegmentsFromCompactConstraints'), ol, [])
        g = it.load(ol)
        same_but(it, 'nothing else changes', g, o, ('segments_',))
        assembled(it, g, i0, d0, it.ghost['want'])

    def assembled(it, g, i0, d0, want):
        s = it.elem(g.f['segments_'], i0)
        it.oblige('one segment per vertex pair', cmp('==', g.f['segments_'].n, g.f['n_segments_']))
        it.oblige('time of the segment', cmp('==', s.f['time_'], it.elem(g.f['segment_times_'], i0)))
        it.oblige('one polynomial per dimension', land(cmp('==', s.f['polynomials_'].n, g.f['dimension_']), cmp('==', s.f['D_'], g.f['dimension_'])))
        p = it.elem(s.f['polynomials_'], d0)
        it.oblige('number of coefficients', land(cmp('==', p.f['N_'], N), cmp('==', size(p.f['coefficients_']), N)))
        for j in range(N):
            it.oblige('coefficients are the inverse mapping of the end derivatives', cmp('==', it.elem(p.f['coefficients_'], j), want[j]))

    def inv_assemble(L):
        it, G = L.it, L.it.ghost
        if 'asm' not in G or bounded(it):
            return None
        o, g = G['asm'], it.load(G['ol'])
        d = iv(L['dimension_idx'])
        i = iv(L['i']) if L.level >= 2 else z3.IntVal(0)
        S_, D = iv(o.f['n_segments_']), iv(o.f['dimension_'])
        seg = it.elem(g.f['segments_'], G['i0'])
        p = it.elem(seg.f['polynomials_'], G['d0'])
        done = z3.Or(G['d0'] < d, z3.And(G['d0'] == d, G['i0'] < i))
        timed = z3.Or(d > 0, G['i0'] < i)
        c = p.f['coefficients_']
        out = [d >= 0, d <= D, i >= 0, i <= S_, iv(g.f['segments_'].n) == S_, sized(it, g.f['segments_'], SG, psize(it), 0, S_, D),
               z3.Implies(timed, rv(seg.f['time_']) == rv(it.elem(o.f['segment_times_'], G['i0']))),
               z3.Implies(done, land(cmp('==', p.f['N_'], N), cmp('==', size(c), N)))]
        for j in range(N):
            out.append(z3.Implies(done, rv(it.elem(c, j)) == G['want'][j]))
        return out

    def h_block(it, n, obj, argn):
        G = it.ghost
        if 'asm' not in G:
            return NotImplemented
        x = [it.rvalue(a) for a in argn]
        o = G['asm']
        it.oblige('rows of one segment, all columns', land(cmp('==', x[1], 0), cmp('==', x[2], N), cmp('==', x[3], add(o.f['n_fixed_constraints_'], o.f['n_free_constraints_']))), n)
        it.oblige('rows exist', land(cmp('>=', x[0], 0), cmp('<=', add(x[0], N), mul(10, o.f['n_segments_']))), n)
        return Opaque('rblock', x)

    def h_times(it, n, xs, V):
        if 'asm' not in it.ghost:
            return NotImplemented
        if isinstance(V[0], Opaque) and V[0].tag == 'rblock':
            r0, _, nr, nc = V[0].data
            it.oblige('Eigen product sizes agree', cmp('==', size(V[1]), nc), n)
            return Mat(N, 1, [it.elem(V[1], COL(iv(r0) + j)) for j in range(N)])
        if isinstance(V[0], Mat) and isinstance(V[1], Mat) and V[0].c == N and V[1].c == 1:
            return Mat(N, 1, mv(it, V[0], V[1].d))
        return NotImplemented

    # ------------------------------------------------ setup
    def t_setup(it):
        o = arbitrary(it)
        vs, times = it.fresh_named(('seq', VX, 'vector'), 'vertices'), it.fresh_named(('seq', REAL, 'vector'), 'times')
        r = z3.Int('derivative')
        S_, D = iv(vs.n) - 1, iv(o.f['dimension_'])
        v0, k0, i0, v, k = z3.Ints('v0 k0 i0 v! k!')
        it.assume(z3.And(S_ >= 1, S_ < 2 ** 30, D >= 1, D < 1000, times.n == S_, r >= 0, r <= 4, v0 >= 0, v0 <= S_, i0 >= 0, i0 < S_))
        for n in ('fixed', 'free'):
            it.assume(o.f[n + '_constraints_compact_'].n == D)
        it.assume(sized(it, o.f['segments_'], SG, psize(it), 0, o.f['segments_'].n, D))
        m = it.elem(vs, v).f['constraints_']
        x = it.S.term(EVT, it.map_get(m, k))
        it.assume(every([v, k], z3.Implies(z3.And(v >= 0, v <= S_, bv(it.map_has(m, k))), it.S.acc(it.S.sort(EVT), 0, x) == D), [x]))
        ol = new(it, o)
        tl = new(it, times)
        it.ghost.update(stp=o, ol=ol, vs=vs, times=times, S=S_, D=D, v0=v0, k0=k0, i0=i0, r=r)
        it.e.peel = 0
        res = call(it, F('setupFromVertices'), ol, [new(it, vs), tl, r])
        g = it.load(ol)
        it.oblige('accepted', bv(res))
        it.oblige('derivative to optimise', cmp('==', g.f['derivative_to_optimize_'], r))
        it.oblige('segment times and their matrices are set', 'times set' in it.ghost)
        it.oblige('derivatives are numbered', 'numbered' in it.ghost)
        ready(it, g)

    def ready(it, g):
        """what numbering and assembly rely on"""
        G = it.ghost
        S_, D = G['S'], G['D']
        it.oblige('one segment per vertex pair', land(cmp('==', g.f['n_vertices_'], S_ + 1), cmp('==', g.f['n_segments_'], S_), cmp('==', g.f['segments_'].n, S_), cmp('==', g.f['vertices_'].n, S_ + 1)))
        it.oblige('dimension kept', land(cmp('==', g.f['dimension_'], D), cmp('==', g.f['fixed_constraints_compact_'].n, D), cmp('==', g.f['free_constraints_compact_'].n, D)))
        s = it.elem(g.f['segments_'], G['i0'])
        it.oblige('segments have the dimension', land(cmp('==', s.f['D_'], D), cmp('==', s.f['polynomials_'].n, D)))
        h0, m0 = con(it, SV(PO, dict(G['stp'].f, vertices_=G['vs'])), G['v0'], G['k0'])
        h1, m1 = con(it, g, G['v0'], G['k0'])
        it.oblige('constraints of the vertices up to the supported order are taken over', h1 == z3.And(h0, G['k0'] <= 4))
        it.oblige('with their values', z3.Implies(h1, it.S.term(EVT, it.map_get(m1, G['k0'])) == it.S.term(EVT, it.map_get(m0, G['k0']))))

    def ov_times(it, func, this, args, node):
        G = it.ghost
        if 'stp' not in G:
            return NotImplemented
        g, t = it.load(this), it.val(args[0])
        it.oblige('the times given are set', land(cmp('==', t.n, G['S']), cmp('==', it.elem(t, G['i0']), it.elem(G['times'], G['i0']))), node)
        it.oblige('sizes are set before the times', land(*[cmp('==', x, G['S']) for x in (g.f['n_segments_'], g.f['cost_matrices_'].n, g.f['inverse_mapping_matrices_'].n)]), node)
        it.oblige('the derivative is set before the times', cmp('==', g.f['derivative_to_optimize_'], G['r']), node)
        for k in ('cost_matrices_', 'inverse_mapping_matrices_'):
            f = it.fresh(MATS, 'set')
            it.assume(f.n == G['S'])
            g = g.with_(k, f)
        it.store(this, g.with_('segment_times_', t))
        G['times set'] = 1
        return None

    def ov_number(it, func, this, args, node):
        G = it.ghost
        if 'stp' not in G:
            return NotImplemented
        g = it.load(this)
        ready(it, g)
        for k in ('fixed', 'free'):
            f = it.fresh(('seq', EVT, 'vector'), 'set')
            it.assume(f.n == G['D'])
            g = g.with_(k + '_constraints_compact_', f)
        for k in ('all', 'fixed', 'free'):
            g = g.with_('n_%s_constraints_' % k, it.fresh(S64, 'n'))
        it.store(this, g)
        G['numbered'] = 1
        return None

    def inv_filter(L):
        it, G = L.it, L.it.ghost
        if 'stp' not in G or bounded(it):
            return None
        g, vs = it.load(G['ol']), G['vs']
        vi = iv(L['vertex_idx'])
        v0, k0 = G['v0'], G['k0']
        h0, m0 = con(it, SV(PO, dict(G['stp'].f, vertices_=vs)), v0, k0)
        h1, m1 = con(it, g, v0, k0)
        done = v0 < vi
        took = lambda h, m, lim: [h == z3.And(h0, lim), z3.Implies(h, it.S.term(EVT, it.map_get(m, k0)) == it.S.term(EVT, it.map_get(m0, k0)))]
        out = [vi >= 0, vi <= G['S'] + 1, g.f['vertices_'].n == G['S'] + 1]
        z = z3.Int('z!')
        arr = lambda q: z3.Select(q.arr, z)
        out.append(every([z], z3.Implies(z3.And(z >= vi, z <= G['S']), arr(g.f['vertices_']) == arr(vs)), [arr(g.f['vertices_'])]))
        for a, b in ((done, k0 <= 4),):
            out += [z3.Implies(a, y) for y in took(h1, m1, b)]
        if L.level >= 2:
            m = it.elem(g.f['vertices_'], vi).f['constraints_']
            K, I, n = it.map_enum(m)
            j = iv(L['it'].key)
            tmp = L['vertex_tmp'].f
            out += [vi <= G['S'], j >= 0, j <= n, cmp('==', tmp['D_'], G['D'])]
            cur = v0 == vi
            seen = z3.And(I(k0) < j, k0 <= 4)
            out += [z3.Implies(cur, y) for y in took(bv(it.map_has(tmp['constraints_'], k0)), tmp['constraints_'], seen)]
            out.append(z3.Implies(z3.And(cur, bv(L['vertex_valid']), h0, I(k0) < j), k0 <= 4))
        return out

    # ------------------------------------------------ segment times
    def t_times(it):
        o = arbitrary(it)
        S_, D, nf, np_ = shaped(it, o)
        times = it.fresh_named(('seq', REAL, 'vector'), 'times')
        i, i0 = z3.Ints('t! i0')
        it.assume(every([i], z3.Implies(z3.And(i >= 0, i < iv(times.n)), z3.Select(times.arr, i) >= rv(MIN_T)), [z3.Select(times.arr, i)]))
        it.assume(z3.And(iv(times.n) == S_, i0 >= 0, i0 < S_))
        it.assume(z3.And(iv(o.f['derivative_to_optimize_']) >= 0, iv(o.f['derivative_to_optimize_']) <= 4))
        ol = new(it, o)
        it.ghost.update(tim=o, ol=ol, i0=i0, times=times)
        it.e.peel = 0
        call(it, F('updateSegmentTimes'), ol, [new(it, times)])
        g = it.load(ol)
        same_but(it, 'nothing else changes', g, o, ('segment_times_', 'cost_matrices_', 'inverse_mapping_matrices_'))
        it.oblige('times stored', land(cmp('==', g.f['segment_times_'].n, S_), cmp('==', it.elem(g.f['segment_times_'], i0), it.elem(times, i0))))
        for x in per_segment(it, g, i0, it.elem(times, i0), iv(o.f['derivative_to_optimize_'])):
            it.oblige('matrices of the segment belong to its time', x)

    def per_segment(it, g, i, T, r):
        s = it.S.sort(SQ)
        return [cmp('==', g.f['cost_matrices_'].n, g.f['n_segments_']), cmp('==', g.f['inverse_mapping_matrices_'].n, g.f['n_segments_']),
                it.S.term(SQ, it.elem(g.f['cost_matrices_'], i)) == COST(s)(iv(r), rv(T)),
                it.S.term(SQ, it.elem(g.f['inverse_mapping_matrices_'], i)) == INV(s)(MAP(s)(rv(T)))]

    MAP = lambda s: z3.Function('mapping_matrix', z3.RealSort(), s)
    INV = lambda s: z3.Function('inverse_matrix', s, s)
    COST = lambda s: z3.Function('cost_matrix', z3.IntSort(), z3.RealSort(), s)

    def inv_times(L):
        it, G = L.it, L.it.ghost
        if 'tim' not in G or bounded(it):
            return None
        o, g = G['tim'], it.load(G['ol'])
        i, i0 = iv(L.idx), G['i0']
        T, r = it.elem(G['times'], i0), iv(o.f['derivative_to_optimize_'])
        a = per_segment(it, g, i0, T, r)
        return [i >= 0, i <= iv(o.f['n_segments_'])] + a[:2] + [z3.Implies(i0 < i, x) for x in a[2:]]

    def by_name(it, f, this, args, node, what):
        if not ({'tim', 'pre'} & set(it.ghost)):
            return NotImplemented
        s = it.S.sort(SQ)
        if what == 'cost':
            it.oblige('derivative to optimise is supported', land(cmp('>=', args[0], 0), cmp('<=', args[0], 4)), node)
            x, out = COST(s)(iv(args[0]), rv(args[1])), args[2]
        elif what == 'map':
            it.oblige('segment time not negligible', cmp('>=', args[0], MIN_T), node)
            x, out = MAP(s)(rv(args[0])), args[1]
        else:
            x, out = INV(s)(it.S.term(SQ, it.val(args[0]))), args[1]
        it.store(out.lv if isinstance(out, Ptr) else out, it.S.val(SQ, x))
        return None

    contracts = {PO + '::computeQuadraticCostJacobian': lambda *a: by_name(*a, 'cost'), PO + '::setupMappingMatrix': lambda *a: by_name(*a, 'map'), PO + '::invertMappingMatrix': lambda *a: by_name(*a, 'inv')}

    # ------------------------------------------------ what the pieces give together
    def l_ends(it):
        """coefficients obtained through the inverse mapping have the wanted derivatives at both ends"""
        it.assume(T >= rv(MIN_T))
        x = reals('x', N)
        B = mapping_inverse(T)
        c = [fold(mul(B[i][j], x[j]) for j in range(N)) for i in range(N)]
        for k in range(H):
            it.oblige('derivative at the start', cmp('==', poly_value(c, k, Fraction(0)), x[k]))
            it.oblige('derivative at the end', cmp('==', poly_value(c, k, T), x[H + k]))

    def l_columns(it):
        """a row stands for exactly one column; the end of a segment and the start of the next one for the same; a fixed one carries the value of the constraint"""
        Z = z3.IntSort()
        Kf, Kp = [z3.Function(n, Z, Z, Z) for n in ('fixed_key', 'free_key')]        # component (0 vertex, 1 derivative) of the key of a column
        If, Ip = [z3.Function(n, Z, Z, Z) for n in ('fixed_position', 'free_position')]
        fixed = z3.Function('constrained', Z, Z, z3.BoolSort())
        col = z3.Function('column', Z, Z, Z)
        df, cv = z3.Function('fixed_value', Z, z3.RealSort()), z3.Function('constraint_value', Z, Z, z3.RealSort())
        S_, nf, np_, c, v, k, i = z3.Ints('S nf np c! v! k! i')
        it.assume(z3.And(S_ >= 1, nf >= 0, np_ >= 0))
        inr = z3.And(v >= 0, v <= S_, k >= 0, k < H)
        for K, I, n, has in ((Kf, If, nf, lambda a, b: fixed(a, b)), (Kp, Ip, np_, lambda a, b: z3.Not(fixed(a, b)))):
            # the enumeration of a set: positions and keys are inverse to each other
            it.assume(every([c], z3.Implies(z3.And(c >= 0, c < n), z3.And(K(c, 0) >= 0, K(c, 0) <= S_, K(c, 1) >= 0, K(c, 1) < H, has(K(c, 0), K(c, 1)), I(K(c, 0), K(c, 1)) == c)), [K(c, 0)]))
            it.assume(every([v, k], z3.Implies(z3.And(inr, has(v, k)), z3.And(I(v, k) >= 0, I(v, k) < n, K(I(v, k), 0) == v, K(I(v, k), 1) == k)), [I(v, k)]))
        one = lambda c, a, b: z3.And(c >= 0, c < nf + np_, z3.If(c < nf, z3.And(Kf(c, 0) == a, Kf(c, 1) == b), z3.And(Kp(c - nf, 0) == a, Kp(c - nf, 1) == b)))
        k0, c1, c2 = z3.Ints('k0 c1 c2')
        it.assume(z3.And(i >= 0, i < S_, k0 >= 0, k0 < H))
        for e in (0, 1):
            at = z3.If(fixed(i + e, k0), If(i + e, k0), nf + Ip(i + e, k0))
            it.oblige('every row has a column', one(at, i + e, k0))
            it.oblige('every row has one column only', z3.Implies(z3.And(one(c1, i + e, k0), one(c2, i + e, k0)), c1 == c2))
        it.oblige('joint rows share their column', z3.Implies(z3.And(one(c1, i + 1, k0), one(c2, (i + 1) + 0, k0)), c1 == c2))
        it.assume(every([c], z3.Implies(z3.And(c >= 0, c < nf), df(c) == cv(Kf(c, 0), Kf(c, 1))), [df(c)]))
        it.oblige('a constrained derivative gets the value of its constraint', z3.Implies(z3.And(one(c1, i, k0), fixed(i, k0)), z3.And(c1 < nf, df(c1) == cv(i, k0))))

    # ------------------------------------------------ getters
    def t_getters(it):
        o = arbitrary(it)
        ol = new(it, o)
        st = {'getVertices': ('vertices_', ('seq', VX, 'vector')), 'getSegments': ('segments_', ('seq', SG, 'vector')), 'getSegmentTimes': ('segment_times_', ('seq', REAL, 'vector')),
              'getFreeConstraints': ('free_constraints_compact_', ('seq', EVT, 'vector')), 'getFixedConstraints': ('fixed_constraints_compact_', ('seq', EVT, 'vector'))}
        for g, (k, t) in st.items():
            out = new(it, it.fresh(t, 'out'), t)
            call(it, F(g), ol, [Ptr(out)])
            it.oblige(g, it.S.term(t, it.load(out)) == it.S.term(t, o.f[k]))
        for g, k in (('getDimension', 'dimension_'), ('getNumberSegments', 'n_segments_'), ('getNumberAllConstraints', 'n_all_constraints_'), ('getNumberFixedConstraints', 'n_fixed_constraints_'),
                     ('getNumberFreeConstraints', 'n_free_constraints_'), ('getDerivativeToOptimize', 'derivative_to_optimize_')):
            it.oblige(g, cmp('==', call(it, F(g), ol, []), o.f[k]))
        tl = new(it, it.construct(TRAJ, [], None))
        it.ghost['handed'] = None
        call(it, F('getTrajectory'), ol, [Ptr(tl)])
        got, t = it.ghost['handed'], ('seq', SG, 'vector')
        it.oblige('getTrajectory hands the segments over', got is not None and got[0] == tl.key())
        if got:
            it.oblige('getTrajectory hands these segments over', it.S.term(t, got[1]) == it.S.term(t, o.f['segments_']))

    def ov_segments(it, func, this, args, node):
        if 'handed' not in it.ghost:
            return NotImplemented
        it.ghost['handed'] = (this.key(), it.val(args[0]))
        return None

    # ------------------------------------------------ the whole chain, bounded
    PATTERNS = [(), (0,), (0, 1, 2, 3, 4), (1, 3, 6)]

    def b_chain(S_, D):
        def run(it):
            it.ghost['chain'] = 1
            o = it.construct(PO, [D], None)
            ol = new(it, o, POC)
            vs, want = [], []
            for v in range(S_ + 1):
                pats = PATTERNS if S_ == 1 else [PATTERNS[i] for i in (0, 1, 3)]
                pat = pats[it.choose(len(pats))]
                c = {k: vec(reals('c%d_%d_' % (v, k), D)) for k in pat}
                want.append(c)
                x = it.default_value(VX)
                x = x.with_('D_', D).with_('constraints_', MapV(x.f['constraints_'].kt, x.f['constraints_'].vt, dict(c)))
                vs.append(x)
            def times(nm):
                T = reals(nm, S_)
                it.assume(z3.And(*[t >= rv(MIN_T) for t in T]))
                return T
            T = times('T')
            it.ghost['times'] = T
            res = call(it, F('setupFromVertices'), ol, [new(it, Seq(VX, 'vector', vs), ('seq', VX, 'vector')), new(it, Seq(REAL, 'vector', T), ('seq', REAL, 'vector')), 3])
            it.oblige('accepted', bv(res))
            if it.choose(2):
                T = it.ghost['times'] = times('U')
                call(it, F('updateSegmentTimes'), ol, [new(it, Seq(REAL, 'vector', T), ('seq', REAL, 'vector'))])
            np_ = it.load(ol).f['n_free_constraints_']
            n_free = sum(1 for c in want for k in range(H) if k not in c)
            it.oblige('the number of free derivatives', cmp('==', np_, n_free))
            free = [vec(reals('free%d_' % d, n_free)) for d in range(D)]
            call(it, F('setFreeConstraints'), ol, [new(it, Seq(EVT, 'vector', free), ('seq', EVT, 'vector'))])
            g = it.load(ol)
            it.oblige('one segment per vertex pair', cmp('==', g.f['segments_'].n, S_))
            ends = {}
            for i in range(S_):
                s = it.elem(g.f['segments_'], i)
                it.oblige('time of the segment', cmp('==', s.f['time_'], T[i]))
                it.oblige('one polynomial per dimension', cmp('==', s.f['polynomials_'].n, D))
                for d in range(D):
                    c = items(it.elem(s.f['polynomials_'], d).f['coefficients_'])
                    if len(c) != N:
                        it.oblige('number of coefficients', False)
                        raise Infeasible()
                    for k in range(H):
                        for e in (0, 1):
                            ends.setdefault((i + e, k, d), []).append(poly_value(c, k, [Fraction(0), T[i]][e]))
            for (v, k, d), xs in ends.items():
                if k in want[v]:
                    for x in xs:
                        it.oblige('constraint met', cmp('==', x, it.elem(want[v][k], d)))
                elif len(xs) == 2:
                    it.oblige('continuous', cmp('==', xs[0], xs[1]))
        return ('%d segments, %d dimensions' % (S_, D), run)

    def inverse_any(it, m, n):
        if 'chain' not in it.ghost:
            return inverse_hook(it, m, n)
        D = rows(m)
        for t in it.ghost['times']:
            want = [row[H:] for row in mapping(t)[H:]]
            if all(norm(sub(D[i][j], want[i][j])) == 0 or str(D[i][j]) == str(want[i][j]) for i in range(H) for j in range(H)):
                return mat([row[H:] for row in mapping_inverse(t)[H:]])
        raise Unsupported('inverse of another matrix')

    def chain_cost(it, f, this, args, node):
        return None if 'chain' in it.ghost else NotImplemented

    def chain_triplets(it, n, obj, argn):
        if 'chain' not in it.ghost:
            return check_matrix(it, n, obj, argn)
        b, e = [it.rvalue(a) for a in argn[:2]]
        tab = {}
        for x in items(it.load(b.lv))[b.idx:e.idx]:
            k = (x.f['row'], x.f['col'])
            tab[k] = add(tab.get(k, Fraction(0)), x.f['value'])
        it.ghost['tab'] = tab
        return None

    def chain_block(it, n, obj, argn):
        if 'chain' not in it.ghost:
            return h_block(it, n, obj, argn)
        if not isinstance(it.val(obj), Opaque):
            return NotImplemented
        return Opaque('rblock', [it.rvalue(a) for a in argn])

    def chain_times(it, n, xs, V):
        if 'chain' not in it.ghost:
            return h_times(it, n, xs, V)
        if isinstance(V[0], Opaque) and V[0].tag == 'rblock':
            r0, c0, nr, nc = V[0].data
            it.oblige('Eigen product sizes agree', cmp('==', size(V[1]), nc), n)
            return Mat(nr, 1, [fold(mul(it.ghost['tab'].get((r0 + i, c0 + j), Fraction(0)), it.elem(V[1], j)) for j in range(nc)) for i in range(nr)])
        return NotImplemented

    def chained(hooks=None, overrides=None):
        """the hooks of the bounded stand-in beside those of the proof"""
        q = PO + '::'
        h = {'inverse': inverse_any, 'member:setFromTriplets': chain_triplets, 'ctor': sparse_ctor, 'member:block': chain_block, 'op:operator*': chain_times}
        for k, f in (hooks or {}).items():
            if k in h and callable(f):
                h[k] = lambda it, *a, f=f, g=h[k]: g(it, *a) if 'chain' in it.ghost else f(it, *a)
            else:
                h[k] = f
        o = dict(overrides or {})
        old = o.get(q + 'computeQuadraticCostJacobian')
        o[q + 'computeQuadraticCostJacobian'] = lambda it, *a: chain_cost(it, *a) if 'chain' in it.ghost or not old else old(it, *a)
        return dict(hooks=h, overrides=o, bounded=[b_chain(1, 1), b_chain(1, 2), b_chain(2, 1)])

    q = PO + '::'
    out = [
        Task('setup', t_setup, [q + 'setupFromVertices'], invariants={'setupFromVertices': [('filter', inv_filter)]}, cut_all=('setupFromVertices',), budget=200,
             **chained(None, {q + 'updateSegmentTimes': ov_times, q + 'setupConstraintReorderingMatrix': ov_number})),
        Task('segment times', t_times, [q + 'updateSegmentTimes'], invariants={'updateSegmentTimes': [('times', inv_times)]}, cut_all=('updateSegmentTimes',), budget=200, **chained(None, contracts)),
        Task('assembly of the segments', t_assemble, [q + 'updateSegmentsFromCompactConstraints'], budget=300, invariants={'updateSegmentsFromCompactConstraints': [('assemble', inv_assemble)]},
             cut_all=('updateSegmentsFromCompactConstraints',), **chained({'member:block': h_block, 'op:operator*': h_times})),
        Task('mapping matrix', t_mapping, [q + 'setupMappingMatrix'], exact=True),
        Task('order of constraints', t_order, [NS + 'Constraint::operator<', NS + 'Constraint::operator=='], exact=True),
        Task('numbering of the vertex derivatives', t_reorder, [q + 'setupConstraintReorderingMatrix'], invariants={'setupConstraintReorderingMatrix': [('collect', inv_sort), ('fill', inv_fill)]},
             cut_all=('setupConstraintReorderingMatrix',), budget=400, **chained({'no_generic': True, 'push': on_push, 'member:setFromTriplets': check_matrix})),
        Task('derivatives at the ends', l_ends, [], exact=True, lemma=True),
        Task('columns', l_columns, [], exact=True, lemma=True),
        Task('getters', t_getters, [q + x for x in ('getTrajectory', 'getVertices', 'getSegments', 'getSegmentTimes', 'getFreeConstraints', 'getFixedConstraints', 'getNumberFreeConstraints')], overrides={TRAJ + '::setSegments': ov_segments}),
        Task('inverse of the mapping', t_inverse, [q + 'invertMappingMatrix'], hooks={'inverse': inverse_hook}),
    ]
    for t in solver_tasks(db):
        b = chained(t.hooks, t.overrides)
        t.hooks, t.overrides, t.bounded = b['hooks'], b['overrides'], b['bounded']
        out.append(t)
    return out
