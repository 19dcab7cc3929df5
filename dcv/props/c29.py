"""C29: Generated test vertices satisfy what they promise.

Contracts (any dimension, number of segments, box, seed, centre, side, number of rounds; j an arbitrary vertex, d an arbitrary component, q an arbitrary order):
  createRandomVertices   n+1 vertices of the box's dimension; vertex j holds a position with lo_d <= p_d <= hi_d, and
                         |p_(j+1) - p_j| > 0.2; besides it, orders 1..k with value zero at the first and the last vertex, nothing at inner ones;
                         every random number comes from a generator of this call seeded with the given seed and nothing else
  createRandomVertices1D the same with the bounds as vectors of one component
  createSquareVertices   4 r + 1 vertices; vertex 4 i + c is corner c of (-,-), (-,+), (+,+), (+,-), half a side from the centre, the third
                         coordinate that of the centre; the last is the first corner; at rest up to order k at the first and last, positions only inside
"""
from ..spec import *
from .. import models
TUS = ['vertex']
NATIVE = {'src': 'c29.cpp', 'with': ['$MAV/src/vertex.cpp', '$MAV/src/motion_defines.cpp'], 'n': 3000}
ASSUMPTIONS = ['the box has ordered bounds of equal size and a diagonal of at least 0.2, at least one segment, a positive derivative order (the documented preconditions)',
               'a draw of a uniform distribution lies within its bounds and depends on the generator only; the vector norm is a function of the vector',
               'termination of the rejection loop is not proved (it is certain only for a diagonal above 0.4)', 'contract of Vertex::makeStartOrEnd (C10)']
TM = ('map', INT, EV)
TVX = cls(VERT)


def tasks(db, tier):
    f_rnd, f_sq, f_1 = (find(db, NS + x) for x in ('createRandomVertices', 'createSquareVertices', 'createRandomVertices1D'))
    norm = models.norm2

    def symv(it, v):
        """constraints as a symbolic map"""
        return it.symmap(v.f['constraints_'])

    def start_contract(it, func, this, args, node):
        x, K = it.val(args[0]), it.val(args[1])
        if bounded(it) or not (isinstance(x, (Mat, Seq)) and models.is_eig(x)):
            return NotImplemented
        v = it.load(this)
        it.oblige('the value has the dimension of the vertex', cmp('==', size(x), v.f['D_']), node)
        m, old = it.fresh(TM, 'ends.constraints'), symv(it, v)
        q, d = z3.Int('q0'), z3.Int('d0')
        want = land(cmp('>=', q, 1), cmp('<=', q, K))
        hs = lambda mm, k: z3.Select(mm.dom, iv(k))
        at = lambda mm, k: it.S.val(EV, z3.Select(mm.val, iv(k)))
        it.assume(land(hs(m, 0), z3.Select(m.val, z3.IntVal(0)) == sterm(it, EV, x)))
        it.assume(cmp('==', bv(hs(m, q)), bv(lor(hs(old, q), cmp('==', q, 0), want))))
        y = at(m, q)
        it.assume(implies(want, land(cmp('==', size(y), v.f['D_']), cmp('==', it.elem(y, d), 0))))
        it.assume(implies(land(lnot(want), cmp('!=', q, 0)), z3.Select(m.val, iv(q)) == z3.Select(old.val, iv(q))))
        it.store(this.f('constraints_'), m)
        return None

    def holds(it, v, q):
        return bv(it.map_has(v.f['constraints_'], q))

    def held(it, v, q):
        if bounded(it):
            return it.map_get(v.f['constraints_'], q)
        return it.S.val(EV, z3.Select(symv(it, v).val, iv(q)))

    def rest_only(it, v, D, K, q, d, end):
        """besides the position: zero for orders 1..K at an end, nothing inside"""
        if bounded(it):
            if not end:
                return holds(it, v, q) == bv(q == 0)
            out = [bv(holds(it, v, q)) == bv(0 <= q <= K)]
            if 1 <= q <= K and it.map_has(v.f['constraints_'], q) is True:
                y = held(it, v, q)
                out += [size(y) == D] + [cmp('==', e, 0) for e in items(y)]
            return land(*out)
        want = land(cmp('>=', q, 1), cmp('<=', q, K)) if end else False
        y = held(it, v, q)
        return land(cmp('==', holds(it, v, q), bv(lor(cmp('==', q, 0), want))), implies(want, land(cmp('==', size(y), D), cmp('==', it.elem(y, d), 0))))

    # ---- random vertices
    def setup(it):
        if bounded(it):
            D = it.choose(2) + 1
            lo, hi = vec(reals('lo', D)), vec(reals('hi', D))
            for a, b in zip(items(lo), items(hi)):
                it.assume(a <= b)
            n = it.choose(2) + 1
            K = it.choose(2) + 1
            it.assume(models.norm2(it, vec([b - a for a, b in zip(items(lo), items(hi))])) >= rv(Fraction(1, 5)))
        else:
            lo, hi = it.fresh_named(EV, 'lo'), it.fresh_named(EV, 'hi')
            D, n, K = lo.n, z3.Int('n_segments'), z3.Int('maximum_derivative')
            d = z3.Int('d0')
            it.assume(z3.And(hi.n == D, n >= 1, n < 2 ** 30, K >= 1, K < 2 ** 31 - 1))
            it.assume(implies(land(d >= 0, d < D), cmp('<=', it.elem(lo, d), it.elem(hi, d))))
            it.assume(cmp('>=', norm(it, models.sym_zip(it, hi, lo, lambda a, b: a - b, None)), Fraction(1, 5)))
        return lo, hi, D, n, K

    def inside(it, G, p):
        """component d of a position is inside the box"""
        d = G['d']
        if isinstance(d, int) and isinstance(size(p), int) and d >= size(p):
            return False
        return land(cmp('==', size(p), G['D']), implies(land(cmp('>=', d, 0), cmp('<', d, G['D'])), land(cmp('>=', it.elem(p, d), it.elem(G['lo'], d)), cmp('<=', it.elem(p, d), it.elem(G['hi'], d)))))

    def apart(it, G, a, b):
        if bounded(it):
            x = vec([sub(p, q) for p, q in zip(items(b), items(a))])
        else:
            x = models.sym_zip(it, b, a, lambda p, q: p - q, None)
        return cmp('>', norm(it, x), Fraction(1, 5))

    def run_random(it):
        lo, hi, D, n, K = setup(it)
        j = arb(it, 'j0', add(n, 1))
        d = arb(it, 'd0', D) if bounded(it) else z3.Int('d0')
        q = it.choose(5) - 1 if bounded(it) else z3.Int('q0')
        seed = z3.Int('seed')
        it.assume(z3.And(seed >= 0, seed < 2 ** 32))
        it.ghost.update(lo=lo, hi=hi, D=D, n=n, K=K, j=j, d=d, q=q, seed=seed)
        vs = call(it, f_rnd, None, [K, n, new(it, lo, EV), new(it, hi, EV), seed])
        it.oblige('one vertex more than segments', cmp('==', size(vs), add(n, 1)))
        if bounded(it) and size(vs) != n + 1:
            return
        v = it.elem(vs, j)
        it.oblige('the dimension of the box', cmp('==', v.f['D_'], D))
        it.oblige('a position is held', holds(it, v, 0))
        it.oblige('the position is inside the box', inside(it, it.ghost, held(it, v, 0)))
        if it.branch(cmp('<', j, n)):
            it.oblige('consecutive positions are more than 0.2 apart', apart(it, it.ghost, held(it, v, 0), held(it, it.elem(vs, add(j, 1)), 0)))
        end = it.branch(lor(cmp('==', j, 0), cmp('==', j, n)))
        it.oblige('at rest at the ends' if end else 'only a position inside', rest_only(it, v, D, K, q, d, end))

    def inv_random(L):
        it, G = L.it, L.it.ghost
        if 'lo' not in G or bounded(it):
            return None
        d, j, q, D, n, K = G['d'], G['j'], G['q'], G['D'], G['n'], G['K']
        cells = [c[0] for c in L.mods]
        vals = [it.cells[c] for c in dict.fromkeys(cells)]
        vx = [v for v in vals if isinstance(v, Seq) and v.et == TVX]
        ds = [v for v in vals if isinstance(v, Seq) and v.et[0] == 'pair']
        ev = [v for v in vals if isinstance(v, Seq) and v.kind == 'eig']
        try:
            i = iv(L.idx)
        except Exception:
            i = None
        box = lambda p: land(cmp('>=', it.elem(p, d), it.elem(G['lo'], d)), cmp('<=', it.elem(p, d), it.elem(G['hi'], d)))
        if vx:
            # the vertices so far
            vs, last = vx[0], ev[0] if len(ev) == 1 else L['last_pos']
            out = [i >= 1, i <= iv(n) + 1, cmp('==', vs.n, i)]
            prev = it.elem(vs, sub(i, 1))
            out.append(land(holds(it, prev, 0), sterm(it, EV, held(it, prev, 0)) == sterm(it, EV, last), cmp('==', prev.f['D_'], D)))
            out.append(inside(it, G, last))
            v = it.elem(vs, j)
            out.append(implies(land(j >= 0, j < i), land(cmp('==', v.f['D_'], D), holds(it, v, 0), inside(it, G, held(it, v, 0)))))
            out.append(implies(land(j >= 0, j + 1 < i), apart(it, G, held(it, v, 0), held(it, it.elem(vs, add(j, 1)), 0))))
            w = held(it, it.elem(vs, add(j, 1)), 0)
            out.append(implies(land(j + 1 >= 0, j + 1 < i), land(holds(it, it.elem(vs, add(j, 1)), 0), cmp('==', size(w), D))))
            for m, w in ((j, v), (i - 1, prev)):
                out.append(implies(land(m >= 1, m < i), rest_only(it, w, D, K, q, d, False)))
                out.append(implies(cmp('==', m, 0), rest_only(it, w, D, K, q, d, True)))
            return out
        if ds:
            x = ds[0]
            e = it.elem(x, d)
            return [i >= 0, i <= iv(D), cmp('==', x.n, D), implies(land(d >= 0, d < i), land(cmp('==', e.f['first'], it.elem(G['lo'], d)), cmp('==', e.f['second'], it.elem(G['hi'], d))))]
        if len(ev) == 1 and L.node.get('kind') != 'WhileStmt':
            return [i >= 0, i <= iv(D), cmp('==', ev[0].n, D), implies(land(d >= 0, d < i), box(ev[0]))]
        if len(ev) == 1:
            return [cmp('==', ev[0].n, D)]
        return None

    def drawn(it, n, r, seeds):
        G = it.ghost
        if 'seed' in G:
            it.oblige('random numbers come from a generator of this call with the given seed', land(cmp('==', seeds[0], G['seed'])) if seeds and len(seeds) == 1 else False, n)

    # ---- one dimension
    def run_1(it):
        lo, hi = z3.Reals('lo hi')
        K, n, seed = z3.Ints('maximum_derivative n_segments seed')
        it.assume(z3.And(lo <= hi, K >= 1, n >= 1, seed >= 0, n < 2 ** 30, K < 2 ** 31 - 1, seed < 2 ** 32))
        r = it.fresh_named(vseq(TVX), 'result')
        asked = []

        def ov(it, func, this, args, node):
            asked.append([it.val(a) for a in args])
            return r
        it.e.overrides[NS + 'createRandomVertices'] = ov
        g = call(it, f_1, None, [K, n, lo, hi, seed])
        it.oblige('asked once', len(asked) == 1)
        k2, n2, lo2, hi2, s2 = asked[0]
        it.oblige('same order, number of segments and seed', land(cmp('==', k2, K), cmp('==', n2, n), cmp('==', s2, seed)))
        for a, b, w in ((lo2, lo, 'lower'), (hi2, hi, 'upper')):
            it.oblige('the %s bound as a vector of one component' % w, land(cmp('==', size(a), 1), cmp('==', it.elem(a, 0), b)))
        it.oblige('its vertices are returned', sterm(it, vseq(TVX), g) == sterm(it, vseq(TVX), r))

    # ---- square
    def corner(c, s, k):
        h = rdiv(s, 2)
        sx, sy = ((-1, -1), (-1, 1), (1, 1), (1, -1))[k]
        return [add(c[0], mul(sx, h)), add(c[1], mul(sy, h)), c[2]]

    def run_square(it):
        c, s = reals('centre', 3), z3.Real('side')
        if bounded(it):
            R, K = it.choose(3), it.choose(3)
            j = it.choose(4 * R + 1)
            k, q = j % 4, it.choose(5) - 1
        else:
            R, K, q = z3.Ints('rounds maximum_derivative q0')
            it.assume(z3.And(R >= 0, R < 2 ** 28, K >= 0, K < 2 ** 31 - 1))
            k, m = it.choose(4), z3.Int('m0')
            j = 4 * m + k
            it.assume(z3.And(m >= 0, j <= 4 * R))
        it.ghost.update(R=R, K=K, j=j, q=q, sq=(c, s, k))
        vs = call(it, f_sq, None, [K, new(it, Mat(3, 1, c), ('eig', 'r', 3, 1)), s, R])
        it.oblige('four vertices a round and one to close', cmp('==', size(vs), add(mul(4, R), 1)))
        if bounded(it) and size(vs) != 4 * R + 1:
            return
        v = it.elem(vs, j)
        it.oblige('a vertex is the corner of its turn', is_corner(it, v, c, s, k))
        end = it.branch(lor(cmp('==', j, 0), cmp('==', j, mul(4, R))))
        it.oblige('at rest at the ends' if end else 'only a position inside', rest_only(it, v, 3, K, q, z3.Int('d0'), end))

    def is_corner(it, v, c, s, k):
        p = held(it, v, 0) if not bounded(it) or it.map_has(v.f['constraints_'], 0) else None
        if p is None or isinstance(size(p), int) and size(p) != 3:
            return False
        return land(cmp('==', v.f['D_'], 3), holds(it, v, 0), cmp('==', size(p), 3), *[cmp('==', it.elem(p, d), x) for d, x in enumerate(corner(c, s, k))])

    def inv_square(L):
        it, G = L.it, L.it.ghost
        if 'sq' not in G or bounded(it):
            return None
        vs = next((it.cells[c[0]] for c in L.mods if isinstance(it.cells[c[0]], Seq) and it.cells[c[0]].et == TVX), None)
        if vs is None:
            return None
        c, s, k = G['sq']
        i, j, q, K = iv(L.idx), G['j'], G['q'], G['K']
        out = [i >= 0, i <= iv(G['R']), cmp('==', vs.n, 4 * i + 1)]
        v, l = it.elem(vs, j), it.elem(vs, 4 * i)
        out.append(implies(j <= 4 * i, is_corner(it, v, c, s, k)))
        out.append(is_corner(it, l, c, s, 0))
        for m, w in ((j, v), (4 * i, l)):
            out.append(implies(land(cmp('==', m, 0), m <= 4 * i), rest_only(it, w, 3, K, q, z3.Int('d0'), True)))
            out.append(implies(land(m >= 1, m <= 4 * i), rest_only(it, w, 3, K, q, z3.Int('d0'), False)))
        return out

    ov = {VERT + '::makeStartOrEnd': start_contract}
    return [
        Task('random vertices', run_random, [NS + 'createRandomVertices'], cut_all=('createRandomVertices',), unroll=2, overrides=ov, hooks={'no_elements': True, 'draw': drawn}, invariants={'createRandomVertices': [('drawn', inv_random)]},
             bounded=[('at most 2 segments, dimension at most 2, the rejection loop entered at most twice', run_random)]),
        Task('random vertices in one dimension', run_1, [NS + 'createRandomVertices1D'], exact=True),
        Task('square', run_square, [NS + 'createSquareVertices'], overrides=ov, invariants={'createSquareVertices': [('rounds', inv_square)]}, bounded=[('at most 2 rounds', run_square)]),
    ]
