"""C10: Vertex constraints behave as a per-derivative store.

Contracts (any dimension, any stored orders and values, any number of constraints; q is an arbitrary order):
  addConstraint (vector / value)  order q holds the given value iff q is that order, otherwise what it held before
  removeConstraint   tells whether the order was there; afterwards it is not; every other order as before
  hasConstraint / getConstraint   tell whether the order is held, the stored value, nothing changed
  makeStartOrEnd     position holds the value, orders 1..up_to hold zeros, all others as before
  isEqualTol         true iff both hold the same orders and every pair of values differs by at most tol in every component
  getSubdimension    false iff a component does not exist; otherwise exactly the orders up to the given one, component j being
                     the chosen j-th one
"""
from ..spec import *
TUS = ['vertex']
NATIVE = {'src': 'c10.cpp', 'with': ['$MAV/src/vertex.cpp', '$MAV/src/motion_defines.cpp'], 'n': 6000}
ASSUMPTIONS = ['every stored value has the vertex\'s dimension (established by addConstraint, preserved by every function under contract)', 'std::map iterates its keys in increasing order, each once',
               'a finite set contained in another of the same size equals it']
TM = ('map', INT, EV)


def tasks(db, tier):
    V = lambda x: VERT + '::' + x
    f_addv, f_adds = find(db, V('addConstraint'), None, 'Eigen'), find(db, V('addConstraint'), None, 'double')
    f_rem, f_has, f_get = (find(db, V(x)) for x in ('removeConstraint', 'hasConstraint', 'getConstraint'))
    f_msv, f_mss = find(db, V('makeStartOrEnd'), 'Eigen'), find(db, V('makeStartOrEnd'), 'double')
    f_eq, f_sub = find(db, V('isEqualTol')), find(db, V('getSubdimension'))
    f_num = find(db, V('getNumberOfConstraints'))
    ti = ('int', False, 64)

    def vertex(it, name, D=None, hi=2):
        """any vertex: its values all have its dimension"""
        if bounded(it):
            D = it.choose(3) if D is None else D
            m = {}
            for k in (0, 1, 2, 5)[:hi + 2]:
                if it.choose(2):
                    m[k] = vec(reals('%s%d_' % (name, k), D))
            return SV(VERT, {'D_': D, 'constraints_': MapV(INT, EV, m)})
        D = z3.Int(name + '.D') if D is None else D
        it.assume(z3.And(D >= 0, D < 2 ** 31))
        m = it.fresh_named(TM, name + '.constraints')
        q = z3.Int('vq')
        it.assume(z3.ForAll([q], implies(has(it, m, q), iv(size(at(it, m, q))) == D), patterns=[z3.Select(m.dom, q), z3.Select(m.val, q)]))
        return SV(VERT, {'D_': D, 'constraints_': m})

    has = lambda it, m, q: it.map_has(m, q)

    def at(it, m, q):
        m = it.symmap(m)
        return it.S.val(m.vt, z3.Select(m.val, iv(q)))

    def keys(it, *maps):
        if bounded(it):
            return sorted({k for m in maps for k in m.d} | {-1, 0, 1, 2, 3, 5, 6})
        return [z3.Int('q0')]

    def same(it, name, a, b, guard, n):
        """stored values a and b agree"""
        if bounded(it):
            if guard is False:
                return
            eq_list(it, name, items(a), items(b)) if not is_sym(guard) else None
            return
        j = z3.Int('j0')
        it.oblige(name, implies(guard, land(cmp('==', size(a), size(b)), implies(land(j >= 0, j < iv(n)), cmp('==', it.elem(a, j), it.elem(b, j))))))

    def get(it, m, q):
        return m.d[q] if isinstance(m, MapV) else at(it, m, q)

    def check(it, name, got, old, want):
        """want(q) -> (present, value or None for the old one)"""
        gm, om = got.f['constraints_'], old.f['constraints_']
        it.oblige(name + ': dimension kept', cmp('==', got.f['D_'], old.f['D_']))
        for q in keys(it, om, gm) if bounded(it) else keys(it):
            cases = want(q)
            for lab, guard, pres, val in cases:
                if guard is False:
                    continue
                h = has(it, gm, q)
                it.oblige('%s: %s is held' % (name, lab) if pres is not None else '%s: %s as before' % (name, lab), implies(guard, cmp('==', bv(h), bv(pres if pres is not None else has(it, om, q)))))
                hh = has(it, om, q) if pres is None else pres
                if hh is False or (bounded(it) and not h):
                    continue
                if bounded(it) and pres is None and q not in om.d:
                    continue
                same(it, '%s: value of %s' % (name, lab), get(it, gm, q), get(it, om, q) if val is None else val, land(guard, hh), old.f['D_'])

    def order(it, name='order', lo=-1, hi=3):
        return it.choose(hi - lo + 1) + lo if bounded(it) else z3.Int(name)

    def t_add(scalar):
        def run(it):
            v = vertex(it, 'v')
            k = order(it)
            D = v.f['D_']
            if scalar:
                x = z3.Real('x')
                val = vec([x] * D) if bounded(it) else Seq(REAL, 'eig', None, D, z3.K(z3.IntSort(), x))
                arg = x
            else:
                val = vec(reals('x', D)) if bounded(it) else it.fresh_named(EV, 'x')
                if not bounded(it):
                    it.assume(iv(val.n) == D)
                arg = new(it, val, EV)
            vl = new(it, v)
            call(it, f_adds if scalar else f_addv, vl, [k, arg])
            check(it, 'add', it.load(vl), v, lambda q: [('that order', cmp('==', q, k), True, val), ('another order', cmp('!=', q, k), None, None)])
        return run

    def t_remove(it):
        v = vertex(it, 'v')
        k = order(it)
        vl = new(it, v)
        r = call(it, f_rem, vl, [k])
        it.oblige('tells whether it was there', cmp('==', bv(r), bv(has(it, v.f['constraints_'], k))))
        check(it, 'remove', it.load(vl), v, lambda q: [('that order', cmp('==', q, k), False, None), ('another order', cmp('!=', q, k), None, None)])

    def t_query(it):
        v = vertex(it, 'v')
        k = order(it)
        vl = new(it, v)
        h = has(it, v.f['constraints_'], k)
        it.oblige('has', cmp('==', bv(call(it, f_has, vl, [k])), bv(h)))
        old = vec(reals('old', 2)) if bounded(it) else it.fresh_named(EV, 'old')
        o = new(it, old, EV)
        r = call(it, f_get, vl, [k, Ptr(o)])
        it.oblige('get tells whether it is there', cmp('==', bv(r), bv(h)))
        it.oblige('queries change nothing', it.load(vl) is v)
        if it.branch(r):
            same(it, 'the stored value', it.load(o), get(it, v.f['constraints_'], k), True, v.f['D_'])
        else:
            it.oblige('nothing is written otherwise', it.load(o) is old)
        if bounded(it):
            it.oblige('number of constraints', cmp('==', call(it, f_num, vl, []), len(v.f['constraints_'].d)))

    def t_start(scalar):
        def run(it):
            v = vertex(it, 'v')
            D = v.f['D_']
            up = order(it, 'up', -1, 3)
            if scalar:
                arg = z3.Real('x')
                val = vec([arg] * D) if bounded(it) else Seq(REAL, 'eig', None, D, z3.K(z3.IntSort(), arg))
            else:
                val = vec(reals('x', D)) if bounded(it) else it.fresh_named(EV, 'x')
                if not bounded(it):
                    it.assume(iv(val.n) == D)
                arg = new(it, val, EV)
            zero = vec([Fraction(0)] * D) if bounded(it) else Seq(REAL, 'eig', None, D, z3.K(z3.IntSort(), z3.RealVal(0)))
            vl = new(it, v)
            it.ghost.update(up=up, v=v, val=val, vl=vl, zero=zero)
            call(it, f_mss if scalar else f_msv, vl, [arg, up])
            zeroed = lambda q: land(cmp('>=', q, 1), cmp('<=', q, up))
            check(it, 'start or end', it.load(vl), v, lambda q: [('position', cmp('==', q, 0), True, val), ('a derivative up to the order', zeroed(q), True, zero),
                                                                 ('any other', land(cmp('!=', q, 0), lnot(zeroed(q))), None, None)])
        return run

    def inv_start(L):
        it, G = L.it, L.it.ghost
        if 'val' not in G or bounded(it):
            return None
        m, om = it.symmap(it.load(G['vl']).f['constraints_']), G['v'].f['constraints_']
        D, j, i = G['v'].f['D_'], z3.Int('j0'), iv(L.idx)
        q = z3.Int('q0')
        eqv = lambda a, b: land(cmp('==', size(a), size(b)), implies(land(j >= 0, j < D), cmp('==', it.elem(a, j), it.elem(b, j))))
        h = lambda q: bv(has(it, m, q))
        done = land(q >= 1, q < i)
        return [cmp('==', it.load(G['vl']).f['D_'], D), i >= 1, lor(i == 1, i <= iv(G['up']) + 1), implies(q == 0, land(h(q), eqv(at(it, m, q), G['val']))), implies(done, land(h(q), eqv(at(it, m, q), G['zero']))),
                implies(land(q != 0, lnot(done)), h(q) == bv(has(it, om, q))), implies(land(q != 0, lnot(done), h(q)), eqv(at(it, m, q), at(it, om, q)))]

    # ---- comparison
    def near(it, a, b, n, tol, j=None):
        if bounded(it):
            return land(*[cmp('<=', rabs(sub(x, y)), tol) for x, y in zip(items(a), items(b))])
        if j is not None:
            return implies(land(j >= 0, j < iv(n)), cmp('<=', rabs(sub(it.elem(a, j), it.elem(b, j))), tol))
        j = z3.Int('nj')
        x, y = it.elem(a, j), it.elem(b, j)
        return forall(j, implies(land(j >= 0, j < iv(n)), land(cmp('<=', sub(x, y), tol), cmp('>=', sub(x, y), -tol))), z3.Select(a.arr, j), z3.Select(b.arr, j))

    def t_equal(it):
        a = vertex(it, 'a')
        b = vertex(it, 'b', D=a.f['D_'])
        tol = z3.Real('tol')
        am, bm = a.f['constraints_'], b.f['constraints_']
        D = a.f['D_']
        al, bl = new(it, a), new(it, b)
        it.ghost.update(am=am, bm=bm, D=D, tol=tol)
        r = call(it, f_eq, al, [bl, tol])
        it.oblige('neither is changed', it.load(al) is a and it.load(bl) is b)
        if bounded(it):
            want = am.d.keys() == bm.d.keys() and land(*[near(it, am.d[k], bm.d[k], D, tol) for k in am.d])
            it.oblige('equal exactly when same orders and close values', cmp('==', bv(r), bv(want)))
            return
        q = z3.Int('q0')
        if it.branch(r):
            card = z3.Function('card', am.dom.sort(), z3.IntSort())
            x = z3.Int('cx')
            it.oblige('every order of the first is one of the second, with a close value', implies(has(it, am, q), land(has(it, bm, q), near(it, at(it, am, q), at(it, bm, q), D, tol, z3.Int('j0')))))
            # finite sets: containment and equal size give equality
            it.oblige('as many orders', card(am.dom) == card(bm.dom))
        else:
            k = z3.Int('wk')
            card = z3.Function('card', am.dom.sort(), z3.IntSort())
            it.oblige('unequal only when a size, an order or a value differs', lor(card(am.dom) != card(bm.dom), z3.Exists([k], bv(land(has(it, am, k), lnot(land(has(it, bm, k), near(it, at(it, am, k), at(it, bm, k), D, tol))))))))

    def inv_equal(L):
        it, G = L.it, L.it.ghost
        if 'am' not in G or bounded(it):
            return None
        am, bm = G['am'], G['bm']
        K, I, n = it.map_enum(am)
        q = z3.Int('q0')
        it.assume(implies(has(it, am, q), land(I(q) >= 0, I(q) < n, K(I(q)) == q)))
        return [iv(L.idx) <= n, implies(land(has(it, am, q), I(q) < iv(L.idx)), land(has(it, bm, q), near(it, at(it, am, q), at(it, bm, q), G['D'], G['tol'], z3.Int('j0'))))]

    # ---- subset of the dimensions
    def t_sub(it):
        v = vertex(it, 'v')
        D, m = v.f['D_'], v.f['constraints_']
        if bounded(it):
            dims = Seq(ti, 'vector', [it.choose(3) for _ in range(it.choose(3))])
        else:
            dims = it.fresh_named(vseq(ti), 'dims')
            q = z3.Int('dq')
            it.assume(forall(q, implies(land(q >= 0, q < iv(dims.n)), z3.Select(dims.arr, q) >= 0), z3.Select(dims.arr, q)))
            it.assume(dims.n < 2 ** 31)
        n = size(dims)
        mx = order(it, 'max')
        o = SV(VERT, {'D_': z3.Int('o.D'), 'constraints_': MapV(INT, EV, {7: vec(reals('o', 1))}) if bounded(it) else it.fresh_named(TM, 'o.constraints')})
        vl, dl, ol = new(it, v), new(it, dims, vseq(ti)), new(it, o)
        it.ghost.update(m=m, dims=dims, mx=mx, ol=ol, D=D)
        r = call(it, f_sub, vl, [dl, mx, Ptr(ol)])
        it.oblige('the vertex is unchanged', it.load(vl) is v and it.load(dl) is dims)
        j = z3.Int('j0')
        if bounded(it):
            it.oblige('refused exactly when a component does not exist', cmp('==', bv(r), all(d < D for d in dims.items)))
        else:
            it.oblige('refused when a component does not exist', implies(land(r, j >= 0, j < iv(n)), cmp('<', it.elem(dims, j), D)))
            it.oblige('refused only then', implies(lnot(r), exists(it, n, lambda x: cmp('>=', it.elem(dims, x), D))))
        if not it.branch(r):
            return
        R = it.load(ol)
        rm = R.f['constraints_']
        it.oblige('its dimension is the number of components', cmp('==', R.f['D_'], n))
        for q in keys(it, m, rm) if bounded(it) else keys(it):
            kept = land(has(it, m, q), cmp('<=', q, mx))
            it.oblige('exactly the orders up to the given one', cmp('==', bv(has(it, rm, q)), bv(kept)))
            if bounded(it):
                if kept:
                    eq_list(it, 'the chosen components', items(rm.d[q]), [items(m.d[q])[d] for d in dims.items])
                continue
            x = at(it, rm, q)
            it.oblige('the chosen components in the chosen order', implies(kept, land(cmp('==', size(x), n), implies(land(j >= 0, j < iv(n)), cmp('==', it.elem(x, j), it.elem(at(it, m, q), it.elem(dims, j)))))))

    def inv_sub(L):
        it, G = L.it, L.it.ghost
        if 'dims' not in G or bounded(it):
            return None
        m, dims, D = G['m'], G['dims'], G['D']
        j, i, q = z3.Int('j0'), iv(L.idx), z3.Int('q0')
        n = iv(dims.n)
        if L.level == 2:
            s = next((L.it.cells[c[0]] for c in L.mods if isinstance(L.it.cells[c[0]], Seq) and L.it.cells[c[0]].kind == 'eig'), None)
            cur = G.get('cur')
            if s is None or cur is None:
                return None
            return [i >= 0, i <= n, cmp('==', s.n, n), implies(land(j >= 0, j < i), cmp('==', it.elem(s, j), it.elem(at(it, m, cur), it.elem(dims, j))))]
        if 'map' not in (L.extra or {}) and not any(isinstance(L.it.cells[c[0]], MapIter) for c in L.mods):
            # all components checked so far exist
            if L.phase == 'assume':
                x = z3.Int('sx')
                return [i >= 0, i <= n, forall(x, implies(land(x >= 0, x < i), cmp('<', it.elem(dims, x), D)), z3.Select(dims.arr, x))]
            return [i >= 0, i <= n, implies(land(j >= 0, j < i), cmp('<', it.elem(dims, j), D))]
        K, I, cnt = it.map_enum(m)
        G['cur'] = K(i)
        it.assume(implies(has(it, m, q), land(I(q) >= 0, I(q) < cnt, K(I(q)) == q)))
        it.assume(implies(land(i >= 0, i < cnt), land(has(it, m, K(i)), I(K(i)) == i)))
        R = it.load(G['ol'])
        rm = it.symmap(R.f['constraints_'])
        kept = land(has(it, m, q), cmp('<=', q, G['mx']), I(q) < i)
        x = at(it, rm, q)
        return [i >= 0, i <= cnt, cmp('==', R.f['D_'], n), cmp('==', bv(has(it, rm, q)), bv(kept)),
                implies(kept, land(cmp('==', size(x), n), implies(land(j >= 0, j < n), cmp('==', it.elem(x, j), it.elem(at(it, m, q), it.elem(dims, j))))))]

    out = []
    for sc in (False, True):
        w = 'value for all dimensions' if sc else 'vector'
        out.append(Task('add (%s)' % w, t_add(sc), [V('addConstraint')], bounded=[('dimension at most 2', t_add(sc))]))
        out.append(Task('start or end (%s)' % w, t_start(sc), [V('makeStartOrEnd')], invariants={'makeStartOrEnd': [('zeroed', inv_start)]}, bounded=[('dimension at most 2, order at most 3', t_start(sc))]))
    out.append(Task('remove', t_remove, [V('removeConstraint')], bounded=[('dimension at most 2', t_remove)]))
    out.append(Task('queries', t_query, [V('hasConstraint'), V('getConstraint')], bounded=[('dimension at most 2', t_query)]))
    out.append(Task('comparison', t_equal, [V('isEqualTol')], invariants={'isEqualTol': [('equal so far', inv_equal)]}, bounded=[('dimension at most 2, 4 orders', t_equal)]))
    out.append(Task('subset of the dimensions', t_sub, [V('getSubdimension')], invariants={'getSubdimension': [('kept', inv_sub)]}, bounded=[('dimension at most 2, at most 2 components', t_sub)]))
    return out
