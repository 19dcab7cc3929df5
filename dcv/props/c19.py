"""C19: Moving a waypoint deforms the path to reach the new position.

Contracts (any waypoint, any number of earlier deformations; G(m, t, k) is the value of deformation m, C18):
  trajectoryCompensation  component i is the sum over the recorded deformations of G(component i, t, k); nothing is changed
  setCurrentPosition      the recorded deformations are kept, one is added whose component i is centred at the waypoint's own time, has the
                          displacement from the previous current position and, while the waypoint is ahead, a positive width: hence the sum at
                          its own time grows by that displacement; current position and position constraint are the new ones; the rest is kept
  setTime                 every component of every deformation is recentred at the given time, everything else is kept
  resetWaypoint, resetWaypointWithCurrentPosition, setConstraint   current position is the original one, position constraint too, no deformation
  constructors, copy      positions from the position constraint, no deformation; a copy equals the original in every field
"""
from ..spec import *
TUS = ['dynwp', 'gauss', 'vertex']
NATIVE = {'src': 'c19.cpp', 'with': ['$REPO/src/dynamic_waypoint.cpp', '$MAV/src/vertex.cpp', '$MAV/src/motion_defines.cpp'], 'n': 20000, 'flags': ['-fno-access-control']}
ASSUMPTIONS = ['a waypoint\'s vertex has three dimensions (checked by addConstraint)', 'the last width is positive (initially 1.5, only ever shrunk by a positive factor: proved for setCurrentPosition)',
               'member-wise copy of std::vector, std::array, Eigen and Vertex values gives equal, independent values']
DW, GM = 'dynamic_traj_generator::DynamicWaypoint', 'GaussianModifier'
TM = ('map', INT, EV)
MODS = ('seq', ('array', ('class', GM), 3), 'vector')


def tasks(db, tier):
    D = lambda x: DW + '::' + x
    f_comp, f_set, f_time, f_reset, f_rcp, f_con, f_has = (find(db, D(x)) for x in ('trajectoryCompensation', 'setCurrentPosition', 'setTime', 'resetWaypoint', 'resetWaypointWithCurrentPosition', 'setConstraint', 'hasModifiers'))
    gets = {x: find(db, D(x)) for x in ('getVertex', 'getName', 'getIndex', 'getOriginalPosition', 'getCurrentPosition', 'getTime')}
    f_val = find(db, GM + '::operator()')
    gt = cls(GM)
    FIELDS = [n for n, _, _ in db.find_class(DW).fields]

    def waypoint(it, name='w', dim=3):
        w = it.fresh_named(cls(DW), name)
        f = dict(w.f)
        if bounded(it):
            m = {k: vec(reals('%s.c%d_' % (name, k), 3)) for k in (0, 1) if it.choose(2)}
            f['vertex_'] = SV(VERT, {'D_': 3, 'constraints_': MapV(INT, EV, m)})
            n = it.choose(3)
            f['modifiers_'] = Seq(MODS[1], 'vector', [it.fresh_named(MODS[1], '%s.m%d' % (name, i)) for i in range(n)])
        else:
            f['vertex_'] = SV(VERT, {'D_': 3, 'constraints_': it.fresh_named(TM, name + '.constraints')})
        return SV(w.cls, f)

    def G(it, m, t, k):
        """contract of the deformation (C18)"""
        so = it.S.sort(gt)
        g = z3.Function('deformation', so, z3.RealSort(), z3.IntSort(), z3.RealSort())(sterm(it, gt, m), rv(t), iv(k))
        f = m.f
        it.assume(implies(land(cmp('==', t, f['mu_']), cmp('==', k, 0)), g == rv(ite(land(cmp('>=', rabs(f['increment_']), Fraction(2, 100)), cmp('>', f['sigma_'], 0)), f['increment_'], Fraction(0)))))
        return g

    def ov_val(it, func, this, args, node):
        return G(it, it.load(this), it.val(args[0]), it.val(args[1]) if len(args) > 1 else 0)

    P = [uf('partial_sum_%d' % i, 'i', 'r', 'r') for i in range(3)]

    def eqv(it, name, a, b, nm='j0'):
        """equality of two values of the same shape, at arbitrary indices"""
        if a is b:
            it.oblige(name, True)
        elif isinstance(a, SV):
            for n in sorted(set(a.f) | set(b.f)):
                eqv(it, name + ' ' + n.rstrip('_'), a.f[n], b.f[n], nm + n[:1])
        elif isinstance(a, MapV) and isinstance(b, MapV) and bounded(it):
            it.oblige(name + ' (orders)', sorted(a.d) == sorted(b.d))
            for k in a.d:
                if k in b.d:
                    eqv(it, name, a.d[k], b.d[k])
        elif isinstance(a, (MapV, SymMap)) or isinstance(b, (MapV, SymMap)):
            a, b = it.symmap(a), it.symmap(b)
            q = z3.Int('q0')
            it.oblige(name + ' (orders)', z3.Select(a.dom, q) == z3.Select(b.dom, q))
            it.oblige(name + ' (values)', z3.Implies(z3.Select(a.dom, q), z3.Select(a.val, q) == z3.Select(b.val, q)))
        elif isinstance(a, (Mat, Seq)):
            it.oblige(name + ' (size)', cmp('==', size(a), size(b)))
            n = size(a)
            if isinstance(n, int) and isinstance(size(b), int):
                for i in range(min(n, size(b))):
                    eqv(it, name, it.elem(a, i), it.elem(b, i), nm)
                return
            j = z3.Int(nm)
            for g in elems_equal(it, it.elem(a, j), it.elem(b, j)):
                it.oblige(name, implies(land(j >= 0, j < iv(n)), g))
        elif isinstance(a, str) or isinstance(b, str):
            it.oblige(name, cmp('==', a, b) if is_sym(a) or is_sym(b) else a == b)
        else:
            it.oblige(name, cmp('==', a, b))

    def elems_equal(it, a, b):
        if isinstance(a, SV):
            return [g for n in a.f for g in elems_equal(it, a.f[n], b.f[n])]
        if isinstance(a, (Mat, Seq)):
            return [g for i in range(size(a)) for g in elems_equal(it, it.elem(a, i), it.elem(b, i))]
        return [cmp('==', a, b)]

    def keep(it, got, old, but):
        for n in FIELDS:
            if n not in but:
                eqv(it, 'kept: ' + n.strip('_').replace('_', ' '), got.f[n], old.f[n])

    def constraint(it, w, old, val, order=0):
        """constraint of that order is val, the others as before"""
        m, o = w.f['vertex_'].f['constraints_'], old.f['vertex_'].f['constraints_']
        it.oblige('three dimensions', cmp('==', w.f['vertex_'].f['D_'], 3))
        if bounded(it) and isinstance(m, MapV) and isinstance(o, MapV):
            it.oblige('constraint is held', order in m.d)
            if order in m.d:
                eq_list(it, 'constraint value', items(m.d[order]), items(val))
            it.oblige('other constraints', sorted(k for k in m.d if k != order) == sorted(k for k in o.d if k != order))
            for k in m.d:
                if k in o.d and k != order:
                    eqv(it, 'other constraints', m.d[k], o.d[k])
            return
        m, o = it.symmap(m), it.symmap(o)
        it.oblige('constraint is held', z3.Select(m.dom, iv(order)))
        x = it.S.val(EV, z3.Select(m.val, iv(order)))
        it.oblige('constraint value', land(cmp('==', size(x), 3), *[cmp('==', it.elem(x, i), it.elem(val, i)) for i in range(3)]))
        q = z3.Int('q0')
        it.oblige('other constraints', implies(q != iv(order), land(z3.Select(m.dom, q) == z3.Select(o.dom, q), implies(z3.Select(o.dom, q), z3.Select(m.val, q) == z3.Select(o.val, q)))))

    def run_comp(it):
        w = waypoint(it)
        t = z3.Real('t')
        k = it.choose(3) if bounded(it) else z3.Int('order')
        wl = new(it, w)
        it.ghost.update(w=w, t=t, k=k)
        n = size(w.f['modifiers_'])
        if not bounded(it):
            for i in range(3):
                it.assume(P[i](z3.IntVal(0), t) == 0)
        r = call(it, f_comp, wl, [t, k])
        want = [P[i](iv(n), t) for i in range(3)] if not bounded(it) else [total(it, w, i, t, k) for i in range(3)]
        it.oblige('three components', cmp('==', size(r), 3))
        for i in range(3):
            it.oblige('component %d is the sum of the deformations' % i, cmp('==', it.elem(r, i), want[i]))
        keep(it, it.load(wl), w, ())

    def total(it, w, i, t, k):
        s = Fraction(0)
        for m in w.f['modifiers_'].items:
            s = add(s, G(it, it.elem(m, i), t, k))
        return s

    def inv_comp(L):
        it, Gh = L.it, L.it.ghost
        if 'w' not in Gh or bounded(it) or L.level != 1:
            return None
        idx, ms = iv(L.idx), Gh['w'].f['modifiers_']
        e = it.elem(ms, idx)
        for i in range(3):
            it.assume(implies(idx < iv(ms.n), P[i](idx + 1, Gh['t']) == P[i](idx, Gh['t']) + G(it, it.elem(e, i), Gh['t'], Gh['k'])))
        acc = [it.cells[c[0]] for c in L.mods]
        acc = next((x for x in acc if isinstance(x, Mat) and len(x.d) == 3), None)
        if acc is None:
            return None
        return [idx >= 0, idx <= iv(ms.n)] + [cmp('==', acc.d[i], P[i](idx, Gh['t'])) for i in range(3)]

    def v3(nm):
        return Mat(3, 1, reals(nm, 3))

    def run_set(it):
        w = waypoint(it)
        it.assume(w.f['last_sigma_'] > 0)
        p, now = v3('p'), z3.Real('now')
        old = w.f['modifiers_']
        cur = items(w.f['current_position_'])
        wl = new(it, w)
        call(it, f_set, wl, [new(it, p, ('eig', 'r', 3, 1)), now])
        g = it.load(wl)
        ms = g.f['modifiers_']
        it.oblige('one deformation is added', cmp('==', size(ms), add(size(old), 1)))
        if not bounded(it) or size(old):
            j = arb(it, 'j0', size(old)) if not bounded(it) else it.choose(size(old))
            for x in elems_equal(it, it.elem(ms, j), it.elem(old, j)):
                it.oblige('earlier deformations are kept', x)
        new_m = it.elem(ms, size(old))
        t0 = w.f['t_assigned_']
        ahead = lor(cmp('<=', now, 0), cmp('<', now, t0))
        for i in range(3):
            m = it.elem(new_m, i)
            d = sub(p.d[i], cur[i])
            it.oblige('displacement of component %d' % i, cmp('==', m.f['increment_'], d))
            it.oblige('centred at the waypoint\'s time', cmp('==', m.f['mu_'], t0))
            it.oblige('the square of the width is kept with it', cmp('==', m.f['sigma_squared_'], mul(m.f['sigma_'], m.f['sigma_'])))
            it.oblige('positive width while the waypoint is ahead', implies(ahead, cmp('>', m.f['sigma_'], 0)))
            it.oblige('the sum at its own time grows by the displacement', implies(land(ahead, cmp('>=', rabs(d), Fraction(2, 100))), cmp('==', G(it, m, t0, 0), d)))
        it.oblige('the remembered width stays positive', cmp('>', g.f['last_sigma_'], 0))
        for i in range(3):
            it.oblige('current position', cmp('==', it.elem(g.f['current_position_'], i), p.d[i]))
        constraint(it, g, w, p)
        keep(it, g, w, ('modifiers_', 'current_position_', 'vertex_', 'last_sigma_'))

    def run_time(it):
        w = waypoint(it)
        t = z3.Real('t')
        wl = new(it, w)
        it.ghost.update(wt=w, tt=t, wl=wl)
        call(it, f_time, wl, [t])
        g = it.load(wl)
        it.oblige('assigned time', cmp('==', g.f['t_assigned_'], t))
        keep(it, g, w, ('modifiers_', 't_assigned_'))
        old, ms = w.f['modifiers_'], g.f['modifiers_']
        it.oblige('as many deformations', cmp('==', size(ms), size(old)))
        if bounded(it) and not size(old):
            return
        j = arb(it, 'j0', size(old)) if not bounded(it) else it.choose(size(old))
        for gl in recentred(it, it.elem(ms, j), it.elem(old, j), t):
            it.oblige(*gl)

    def recentred(it, a, b, t):
        out = []
        for i in range(3):
            x, y = it.elem(a, i), it.elem(b, i)
            for n in x.f:
                out.append(('recentred', cmp('==', x.f[n], t)) if n == 'mu_' else ('deformation otherwise unchanged: ' + n, cmp('==', x.f[n], y.f[n])))
        return out

    def inv_time(L):
        it, Gh = L.it, L.it.ghost
        if 'wt' not in Gh or bounded(it) or L.level != 1:
            return None
        idx, j, old = iv(L.idx), z3.Int('j0'), Gh['wt'].f['modifiers_']
        ms = it.load(Gh['wl']).f['modifiers_']
        a, b = it.elem(ms, j), it.elem(old, j)
        rng = lambda lo, hi: land(j >= lo, j < hi, j >= 0, j < iv(old.n))
        return [cmp('==', size(ms), size(old)), idx >= 0, idx <= iv(old.n)] + [implies(rng(0, idx), g) for _, g in recentred(it, a, b, Gh['tt'])] + [implies(rng(idx, iv(old.n)), g) for g in elems_equal(it, a, b)]

    def run_reset(kind):
        def run(it):
            w = waypoint(it)
            p = v3('p')
            wl = new(it, w)
            pl = new(it, p, ('eig', 'r', 3, 1))
            order = 0
            if kind == 'setConstraint':
                order = it.choose(4)
                call(it, f_con, wl, [order, pl])
            elif kind == 'resetWaypoint':
                call(it, f_reset, wl, [pl])
            else:
                p = w.f['current_position_']
                call(it, f_rcp, wl, [])
            g = it.load(wl)
            constraint(it, g, w, p, order)
            if order == 0:
                for i in range(3):
                    it.oblige('current position', cmp('==', it.elem(g.f['current_position_'], i), it.elem(p, i)))
                    it.oblige('original position', cmp('==', it.elem(g.f['original_position_'], i), it.elem(p, i)))
                it.oblige('no deformation is left', cmp('==', size(g.f['modifiers_']), 0))
                it.oblige('hasModifiers tells so', lnot(call(it, f_has, wl, [])))
                keep(it, g, w, ('vertex_', 'current_position_', 'original_position_', 'modifiers_'))
            else:
                keep(it, g, w, ('vertex_',))
        return run

    def run_copy(it):
        w = waypoint(it)
        c = it.construct(DW, [new(it, w)], None)
        for n in FIELDS:
            eqv(it, 'copied: ' + n.strip('_').replace('_', ' '), c.f[n], w.f[n])

    def run_new(it):
        if bounded(it):
            m = {k: vec(reals('c%d_' % k, 3)) for k in (0, 2) if k == 0 or it.choose(2)}
            v = SV(VERT, {'D_': 3, 'constraints_': MapV(INT, EV, m)})
            pos = m[0]
        else:
            m = it.fresh_named(TM, 'constraints')
            v = SV(VERT, {'D_': 3, 'constraints_': m})
            it.assume(z3.Select(m.dom, 0))
            pos = it.S.val(EV, z3.Select(m.val, 0))
            it.assume(iv(size(pos)) == 3)
        name = it.fresh_named(('str',), 'name')
        kind = it.choose(2)
        args = [new(it, v)] + ([z3.Int('index')] if kind else []) + [new(it, name, ('str',))]
        w = it.construct(DW, args, None, f=find(db, DW + '::DynamicWaypoint', n=len(args)))
        eqv(it, 'vertex', w.f['vertex_'], v)
        for i in range(3):
            it.oblige('original position is the position constraint', cmp('==', it.elem(w.f['original_position_'], i), it.elem(pos, i)))
            it.oblige('current position is the position constraint', cmp('==', it.elem(w.f['current_position_'], i), it.elem(pos, i)))
        it.oblige('no deformation', cmp('==', size(w.f['modifiers_']), 0))
        it.oblige('positive width', cmp('>', w.f['last_sigma_'], 0))
        eqv(it, 'name', w.f['name_'], name)
        if kind:
            it.oblige('index', cmp('==', w.f['index_'], z3.Int('index')))

    def run_get(it):
        w = waypoint(it)
        wl = new(it, w)
        for g, n in (('getVertex', 'vertex_'), ('getName', 'name_'), ('getIndex', 'index_'), ('getOriginalPosition', 'original_position_'), ('getCurrentPosition', 'current_position_'), ('getTime', 't_assigned_')):
            r = call(it, gets[g], wl, [])
            eqv(it, g, it.val(r), w.f[n])
        it.oblige('hasModifiers', cmp('==', bv(call(it, f_has, wl, [])), cmp('>', size(w.f['modifiers_']), 0)))
        keep(it, it.load(wl), w, ())

    ov = {GM + '::operator()': ov_val}
    b = 'at most 2 deformations'
    out = [Task('sum of the deformations', run_comp, [D('trajectoryCompensation')], overrides=ov, invariants={'trajectoryCompensation': [('sum', inv_comp)]}, bounded=[(b, run_comp)]),
           Task('move', run_set, [D('setCurrentPosition')], bounded=[(b, run_set)]),
           Task('retime', run_time, [D('setTime')], invariants={'setTime': [('recentred', inv_time)]}, bounded=[(b, run_time)])]
    for k in ('resetWaypoint', 'resetWaypointWithCurrentPosition', 'setConstraint'):
        out.append(Task(k, run_reset(k), [D(k)], bounded=[(b, run_reset(k))]))
    out += [Task('copy', run_copy, [D('DynamicWaypoint')], bounded=[(b, run_copy)]), Task('construction', run_new, [D('DynamicWaypoint')], bounded=[(b, run_new)]),
            Task('queries', run_get, [D(x) for x in gets] + [D('hasModifiers')], bounded=[(b, run_get)])]
    return out
