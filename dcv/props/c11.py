"""C11: Initial segment times are positive and follow the stated allocation rule.

Contracts (any number of vertices n >= 2, any dimension; d_i = norm of the difference of the positions of vertices i and i+1):
  estimateSegmentTimesNfabian / estimateSegmentTimes   n-1 times, t_i = max(0.1, d_i/v + (v/a if either end holds a velocity of
                             norm below 1e-6, else 0))
  computeTimeVelocityRamp    the rest-to-rest time of the trapezoidal profile: 2 v/a + (d - v^2/a)/v beyond d = v^2/a, else 2 sqrt(d/a)
  estimateSegmentTimesVelocityRamp   n-1 times, t_i = max(0.1, factor * ramp time of pair i)
  lemma: both are positive and (for a factor of at least 1) at least d_i/v
"""
from ..spec import *
from .. import models
TUS = ['vertex']
NATIVE = {'src': 'c11.cpp', 'with': ['$MAV/src/vertex.cpp', '$MAV/src/motion_defines.cpp'], 'n': 6000}
ASSUMPTIONS = ['limits are positive; every vertex holds a position, all of the same dimension', 'the vector norm is a function of the vector, not negative, and the same for a-b and b-a']


def tasks(db, tier):
    f_est, f_nf, f_ramp, f_t = (find(db, NS + x) for x in ('estimateSegmentTimes', 'estimateSegmentTimesNfabian', 'estimateSegmentTimesVelocityRamp', 'computeTimeVelocityRamp'))
    tv = cls(VERT)
    ramp = uf('ramp_time', 'r', 'r', 'r', 'r')
    KMIN = Fraction(1, 10)

    def limits(it):
        v, a = z3.Real('v_max'), z3.Real('a_max')
        it.assume(z3.And(v > 0, a > 0))
        return v, a

    def hasf(it):
        return z3.Function('holds', it.S.sort(tv), z3.IntSort(), z3.BoolSort())

    def valf(it):
        return z3.Function('held', it.S.sort(tv), z3.IntSort(), it.S.sort(EV))

    def get_contract(it, func, this, args, node):
        if bounded(it):
            return NotImplemented
        k, out = it.val(args[0]), it.val(args[1])
        v = sterm(it, tv, it.load(this))
        if k == 0 and not is_sym(k):
            # precondition: every vertex holds a position of the common dimension
            it.assume(land(hasf(it)(v, 0), cmp('==', size(sval(it, EV, valf(it)(v, 0))), z3.Int('D'))))
            it.store(out.lv, sval(it, EV, valf(it)(v, 0)))
            return True
        if it.branch(hasf(it)(v, iv(k))):
            it.store(out.lv, sval(it, EV, valf(it)(v, iv(k))))
            return True
        return False

    def has_contract(it, func, this, args, node):
        if bounded(it):
            return NotImplemented
        return hasf(it)(sterm(it, tv, it.load(this)), iv(it.val(args[0])))

    def held(it, V, i, k):
        v = it.elem(V, i)
        if bounded(it):
            m = v.f['constraints_'].d
            return k in m, m.get(k)
        t = sterm(it, tv, v)
        return hasf(it)(t, k), sval(it, EV, valf(it)(t, k))

    def norm(it, v):
        return models.norm2(it, v)

    def dist(it, V, i):
        a, b = held(it, V, i, 0)[1], held(it, V, add(i, 1), 0)[1]
        if bounded(it):
            return norm(it, vec([sub(x, y) for x, y in zip(items(b), items(a))]))
        it.assume(land(cmp('==', size(a), z3.Int('D')), cmp('==', size(b), z3.Int('D'))))
        return norm(it, models.sym_zip(it, b, a, lambda x, y: x - y, None))

    def rest(it, V, i):
        h, v = held(it, V, i, 1)
        if h is False:
            return False
        return land(h, cmp('<', norm(it, v), Fraction(1, 10 ** 6)))

    def vertices(it, vel=True):
        if bounded(it):
            n = it.choose(2) + 2
            V = []
            for i in range(n):
                m = {0: vec(reals('p%d_' % i, 2))}
                if vel and it.choose(2):
                    m[1] = vec(reals('v%d_' % i, 1))
                V.append(SV(VERT, {'D_': 2, 'constraints_': MapV(INT, EV, m)}))
            return Seq(tv, 'vector', V), n
        V = it.fresh_named(vseq(tv), 'vertices')
        it.assume(z3.And(V.n >= 2, z3.Int('D') >= 0))
        return V, V.n

    def rule_nf(it, V, i, v, a):
        t = add(rdiv(dist(it, V, i), v), ite(lor(rest(it, V, i), rest(it, V, add(i, 1))), rdiv(v, a), Fraction(0)))
        return rmax(KMIN, t)

    def rule_ramp(it, V, i, v, a, f):
        return rmax(KMIN, mul(f, ramp(rv(dist(it, V, i)), rv(v), rv(a))))

    def run_of(fn, rule, fac=False):
        def run(it):
            V, n = vertices(it, vel=not fac)
            v, a = limits(it)
            f = z3.Real('time_factor')
            vl = new(it, V, vseq(tv))
            it.ghost.update(V=V, rule=(lambda i: rule(it, V, i, v, a, f) if fac else rule(it, V, i, v, a)))
            r = call(it, fn, None, [vl, v, a] + ([f] if fac else ([Fraction(13, 2)] if fn is f_nf else [])))
            it.oblige('the vertices are unchanged', it.load(vl) is V)
            it.oblige('one time per consecutive pair', cmp('==', size(r), sub(n, 1)))
            j = arb(it, 'j0', sub(n, 1))
            t = it.elem(r, j)
            it.oblige('the time of a pair follows the rule', cmp('==', t, it.ghost['rule'](j)))
            it.oblige('times are positive', cmp('>', t, 0))
            if not fac:
                it.oblige('enough for the distance at the maximum velocity', cmp('>=', mul(t, v), dist(it, V, j)))
        return run

    def inv(L):
        it, G = L.it, L.it.ghost
        if 'rule' not in G or bounded(it):
            return None
        s = next((it.cells[c[0]] for c in L.mods if isinstance(it.cells[c[0]], Seq)), None)
        if s is None:
            return None
        j, i = z3.Int('j0'), iv(L.idx)
        return [i >= 0, i <= iv(G['V'].n) - 1, cmp('==', s.n, i), implies(land(j >= 0, j < i), cmp('==', it.elem(s, j), G['rule'](j)))]

    def ramp_contract(it, func, this, args, node):
        x, y = it.val(args[0]), it.val(args[1])
        if bounded(it):
            d = norm(it, vec([sub(p, q) for p, q in zip(items(y), items(x))]))
        else:
            d = norm(it, models.sym_zip(it, y, x, lambda p, q: p - q, node))
        return ramp(rv(d), rv(it.val(args[2])), rv(it.val(args[3])))

    def t_ramp(it):
        v, a = limits(it)
        if bounded(it):
            x, y = vec(reals('x', 1)), vec(reals('y', 1))
            d = norm(it, vec([sub(p, q) for p, q in zip(items(y), items(x))]))
        else:
            x, y = it.fresh_named(EV, 'x'), it.fresh_named(EV, 'y')
            it.assume(x.n == y.n)
            d = norm(it, models.sym_zip(it, y, x, lambda p, q: p - q, None))
        r = call(it, f_t, None, [new(it, x, EV), new(it, y, EV), v, a])
        acc = rdiv(v, a)
        it.oblige('not negative', cmp('>=', r, 0))
        long_ = cmp('>=', d, mul(v, acc))
        it.oblige('too short to reach the velocity: twice the ramp over half the distance', implies(lnot(long_), cmp('==', mul(mul(r, r), a), mul(4, d))))
        it.oblige('two ramps and the rest at the maximum velocity', implies(long_, cmp('==', r, add(mul(2, acc), rdiv(sub(d, mul(v, acc)), v)))))

    def t_lemma(it):
        # the ramp time covers the distance at no more than the maximum velocity
        d, v, a, r, f = z3.Reals('d v_max a_max r factor')
        it.assume(z3.And(v > 0, a > 0, d >= 0, r >= 0, f >= 1))
        it.assume(z3.Implies(d * a < v * v, r * r * a == 4 * d))
        it.assume(z3.Implies(d * a >= v * v, r == 2 * (v / a) + (d - v * (v / a)) / v))
        u = z3.Real('u')
        it.assume(z3.And(u == v / a, u * a == v))
        it.oblige('ramp time at least distance over velocity', r * v >= d)
        it.oblige('also with the factor', f * r * v >= d)

    out = []
    ov = {VERT + '::getConstraint': get_contract, VERT + '::hasConstraint': has_contract}
    inv_ = {x: [('times so far', inv)] for x in ('estimateSegmentTimesNfabian', 'estimateSegmentTimes', 'estimateSegmentTimesVelocityRamp')}
    for nm, fn, rule, fac in (('default estimate', f_est, rule_nf, False), ('distance and ramp estimate', f_nf, rule_nf, False), ('trapezoidal estimate', f_ramp, rule_ramp, True)):
        o = dict(ov)
        if fac:
            o[NS + 'computeTimeVelocityRamp'] = ramp_contract
        out.append(Task(nm, run_of(fn, rule, fac), [fn.qname], overrides=o, hooks={'no_elements': True}, invariants=inv_, bounded=[('at most 3 vertices, dimension 2', run_of(fn, rule, fac))]))
    out.append(Task('time of a trapezoidal profile', t_ramp, [NS + 'computeTimeVelocityRamp'], bounded=[('dimension 1', t_ramp)]))
    out.append(Task('the trapezoidal profile respects the velocity', t_lemma, [], exact=True, lemma=True))
    return out
