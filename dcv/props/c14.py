"""C14: The nonlinear optimiser searches the problem the user stated.

Contracts (any number of segments, dimensions, free derivatives and limits, any candidate point; the linear optimiser enters through its contracts of C12 and C13):
  objectiveFunctionTime, objectiveFunctionTimeAndConstraints, objectiveFunctionTimeMellingerOuterLoop   the state becomes the candidate's, the value is cost + time penalty + enabled soft penalties of it
  evaluateMaximumMagnitudeConstraint, evaluateMaximumMagnitudeAsSoftConstraint, addMaximumMagnitudeConstraint, computeTotalTrajectoryTime, getTotalCostWithSoftConstraints
  setFreeEndpointDerivativeHardConstraints   finite bounds on exactly the variables of a limited derivative
  optimizeTime, optimizeTimeAndFreeConstraints, optimizeTimeMellingerOuterLoop, optimize, setupFromVertices   starting point, bounds and size handed to the search, the accepted variables are stored
"""
from .optlib import *
from ..models import F_exp
ASSUMPTIONS = ['nlopt: calls the functions it was given, keeps the number of variables and returns the accepted ones',
               'the linear optimiser as specified by C12 and C13', 'limits greater than zero for soft penalties']
TRUSTED = ['nlopt']
NATIVE = {'src': 'c14.cpp', 'with': ['$MAV/src/' + x for x in ('trajectory.cpp', 'segment.cpp', 'polynomial.cpp', 'vertex.cpp', 'motion_defines.cpp', 'timing.cpp', 'trajectory_sampling.cpp', 'rpoly/rpoly_ak1.cpp')],
          'n': 1500, 'libs': ['-lglog', '-lgflags', '-lpthread', '-lnlopt_cxx'], 'flags': ['-fno-access-control']}
TUS = ['polynomial', 'segment', 'trajectory', 'vertex', 'timing', 'nlopt']
PN = 'PolynomialOptimizationNonLinear<10>'
CD = ('class', PN + '::ConstraintData')
TIMES, FREES, SEGS = ('seq', REAL, 'vector'), ('seq', EVT, 'vector'), ('seq', SG, 'vector')
EXT = ('class', NS + 'Extremum')


def srt(it, *ts):
    return [it.S.sort(t) if isinstance(t, tuple) else t for t in ts]


R_, I_ = z3.RealSort(), z3.IntSort()


# what the linear optimiser computes, by name
def SOLUTION(it):
    return z3.Function('free_values_for', *srt(it, TIMES, FREES))


def ASSEMBLED(it):
    return z3.Function('segments_for', *srt(it, TIMES, FREES, SEGS))


def COST(it):
    return z3.Function('cost_of', *srt(it, TIMES, SEGS, R_))


def MAXIMUM(it):
    return z3.Function('maximum_of_magnitude', *srt(it, SEGS, I_, EXT))


TOTAL = lambda it: z3.Function('total_time', *srt(it, TIMES, R_))
SOFT = lambda it: z3.Function('soft_penalties', *srt(it, SEGS, R_, R_, R_))


def tt(it, t, v):
    return it.S.term(t, v)


def state(it, g):
    p = g.f['poly_opt_']
    return tt(it, TIMES, p.f['segment_times_']), tt(it, FREES, p.f['free_constraints_compact_']), tt(it, SEGS, p.f['segments_'])


def world(it, **kw):
    """an optimiser after setup, with any limits"""
    if bounded(it):
        return small_world(it)
    heap = pointer_heap(it, CD, 'limits')
    o = it.fresh_named(('class', PN), 'obj')
    p = o.f['poly_opt_']
    S_, D, F_ = [iv(p.f[k]) for k in ('n_segments_', 'dimension_', 'n_free_constraints_')]
    it.assume(z3.And(S_ >= 1, S_ < 2 ** 30, D >= 1, D < 1000, F_ >= 0, F_ < 2 ** 30, p.f['segment_times_'].n == S_, p.f['free_constraints_compact_'].n == D, iv(p.f['n_vertices_']) == S_ + 1, p.f['vertices_'].n == S_ + 1, p.f['segments_'].n == S_))
    par = o.f['optimization_parameters_'].with_('print_debug_info', False).with_('print_debug_info_time_allocation', False)
    m, a = z3.Ints('method algorithm')
    it.assume(z3.And(m >= 0, m <= 5))
    par = par.with_('time_alloc_method', m).with_('algorithm', a)
    o = o.with_('nlopt_', Ptr(it.alloc(Opaque('nlopt'), None))).with_('optimization_parameters_', par)
    for k, v in kw.items():
        o = o.with_(k, v)
    ol = new(it, o)
    it.ghost.update(w=o, ol=ol, S=S_, D=D, F=F_, heap=heap)
    it.e.peel = 0
    return o, ol


def small_world(it, S_=None, F_=None, limits=3, sizes=None):
    """at most two segments, dimensions, free derivatives and limits"""
    pointer_heap(it, CD, 'limits')
    o = it.fresh_named(('class', PN), 'obj')
    S_, D, F_ = sizes[it.choose(len(sizes))] if sizes else (S_ or it.choose(2) + 1, it.choose(2) + 1, it.choose(3) if F_ is None else F_)
    p = o.f['poly_opt_']
    for k, n in (('segments', S_), ('vertices', S_ + 1), ('free_constraints', F_)):
        p = p.with_('n_%s_' % k, n)
    vals = Seq(EVT, 'vector', [vec(reals('free%d_' % d, F_)) for d in range(D)])
    p = p.with_('dimension_', D).with_('segment_times_', Seq(REAL, 'vector', reals('T', S_))).with_('free_constraints_compact_', vals)
    p = p.with_('vertices_', Seq(VX, 'vector', [it.fresh_named(VX, 'vertex%d' % i) for i in range(S_ + 1)]))
    m, a = z3.Ints('method algorithm')
    it.assume(z3.And(m >= 0, m <= 5))
    par = o.f['optimization_parameters_'].with_('print_debug_info', False).with_('print_debug_info_time_allocation', False).with_('time_alloc_method', m).with_('algorithm', a)
    lim = []
    for i in range(it.choose(limits)):
        d = it.fresh_named(CD, 'limit%d' % i).with_('this_object', Opaque('this'))
        it.assume(z3.And(iv(d.f['derivative']) >= 0, rv(d.f['value']) > 0))
        lim.append(Ptr(new(it, d)))
    o = o.with_('poly_opt_', p).with_('nlopt_', Ptr(it.alloc(Opaque('nlopt'), None))).with_('optimization_parameters_', par).with_('inequality_constraints_', Seq(LIST[1], 'vector', lim))
    ol = new(it, o)
    for x in lim:
        it.store(x.lv.f('this_object'), Ptr(ol))
    it.ghost.update(w=o, ol=ol, S=S_, D=D, F=F_, heap=None)
    return o, ol


def listed(it, t, n, name='x'):
    """a list of n values"""
    if bounded(it):
        return Seq(t, 'vector', reals(name, n))
    x = it.fresh_named(('seq', t, 'vector'), name)
    it.assume(x.n == n)
    return x


def free_values(it, term, D, F_):
    """the value of a term for the free values of all dimensions"""
    s = it.S.val(FREES, term)
    if not bounded(it):
        it.assume(z3.And(s.n == iv(D), sized_free(it, s, iv(D), iv(F_))))
        return s
    return Seq(EVT, 'vector', [vec([z3.Function('entry', *srt(it, FREES, I_, I_, R_))(term, d, j) for j in range(F_)]) for d in range(D)])


def same_state(it, a, b):
    return z3.And(*[x == y for x, y in zip(a, b)])


def sized_free(it, fr, D, F_):
    d = z3.Int('d!')
    return every([d], z3.Implies(z3.And(d >= 0, d < D), it.S.acc(it.S.sort(EVT), 0, z3.Select(fr.arr, d)) == F_), [z3.Select(fr.arr, d)])


# ---------------------------------------------------------------- contracts of the linear optimiser
def ov_update(it, func, this, args, node):
    if 'w' not in it.ghost:
        return NotImplemented
    g, t = it.load(this), it.val(args[0])
    it.oblige('one time per segment', cmp('==', t.n, g.f['n_segments_']), node)
    it.store(this.f('segment_times_'), t)
    return None


def put(it, this, free):
    g = it.load(this)
    tm = tt(it, TIMES, g.f['segment_times_'])
    sg = it.S.val(SEGS, ASSEMBLED(it)(tm, tt(it, FREES, free)))
    if not bounded(it):
        it.assume(sg.n == iv(g.f['n_segments_']))
    it.store(this.f('free_constraints_compact_'), free)
    it.store(this.f('segments_'), sg)


def ov_solve(it, func, this, args, node):
    if 'w' not in it.ghost:
        return NotImplemented
    g = it.load(this)
    put(it, this, free_values(it, SOLUTION(it)(tt(it, TIMES, g.f['segment_times_'])), g.f['dimension_'], g.f['n_free_constraints_']))
    return True


def ov_free(it, func, this, args, node):
    if 'w' not in it.ghost:
        return NotImplemented
    g, fr = it.load(this), it.val(args[0])
    it.oblige('free values for every dimension', cmp('==', fr.n, g.f['dimension_']), node)
    if 'd0' in it.ghost:
        it.oblige('as many free values as there are free derivatives', cmp('==', size(it.elem(fr, it.ghost['d0'])), g.f['n_free_constraints_']), node)
    put(it, this, fr)
    return None


def ov_cost(it, func, this, args, node):
    if 'w' not in it.ghost:
        return NotImplemented
    g = it.load(this)
    return COST(it)(tt(it, TIMES, g.f['segment_times_']), tt(it, SEGS, g.f['segments_']))


def maximum(it, segs, k):
    return it.S.val(EXT, MAXIMUM(it)(segs, iv(k)))


def ov_max(it, func, this, args, node):
    if 'w' not in it.ghost:
        return NotImplemented
    k = it.val(args[0])
    it.oblige('derivative exists', cmp('>=', k, 0), node)
    return maximum(it, tt(it, SEGS, it.load(this).f['segments_']), k)


def ov_total(it, func, this, args, node):
    if 'w' not in it.ghost:
        return NotImplemented
    return TOTAL(it)(tt(it, TIMES, it.val(args[0])))


def ov_soft(it, func, this, args, node):
    G = it.ghost
    if 'w' not in G:
        return NotImplemented
    g = it.load(this)
    if bounded(it):
        it.oblige('penalties of the limits of this object', [x.lv.key() for x in it.val(args[0]).items] == [x.lv.key() for x in G['w'].f['inequality_constraints_'].items], node)
    else:
        it.oblige('penalties of the limits of this object', tt(it, LIST, it.val(args[0])) == tt(it, LIST, G['w'].f['inequality_constraints_']), node)
    it.store(this.f('optimization_info_').f('maxima'), it.fresh(('map', INT, EXT), 'maxima'))
    return SOFT(it)(tt(it, SEGS, g.f['poly_opt_'].f['segments_']), rv(it.val(args[1])), rv(it.val(args[2])))


LIST = ('seq', ('sptr', CD), 'vector')


def tasks(db, tier):
    q = PN + '::'
    F = lambda x: find(db, q + x)
    P = NS + PO + '::'
    lin = {P + 'updateSegmentTimes': ov_update, P + 'solveLinear': ov_solve, P + 'setFreeConstraints': ov_free, P + 'computeCost': ov_cost, P + 'computeMaximumOfMagnitude': ov_max}
    obj = dict(lin, **{q + 'computeTotalTrajectoryTime': ov_total, q + 'evaluateMaximumMagnitudeAsSoftConstraint': ov_soft})

    ENUM = {x: i for i, x in enumerate(('kSquaredTime', 'kRichterTime', 'kMellingerOuterLoop', 'kSquaredTimeAndConstraints', 'kRichterTimeAndConstraints', 'kUnknown'))}

    def value(it, g, richter):
        """cost of the current state plus penalties"""
        par = it.ghost['w'].f['optimization_parameters_']
        tm, fr, sg = state(it, g)
        T = TOTAL(it)(tm)
        m = par.f['time_alloc_method']
        time = rv(par.f['time_penalty']) * z3.If(m == ENUM[richter], T, T * T)
        soft = z3.If(bv(par.f['use_soft_constraints']), SOFT(it)(sg, rv(par.f['soft_constraint_weight']), z3.RealVal(10 ** 12)), z3.RealVal(0))
        return COST(it)(tm, sg) + time + soft

    def assembled(it, g):
        tm, fr, sg = state(it, g)
        it.oblige('the segments are those of the stored times and free values', sg == ASSEMBLED(it)(tm, fr))

    # ------------------------------------------------ objectives
    def t_objective_time(it):
        o, ol = world(it)
        x = listed(it, REAL, it.ghost['S'])
        res = call(it, F('objectiveFunctionTime'), None, [new(it, x, TIMES), new(it, Seq(REAL, 'vector', []), TIMES), Ptr(ol)])
        g = it.load(ol)
        tm, fr, sg = state(it, g)
        it.oblige('the times are the candidate', tm == tt(it, TIMES, x))
        it.oblige('the free values are optimal for them', optimal(it, tm, fr))
        assembled(it, g)
        it.oblige('value of the objective', rv(res) == value(it, g, 'kRichterTime'))
        unchanged(it, g)

    def solved(it, tm):
        return tt(it, FREES, free_values(it, SOLUTION(it)(tm), it.ghost['D'], it.ghost['F']))

    def optimal(it, tm, fr):
        return fr == solved(it, tm)

    def unchanged(it, g):
        o = it.ghost['w']
        if bounded(it):
            a, b = g.f['inequality_constraints_'].items, o.f['inequality_constraints_'].items
            it.oblige('limits kept', len(a) == len(b) and all(x.lv.key() == y.lv.key() for x, y in zip(a, b)))
            return
        it.oblige('limits kept', tt(it, LIST, g.f['inequality_constraints_']) == tt(it, LIST, o.f['inequality_constraints_']))
        for k, t in it.S.fields(PO):
            if k not in ('segment_times_', 'free_constraints_compact_', 'segments_') and g.f['poly_opt_'].f[k] is not o.f['poly_opt_'].f[k]:
                it.oblige('kept: ' + k, tt(it, t, g.f['poly_opt_'].f[k]) == tt(it, t, o.f['poly_opt_'].f[k]))

    def layout(it, x):
        """any segment, any free derivative of any dimension"""
        G = it.ghost
        if bounded(it):
            i0, d0 = arb(it, 'i0', G['S']), arb(it, 'd0', G['D'])
            j0 = arb(it, 'j0', G['F']) if G['F'] else None
        else:
            i0, d0, j0 = z3.Ints('i0 d0 j0')
            it.assume(z3.And(i0 >= 0, i0 < G['S'], d0 >= 0, d0 < G['D'], j0 >= 0, j0 < G['F']))
        G.update(i0=i0, d0=d0, j0=j0)
        return i0, d0, j0

    def follows(it, g, x):
        G = it.ghost
        p = g.f['poly_opt_']
        it.oblige('the times are the first variables', land(cmp('==', p.f['segment_times_'].n, G['S']), cmp('==', it.elem(p.f['segment_times_'], G['i0']), it.elem(x, G['i0']))))
        fr = p.f['free_constraints_compact_']
        it.oblige('free values of every dimension', land(cmp('==', fr.n, G['D']), cmp('==', size(it.elem(fr, G['d0'])), G['F'])))
        if G['j0'] is not None:
            it.oblige('the free values follow, dimension by dimension', cmp('==', it.elem(it.elem(fr, G['d0']), G['j0']), it.elem(x, G['S'] + G['d0'] * G['F'] + G['j0'])))

    def t_objective_free(it):
        o, ol = world(it)
        G = it.ghost
        x = listed(it, REAL, G['S'] + G['F'] * G['D'])
        layout(it, x)
        G['x'] = x
        res = call(it, F('objectiveFunctionTimeAndConstraints'), None, [new(it, x, TIMES), new(it, Seq(REAL, 'vector', []), TIMES), Ptr(ol)])
        g = it.load(ol)
        follows(it, g, x)
        assembled(it, g)
        it.oblige('value of the objective', rv(res) == value(it, g, 'kRichterTimeAndConstraints'))
        unchanged(it, g)

    def inv_objective(L):
        it, G = L.it, L.it.ghost
        if 'x' not in G or bounded(it):
            return None
        x = G['x']
        S_, D, F_, d0, j0 = [G[k] for k in ('S', 'D', 'F', 'd0', 'j0')]
        ts, fc = L['segment_times'], L['free_constraints']
        if not L.has('d'):
            i = iv(L['i'])
            return [z3.And(i >= 0, i <= S_, ts.n == i), z3.Implies(G['i0'] < i, rv(it.elem(ts, G['i0'])) == rv(it.elem(x, G['i0'])))]
        d = iv(L['d'])
        i = iv(L['i']) if L.level >= 2 else z3.IntVal(0)
        out = [d >= 0, d <= D, i >= 0, i <= F_, fc.n == D]
        c = it.elem(fc, d0)
        out.append(z3.Implies(d0 < d, size(c) == F_))
        if L.level >= 2:
            out.append(d < D)
            out.append(z3.Implies(d0 == d, size(c) == F_))
            out.append(size(it.elem(fc, d)) == F_)
            out.append(z3.And(d * F_ >= 0, d * F_ + F_ <= F_ * D))
        out.append(z3.Implies(z3.Or(d0 < d, z3.And(d0 == d, j0 < i)), rv(it.elem(c, j0)) == rv(it.elem(x, S_ + d0 * F_ + j0))))
        return out

    def t_total(it):
        heap = pointer_heap(it, CD, 'limits')
        W = z3.Function('sum_up_to', I_, R_)
        x = seq_of(it, REAL, 'x')
        if bounded(it):
            res = call(it, F('computeTotalTrajectoryTime'), None, [new(it, x, TIMES)])
            it.oblige('sum of the times', cmp('==', res, fold(x.items)))
            return
        prefix(it, W, None)
        it.ghost.update(sum=W, x_=x)
        it.e.peel = 0
        res = call(it, F('computeTotalTrajectoryTime'), None, [new(it, x, TIMES)])
        it.oblige('sum of the times', rv(res) == W(x.n))

    def inv_total(L):
        it, G = L.it, L.it.ghost
        if 'sum' not in G or bounded(it) or not L.extra:
            return None
        k = iv(L.extra['k']())
        it.assume(G['sum'](k + 1) == G['sum'](k) + rv(it.elem(G['x_'], k)))
        return [rv(L['total_time']) == G['sum'](k)]

    # ------------------------------------------------ limits
    def limit(it, h):
        """the limit a pointer points to"""
        d = it.load(h.lv)
        return iv(d.f['derivative']), rv(d.f['value'])

    def nth(it, k):
        return limit(it, it.elem(it.ghost['w'].f['inequality_constraints_'], k))

    def t_violation(it):
        o, ol = world(it)
        d = it.fresh_named(CD, 'limit').with_('this_object', Ptr(ol))
        it.assume(iv(d.f['derivative']) >= 0)
        x = it.fresh_named(TIMES, 'x')
        tm, fr, sg = state(it, o)
        res = call(it, F('evaluateMaximumMagnitudeConstraint'), None, [new(it, x, TIMES), new(it, Seq(REAL, 'vector', []), TIMES), Ptr(new(it, d))])
        m = maximum(it, sg, d.f['derivative'])
        it.oblige('maximum of that derivative minus the limit', rv(res) == rv(m.f['value']) - rv(d.f['value']))
        g = it.load(ol)
        it.oblige('the candidate is kept', z3.And(*[a == b for a, b in zip(state(it, g), (tm, fr, sg))]))
        unchanged(it, g)

    def ov_violation(it, func, this, args, node):
        if 'w' not in it.ghost:
            return NotImplemented
        p = it.val(args[2])
        g = it.load(it.ghost['ol'])
        it.oblige('no gradient is asked for', cmp('==', it.val(args[1]).n, 0), node)
        k, v = limit(it, p)
        it.store(it.ghost['ol'].f('optimization_info_').f('maxima'), it.fresh(('map', INT, EXT), 'maxima'))
        return rv(maximum(it, tt(it, SEGS, g.f['poly_opt_'].f['segments_']), k).f['value']) - v

    def t_soft(it):
        o, ol = world(it)
        w, cap = z3.Reals('weight cap')
        W = z3.Function('penalties_up_to', I_, R_)
        prefix(it, W, None)
        G = it.ghost
        G.update(pen=W, weight=w, cap=cap, sg=state(it, o)[2])
        if bounded(it):
            res = call(it, F('evaluateMaximumMagnitudeAsSoftConstraint'), ol, [ol.f('inequality_constraints_'), w, cap])
            want = [penalty(it, *limit(it, x)) for x in o.f['inequality_constraints_'].items]
            it.oblige('sum of the penalties of the limits', cmp('==', res, fold(want)))
            return unchanged(it, it.load(ol))
        k = z3.Int('k!')
        lst = o.f['inequality_constraints_']
        h = z3.Select(lst.arr, k)
        dv = limit(it, Ptr(G['heap'].i(h)))
        it.assume(every([k], z3.Implies(z3.And(k >= 0, k < lst.n), z3.And(dv[1] > 0, dv[0] >= 0)), [h]))
        res = call(it, F('evaluateMaximumMagnitudeAsSoftConstraint'), ol, [ol.f('inequality_constraints_'), w, cap])
        it.oblige('sum of the penalties of the limits', rv(res) == W(lst.n))
        g = it.load(ol)
        it.oblige('the candidate is kept', z3.And(*[a == b for a, b in zip(state(it, g), state(it, o))]))
        unchanged(it, g)

    def penalty(it, d, v):
        G = it.ghost
        e = F_exp((rv(maximum(it, G['sg'], d).f['value']) - v) / v * G['weight'])
        return z3.If(e < G['cap'], e, G['cap'])

    def inv_soft(L):
        it, G = L.it, L.it.ghost
        if 'pen' not in G or bounded(it) or not L.extra:
            return None
        k = iv(L.extra['k']())
        W = G['pen']
        d, v = nth(it, k)
        it.assume(W(k + 1) == W(k) + penalty(it, d, v))
        g = it.load(G['ol'])
        return [rv(L['cost']) == W(k), tt(it, SEGS, g.f['poly_opt_'].f['segments_']) == G['sg']]

    def t_add(it):
        o, ol = world(it)
        G = it.ghost
        k, v = z3.Int('derivative'), z3.Real('maximum')
        it.assume(z3.And(k >= 0, k < 2 ** 31, v >= 0))
        lst = o.f['inequality_constraints_']
        hn = it.load(G['heap']).n
        j = z3.Int('j0')
        it.assume(z3.And(j >= 0, j < lst.n, z3.Select(lst.arr, j) >= 0, z3.Select(lst.arr, j) < hn))
        before = nth(it, j)
        G['add'] = (k, v)
        res = call(it, F('addMaximumMagnitudeConstraint'), ol, [k, v])
        g = it.load(ol)
        l2 = g.f['inequality_constraints_']
        soft = bv(o.f['optimization_parameters_'].f['use_soft_constraints'])
        it.oblige('one limit more', cmp('==', l2.n, lst.n + 1))
        d2, v2 = limit(it, it.elem(l2, lst.n))
        it.oblige('with the derivative and value given', z3.And(d2 == k, v2 == v))
        it.oblige('that points back to this optimiser', 'back' in G)
        d1, v1 = limit(it, it.elem(l2, j))
        it.oblige('earlier limits are kept', z3.And(d1 == before[0], v1 == before[1]))
        it.oblige('a hard limit is handed to the search unless soft ones are used', z3.Not(soft) if 'hard' in G else z3.Or(soft, z3.Not(bv(res))))
        it.oblige('accepted unless the search refuses it', z3.Or(bv(res), bv('refused' in G)))

    def on_push(it, lv, seq, x):
        G = it.ghost
        if 'add' not in G or seq.et != ('sptr', CD) or not isinstance(x, Ptr):
            return
        p = it.load(x.lv).f['this_object']
        it.oblige('the limit points back to this optimiser', isinstance(p, Ptr) and p.lv.key() == G['ol'].key())
        G['back'] = x

    def h_inequality(it, n, obj, argn):
        G = it.ghost
        if 'w' not in G:
            return NotImplemented
        if it.choose(2):
            G['refused'] = 1
            raise ThrowX('nlopt')
        f, p, tol = argn[0], it.rvalue(argn[1]), it.rvalue(argn[2])
        it.oblige('the constraint is the violation of a limit', function_name(f) == 'evaluateMaximumMagnitudeConstraint', n)
        it.oblige('of the limit added', isinstance(p, Ptr) and 'back' in G and p.lv.key() == G['back'].lv.key(), n)
        G['hard'] = 1
        return None

    def function_name(n):
        while n.get('inner') and n['kind'] != 'DeclRefExpr':
            n = n['inner'][-1]
        return n.get('referencedDecl', {}).get('name')

    # ------------------------------------------------ bounds of the free derivatives
    CNT, LIM = z3.Function('free_derivatives_before', I_, I_), z3.Function('limit_after', I_, R_)

    def is_free(it, p):
        """position p = 5 v + k in the order of the vertex derivatives: is it free?"""
        G = it.ghost
        v, k = p / H, p % H
        return z3.Not(bv(it.map_has(it.elem(G['vs'], v).f['constraints_'], k)))

    def t_count(it):
        """positions are numbered without gaps or repeats (induction over q)"""
        fr = z3.Function('is_free', I_, z3.BoolSort())
        p, q_ = z3.Ints('p q')
        step = lambda x: it.assume(CNT(x + 1) == CNT(x) + z3.If(fr(x), 1, 0))
        step(p)
        step(q_)
        it.oblige('base: the number after a position', CNT(p) + z3.If(fr(p), 1, 0) <= CNT(p + 1))
        it.assume(z3.And(p < q_, CNT(p) + z3.If(fr(p), 1, 0) <= CNT(q_)))
        it.oblige('step: later numbers are larger', CNT(p) + z3.If(fr(p), 1, 0) <= CNT(q_ + 1))

    def small_bounds(it):
        """two vertices, some patterns of constrained derivatives"""
        pats = [(), (0,), (0, 2, 4), (0, 1, 2, 3, 4)]
        pat = [pats[it.choose(len(pats))] for _ in range(2)]
        o, ol = small_world(it, 1, 0)
        G = it.ghost
        free = [(v, k) for v in range(2) for k in range(H) if k not in pat[v]]
        n, D = len(free), G['D']
        it.store(ol.f('poly_opt_').f('n_free_constraints_'), n)
        mt = dict(it.S.fields(VERT))['constraints_']
        vs = Seq(VX, 'vector', [it.fresh_named(VX, 'v%d' % i).with_('constraints_', MapV(mt[1], mt[2], {k: vec(reals('c', D)) for k in pat[i]})) for i in range(2)])
        lo, hi = new(it, Seq(REAL, 'vector', []), TIMES), new(it, Seq(REAL, 'vector', []), TIMES)
        call(it, F('setFreeEndpointDerivativeHardConstraints'), ol, [new(it, vs), Ptr(lo), Ptr(hi)])
        lo, hi = it.load(lo), it.load(hi)
        it.oblige('one bound per variable', land(cmp('==', lo.n, n * D), cmp('==', hi.n, n * D)))
        for d in range(D):
            for i, (v, k) in enumerate(free):
                b = z3.Real('INF')
                for x in o.f['inequality_constraints_'].items:
                    kk, val = limit(it, x)
                    b = z3.If(kk == k, val, b)
                it.oblige('a variable is bounded by the last limit on its derivative, else unbounded', land(cmp('==', it.elem(lo, d * n + i), -b), cmp('==', it.elem(hi, d * n + i), b)))

    def t_bounds(it):
        if bounded(it):
            return small_bounds(it)
        o, ol = world(it)
        G = it.ghost
        vs = it.fresh_named(('seq', VX, 'vector'), 'vertices')
        S_, D, F_ = G['S'], G['D'], G['F']
        d0, v0, k0 = z3.Ints('d0 v0 k0')
        it.assume(z3.And(vs.n == S_ + 1, d0 >= 0, d0 < D, v0 >= 0, v0 <= S_, k0 >= 0, k0 < H, F_ == CNT(H * (S_ + 1)), F_ < 2 ** 20, CNT(0) == 0))
        G.update(vs=vs, d0=d0, v0=v0, k0=k0, p0=H * v0 + k0)
        it.assume(is_free(it, G['p0']))
        it.assume(is_free(it, G['p0']) == z3.Not(bv(it.map_has(it.elem(vs, v0).f['constraints_'], k0))))
        it.assume(CNT(G['p0']) + 1 <= F_)           # lemma above
        it.assume(CNT(G['p0']) >= 0)
        it.assume(z3.And(d0 * F_ >= 0, d0 * F_ + F_ <= D * F_, D * F_ < 2 ** 30))
        inf = z3.Real('INF')
        it.assume(LIM(0) == inf)
        lo, hi = new(it, Seq(REAL, 'vector', []), TIMES), new(it, Seq(REAL, 'vector', []), TIMES)
        G.update(lo=lo, hi=hi, bnd=1)
        call(it, F('setFreeEndpointDerivativeHardConstraints'), ol, [new(it, vs), Ptr(lo), Ptr(hi)])
        n = o.f['inequality_constraints_'].n
        at(it, n, LIM(n))

    def at(it, n, want, oblige=True):
        G = it.ghost
        lo, hi = it.load(G['lo']), it.load(G['hi'])
        j = G['d0'] * G['F'] + CNT(G['p0'])
        a = [z3.And(lo.n == G['D'] * G['F'], hi.n == G['D'] * G['F']), z3.And(rv(it.elem(lo, j)) == -want, rv(it.elem(hi, j)) == want)]
        if oblige:
            it.oblige('one bound per variable', a[0])
            it.oblige('a variable is bounded by the last limit on its derivative, else unbounded', a[1])
        return a

    def inv_bounds(L):
        it, G = L.it, L.it.ghost
        if 'bnd' not in G or bounded(it):
            return None
        S_, D, F_, k0, p0 = G['S'], G['D'], G['F'], G['k0'], G['p0']
        if L.level == 1:
            c = iv(L.extra['k']())
            k, v = nth(it, c)
            G['c'] = c, z3.If(v >= 0, v, -v), k
            it.assume(LIM(c + 1) == z3.If(k == k0, G['c'][1], LIM(c)))
            return at(it, c, LIM(c), False)
        c, val, der = G['c']
        v = iv(L['v'])
        k = iv(L['deriv']) if L.level >= 3 else z3.IntVal(0)
        p = H * v + k
        cur = iv(L['free_deriv_counter'])
        it.assume(CNT(p + 1) == CNT(p) + z3.If(is_free(it, p), 1, 0))
        it.assume(z3.Implies(z3.And(k >= 0, k < H), is_free(it, p) == z3.Not(bv(it.map_has(it.elem(G['vs'], v).f['constraints_'], k)))))
        w = lambda x: z3.If(is_free(it, x), 1, 0)
        it.assume(z3.And(z3.Implies(p < p0, CNT(p) + w(p) <= CNT(p0)), z3.Implies(p0 < p, CNT(p0) + 1 <= CNT(p)),
                         z3.Implies(p < H * (S_ + 1), CNT(p) + w(p) <= F_), z3.Implies(p >= 0, CNT(p) >= 0)))     # lemma above
        out = [v >= 0, v <= S_ + 1, k >= 0, k <= H, cur == CNT(p)]
        if L.level >= 3:
            out.append(v <= S_)
        done = p > p0
        if L.level >= 4:
            d = iv(L['k'])
            out += [d >= 0, d <= D, k < H, is_free(it, p), der == k, d * F_ >= 0, z3.Implies(d < D, d * F_ + F_ <= D * F_)]
            x, d0 = CNT(p), G['d0']
            it.assume(z3.And(z3.Implies(d < d0, d * F_ + F_ <= d0 * F_), z3.Implies(d0 < d, d0 * F_ + F_ <= d * F_)))      # products of integers
            done = z3.Or(done, z3.And(p == p0, d0 < d))
        return out + at(it, c, z3.If(z3.And(done, der == k0), val, LIM(c)), False)

    # ------------------------------------------------ the search
    TENTH = Fraction(1, 10)
    inf = z3.Real('INF')

    def h_set(kind):
        def h(it, n, obj, argn):
            if 'w' not in it.ghost:
                return NotImplemented
            it.ghost[kind] = it.rvalue(argn[0])
            return None
        return h

    def h_objective(it, n, obj, argn):
        G = it.ghost
        if 'w' not in G:
            return NotImplemented
        if it.choose(2):
            G['refused'] = 1
            raise ThrowX('nlopt')
        p = it.rvalue(argn[1])
        it.oblige('the objective is asked about this optimiser', isinstance(p, Ptr) and p.lv.key() == G['ol'].key(), n)
        G['objective'] = function_name(argn[0])
        return None

    def mess(it):
        """the search leaves the optimiser at some candidate"""
        G = it.ghost
        p = G['ol'].f('poly_opt_')
        if bounded(it):
            t, f = Seq(REAL, 'vector', reals('tried', G['S'])), free_values(it, z3.Const('tried', it.S.sort(FREES)), G['D'], G['F'])
        else:
            t, f = it.fresh(TIMES, 'tried'), it.fresh(FREES, 'tried')
            it.assume(z3.And(t.n == G['S'], f.n == G['D'], sized_free(it, f, G['D'], G['F'])))
        it.store(p.f('segment_times_'), t)
        s = it.fresh(SEGS, 'tried')
        it.assume(s.n == iv(G['S']))
        it.store(p.f('free_constraints_compact_'), f)
        it.store(p.f('segments_'), s)
        info = it.load(G['ol']).f['optimization_info_']
        for k, t in it.S.fields(NS + 'OptimizationInfo'):
            it.store(G['ol'].f('optimization_info_').f(k), it.fresh(t, 'info'))

    def h_optimize(it, n, obj, argn):
        G = it.ghost
        if 'w' not in G:
            return NotImplemented
        lv = it.ev(argn[0])
        x = it.load(lv)
        G['start'] = x
        mess(it)
        if it.choose(2):
            G['failed'] = 1
            raise ThrowX('nlopt')
        y = listed(it, REAL, iv(x.n), 'accepted') if not bounded(it) else Seq(REAL, 'vector', reals('accepted', x.n))
        it.store(lv, y)
        it.store(it.ev(argn[1]), z3.Real('best'))
        r = z3.Int('nlopt result')
        it.assume(z3.And(r >= 1, r < 7))
        G.update(accepted=y, result=r)
        return r

    search = {'member:set_initial_step': h_set('step'), 'member:set_lower_bounds': h_set('lower'), 'member:set_upper_bounds': h_set('upper'), 'member:set_min_objective': h_objective, 'member:optimize': h_optimize}

    def bound(it, b, i):
        return rv(it.elem(b, i)) if isinstance(b, Seq) else rv(b)

    def outcome(it, res, objective):
        """what must have been handed to the search before it ran"""
        G = it.ghost
        if 'start' in G:
            it.oblige('objective of the search', G.get('objective') == objective)
            it.oblige('lower and upper bounds are given', 'lower' in G and 'upper' in G)
        if 'failed' in G or 'refused' in G:
            return False
        it.oblige('the search is run', 'start' in G)
        return True

    def t_optimize_time(fn, objective):
        def run(it):
            o, ol = world(it)
            G = it.ghost
            i0 = arb(it, 'i0', G['S'])
            t0 = state(it, o)[0]
            x0 = it.elem(o.f['poly_opt_'].f['segment_times_'], i0)
            G.update(srch=o, i0=i0, rel=o.f['optimization_parameters_'].f['initial_stepsize_rel'])
            res = call(it, F(fn), ol, [])
            g = it.load(ol)
            ok = outcome(it, res, objective)
            if 'start' in G:
                it.oblige('the search starts from the given times', tt(it, TIMES, G['start']) == t0)
                if 'lower' in G and 'upper' in G:
                    it.oblige('segment times are bounded away from zero', z3.And(bound(it, G['lower'], i0) == rv(TENTH), bound(it, G['upper'], i0) == inf))
                if 'step' in G:
                    it.oblige('one initial step per time', cmp('==', G['step'].n, G['S']))
            unchanged(it, g)
            if not ok:
                return
            it.oblige('the result of the search is returned', cmp('==', res, G['result']))
            tm, fr, sg = state(it, g)
            if 'scaled' in G:
                it.oblige('the times scaled are the accepted ones', G['scaled from'] == ASSEMBLED(it)(tt(it, TIMES, G['accepted']), solved(it, tt(it, TIMES, G['accepted']))))
                it.oblige('the times are the scaled ones', tm == G['scaled'])
            else:
                it.oblige('the times are the accepted ones', tm == tt(it, TIMES, G['accepted']))
            it.oblige('the free values are optimal for them', optimal(it, tm, fr))
            assembled(it, g)
        return run

    def inv_step(L):
        it, G = L.it, L.it.ghost
        if 'srch' not in G or bounded(it) or not L.extra or not L.has('initial_step'):
            return None
        return [L['initial_step'].n == iv(L.extra['k']())]

    def ov_bounds(it, func, this, args, node):
        G = it.ghost
        if 'full' not in G:
            return NotImplemented
        g = it.load(this)
        vs = it.val(args[0])
        t = ('seq', VX, 'vector')
        it.oblige('bounds for the vertices of the problem', tt(it, t, vs) == tt(it, t, g.f['poly_opt_'].f['vertices_']), node)
        for k, sign in ((1, -1), (2, 1)):
            lv = it.val(args[k]).lv
            it.oblige('bound lists are empty', cmp('==', it.load(lv).n, 0), node)
            if bounded(it):
                b = [sign * z3.Real('bound%d' % i) for i in range(G['D'] * G['F'])]
                for x in b:
                    it.assume(z3.And(sign * x >= 0, sign * x <= z3.Real('INF')))
                if b:
                    b[G['d0'] * G['F'] + G['j0']] = sign * z3.Real('bound')
                it.store(lv, Seq(REAL, 'vector', b))
                continue
            b = it.fresh(TIMES, 'bounds')
            it.assume(z3.And(b.n == G['D'] * G['F'], z3.Select(b.arr, G['d0'] * G['F'] + G['j0']) == sign * z3.Real('bound')))
            it.store(lv, b)
        return None

    def t_optimize_free(it):
        o, ol = small_world(it, limits=1, sizes=[(1, 1, 0), (2, 1, 1), (1, 2, 2)]) if bounded(it) else world(it)
        G = it.ghost
        S_, D, F_ = G['S'], G['D'], G['F']
        i0, d0, j0 = layout(it, None)
        if not bounded(it):
            it.assume(sized_free(it, o.f['poly_opt_'].f['free_constraints_compact_'], D, F_))
        t0 = rv(it.elem(o.f['poly_opt_'].f['segment_times_'], i0))
        fr0 = free_values(it, SOLUTION(it)(state(it, o)[0]), D, F_)
        f0 = rv(it.elem(it.elem(fr0, d0), j0)) if j0 is not None else z3.RealVal(0)
        b = z3.Real('bound')
        it.assume(z3.And(b >= 0, b <= inf, t0 > 0, t0 < inf, f0 < inf, -f0 < inf))
        if bounded(it):
            for i, x in enumerate(o.f['poly_opt_'].f['segment_times_'].items):
                it.assume(z3.And(rv(x) < inf, rv(x) > (0 if i == i0 else rv(TENTH))))
            for d, r in enumerate(fr0.items):
                for j, y in enumerate(items(r)):
                    if (d, j) != (d0, j0):          # the other free values lie within their bounds
                        it.assume(z3.And(rv(y) < z3.Real('bound%d' % (d * F_ + j)), rv(y) > 1))
        else:
            it.assume(z3.And(D * F_ >= 0, d0 * F_ >= 0, d0 * F_ + F_ <= D * F_, D * F_ < 2 ** 30))
        G.update(full=o, jj=S_ + d0 * F_ + j0 if j0 is not None else None, t0=t0, f0=f0, b=b)
        res = call(it, F('optimizeTimeAndFreeConstraints'), ol, [])
        g = it.load(ol)
        ok = outcome(it, res, 'objectiveFunctionTimeAndConstraints')
        m = lambda x, y: z3.If(x < y, x, y)
        M = lambda x, y: z3.If(x > y, x, y)
        if 'start' in G and 'lower' in G and 'upper' in G:
            x, lo, hi = G['start'], G['lower'], G['upper']
            n = S_ + D * F_
            it.oblige('as many variables and bounds as the objective reads', land(cmp('==', x.n, n), *[cmp('==', y.n, n) for y in (lo, hi) if isinstance(y, Seq)]))
            it.oblige('the search starts from the given times', rv(it.elem(x, i0)) == t0)
            it.oblige('segment times are bounded away from zero', z3.And(bound(it, lo, i0) == m(rv(TENTH), t0), bound(it, hi, i0) == inf))
            if j0 is not None:
                it.oblige('and the free values optimal for them, dimension by dimension', rv(it.elem(x, G['jj'])) == f0)
                it.oblige('free values are bounded by the limit on their derivative', z3.And(bound(it, lo, G['jj']) == m(-b, f0), bound(it, hi, G['jj']) == M(b, f0)))
        unchanged(it, g)
        if not ok:
            return
        it.oblige('the result of the search is returned', cmp('==', res, G['result']))
        follows(it, g, G['accepted'])
        assembled(it, g)

    def inv_full(L):
        it, G = L.it, L.it.ghost
        if 'full' not in G or bounded(it):
            return None
        S_, D, F_, i0, d0, j0, jj, t0, f0, b = [G[k] for k in ('S', 'D', 'F', 'i0', 'd0', 'j0', 'jj', 't0', 'f0', 'b')]
        over_times = bool(L.extra) and L.extra['seq'].key() == L.frame.names['segment_times'].key()
        if L.level == 1:
            G['nest'] = iv(L.extra['k']()) if L.extra else None
        k = G['nest']
        i = iv(L['i']) if L.level >= 2 else z3.IntVal(0)
        nested = k is not None and not over_times
        pos = k * F_ + i if nested else None
        if nested:
            it.assume(z3.And(z3.Implies(z3.And(k >= 0, k < d0), k * F_ + F_ <= d0 * F_), z3.Implies(z3.And(d0 < k, k <= D), d0 * F_ + F_ <= k * F_), z3.Implies(z3.And(k >= 0, k < D), k * F_ + F_ <= D * F_), k * F_ >= 0))      # products of integers
        past = z3.Or(d0 < k, z3.And(d0 == k, j0 < i)) if nested else None
        out = []
        if nested:
            out += [k >= 0, k <= D, i >= 0, i <= F_]
            if L.level >= 2:
                out.append(k < D)
        if L.has('accepted'):
            acc = L['accepted'].idx
            y = G['accepted']
            st, fc = L['segment_times'], L['free_constraints']
            if over_times:
                return out + [iv(acc) == k, k <= S_, st.n == S_, z3.Implies(i0 < k, rv(it.elem(st, i0)) == rv(it.elem(y, i0)))]
            c = it.elem(fc, d0)
            return out + [iv(acc) == S_ + pos, fc.n == D, sized_free(it, fc, D, F_), z3.Implies(past, rv(it.elem(c, j0)) == rv(it.elem(y, jj)))]
        x = L['initial_solution']
        if not L.has('lower_bounds_free'):
            if over_times:
                return [iv(x.n) == k, z3.Implies(i0 < k, rv(it.elem(x, i0)) == t0)]
            return out + [iv(x.n) == S_ + pos, rv(it.elem(x, i0)) == t0, z3.Implies(past, rv(it.elem(x, jj)) == f0)]
        lo, hi = L['lower_bounds'], L['upper_bounds']
        if not L.has('i'):
            l = iv(L['l'])
            return [l >= 0, l <= S_, iv(lo.n) == l, iv(hi.n) == l, z3.Implies(i0 < l, z3.And(rv(it.elem(lo, i0)) == rv(TENTH), rv(it.elem(hi, i0)) == inf))]
        i = iv(L.idx)
        n = S_ + D * F_
        at = lambda p, v, w: rv(it.elem(v, p)) == w
        m, M = z3.If(t0 < rv(TENTH), t0, rv(TENTH)), z3.If(f0 > b, f0, b)
        return [i >= 0, i <= n, lo.n == n, hi.n == n, x.n == n, iv(L['initial_step'].n) == i,
                at(i0, lo, z3.If(i0 < i, m, rv(TENTH))), at(i0, hi, inf), at(jj, lo, z3.If(z3.And(jj < i, f0 < -b), f0, -b)), at(jj, hi, z3.If(jj < i, M, b))]

    # ------------------------------------------------ outer loop with rescaled times
    def scaled_times(it, segs, v, a):
        return z3.Function('times_scaled_to_meet', *srt(it, SEGS, R_, R_, TIMES))(segs, rv(v), rv(a))

    def ov_rescale(it, func, this, args, node):
        G = it.ghost
        if 'w' not in G:
            return NotImplemented
        p = this.f('poly_opt_')
        G['scaled from'] = state(it, it.load(this))[2]
        t = Seq(REAL, 'vector', reals('scaled', G['S'])) if bounded(it) else listed(it, REAL, G['S'], 'scaled')
        G['scaled'] = tt(it, TIMES, t)
        it.store(p.f('segment_times_'), t)
        ov_solve(it, None, p, [], node)
        return None

    def t_rescale(it):
        o, ol = world(it)
        G = it.ghost
        sg = state(it, o)[2]
        VM, AM = [z3.Function('last_limit_%d' % k, I_, R_) for k in (1, 2)]
        it.assume(z3.And(VM(0) == 0, AM(0) == 0))
        G.update(last=(VM, AM))
        call(it, F('scaleSegmentTimesWithViolation'), ol, [])
        g = it.load(ol)
        n = o.f['inequality_constraints_'].n
        tm, fr, s2 = state(it, g)
        if bounded(it):
            b = G['by']
            last = [Fraction(0), Fraction(0)]
            for x in o.f['inequality_constraints_'].items:
                d, v = limit(it, x)
                last = [z3.If(d == i + 1, v, rv(y)) for i, y in enumerate(last)]
            it.oblige('times scaled to the last velocity and acceleration limits', z3.And(tt(it, SEGS, b[0]) == sg, rv(b[1]) == rv(last[0]), rv(b[2]) == rv(last[1])))
        else:
            it.oblige('times scaled to the last velocity and acceleration limits', tm == scaled_times(it, sg, VM(n), AM(n)))
        it.oblige('the free values are optimal for them', optimal(it, tm, fr))
        assembled(it, g)
        unchanged(it, g)

    def inv_limits(L):
        it, G = L.it, L.it.ghost
        if 'last' not in G or bounded(it) or not L.extra:
            return None
        c = iv(L.extra['k']())
        d, v = nth(it, c)
        for k, f in zip((1, 2), G['last']):
            it.assume(f(c + 1) == z3.If(d == k, v, f(c)))
        return [rv(L['v_max']) == G['last'][0](c), rv(L['a_max']) == G['last'][1](c)]

    def ov_set_segments(it, func, this, args, node):
        if 'w' not in it.ghost:
            return NotImplemented
        it.store(this.f('segments_'), it.val(args[0]))
        return None

    def ov_scale(it, func, this, args, node):
        if 'w' not in it.ghost:
            return NotImplemented
        it.ghost['by'] = [it.load(this).f['segments_']] + [it.val(a) for a in args]
        return z3.Bool('scaled')

    def ov_times_of(it, func, this, args, node):
        G = it.ghost
        if 'by' not in G:
            return NotImplemented
        s, v, a = G['by']
        t = it.S.val(TIMES, scaled_times(it, tt(it, SEGS, s), v, a))
        if bounded(it):
            return Seq(REAL, 'vector', [z3.Function('time_in', *srt(it, TIMES, I_, R_))(tt(it, TIMES, t), i) for i in range(G['S'])])
        it.assume(t.n == G['S'])
        return t

    rescale = dict(lin, **{TRAJ + '::setSegments': ov_set_segments, TRAJ + '::scaleSegmentTimesToMeetConstraints': ov_scale, TRAJ + '::getSegmentTimes': ov_times_of})

    def t_gradient(it):
        o, ol = world(it)
        G = it.ghost
        tm, fr, sg = state(it, o)
        it.assume(sg == ASSEMBLED(it)(tm, fr))
        if bounded(it):
            fr = solved(it, tm)
            sg = ASSEMBLED(it)(tm, fr)
            it.store(ol.f('poly_opt_').f('free_constraints_compact_'), free_values(it, SOLUTION(it)(tm), G['D'], G['F']))
            it.store(ol.f('poly_opt_').f('segments_'), it.S.val(SEGS, sg))
        else:
            it.assume(fr == SOLUTION(it)(tm))
        gl = new(it, it.fresh_named(TIMES, 'gradient'), TIMES)
        with_ = it.choose(2)
        G.update(grad=gl)
        res = call(it, F('getCostAndGradientMellinger'), ol, [Ptr(gl) if with_ else NULL])
        g = it.load(ol)
        it.oblige('cost of the trajectory', rv(res) == COST(it)(tm, sg))
        a, b, c = state(it, g)
        it.oblige('the trajectory is that of the times given', z3.And(a == tm, b == fr, c == sg))
        if with_:
            it.oblige('one partial derivative per time', cmp('==', it.load(gl).n, G['S']))
        unchanged(it, g)

    def inv_gradient(L):
        it, G = L.it, L.it.ghost
        if 'grad' not in G or bounded(it):
            return None
        b = L['segment_times_bigger'] if L.has('segment_times_bigger') else None
        out = [it.load(G['grad']).n == G['S']]
        if b is not None:
            out.append(iv(b.n) == G['S'])
        return out

    def ov_gradient(it, func, this, args, node):
        if 'w' not in it.ghost:
            return NotImplemented
        tm, fr, sg = state(it, it.load(this))
        it.oblige('the trajectory is optimal for the times', z3.And(fr == SOLUTION(it)(tm), sg == ASSEMBLED(it)(tm, fr)), node)
        p = it.val(args[0])
        if isinstance(p, Ptr):
            y = it.fresh(TIMES, 'gradient')
            it.assume(y.n == it.ghost['S'])
            it.store(p.lv, y)
        return COST(it)(tm, sg)

    def t_objective_mellinger(it):
        o, ol = world(it)
        x, gr = it.fresh_named(TIMES, 'x'), it.fresh_named(TIMES, 'gradient')
        it.assume(z3.And(x.n == it.ghost['S'], gr.n >= 1))
        res = call(it, F('objectiveFunctionTimeMellingerOuterLoop'), None, [new(it, x, TIMES), new(it, gr, TIMES), Ptr(ol)])
        g = it.load(ol)
        tm, fr, sg = state(it, g)
        it.oblige('the times are the candidate', tm == tt(it, TIMES, x))
        it.oblige('the free values are optimal for them', optimal(it, tm, fr))
        assembled(it, g)
        it.oblige('value of the objective', rv(res) == COST(it)(tm, sg))
        unchanged(it, g)

    # ------------------------------------------------ the whole search
    def t_optimize(it):
        o, ol = world(it)
        G = it.ghost
        G['dispatch'] = 1
        res = call(it, F('optimize'), ol, [])
        m = o.f['optimization_parameters_'].f['time_alloc_method']
        want = {'optimizeTime': ('kSquaredTime', 'kRichterTime'), 'optimizeTimeAndFreeConstraints': ('kSquaredTimeAndConstraints', 'kRichterTimeAndConstraints'), 'optimizeTimeMellingerOuterLoop': ('kMellingerOuterLoop',), None: ('kUnknown',)}
        ran = G.get('ran', (None, -1))
        it.oblige('the method asked for is used', z3.Or(*[m == ENUM[x] for x in want[ran[0]]]))
        g = it.load(ol)
        if ran[0]:
            it.oblige('its result is returned', cmp('==', res, ran[1]))
            it.oblige('its result is recorded', cmp('==', g.f['optimization_info_'].f['stopping_reason'], ran[1]))
        a, b = state(it, g), G.get('left', state(it, o))
        it.oblige('the trajectory is the one it left', z3.And(*[x == y for x, y in zip(a, b)]))
        unchanged(it, g)

    def ov_run(nm):
        def ov(it, func, this, args, node):
            G = it.ghost
            if 'dispatch' not in G:
                return NotImplemented
            it.oblige('one method is run', 'ran' not in G, node)
            G['ran'] = nm, z3.Int('result')
            mess(it)
            G['left'] = state(it, it.load(this))
            return z3.Int('result')
        return ov

    def t_setup(it):
        o, ol = world(it)
        G = it.ghost
        vs, times = it.fresh_named(('seq', VX, 'vector'), 'vertices'), it.fresh_named(TIMES, 'times')
        r = z3.Int('derivative')
        G.update(given=(vs, times, r))
        res = call(it, F('setupFromVertices'), ol, [new(it, vs), new(it, times, TIMES), r])
        g = it.load(ol)
        it.oblige('the linear problem is set up', 'linear' in G)
        it.oblige('its answer is returned', bv(res) == z3.Bool('accepted'))
        nl = g.f['nlopt_']
        made = it.load(nl.lv).data if isinstance(nl, Ptr) else None
        it.oblige('a search is set up', bool(made))
        if made and 'linear' in G:
            m = o.f['optimization_parameters_'].f['time_alloc_method']
            p = g.f['poly_opt_']
            full = times.n + iv(p.f['n_free_constraints_']) * iv(p.f['dimension_'])
            it.oblige('with one variable per time and, where they are searched, per free derivative', z3.Implies(m != ENUM['kUnknown'], iv(made[1]) == z3.If(z3.Or(*[m == ENUM[x] for x in ('kSquaredTime', 'kRichterTime', 'kMellingerOuterLoop')]), times.n, full)))
            it.oblige('and the algorithm asked for', cmp('==', made[0], o.f['optimization_parameters_'].f['algorithm']))

    def ov_setup(it, func, this, args, node):
        G = it.ghost
        if 'given' not in G:
            return NotImplemented
        v = [it.val(a) for a in args]
        t = ('seq', VX, 'vector')
        it.oblige('for the vertices, times and derivative given', z3.And(tt(it, t, v[0]) == tt(it, t, G['given'][0]), tt(it, TIMES, v[1]) == tt(it, TIMES, G['given'][1]), iv(v[2]) == G['given'][2]), node)
        p = it.fresh(POC, 'ready')
        it.assume(z3.And(iv(p.f['n_free_constraints_']) >= 0, iv(p.f['n_free_constraints_']) < 2 ** 30, iv(p.f['dimension_']) == iv(it.load(this).f['dimension_']), iv(p.f['n_segments_']) == G['given'][1].n))
        it.store(this, p)
        G['linear'] = 1
        return z3.Bool('accepted')

    def h_nlopt(it, n, t, argn):
        if 'given' not in it.ghost or 'nlopt::opt' not in n['type']['qualType'] or len(argn) != 2:
            return NotImplemented
        return Opaque('nlopt', [it.rvalue(a) for a in argn])

    setters = {'member:set_' + x: h_set(x) for x in ('ftol_rel', 'ftol_abs', 'xtol_rel', 'xtol_abs', 'maxeval')}
    setters.update({'free:nlopt_srand': lambda it, n, argn: None, 'free:nlopt_srand_time': lambda it, n, argn: None, 'ctor': h_nlopt})

    # ------------------------------------------------ costs reported
    def t_cost(it):
        o, ol = world(it)
        tm, fr, sg = state(it, o)
        res = call(it, F('getCost'), ol, [])
        it.oblige('cost of the trajectory', rv(res) == COST(it)(tm, sg))

    def t_total_cost(it):
        o, ol = world(it)
        G = it.ghost
        tm, fr, sg = state(it, o)
        W = z3.Function('sum_up_to', I_, R_)
        prefix(it, W, None)
        G.update(sum=W, x_=o.f['poly_opt_'].f['segment_times_'])
        res = call(it, F('getTotalCostWithSoftConstraints'), ol, [])
        par = o.f['optimization_parameters_']
        T = W(G['S'])
        it.oblige('cost, time penalty and soft penalties', rv(res) == COST(it)(tm, sg) + T * T * rv(par.f['time_penalty']) + SOFT(it)(sg, rv(par.f['soft_constraint_weight']), z3.RealVal(10 ** 9)))

    def inv_acc(L):
        it, G = L.it, L.it.ghost
        if 'sum' not in G or bounded(it) or not L.extra:
            return None
        k = iv(L.extra['k']())
        it.assume(G['sum'](k + 1) == G['sum'](k) + rv(it.elem(G['x_'], k)))
        return [rv(it.load(it.ghost['acc'])) == G['sum'](k)]

    # ------------------------------------------------ maximum over the trajectory
    CANDS = lambda it, s: z3.Function('candidate_times', *srt(it, SG, TIMES))(s)
    NORM = lambda it, s, t, k: z3.Function('magnitude', *srt(it, SG, R_, I_, R_))(s, rv(t), iv(k))

    def t_max(it):
        o = arbitrary(it)
        n = o.f['segments_'].n
        k, j0, c0 = z3.Ints('derivative j0 c0')
        it.assume(z3.And(n >= 1, n < 2 ** 31, iv(o.f['n_segments_']) == n, k >= 0, k < N - 1, j0 >= 0, j0 < n, c0 >= 0))
        q_ = z3.Int('q!')
        D = lambda i: iv(it.elem(o.f['segments_'], i).f['D_'])
        it.assume(every([q_], z3.Implies(z3.And(q_ >= 0, q_ < n), z3.And(D(q_) >= 1, D(q_) < 1000)), [z3.Select(o.f['segments_'].arr, q_)]))
        ol = new(it, o)
        s0 = it.S.term(SG, it.elem(o.f['segments_'], j0))
        cs = it.S.val(TIMES, CANDS(it, s0))
        it.assume(c0 < cs.n)
        it.e.peel = 0
        it.ghost.update(mx=o, k=k, j0=j0, c0=c0, s0=s0)
        m = call(it, find(db, P + 'computeMaximumOfMagnitude', 'int', n=2), ol, [k, NULL])
        it.oblige('no candidate exceeds the maximum', rv(m.f['value']) >= NORM(it, s0, it.elem(cs, c0), k))
        reached(it, m)

    def reached(it, m, oblige=True):
        G = it.ghost
        i = iv(m.f['segment_idx'])
        s = it.S.term(SG, it.elem(G['mx'].f['segments_'], i))
        a = z3.Or(z3.And(i >= 0, i < G['mx'].f['segments_'].n, rv(m.f['value']) == NORM(it, s, m.f['time'], G['k'])), z3.And(i == 0, rv(m.f['time']) == 0, rv(m.f['value']) == 0))
        if oblige:
            it.oblige('the maximum is reached at its time in its segment', a)
        return a

    def ov_evaluate(it, func, this, args, node):
        if 'mx' not in it.ghost:
            return NotImplemented
        return Opaque('value', (it.S.term(SG, it.load(this)), it.val(args[0]), it.val(args[1])))

    def h_norm(it, n, obj, argn):
        v = it.val(obj)
        if not (isinstance(v, Opaque) and v.tag == 'value'):
            return NotImplemented
        x = NORM(it, *v.data)
        it.assume(x >= 0)
        return x

    def ov_candidates(it, func, this, args, node):
        G = it.ghost
        if 'mx' not in G:
            return NotImplemented
        s = it.load(this)
        k, a, b, dims = [it.val(x) for x in args[:4]]
        d = z3.Int('dd')
        it.oblige('candidates of the derivative over the whole segment', land(cmp('==', k, G['k']), cmp('==', a, 0), cmp('==', b, s.f['time_'])), node)
        it.oblige('in all dimensions', land(cmp('==', dims.n, s.f['D_']), implies(land(d >= 0, d < iv(s.f['D_'])), cmp('==', it.elem(dims, d), d))), node)
        it.store(it.val(args[4]).lv, it.S.val(TIMES, CANDS(it, it.S.term(SG, s))))
        return True

    def inv_max(L):
        it, G = L.it, L.it.ghost
        if 'mx' not in G or bounded(it) or not L.extra or not L.has('extremum'):
            return None
        c = iv(L.extra['k']())
        e = L['extremum']
        top = rv(e.f['value']) >= NORM(it, G['s0'], it.elem(it.S.val(TIMES, CANDS(it, G['s0'])), G['c0']), G['k'])
        if L.level == 1:
            G['outer'] = c
        i = G['outer']
        done = G['j0'] < i if L.level == 1 else z3.Or(G['j0'] < i, z3.And(G['j0'] == i, G['c0'] < c))
        return [iv(L['segment_idx']) == i, z3.Implies(done, top), reached(it, e, False)]

    out = [
        Task('objective over times', t_objective_time, [q + 'objectiveFunctionTime'], overrides=obj, bounded=[('at most two segments, dimensions, free derivatives and limits', t_objective_time)]),
        Task('objective over times and free derivatives', t_objective_free, [q + 'objectiveFunctionTimeAndConstraints'], overrides=obj, invariants={'objectiveFunctionTimeAndConstraints': [('layout', inv_objective)]}, budget=200, bounded=[('at most two segments, dimensions, free derivatives and limits', t_objective_free)]),
        Task('total time', t_total, [q + 'computeTotalTrajectoryTime'], invariants={'computeTotalTrajectoryTime': [('sum', inv_total)]}, bounded=[('at most three times', t_total)]),
        Task('violation of a limit', t_violation, [q + 'evaluateMaximumMagnitudeConstraint'], overrides=lin),
        Task('soft penalties', t_soft, [q + 'evaluateMaximumMagnitudeAsSoftConstraint'], overrides=dict(lin, **{q + 'evaluateMaximumMagnitudeConstraint': ov_violation}), invariants={'evaluateMaximumMagnitudeAsSoftConstraint': [('sum', inv_soft)]}, bounded=[('at most two segments, dimensions, free derivatives and limits', t_soft)]),
        Task('adding a limit', t_add, [q + 'addMaximumMagnitudeConstraint'], hooks={'push': on_push, 'member:add_inequality_constraint': h_inequality}),
        Task('numbering lemma', t_count, lemma=True),
        Task('bounds of the free derivatives', t_bounds, [q + 'setFreeEndpointDerivativeHardConstraints'], invariants={'setFreeEndpointDerivativeHardConstraints': [('bounds', inv_bounds)]}, cut_all=('setFreeEndpointDerivativeHardConstraints',), budget=200, bounded=[('two vertices, at most two dimensions and limits', t_bounds)]),
        Task('search over times', t_optimize_time('optimizeTime', 'objectiveFunctionTime'), [q + 'optimizeTime'], overrides=lin, hooks=search, invariants={'optimizeTime': [('step', inv_step)]}, bounded=[('at most two segments, dimensions, free derivatives and limits', t_optimize_time('optimizeTime', 'objectiveFunctionTime'))]),
        Task('search over times and free derivatives', t_optimize_free, [q + 'optimizeTimeAndFreeConstraints'], overrides=dict(lin, **{q + 'setFreeEndpointDerivativeHardConstraints': ov_bounds}), hooks=search, invariants={'optimizeTimeAndFreeConstraints': [('layout', inv_full)]}, budget=300, bounded=[('one segment without free derivatives, two with one, one in two dimensions with two', t_optimize_free)]),
        Task('rescaling of the times', t_rescale, [q + 'scaleSegmentTimesWithViolation'], overrides=rescale, invariants={'scaleSegmentTimesWithViolation': [('limits', inv_limits)]}, bounded=[('at most two segments, dimensions, free derivatives and limits', t_rescale)]),
        Task('search with rescaled times', t_optimize_time('optimizeTimeMellingerOuterLoop', 'objectiveFunctionTimeMellingerOuterLoop'), [q + 'optimizeTimeMellingerOuterLoop'], overrides=dict(lin, **{q + 'scaleSegmentTimesWithViolation': ov_rescale}), hooks=search, bounded=[('at most two segments, dimensions, free derivatives and limits', t_optimize_time('optimizeTimeMellingerOuterLoop', 'objectiveFunctionTimeMellingerOuterLoop'))]),
        Task('cost and gradient', t_gradient, [q + 'getCostAndGradientMellinger'], overrides=lin, invariants={'getCostAndGradientMellinger': [('sizes', inv_gradient)]}, bounded=[('at most two segments, dimensions, free derivatives and limits', t_gradient)]),
        Task('objective of the outer loop', t_objective_mellinger, [q + 'objectiveFunctionTimeMellingerOuterLoop'], overrides=dict(lin, **{q + 'getCostAndGradientMellinger': ov_gradient})),
        Task('choice of the search', t_optimize, [q + 'optimize'], overrides={q + x: ov_run(x) for x in ('optimizeTime', 'optimizeTimeAndFreeConstraints', 'optimizeTimeMellingerOuterLoop')}),
        Task('set up', t_setup, [q + 'setupFromVertices'], overrides={P + 'setupFromVertices': ov_setup}, hooks=setters),
        Task('cost reported', t_cost, [q + 'getCost'], overrides=lin),
        Task('total cost reported', t_total_cost, [q + 'getTotalCostWithSoftConstraints'], overrides=obj, invariants={'getTotalCostWithSoftConstraints': [('sum', inv_acc)]}),
        Task('maximum over the trajectory', t_max, [P + 'computeMaximumOfMagnitude'], overrides={SEG + '::computeMinMaxMagnitudeCandidateTimes': ov_candidates, SEG + '::evaluate': ov_evaluate}, hooks={'member:norm': h_norm}, invariants={'computeMaximumOfMagnitude': [('maximum', inv_max)]}),
    ]
    return out
