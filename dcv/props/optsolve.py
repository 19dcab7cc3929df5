"""solveLinear and setFreeConstraints under contract, shared by C12 (the segments are assembled from the result) and C13 (the result is stationary)."""
from .optlib import *


def evs(it):
    return it.S.sort(EVT)


def u_times(it):
    """block of R times a vector"""
    e = evs(it)
    return z3.Function('block_of_R_times', *[z3.IntSort()] * 4, e, e)


def u_neg(it):
    e = evs(it)
    return z3.Function('negated', e, e)


def u_solve(it):
    e = evs(it)
    return z3.Function('solution_with_block_of_R', *[z3.IntSort()] * 4, e, e)


def neg(it, x):
    n = u_neg(it)
    if x.decl().eq(n):
        return x.arg(0)
    y = n(x)
    it.assume(it.S.acc(evs(it), 0, y) == it.S.acc(evs(it), 0, x))
    return y


def times(it, blk, x):
    """blk x, the sign drawn out"""
    n = u_neg(it)
    sign = blk[4]
    if x.decl().eq(n):
        x, sign = x.arg(0), -sign
    y = u_times(it)(*[iv(b) for b in blk[:4]], x)
    it.assume(it.S.acc(evs(it), 0, y) == iv(blk[2]))
    return y if sign > 0 else neg(it, y)


def wanted(it, o, free, d):
    """the normal equations of one dimension: Rpp free + Rpf fixed = 0"""
    nf, np_ = iv(o.f['n_fixed_constraints_']), iv(o.f['n_free_constraints_'])
    fx = it.S.term(EVT, it.elem(o.f['fixed_constraints_compact_'], d))
    x = it.S.term(EVT, it.elem(free, d))
    return z3.And(it.S.acc(evs(it), 0, x) == np_, times(it, (nf, nf, np_, np_, 1), x) == neg(it, times(it, (nf, 0, np_, nf, 1), fx)))


def h_block(it, n, obj, argn):
    v = it.val(obj)
    if not (isinstance(v, Opaque) and v.tag == 'R'):
        return NotImplemented
    x = [it.rvalue(a) for a in argn]
    o = it.ghost['slv']
    m = add(o.f['n_fixed_constraints_'], o.f['n_free_constraints_'])
    it.oblige('block inside R', land(cmp('>=', x[0], 0), cmp('>=', x[1], 0), cmp('<=', add(x[0], x[2]), m), cmp('<=', add(x[1], x[3]), m)), n)
    return Opaque('Rblk', tuple(x) + (1,))


def h_ctor(it, n, t, argn):
    if 'slv' not in it.ghost or len(argn) != 1:
        return NotImplemented
    q = n['type']['qualType']
    if 'SparseMatrix<' in q and 'SparseQR' not in q:
        v = it.rvalue(argn[0])
        return v
    return NotImplemented


def h_minus(it, n, xs, V):
    if 'slv' not in it.ghost or len(V) != 1:
        return NotImplemented
    if isinstance(V[0], Opaque) and V[0].tag == 'Rblk':
        return Opaque('Rblk', V[0].data[:4] + (-V[0].data[4],))
    if isinstance(V[0], Seq) and not V[0].conc:
        return it.S.val(EVT, neg(it, it.S.term(EVT, V[0])))
    return NotImplemented


def h_mul(it, n, xs, V):
    if 'slv' not in it.ghost or not (isinstance(V[0], Opaque) and V[0].tag == 'Rblk'):
        return NotImplemented
    if not isinstance(V[1], Seq):
        return NotImplemented
    it.oblige('Eigen product sizes agree', cmp('==', size(V[1]), V[0].data[3]), n)
    return it.S.val(EVT, times(it, V[0].data, it.S.term(EVT, V[1])))


def h_compute(it, n, obj, argn):
    v = it.rvalue(argn[0])
    if 'slv' not in it.ghost or not (isinstance(v, Opaque) and v.tag == 'Rblk'):
        return NotImplemented
    it.oblige('the matrix solved with is square', cmp('==', v.data[2], v.data[3]), n)
    it.store(obj, Opaque('qr', v.data))
    return obj


def h_solve(it, n, obj, argn):
    """trusted: the solution of a consistent system (R is a Gram matrix, so its normal equations always are)"""
    q = it.val(obj)
    if 'slv' not in it.ghost or not isinstance(q, Opaque) or q.tag != 'qr' or not q.data:
        return NotImplemented
    b = it.rvalue(argn[0])
    it.oblige('Eigen: right hand side has as many rows as the matrix', cmp('==', size(b), q.data[2]), n)
    blk = q.data
    bt = it.S.term(EVT, b)
    x = u_solve(it)(*[iv(k) for k in blk[:4]], bt)
    it.assume(it.S.acc(evs(it), 0, x) == iv(blk[3]))
    it.assume(times(it, blk, x) == bt)
    return it.S.val(EVT, x)


def ov_R(it, func, this, args, node):
    if 'slv' not in it.ghost:
        return NotImplemented
    it.ghost['R'] = 1
    it.store(args[0].lv, Opaque('R'))
    return None


def ov_assemble(it, func, this, args, node):
    G = it.ghost
    if 'slv' not in G:
        return NotImplemented
    g, o, d0 = it.load(this), G['slv'], G['d0']
    it.oblige('free values are set when the segments are assembled', land(cmp('==', g.f['free_constraints_compact_'].n, o.f['dimension_']), cmp('==', size(it.elem(g.f['free_constraints_compact_'], d0)), o.f['n_free_constraints_'])), node)
    G['assembled'] = g.f['free_constraints_compact_']
    s = it.fresh(('seq', SG, 'vector'), 'assembled')
    it.assume(s.n == iv(o.f['n_segments_']))
    it.store(this, g.with_('segments_', s))
    return None


def kept(it, g, o, names):
    for k in g.f:
        if k not in names and g.f[k] is not o.f[k]:
            t = dict(it.S.fields(PO))[k]
            it.oblige('kept: ' + k, it.S.term(t, g.f[k]) == it.S.term(t, o.f[k]))


def start(it):
    o = arbitrary(it)
    D, nf, np_ = [iv(o.f[k]) for k in ('dimension_', 'n_fixed_constraints_', 'n_free_constraints_')]
    it.assume(z3.And(D >= 1, D < 1000, nf + np_ == 5 * (iv(o.f['n_segments_']) + 1), o.f['fixed_constraints_compact_'].n == D, o.f['free_constraints_compact_'].n == D))
    d = z3.Int('d!')
    for k, n in (('fixed', nf), ('free', np_)):
        a = o.f[k + '_constraints_compact_'].arr
        it.assume(every([d], z3.Implies(z3.And(d >= 0, d < D), it.S.acc(evs(it), 0, z3.Select(a, d)) == n), [z3.Select(a, d)]))
    it.assume(z3.And(iv(o.f['derivative_to_optimize_']) >= 0, iv(o.f['derivative_to_optimize_']) <= 4))
    d0 = z3.Int('d0')
    it.assume(z3.And(d0 >= 0, d0 < D))
    ol = new(it, o)
    it.ghost.update(slv=o, ol=ol, d0=d0)
    it.e.peel = 0
    return o, ol, d0


def finish_with(it, ol, o, free):
    G = it.ghost
    g = it.load(ol)
    kept(it, g, o, ('segments_', 'free_constraints_compact_'))
    it.oblige('the segments are assembled', 'assembled' in G)
    if 'assembled' in G:
        it.oblige('from the final values', it.S.term(('seq', EVT, 'vector'), G['assembled']) == it.S.term(('seq', EVT, 'vector'), g.f['free_constraints_compact_']))
    return g


def inv_solve(L):
    it, G = L.it, L.it.ghost
    if 'slv' not in G or bounded(it):
        return None
    o, g = G['slv'], it.load(G['ol'])
    fr = g.f['free_constraints_compact_']
    i = iv(L.idx)
    D, np_ = iv(o.f['dimension_']), iv(o.f['n_free_constraints_'])
    return [z3.And(i >= 0, i <= D), fr.n == D, z3.Implies(G['d0'] < i, wanted(it, o, fr, G['d0']))]


def solver_tasks(db):
    q = PO + '::'
    F = lambda x: find(db, q + x)

    def t_solve(it):
        o, ol, d0 = start(it)
        res = call(it, F('solveLinear'), ol, [])
        it.oblige('solved', bv(res))
        g = finish_with(it, ol, o, None)
        np_ = iv(o.f['n_free_constraints_'])
        fr = g.f['free_constraints_compact_']
        it.oblige('the normal equations of every dimension hold', z3.Implies(np_ > 0, wanted(it, o, fr, d0)))
        it.oblige('free values of every dimension', land(cmp('==', fr.n, o.f['dimension_']), cmp('==', size(it.elem(fr, d0)), np_)))

    def t_set(it):
        o, ol, d0 = start(it)
        fr = it.fresh_named(('seq', EVT, 'vector'), 'given')
        d = z3.Int('d!')
        D, np_ = iv(o.f['dimension_']), iv(o.f['n_free_constraints_'])
        it.assume(fr.n == D)
        it.assume(every([d], z3.Implies(z3.And(d >= 0, d < D), it.S.acc(evs(it), 0, z3.Select(fr.arr, d)) == np_), [z3.Select(fr.arr, d)]))
        call(it, F('setFreeConstraints'), ol, [new(it, fr)])
        g = finish_with(it, ol, o, None)
        t = ('seq', EVT, 'vector')
        it.oblige('the values given are stored', it.S.term(t, g.f['free_constraints_compact_']) == it.S.term(t, fr))

    ov = {q + 'constructR': ov_R, q + 'updateSegmentsFromCompactConstraints': ov_assemble}
    hk = {'member:block': h_block, 'ctor': h_ctor, 'op:operator-': h_minus, 'op:operator*': h_mul, 'member:compute': h_compute, 'member:solve': h_solve, 'no_generic': False}
    return [Task('linear solution', t_solve, [q + 'solveLinear'], invariants={'solveLinear': [('solve', inv_solve)]}, overrides=ov, hooks=hk, cut_all=('solveLinear',), budget=200),
            Task('free values by hand', t_set, [q + 'setFreeConstraints'], overrides=ov, hooks=hk)]
