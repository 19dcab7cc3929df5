"""Vocabulary of the contracts: symbolic objects, function lookup, tasks."""
from fractions import Fraction
import z3
from .values import *
from .front import ntype
from .exec import Interp, Engine, PathEnd, Infeasible, ThrowX, Budget

NS = 'mav_trajectory_generation::'
POLY, SEG, TRAJ, VERT = NS + 'Polynomial', NS + 'Segment', NS + 'Trajectory', NS + 'Vertex'
REAL = ('real',)
INT = ('int', True, 32)


class Task:
    """one function (or lemma) under contract

    run(it)      executes the function from the contract's precondition and states
                 the postcondition as obligations
    exact        a refutation is a real counterexample (no loop was cut, no library
                 function abstracted away from its meaning)
    bounded      list of (label, run) used instead when the proof is not accepted;
                 exact up to the stated bound, never counted as proved
    """

    def __init__(self, name, run, funcs=(), invariants=None, overrides=None, hooks=None, exact=False, bounded=(), mode='proof',
                 timeout_ms=8000, budget=60, unroll=4, poly_only=False, rewrite=None, min_obl=1, covers=(), bound_note='', max_paths=4000, lemma=False, unwind=0, cut_all=()):
        self.cut_all = cut_all
        self.unwind = unwind
        self.name, self.run, self.funcs = name, run, list(funcs)
        self.invariants, self.overrides, self.hooks = invariants or {}, overrides or {}, hooks or {}
        self.exact, self.bounded, self.mode = exact, list(bounded), mode
        self.timeout_ms, self.budget, self.unroll = timeout_ms, budget, unroll
        self.rewrite, self.min_obl, self.covers = rewrite, min_obl, list(covers)
        self.bound_note = bound_note
        self.max_paths = max_paths


def find(db, qname, *types, **kw):
    """the overload of qname whose parameter types contain the given words"""
    fs = [f for f in db.by_qname.get(qname, []) if f.body is not None and not f.node.get('isImplicit')]
    if 'n' in kw:
        fs = [f for f in fs if len(f.params) == kw['n']]
    for i, w in enumerate(types):
        if w is None:
            continue
        fs = [f for f in fs if len(f.params) > i and w in f.params[i]['type']['qualType']]
    if len(fs) != 1:
        from .values import Unsupported
        raise Unsupported('function under contract %s%r not found (%d candidates)' % (qname, types, len(fs)))
    return fs[0]


def call(it, f, this=None, args=()):
    """call the function itself (not through its own contract)"""
    ov = it.e.overrides.pop(f.qname, None)
    try:
        return it.val(it.enter(f, this, list(args), None)) if f.kind != 'CXXConstructorDecl' else None
    finally:
        if ov is not None:
            it.e.overrides[f.qname] = ov


def reals(name, n):
    return [z3.Real('%s%d' % (name, i)) for i in range(n)]


def vec(xs):
    return Mat(len(xs), 1, xs)


def poly(it, coeffs):
    """a polynomial object with the given coefficients (class invariant: N_ == coefficients_.size())"""
    return SV(POLY, {'N_': len(coeffs), 'coefficients_': vec(coeffs)})


def new(it, v, t=None):
    if t is None and isinstance(v, SV):
        t = ('class', v.cls)
    return it.alloc(v, t)


def pointer_heap(it, t, name):
    """arbitrarily many objects of class t that pointers in symbolic containers point to"""
    S = it.S
    S.heap, S.frozen, S.frozen_cells = {}, {}, set()
    h = it.alloc(it.fresh_named(('seq', t, 'vector'), name), ('seq', t, 'vector'))
    S.heap = {t: h}

    def intern(h, t, p):
        s = it.load(h)
        it.store(h, Seq(s.et, s.kind, None, s.n + 1, z3.Store(s.arr, s.n, S.term(t, it.load(p.lv)))))
        return s.n
    S.intern = intern
    return h


def ff(i, k):
    """falling factorial i!/(i-k)!"""
    r = 1
    for j in range(k):
        r *= i - j
    return r


def power(t, k):
    r = Fraction(1)
    for _ in range(k):
        r = mul(r, t)
    return r


def poly_value(c, k, t):
    """spec: k-th derivative of sum c_i t^i"""
    r = Fraction(0)
    for i in range(k, len(c)):
        if ff(i, k):
            r = add(r, mul(mul(Fraction(ff(i, k)), c[i]), power(t, i - k)))
    return r


def items(v):
    if isinstance(v, Mat):
        return list(v.d)
    return list(v.items)


def eq_list(it, name, got, want):
    if len(got) != len(want):
        it.oblige(name + ': length', False)
        return
    for i, (a, b) in enumerate(zip(got, want)):
        it.oblige('%s[%d]' % (name, i), cmp('==', a, b))


def guarded(it, f):
    """run f; returns its value, or None with it.events when the code aborted as the contract allows"""
    return f()


# ---------------------------------------------------------------- sequences
def bounded(it):
    return it.e.mode == 'bounded'


def seq_of(it, et, name, kind='vector', hi=3, lo=0, sep='%d'):
    """a container of arbitrary length (proof) or of every length lo..hi (bounded)"""
    if bounded(it):
        n = it.choose(hi - lo + 1) + lo
        its = [it.fresh_named(et, name + sep % i) for i in range(n)]
        if kind == 'eig':
            return Mat(n, 1, its, 'c' if et == ('cplx',) else 'r')
        return Seq(et, kind, its)
    v = it.fresh_named(('seq', et, kind) if kind != 'eig' else ('eig', 'c' if et == ('cplx',) else 'r', -1, 1), name)
    if lo:
        it.assume(v.n >= lo)
    return v


def size(v):
    if isinstance(v, Mat):
        return v.r * v.c
    return v.n


def arb(it, name, n, lo=0):
    """an arbitrary index below n (universally quantified): symbolic in proofs, every value in bounded runs"""
    if isinstance(n, int):
        if n - lo <= 0:
            raise PathEnd()
        return it.choose(n - lo) + lo
    j = z3.Int(name)
    it.assume(z3.And(j >= lo, j < iv(n)))
    return j


def deref(it, v):
    return it.load(v.lv) if isinstance(v, Ptr) else it.val(v)


def cls(c):
    return ('class', c)


def vseq(t):
    return ('seq', t, 'vector')


EV = ('eig', 'r', -1, 1)


def sterm(it, t, v):
    return it.S.term(t, v)


def sval(it, t, x):
    return it.S.val(t, x)


def vec_uf(it, name, *sorts):
    """uninterpreted function returning an Eigen vector"""
    return z3.Function(name, *([{'r': z3.RealSort(), 'i': z3.IntSort(), 'b': z3.BoolSort()}.get(s, s) if isinstance(s, str) else s for s in sorts] + [it.S.sort(EV)]))


def same_vec(it, name, got, want, jname='jv'):
    """two vectors are equal: same length, same value at every index"""
    it.oblige(name + ' (length)', cmp('==', size(got), size(want)))
    if isinstance(size(got), int) and isinstance(size(want), int):
        for j in range(min(size(got), size(want))):
            it.oblige(name, cmp('==', it.elem(got, j), it.elem(want, j)))
        return
    j = z3.Int(jname)
    it.oblige(name, implies(land(j >= 0, j < iv(size(got))), cmp('==', it.elem(got, j), it.elem(want, j))))


def prefix(it, T, times, upto=None, at=()):
    """definitional axioms of prefix sums T(0)=0, T(i+1)=T(i)+times(i), instantiated at the given indices"""
    it.assume(T(z3.IntVal(0)) == 0)
    for i in at:
        it.assume(T(iv(i) + 1) == T(iv(i)) + rv(times(i)))


def exists(it, n, pred, name='w', lo=0):
    """exists j in [lo, n): pred(j)"""
    if isinstance(n, int):
        return lor(*[pred(j) for j in range(lo, n)])
    it.nfresh += 1
    j = z3.Int('%s!q%d' % (name, it.nfresh))
    return z3.Exists([j], bv(land(cmp('>=', j, lo), cmp('<', j, n), pred(j))))


def forall(q, body, *pats):
    """universally quantified formula with instantiation patterns where they are usable"""
    try:
        if pats and not any('If(' in str(p.decl()) or (p.num_args() and z3.is_app(p.arg(0)) and p.arg(0).decl().kind() == z3.Z3_OP_ITE) for p in pats):
            return z3.ForAll([q], body, patterns=list(pats))
    except z3.Z3Exception:
        pass
    return z3.ForAll([q], body)


def only(fs):
    """override that applies when a predicate on the arguments holds"""
    return fs


def uf(name, *sorts):
    m = {'r': z3.RealSort(), 'i': z3.IntSort(), 'b': z3.BoolSort()}
    return z3.Function(name, *[m[s] if isinstance(s, str) else s for s in sorts])


from .models import DBL_MAX, rabs, rmin, rmax
EPS = Fraction(1, 2 ** 52)
