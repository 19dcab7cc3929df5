"""C01: Polynomial evaluation gives the exact value and derivatives.

Contracts (N = number of coefficients, 1 <= N <= 22, every entry of c and t symbolic):
  evaluate(t,k), k>=0      result == sum_{i>=k} i!/(i-k)! c_i t^(i-k), 0 when k>=N
  evaluate(t,*r)           r[k] == evaluate spec for each k < r.size() <= N
  getCoefficients(k), k<=N coefficients of the k-th derivative, padded with zeros to N
  baseCoeffsWithTime(N,k,t) entry i == i!/(i-k)! t^(i-k) (for |t| < 2^-52 the row at t = 0)
  computeBaseCoefficients  entry (k,i) == i!/(i-k)!
The domain of N and k is finite and enumerated completely; c and t are symbolic.
"""
from ..spec import *
TUS = ['polynomial']
NATIVE = {'src': 'c01.cpp', 'with': ['$MAV/src/polynomial.cpp', '$MAV/src/rpoly/rpoly_ak1.cpp'], 'n': 8000}
MAXN = 22


def tasks(db, tier):
    out = []
    ev = find(db, POLY + '::evaluate', 'double', 'int')
    evv = find(db, POLY + '::evaluate', 'double', 'VectorXd')
    gc = find(db, POLY + '::getCoefficients')
    bc4 = find(db, POLY + '::baseCoeffsWithTime', n=4)
    bc3 = find(db, POLY + '::baseCoeffsWithTime', n=3)
    cbc = find(db, NS + 'computeBaseCoefficients')

    def obj(it, N):
        return new(it, poly(it, reals('c', N)))

    def t_eval(lo, hi):
        def run(it):
            N = it.choose(hi - lo + 1) + lo
            k = it.choose(N + 2)
            c, t = reals('c', N), z3.Real('t')
            this = obj(it, N)
            before = it.load(this)
            r = call(it, ev, this, [t, k])
            it.oblige('value of derivative %d with %d coefficients' % (k, N), cmp('==', r, poly_value(c, k, t)))
            it.oblige('object unchanged', it.load(this) is before)
        return run

    def t_evv(lo, hi):
        def run(it):
            N = it.choose(hi - lo + 1) + lo
            M = it.choose(N + 1)
            c, t = reals('c', N), z3.Real('t')
            res = new(it, vec(reals('old', M)), ('eig', 'r', -1, 1))
            call(it, evv, obj(it, N), [t, Ptr(res)])
            eq_list(it, 'all derivatives', items(it.load(res)), [poly_value(c, k, t) for k in range(M)])
        return run

    def t_gc(it):
        N = it.choose(MAXN) + 1
        k = it.choose(N + 1)
        c = reals('c', N)
        r = call(it, gc, obj(it, N), [k])
        eq_list(it, 'coefficients of derivative', items(r), [mul(Fraction(ff(i + k, k)), c[i + k]) if i + k < N else Fraction(0) for i in range(N)])

    def base(which):
        def run(it):
            N = it.choose(MAXN) + 1
            k = it.choose(N)
            t = z3.Real('t')
            case = it.choose(3)
            eps = Fraction(1, 2 ** 52)
            if case == 0:
                it.assume(z3.Or(t >= rv(eps), t <= rv(-eps)))
            elif case == 1:
                t = Fraction(0)
            else:
                it.assume(z3.And(t != 0, t < rv(eps), t > rv(-eps)))
            tt = t if case < 2 else Fraction(0)
            if which == 4:
                res = new(it, vec(reals('old', 3)), ('eig', 'r', -1, 1))
                call(it, bc4, None, [N, k, t, Ptr(res)])
                got = items(it.load(res))
            else:
                got = items(call(it, bc3, None, [N, k, t]))
            eq_list(it, 'basis row', got, [mul(Fraction(ff(i, k)), power(tt, i - k)) if i >= k else Fraction(0) for i in range(N)])
        return run

    def t_table(it):
        N = it.choose(MAXN) + 1
        m = call(it, cbc, None, [N])
        it.oblige('table size', isinstance(m, Mat) and (m.r, m.c) == (N, N))
        for k in range(N):
            for i in range(N):
                it.oblige('derivative factor table (%d,%d)' % (k, i), cmp('==', m.at(k, i), Fraction(ff(i, k))))

    q = POLY + '::'
    for lo, hi in ((1, 8), (9, 14), (15, 18), (19, 22)):
        out.append(Task('evaluate one derivative N=%d..%d' % (lo, hi), t_eval(lo, hi), [q + 'evaluate(double,int)'], exact=True))
    for lo, hi in ((1, 13), (14, 17), (18, 20), (21, 21), (22, 22)):
        out.append(Task('evaluate all derivatives N=%d..%d' % (lo, hi), t_evv(lo, hi), [q + 'evaluate(double,VectorXd*)'], exact=True))
    out.append(Task('coefficients of derivatives', t_gc, [q + 'getCoefficients'], exact=True))
    out.append(Task('basis row into', base(4), [q + 'baseCoeffsWithTime(int,int,double,VectorXd*)'], exact=True))
    out.append(Task('basis row', base(3), [q + 'baseCoeffsWithTime(int,int,double)'], exact=True))
    out.append(Task('derivative factor table', t_table, [NS + 'computeBaseCoefficients'], exact=True))
    return out
