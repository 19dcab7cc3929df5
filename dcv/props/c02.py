"""C02: Polynomial arithmetic agrees pointwise with the functions it represents.

Contracts (coefficients, scalars and times symbolic; lengths enumerated completely up to the 22 supported coefficients,
products for every pair of lengths up to 12 x 12):
  p + q, p += q        coefficients are the sums (equal lengths); operands of + unchanged
  p * q, convolve      coefficients are the Cauchy product of length n+m-1; operands unchanged
  p * s                coefficients times s; operand unchanged
  scalePolynomialInTime(b)   value at t afterwards == value at b*t before (polynomial identity in t and b)
  offsetPolynomial(o)  only the constant coefficient grows by o
  getPolynomialWithAppendedCoefficients(M)  M>=N: padded with zeros, true; M<N: false and a copy of the polynomial
  ==, !=               equality of coefficient vectors
"""
from ..spec import *
TUS = ['polynomial']
NATIVE = {'src': 'c02.cpp', 'with': ['$MAV/src/polynomial.cpp', '$MAV/src/rpoly/rpoly_ak1.cpp'], 'n': 8000}
MAXN = 22


def tasks(db, tier):
    q = POLY + '::'
    add_ = find(db, q + 'operator+', 'Polynomial')
    iadd = find(db, q + 'operator+=', 'Polynomial')
    mulp = find(db, q + 'operator*', 'Polynomial')
    muls = find(db, q + 'operator*', 'double')
    eq = find(db, q + 'operator==')
    ne = find(db, q + 'operator!=')
    conv = find(db, q + 'convolve')
    sc = find(db, q + 'scalePolynomialInTime')
    off = find(db, q + 'offsetPolynomial')
    app = find(db, q + 'getPolynomialWithAppendedCoefficients')

    def coeffs(v):
        return items(v.f['coefficients_'])

    def is_poly(it, name, v, want):
        it.oblige(name + ': N() is the number of coefficients', cmp('==', v.f['N_'], len(want)))
        eq_list(it, name, coeffs(v), want)

    def two(it, same=True, hi=MAXN):
        n = it.choose(hi) + 1
        m = n if same else it.choose(hi) + 1
        a, b = reals('c', n), reals('d', m)
        p, r = new(it, poly(it, a)), new(it, poly(it, b))
        return a, b, p, r

    def kept(it, lvs, lists):
        for lv, l in zip(lvs, lists):
            is_poly(it, 'operand unchanged', it.load(lv), l)

    def t_add(it):
        a, b, p, r = two(it)
        s = call(it, add_, p, [r])
        is_poly(it, 'sum', s, [add(x, y) for x, y in zip(a, b)])
        kept(it, [p, r], [a, b])

    def t_iadd(it):
        a, b, p, r = two(it)
        alias = it.choose(2)
        call(it, iadd, p, [p if alias else r])
        is_poly(it, 'in-place sum', it.load(p), [add(x, y) for x, y in zip(a, a if alias else b)])
        if not alias:
            kept(it, [r], [b])

    def cauchy(a, b):
        out = [Fraction(0)] * (len(a) + len(b) - 1)
        for i, x in enumerate(a):
            for j, y in enumerate(b):
                out[i + j] = add(out[i + j], mul(x, y))
        return out

    def t_mul(lo, hi):
        def run(it):
            n = it.choose(hi - lo + 1) + lo
            m = it.choose(12) + 1
            a, b = reals('c', n), reals('d', m)
            p, r = new(it, poly(it, a)), new(it, poly(it, b))
            s = call(it, mulp, p, [r])
            is_poly(it, 'product', s, cauchy(a, b))
            kept(it, [p, r], [a, b])
        return run

    def t_conv(it):
        n, m = it.choose(8) + 1, it.choose(8) + 1
        a, b = reals('c', n), reals('d', m)
        d, k = new(it, vec(a), ('eig', 'r', -1, 1)), new(it, vec(b), ('eig', 'r', -1, 1))
        r = call(it, conv, None, [d, k])
        eq_list(it, 'convolution', items(r), cauchy(a, b))
        eq_list(it, 'convolution input unchanged', items(it.load(d)), a)
        eq_list(it, 'convolution kernel unchanged', items(it.load(k)), b)

    def t_pointwise(it):
        n, m = it.choose(6) + 1, it.choose(6) + 1
        a, b, t = reals('c', n), reals('d', m), z3.Real('t')
        it.oblige('lemma: Cauchy product is the pointwise product', cmp('==', poly_value(cauchy(a, b), 0, t), mul(poly_value(a, 0, t), poly_value(b, 0, t))))

    def t_muls(it):
        n = it.choose(MAXN) + 1
        a, s = reals('c', n), z3.Real('s')
        p = new(it, poly(it, a))
        r = call(it, muls, p, [s])
        is_poly(it, 'scalar multiple', r, [mul(x, s) for x in a])
        kept(it, [p], [a])

    def t_scale(it):
        n = it.choose(MAXN) + 1
        a, b, t = reals('c', n), z3.Real('s'), z3.Real('t')
        p = new(it, poly(it, a))
        call(it, sc, p, [b])
        v = it.load(p)
        is_poly(it, 'time scaling', v, [mul(x, power(b, i)) for i, x in enumerate(a)])
        it.oblige('time scaling is t -> p(b t)', cmp('==', poly_value(coeffs(v), 0, t), poly_value(a, 0, mul(b, t))))

    def t_off(it):
        n = it.choose(MAXN) + 1
        a, o = reals('c', n), z3.Real('s')
        p = new(it, poly(it, a))
        call(it, off, p, [o])
        is_poly(it, 'offset', it.load(p), [add(a[0], o)] + a[1:])

    def t_app(it):
        n = it.choose(MAXN) + 1
        m = it.choose(MAXN) + 1
        a = reals('c', n)
        p, r = new(it, poly(it, a)), new(it, poly(it, reals('old', 3)))
        ok = call(it, app, p, [m, Ptr(r)])
        it.oblige('padding is refused exactly when it would shrink', cmp('==', ok, m >= n))
        is_poly(it, 'padded polynomial', it.load(r), a + [Fraction(0)] * (m - n) if m >= n else a)
        kept(it, [p], [a])

    def t_eq(it):
        a, b, p, r = two(it)
        e = call(it, eq, p, [r])
        n = call(it, ne, p, [r])
        want = land(*[rv(x) == rv(y) for x, y in zip(a, b)])
        it.oblige('equality of polynomials', cmp('==', e, want))
        it.oblige('inequality is its negation', cmp('==', n, lnot(want)))

    out = [Task('sum', t_add, [q + 'operator+'], exact=True), Task('in-place sum', t_iadd, [q + 'operator+='], exact=True)]
    for lo, hi in ((1, 6), (7, 9), (10, 11), (12, 12)):
        out.append(Task('product n=%d..%d' % (lo, hi), t_mul(lo, hi), [q + 'operator*(Polynomial)'], exact=True))
    out += [Task('convolution', t_conv, [q + 'convolve'], exact=True),
            Task('lemma pointwise product', t_pointwise, lemma=True),
            Task('scalar multiple', t_muls, [q + 'operator*(double)'], exact=True),
            Task('time scaling', t_scale, [q + 'scalePolynomialInTime'], exact=True),
            Task('offset', t_off, [q + 'offsetPolynomial'], exact=True),
            Task('padding', t_app, [q + 'getPolynomialWithAppendedCoefficients'], exact=True),
            Task('comparison', t_eq, [q + 'operator==', q + 'operator!='], exact=True)]
    return out
