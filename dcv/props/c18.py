"""C18: Waypoint deformations are smooth bumps with consistent derivatives.

Contract of GaussianModifier::operator() (any time, centre, width, displacement), writing g(t) = increment * exp(u(t)) with
u(t) = -(t-centre)^2 / (2 width^2): order 0 is g, order 1 is u' g, order 2 is (u'' + u'^2) g (the derivatives of g, from
d/dt exp(u) = u' exp(u)) for displacements of at least 2 cm within 3.5 widths; every order is exactly 0 otherwise; the value at the
centre is the displacement; no operation divides by zero, for every width including zero.
The object is built by the real constructor and setters in any order, so their effects are part of what is proved.
"""
from ..spec import *
from .. import models
TUS = ['gauss']
NATIVE = {'src': 'c18.cpp', 'with': [], 'n': 40000}
ASSUMPTIONS = ['exp is the exponential: exp(0) = 1 and d/dt exp(u) = u\' exp(u)']
GM = 'GaussianModifier'


def tasks(db, tier):
    f_op = find(db, GM + '::operator()')
    f_t, f_d, f_s = (find(db, GM + '::' + x) for x in ('setModifierTime', 'setDifference', 'setSigma'))
    f_g = find(db, GM + '::getSigma')

    def obj(it, default_sigma=False):
        """a deformation built by the constructor and the setters, in any order, each possibly called before with other values"""
        sl = new(it, it.construct(GM, [], None))
        s, mu, inc = z3.Reals('sigma mu increment')
        js, jm, ji = z3.Reals('old_sigma old_mu old_increment')
        fs = [(f_s, s, js), (f_t, mu, jm), (f_d, inc, ji)]
        if default_sigma:
            s = call(it, f_g, sl)
            it.oblige('a fresh deformation has a width', cmp('>', s, 0))
            fs = fs[1:]
        k = it.choose(3)
        if k == 1:
            for f, _, o in fs:
                call(it, f, sl, [o])
        for f, x, _ in (fs if k != 2 else reversed(fs)):
            call(it, f, sl, [x])
        return sl, s, mu, inc

    def run_op(it):
        sl, s, mu, inc = obj(it, it.choose(2))
        it.oblige('the width is the one set', cmp('==', call(it, f_g, sl), s))
        t = z3.Real('t')
        k = it.choose(3)
        r = call(it, f_op, sl, [t, k])
        d = sub(t, mu)
        zero = lor(cmp('<', rabs(inc), Fraction(2, 100)), cmp('>', rabs(d), mul(Fraction(7, 2), s)), cmp('==', s, 0))
        if it.branch(zero):
            it.oblige('order %d: exactly zero outside the bump and for displacements under 2 cm' % k, cmp('==', r, 0))
            return
        it.cover('inside')
        u = rdiv(sub(Fraction(0), mul(d, d)), mul(Fraction(2), mul(s, s)))
        u1, u2 = rdiv(sub(Fraction(0), d), mul(s, s)), rdiv(Fraction(-1), mul(s, s))
        g = mul(inc, models.F_exp(rv(u)))
        want = [g, mul(u1, g), mul(add(u2, mul(u1, u1)), g)][k]
        it.oblige(['order 0: the bump', 'order 1: derivative of the bump', 'order 2: second derivative of the bump'][k], cmp('==', r, want))

    def run_peak(it):
        sl, s, mu, inc = obj(it)
        it.assume(s > 0)
        it.assume(rv(rabs(inc)) >= Fraction(2, 100))
        it.oblige('the peak is the displacement', cmp('==', call(it, f_op, sl, [mu, 0]), inc))

    def run_new(it):
        sl = new(it, it.construct(GM, [], None))
        it.oblige('a fresh deformation contributes nothing', cmp('==', call(it, f_op, sl, [z3.Real('t'), it.choose(3)]), 0))

    fs = [GM + '::' + x for x in ('operator()', 'setModifierTime', 'setDifference', 'setSigma', 'getSigma')]
    return [
        Task('value, first and second derivative', run_op, funcs=fs),
        Task('peak', run_peak, funcs=fs),
        Task('fresh', run_new, funcs=fs),
    ]
