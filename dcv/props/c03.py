"""C03: Polynomial extrema over an interval are complete and correctly selected.

Contracts (any number of roots / candidates, no bound):
  selectMinMaxCandidatesFromRoots  a>b: refused. Otherwise the list is a, b and, in order, the real part of every root with
                                   |imag| <= 2^-52 inside [a,b]; every entry is in [a,b] and is a, b or such a root.
  computeMinMaxCandidates          refused when N-k-1<0; otherwise that list for the roots of the (k+1)-th derivative
  selectMinMaxFromCandidates       empty: refused; otherwise min/max of the k-th derivative over the list, each paired with a
                                   list element at which it is attained
  computeMinMax, selectMinMaxFromRoots   composition of the two, refused when either refuses
The roots themselves come from getRoots, whose accuracy is an assumed contract (C32).
"""
from ..spec import *
TUS = ['polynomial']
NATIVE = {'src': 'c03.cpp', 'with': ['$MAV/src/polynomial.cpp', '$MAV/src/rpoly/rpoly_ak1.cpp'], 'n': 8000}
ASSUMPTIONS = ['getRoots returns the roots of the requested derivative (property C32, not claimed)', 'values of the polynomial at candidates are within the finite double range']
CP = ('cplx',)


def good(r, a, b):
    return land(cmp('<=', rabs(r.im), EPS), cmp('>=', r.re, a), cmp('<=', r.re, b))


def tasks(db, tier):
    q = POLY + '::'
    sel = find(db, q + 'selectMinMaxCandidatesFromRoots')
    cand = find(db, q + 'computeMinMaxCandidates')
    selc = find(db, q + 'selectMinMaxFromCandidates')
    selr = find(db, q + 'selectMinMaxFromRoots')
    cmm = find(db, q + 'computeMinMax')
    cnt = uf('cnt', 'i', 'i')
    val = uf('value', 'r', 'i', 'r')
    dseq = ('seq', REAL, 'vector')
    pair = ('pair', REAL, REAL)

    # ---- candidates from roots
    def t_sel(it):
        a, b = z3.Real('a'), z3.Real('b')
        roots = seq_of(it, CP, 'root', 'eig', hi=3)
        old = seq_of(it, REAL, 'old', hi=1)
        rl = new(it, roots, ('eig', 'c', -1, 1))
        cl = new(it, old, dseq)
        n = size(roots)
        g = lambda j: good(it.elem(roots, j), a, b)
        if not bounded(it):
            r0 = z3.Int('r0')
            it.assume(z3.And(r0 >= 0, r0 < n))
            it.ghost.update(roots=roots, a=a, b=b, r0=r0, cl=cl)
            it.assume(cnt(0) == 0)
            it.assume(implies(iv(n) > 0, cnt(1) == cnt(0) + z3.If(bv(g(0)), 1, 0)))
            it.assume(cnt(r0 + 1) == cnt(r0) + z3.If(bv(g(r0)), 1, 0))
        ok = call(it, sel, None, [a, b, rl, Ptr(cl)])
        it.oblige('refused exactly when the interval is reversed', cmp('==', ok, cmp('<=', a, b)))
        if not it.branch(cmp('<=', a, b)):
            return
        L = it.load(cl)
        if bounded(it):
            want = [a, b]
            for r in items(roots):
                if it.branch(good(r, a, b)):
                    want.append(r.re)
            eq_list(it, 'candidates', items(L), want)
            return
        it.oblige('number of candidates', cmp('==', size(L), add(2, cnt(iv(n)))))
        it.oblige('first candidate is the start', cmp('==', it.elem(L, 0), a))
        it.oblige('second candidate is the end', cmp('==', it.elem(L, 1), b))
        it.oblige('every real root inside is a candidate', implies(g(r0), land(cmp('==', it.elem(L, 2 + cnt(r0)), it.elem(roots, r0).re), cnt(r0) >= 0, cnt(r0) < cnt(iv(n)))))
        j = arb(it, 'j0', size(L), 2)
        it.oblige('nothing outside the interval', land(cmp('>=', it.elem(L, j), a), cmp('<=', it.elem(L, j), b)))
        it.oblige('every further candidate is a real root', exists(it, n, lambda r: land(g(r), cmp('==', it.elem(L, j), it.elem(roots, r).re))))

    def inv_sel(L):
        it = L.it
        G = it.ghost
        if 'roots' not in G:
            return None
        i = iv(L['i'])
        roots, a, b, r0 = G['roots'], G['a'], G['b'], G['r0']
        g = lambda j: good(it.elem(roots, j), a, b)
        it.assume(cnt(i + 1) == cnt(i) + z3.If(bv(g(i)), 1, 0))
        c = deref(it, L['candidates'])
        j = z3.Int('j0')
        n = iv(c.n)
        # the list keeps its two leading entries, concrete or not
        return [land(i >= 0, i <= iv(size(roots))), n == 2 + cnt(i), cnt(i) >= 0,
                cmp('==', it.elem(c, 0), a), cmp('==', it.elem(c, 1), b),
                implies(land(i > r0, g(r0)), land(cnt(r0) < cnt(i), cnt(r0) >= 0, cmp('==', it.elem(c, 2 + cnt(r0)), it.elem(roots, r0).re))),
                implies(i > r0, cnt(i) >= cnt(r0)), implies(i == r0, cnt(i) == cnt(r0)),
                implies(land(j >= 2, j < n), land(cmp('>=', it.elem(c, j), a), cmp('<=', it.elem(c, j), b))),
                implies(land(j >= 2, j < n), exists(it, i, lambda r: land(g(r), cmp('==', it.elem(c, j), it.elem(roots, r).re))))]

    # ---- candidates of a polynomial
    def roots_contract(it, func, this, args, node):
        it.events.append(('getRoots', it.val(args[0])))
        it.store(deref_lv(it, args[1]), it.ghost['R'])
        return z3.Bool('found')

    def deref_lv(it, p):
        p = it.val(p)
        return p.lv

    def sel_contract(it, func, this, args, node):
        a, b, roots = it.val(args[0]), it.val(args[1]), it.val(args[2])
        it.events.append(('select', a, b, roots))
        if it.branch(cmp('<=', a, b)):
            it.store(deref_lv(it, args[3]), it.ghost['CAND'])
            return True
        return False

    def t_cand(it):
        N = it.choose(22) + 1
        k = it.choose(N + 2) - 1          # -1: the polynomial itself is the derivative (used for magnitudes)
        a, b = z3.Real('a'), z3.Real('b')
        it.ghost['R'] = it.fresh_named(('eig', 'c', -1, 1), 'R')
        it.ghost['CAND'] = it.fresh_named(dseq, 'CAND')
        cl = new(it, it.fresh_named(dseq, 'old'), dseq)
        p = new(it, poly(it, reals('c', N)))
        ok = call(it, cand, p, [a, b, k, Ptr(cl)])
        L = it.load(cl)
        if N - k - 1 < 0:
            it.oblige('refused when the derivative does not exist', cmp('==', ok, False))
            it.oblige('nothing reported', cmp('==', size(L), 0))
            return
        it.oblige('the roots are those of the next derivative', ('getRoots', k + 1) in it.events)
        ev = [e for e in it.events if e[0] == 'select']
        it.oblige('candidates are selected once from these roots', len(ev) == 1 and ev[0][3] is it.ghost['R'])
        it.oblige('for the requested interval', land(cmp('==', ev[0][1], a), cmp('==', ev[0][2], b)))
        it.oblige('refused exactly when the interval is reversed', cmp('==', ok, cmp('<=', a, b)))
        if it.branch(cmp('<=', a, b)):
            it.oblige('the selected list is returned', L is it.ghost['CAND'])

    # ---- selection from candidates
    def ev_contract(it, func, this, args, node):
        if len(args) != 2 or isinstance(it.val(args[1]), Ptr):
            return NotImplemented
        v = val(rv(it.val(args[0])), iv(it.val(args[1])))
        it.assume(z3.And(v <= DBL_MAX, v >= -DBL_MAX))
        return v

    def t_selc(it):
        k = z3.Int('k')
        c = seq_of(it, REAL, 'cand', hi=4)
        cl = new(it, c, dseq)
        mn, mx = new(it, it.fresh_named(pair, 'mn'), pair), new(it, it.fresh_named(pair, 'mx'), pair)
        p = new(it, SV(POLY, {'N_': z3.Int('N'), 'coefficients_': vec([])}))
        it.assume(DBL_MAX > 1)
        n = size(c)
        if not bounded(it):
            j0 = z3.Int('j0')
            it.assume(z3.And(j0 >= 0))
            it.ghost.update(c=c, k=k, j0=j0, mn=mn, mx=mx)
        ok = call(it, selc, p, [cl, k, Ptr(mn), Ptr(mx)])
        it.oblige('refused exactly when there is no candidate', cmp('==', ok, cmp('>', n, 0)))
        if not it.branch(cmp('>', n, 0)):
            return
        f = lambda t: val(rv(t), k)
        for t in (items(c) if bounded(it) else [it.elem(c, z3.Int('j0'))]):
            it.assume(land(f(t) <= DBL_MAX, f(t) >= -DBL_MAX))
        MN, MX = it.load(mn), it.load(mx)
        it.oblige('minimum is attained at its time', cmp('==', MN.f['second'], f(MN.f['first'])))
        it.oblige('maximum is attained at its time', cmp('==', MX.f['second'], f(MX.f['first'])))
        it.oblige('time of the minimum is a candidate', exists(it, n, lambda j: cmp('==', it.elem(c, j), MN.f['first'])))
        it.oblige('time of the maximum is a candidate', exists(it, n, lambda j: cmp('==', it.elem(c, j), MX.f['first'])))
        j = arb(it, 'j0', n)
        it.oblige('minimum bounds every candidate', cmp('<=', MN.f['second'], f(it.elem(c, j))))
        it.oblige('maximum bounds every candidate', cmp('>=', MX.f['second'], f(it.elem(c, j))))

    def inv_selc(L):
        it = L.it
        G = it.ghost
        if 'mn' not in G:
            return None
        c, k, j0 = G['c'], G['k'], G['j0']
        f = lambda t: val(rv(t), k)
        i = iv(L.extra['k']() if L.extra else L['i'])
        x = f(it.elem(c, j0))
        it.assume(z3.And(x <= DBL_MAX, x >= -DBL_MAX))
        MN, MX = it.load(G['mn']), it.load(G['mx'])
        first = it.elem(c, 0)
        return [i >= 0, i <= iv(c.n),
                implies(i > 0, cmp('==', MN.f['second'], f(MN.f['first']))), implies(i > 0, cmp('==', MX.f['second'], f(MX.f['first']))),
                cmp('<=', MN.f['second'], DBL_MAX), cmp('>=', MX.f['second'], -DBL_MAX),
                implies(i == 0, land(cmp('==', MN.f['second'], DBL_MAX), cmp('==', MX.f['second'], -DBL_MAX))),
                lor(cmp('==', MN.f['first'], first), exists(it, i, lambda j: cmp('==', it.elem(c, j), MN.f['first']))),
                lor(cmp('==', MX.f['first'], first), exists(it, i, lambda j: cmp('==', it.elem(c, j), MX.f['first']))),
                implies(j0 < i, cmp('<=', MN.f['second'], x)), implies(j0 < i, cmp('>=', MX.f['second'], x))]

    # ---- compositions
    def compose(f, from_roots):
        def run(it):
            a, b, k = z3.Real('a'), z3.Real('b'), z3.Int('k')
            R = it.fresh_named(('eig', 'c', -1, 1), 'R')
            C = it.fresh_named(dseq, 'CAND')
            it.ghost['CAND'] = C
            ok1, ok2 = z3.Bool('candidates_ok'), z3.Bool('selection_ok')
            mn, mx = new(it, it.fresh_named(pair, 'mn'), pair), new(it, it.fresh_named(pair, 'mx'), pair)
            ev = []

            def o_cand(it, func, this, args, node):
                v = [it.val(x) for x in args]
                ev.append(('cand', v))
                if it.branch(ok1):
                    it.store(v[3].lv, C)
                    return True
                return False

            def o_sel(it, func, this, args, node):
                v = [it.val(x) for x in args]
                ev.append(('sel', v))
                return ok2
            it.e.overrides = {q + 'selectMinMaxFromCandidates': o_sel, q + 'computeMinMaxCandidates': o_cand, q + 'selectMinMaxCandidatesFromRoots': o_cand}
            p = new(it, SV(POLY, {'N_': z3.Int('N'), 'coefficients_': vec([])}))
            if from_roots:
                r = call(it, f, p, [a, b, k, new(it, R, ('eig', 'c', -1, 1)), Ptr(mn), Ptr(mx)])
            else:
                r = call(it, f, p, [a, b, k, Ptr(mn), Ptr(mx)])
            it.oblige('candidates are computed first, once', len(ev) >= 1 and ev[0][0] == 'cand' and len([e for e in ev if e[0] == 'cand']) == 1)
            v = ev[0][1]
            it.oblige('for the requested interval', land(cmp('==', v[0], a), cmp('==', v[1], b)))
            if from_roots:
                it.oblige('for the given roots', v[2] is R)
            else:
                it.oblige('for the requested derivative', cmp('==', v[2], k))
            if it.branch(ok1):
                it.oblige('extrema selected from these candidates', len(ev) == 2 and ev[1][0] == 'sel' and ev[1][1][0] is C)
                w = ev[1][1]
                it.oblige('of the requested derivative', cmp('==', w[1], k))
                it.oblige('into the requested results', isinstance(w[2], Ptr) and isinstance(w[3], Ptr) and w[2].lv.key() == mn.key() and w[3].lv.key() == mx.key())
                it.oblige('success is that of the selection', cmp('==', r, ok2))
            else:
                it.oblige('refused without candidates', land(cmp('==', r, False), len(ev) == 1))
        return run

    T = [Task('candidates from roots', t_sel, [q + 'selectMinMaxCandidatesFromRoots'], invariants={'selectMinMaxCandidatesFromRoots': [('candidates', inv_sel)]},
              bounded=[('at most 3 roots', t_sel)], timeout_ms=10000),
         Task('candidates of a derivative', t_cand, [q + 'computeMinMaxCandidates'], overrides={q + 'getRoots': roots_contract, q + 'selectMinMaxCandidatesFromRoots': sel_contract}, exact=True),
         Task('extrema from candidates', t_selc, [q + 'selectMinMaxFromCandidates'], invariants={'selectMinMaxFromCandidates': [('extrema', inv_selc)]},
              overrides={q + 'evaluate': ev_contract}, bounded=[('at most 4 candidates', t_selc)], timeout_ms=10000),
         Task('extrema', compose(cmm, False), [q + 'computeMinMax'], exact=True),
         Task('extrema from roots', compose(selr, True), [q + 'selectMinMaxFromRoots'], exact=True)]
    return T
