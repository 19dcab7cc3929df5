"""C15: Saving and loading a trajectory gives the same trajectory.

A document is a tree (undefined, null, number, sequence, map), an emitter the stack of its open containers, a file holds one
document.  Contracts (any number of segments, dimensions and coefficients):
  coefficientsToYaml / FromYaml   the sequence of the values, in order
  segmentToYaml / FromYaml        N, D, coefficients in order, duration in nanoseconds within one; refused only if a field is missing
  segmentsToYaml / FromYaml       the sequence of the segments, in order, replacing what was in the target
  trajectoryToYaml / FromYaml / ToFile / FromFile   through the contracts above; refused input leaves the target alone
  segmentsToFile                  the document written to the named file describes exactly the given segments
  segmentsFromFile                a document as written by segmentsToFile gives those segments; accepted input had every field
                                  and sizes that agree with its header
"""
from ..spec import *
from ..yaml import Y, EMPTY_MAP, T as TY
from .. import yaml
TUS = ['io', 'trajectory', 'segment', 'polynomial']
NATIVE = {'src': 'c15.cpp', 'with': ['$MAV/src/' + x for x in ('io.cpp', 'trajectory_sampling.cpp', 'trajectory.cpp', 'segment.cpp', 'polynomial.cpp', 'vertex.cpp', 'motion_defines.cpp', 'rpoly/rpoly_ak1.cpp')], 'n': 300, 'libs': ['-lyaml-cpp', '-lglog']}
ASSUMPTIONS = ['every polynomial of a segment has the segment\'s coefficient count and a segment has at least one dimension; durations are not negative',
               'yaml-cpp writes and reads back numbers exactly (17 significant digits) and trees as they were built; std::ofstream/ifstream either fail to open or work']
KEYS = ('N', 'D', 'time', 'coefficients')


def tasks(db, tier):
    f = {x: find(db, NS + x) for x in ('coefficientsToYaml', 'segmentToYaml', 'segmentsToYaml', 'trajectoryToYaml', 'coefficientsFromYaml', 'segmentFromYaml', 'segmentsFromYaml', 'trajectoryFromYaml',
                                       'segmentsToFile', 'segmentsFromFile', 'trajectoryToFile', 'trajectoryFromFile')}
    tseg, tpoly = cls(SEG), cls(POLY)
    code = lambda it, k: it.S.term(('str',), k)
    I32 = 2 ** 31

    def seg(it, name):
        """any segment of a trajectory"""
        if bounded(it):
            N, D = it.choose(2) + 1, it.choose(2) + 1
            ps = Seq(tpoly, 'vector', [poly(it, reals('%s.c%d_' % (name, d), N)) for d in range(D)])
            t = z3.Real(name + '.time')
            it.assume(t >= 0)
            return SV(SEG, {'polynomials_': ps, 'time_': t, 'N_': N, 'D_': D})
        s = it.fresh_named(tseg, name)
        wf_seg(it, s)
        return s

    def wf_seg(it, s):
        ps = s.f['polynomials_']
        j = z3.Int('qp')
        it.assume(land(cmp('==', ps.n, s.f['D_']), cmp('>=', s.f['N_'], 0), cmp('>', s.f['D_'], 0), iv(s.f['D_']) < I32, iv(s.f['N_']) < I32, cmp('>=', s.f['time_'], 0)))
        p = it.elem(ps, j)
        it.assume(forall(j, implies(land(j >= 0, j < iv(ps.n)), land(cmp('==', p.f['N_'], s.f['N_']), cmp('==', size(p.f['coefficients_']), s.f['N_']))), z3.Select(ps.arr, j)))

    def segs_of(it, name, lo=0):
        if bounded(it):
            n = it.choose(3 - lo) + lo
            return Seq(tseg, 'vector', [seg(it, '%s%d' % (name, i)) for i in range(n)])
        v = it.fresh_named(vseq(tseg), name)
        it.assume(v.n >= lo)
        return v

    num = lambda y: z3.If(Y.is_Int(y), z3.ToReal(Y.int(y)), Y.real(y))

    def child(it, y, k, idx=False):
        return yaml.sel(y, iv(k) if idx else code(it, k), idx)

    def is_int(y, v):
        if yaml.kind(y):
            return land(yaml.kind(y) == 'Int', cmp('==', y.arg(0) if yaml.kind(y) == 'Int' else 0, v))
        return z3.And(Y.is_Int(y), Y.int(y) == iv(v))

    def seqn(y, n):
        if yaml.kind(y):
            return land(yaml.kind(y) == 'Seq', cmp('==', norm(y.arg(0)) if yaml.kind(y) == 'Seq' else -1, n))
        return z3.And(Y.is_Seq(y), Y.n(y) == iv(n))

    def isreal(y, v):
        if yaml.kind(y):
            return land(yaml.kind(y) == 'Real', cmp('==', y.arg(0) if yaml.kind(y) == 'Real' else 0, v))
        return z3.And(Y.is_Real(y), Y.real(y) == rv(v))

    def time_ok(it, y, s):
        if not yaml.kind(y):
            ns = Y.int(y)
        elif yaml.kind(y) != 'Int':
            return False
        else:
            ns = y.arg(0)
        g = z3.ToReal(ns) - Fraction(10 ** 9) * rv(s.f['time_']) if is_sym(s.f['time_']) else sub(norm(z3.simplify(z3.ToReal(ns))), mul(Fraction(10 ** 9), s.f['time_']))
        return land(yaml.test(y, 'Int'), cmp('<=', g, 1), cmp('>=', g, -1))

    def coef(it, s, d, c):
        return it.elem(it.elem(s.f['polynomials_'], d).f['coefficients_'], c)

    def head_goals(it, y, s):
        return [('coefficient count', is_int(child(it, y, 'N'), s.f['N_'])), ('dimensions', is_int(child(it, y, 'D'), s.f['D_'])),
                ('duration within a nanosecond', time_ok(it, child(it, y, 'time'), s)), ('one list per dimension', seqn(child(it, y, 'coefficients'), s.f['D_']))]

    def dim_goal(it, y, s, d):
        return seqn(child(it, child(it, y, 'coefficients'), d, True), s.f['N_'])

    def coef_goal(it, y, s, d, c):
        return isreal(child(it, child(it, child(it, y, 'coefficients'), d, True), c, True), coef(it, s, d, c))

    # ---- coefficients
    def run_c2y(it):
        v = vec(reals('v', it.choose(4))) if bounded(it) else it.fresh_named(EV, 'v')
        it.ghost['v'] = v
        y = it.val(call(it, f['coefficientsToYaml'], None, [new(it, v, EV)]))
        it.oblige('as many numbers', seqn(y, size(v)))
        j = arb(it, 'j0', size(v))
        it.oblige('each number in its place', isreal(child(it, y, j, True), it.elem(v, j)))

    def inv_c2y(L):
        it = L.it
        if 'v' not in it.ghost:
            return None
        j, y, k, v = z3.Int('j0'), L['node'], iv(L['i']), it.ghost['v']
        return [k >= 0, k <= iv(size(v)), seqn(y, k), implies(land(j >= 0, j < k), isreal(child(it, y, j, True), it.elem(v, j)))]

    def wfnum(y):
        return yaml.test(y, 'Real', 'Int')

    def run_cfy(it, well=False):
        if bounded(it):
            n = it.choose(4)
            vs = reals('v', n)
            y = Y.Seq(n, z3.K(z3.IntSort(), Y.Undef))
            for i in range(n):
                y = Y.Seq(n, z3.Store(y.arg(1), i, Y.Real(vs[i])))
            old = vec(reals('o', 2))
        else:
            y, old = z3.Const('y', Y), it.fresh_named(EV, 'o')
            it.assume(implies(Y.is_Seq(y), Y.n(y) >= 0))
            if well:
                j = z3.Int('qj')
                it.assume(Y.is_Seq(y))
                it.assume(forall(j, implies(land(j >= 0, j < Y.n(y)), wfnum(z3.Select(Y.arr(y), j))), z3.Select(Y.arr(y), j)))
        it.ghost['y'] = y
        o = new(it, old, EV)
        try:
            r = call(it, f['coefficientsFromYaml'], None, [new(it, y, TY), Ptr(o)])
        except ThrowX:
            it.oblige('a list of numbers is accepted', not (well or bounded(it)))
            return
        if well or bounded(it):
            it.oblige('a list of numbers is accepted', r)
        it.oblige('only a sequence is accepted', cmp('==', bv(r), bv(yaml.test(y, 'Seq'))))
        if not it.branch(r):
            return
        got = it.load(o)
        n = norm(y.arg(0)) if yaml.kind(y) else Y.n(y)
        it.oblige('as many values', cmp('==', size(got), n))
        j = arb(it, 'j0', n)
        e = child(it, y, j, True)
        it.oblige('each value in its place', land(wfnum(e), cmp('==', it.elem(got, j), e.arg(0) if yaml.kind(e) else num(e))))

    def inv_cfy(L):
        it = L.it
        if 'y' not in it.ghost:
            return None
        j, k, y = z3.Int('j0'), iv(L['i']), it.ghost['y']
        got = L['coefficients']
        got = it.load(got.lv) if isinstance(got, Ptr) else got
        e = child(it, y, j, True)
        return [k >= 0, k <= Y.n(y), cmp('==', size(got), Y.n(y)), implies(land(j >= 0, j < k), land(wfnum(e), cmp('==', it.elem(got, j), num(e))))]

    # ---- one segment
    CY = uf('coefficients_yaml', 'i', Y)

    def cy(it, v):
        g = z3.Function('coefficients_yaml', it.S.sort(EV), Y)
        return g(sterm(it, EV, v))

    def ov_c2y(it, func, this, args, node):
        if bounded(it):
            return NotImplemented
        return cy(it, it.val(args[0]))

    def run_s2y(it):
        s = seg(it, 's')
        it.ghost['s'] = s
        y = it.val(call(it, f['segmentToYaml'], None, [new(it, s)]))
        for nm, g in head_goals(it, y, s):
            it.oblige(nm, g)
        d = arb(it, 'd0', s.f['D_'])
        yd = child(it, child(it, y, 'coefficients'), d, True)
        if bounded(it):
            it.oblige('one number per coefficient', dim_goal(it, y, s, d))
            for c in range(s.f['N_']):
                it.oblige('each coefficient in its place', coef_goal(it, y, s, d, c))
        else:
            it.oblige('each dimension\'s coefficients in its place', yd == cy(it, it.elem(s.f['polynomials_'], d).f['coefficients_']))

    def inv_s2y(L):
        it = L.it
        if 's' not in it.ghost:
            return None
        y, k, d, s = L['node'], iv(L['i']), z3.Int('d0'), it.ghost['s']
        c = child(it, y, 'coefficients')
        r = [k >= 0, k <= iv(s.f['D_']), yaml.test(y, 'Map'), lor(land(k == 0, yaml.test(c, 'Undef')), seqn(c, k)), implies(k > 0, seqn(c, k)),
             implies(land(d >= 0, d < k), child(it, c, d, True) == cy(it, it.elem(s.f['polynomials_'], d).f['coefficients_']))]
        return r + [g for _, g in head_goals(it, y, s)[:3]]

    FV = {}

    def ov_cfy(it, func, this, args, node):
        """coefficientsFromYaml: the values of the sequence (ok iff a sequence); throws if one is not a number or the node is undefined"""
        if bounded(it):
            return NotImplemented
        y = it.val(args[0])
        if it.branch(yaml.test(y, 'Undef')):
            raise ThrowX('YAML::InvalidNode')
        if not it.branch(yaml.test(y, 'Seq')):
            return False
        bad = z3.Function('not_numbers', Y, z3.BoolSort())(y)
        if it.branch(bad):
            raise ThrowX('YAML::BadConversion')
        it.store(it.val(args[1]).lv, cv(it, y))
        return True

    def cv(it, y):
        v = sval(it, EV, z3.Function('coefficients_of', Y, it.S.sort(EV))(y))
        it.assume(z3.And(iv(size(v)) == Y.n(y), Y.n(y) >= 0))
        return v

    def node_of(it, s):
        """the node a segment is written as"""
        y = EMPTY_MAP
        for k, x in (('N', Y.Int(iv(s.f['N_']))), ('D', Y.Int(iv(s.f['D_']))), ('time', Y.Int(z3.Int('ns')))):
            y = yaml.put(it, y, code(it, k), x)
        c = yaml.EMPTY_SEQ
        for p in s.f['polynomials_'].items:
            a = yaml.EMPTY_SEQ
            for x in items(p.f['coefficients_']):
                a = yaml.append(it, a, Y.Real(x))
            c = yaml.append(it, c, a)
        return yaml.put(it, y, code(it, 'coefficients'), c)

    def fields(it, y):
        return land(*[lnot(yaml.test(child(it, y, k), 'Undef')) for k in KEYS] + [yaml.test(child(it, y, 'coefficients'), 'Seq')])

    def run_sfy(it):
        if bounded(it):
            s = seg(it, 's')
            y = node_of(it, s)
            it.assume(z3.Int('ns') >= 0)
            miss = it.choose(6)
            if miss < 4:
                y = yaml.put(it, y, code(it, KEYS[miss]), Y.Undef)
            if miss == 4:
                y = yaml.put(it, y, code(it, 'coefficients'), Y.Real(z3.Real('x')))
            old = seg(it, 'o')
        else:
            y, old = z3.Const('y', Y), seg(it, 'o')
            it.assume(Y.is_Map(y))
            for k in ('N', 'D'):
                c = child(it, y, k)
                it.assume(implies(Y.is_Int(c), z3.And(Y.int(c) >= 0, Y.int(c) < 1000)))
            it.assume(implies(Y.is_Seq(child(it, y, 'coefficients')), Y.n(child(it, y, 'coefficients')) >= 0))
        it.ghost.update(y=y)
        o = new(it, old)
        try:
            r = call(it, f['segmentFromYaml'], None, [new(it, y, TY), Ptr(o)])
        except ThrowX as e:
            it.events.append('throw')
            it.oblige('a complete node is not an error', land(not bounded(it), 'Conversion' in e.what or 'Invalid' in e.what))
            return
        ok = fields(it, y)
        it.oblige('accepted input has every field', implies(r, ok))
        if bounded(it):
            it.oblige('a complete node is accepted', implies(ok, r))
        if not it.branch(r):
            return
        R = it.load(o)
        N, D, t = (child(it, y, k) for k in KEYS[:3])
        it.oblige('coefficient count and dimensions', land(is_int(N, R.f['N_']), is_int(D, R.f['D_']), cmp('==', size(R.f['polynomials_']), R.f['D_'])))
        it.oblige('duration', land(yaml.test(t, 'Int'), cmp('==', R.f['time_'], mul(Fraction(1, 10 ** 9), num_(t)))))
        d = arb(it, 'd0', R.f['D_'])
        got = it.elem(R.f['polynomials_'], d).f['coefficients_']
        yd = child(it, child(it, y, 'coefficients'), d, True)
        if bounded(it):
            eq_list(it, 'coefficients', items(got), items(s.f['polynomials_'].items[d].f['coefficients_']))
            return
        it.oblige('each dimension\'s coefficients', sterm(it, EV, got) == sterm(it, EV, cv(it, yd)))
        it.oblige('each polynomial has its own coefficient count', cmp('==', it.elem(R.f['polynomials_'], d).f['N_'], Y.n(yd)))

    def num_(y):
        return norm(z3.simplify(z3.ToReal(y.arg(0)))) if yaml.kind(y) == 'Int' else z3.ToReal(Y.int(y))

    def inv_sfy(L):
        it = L.it
        if 'y' not in it.ghost:
            return None
        y, d, k = it.ghost['y'], z3.Int('d0'), iv(L['i'])
        s = L['segment']
        s = it.load(s.lv) if isinstance(s, Ptr) else s
        c = child(it, y, 'coefficients')
        yd = child(it, c, d, True)
        return [k >= 0, k <= iv(s.f['D_']), cmp('==', size(s.f['polynomials_']), s.f['D_']),
                implies(land(d >= 0, d < k), land(sterm(it, EV, it.elem(s.f['polynomials_'], d).f['coefficients_']) == sterm(it, EV, cv(it, yd)), cmp('==', it.elem(s.f['polynomials_'], d).f['N_'], Y.n(yd)), Y.is_Seq(yd)))]

    # ---- several segments
    def sy(it, s):
        return z3.Function('segment_yaml', it.S.sort(tseg), Y)(sterm(it, tseg, s))

    def ov_s2y(it, func, this, args, node):
        if bounded(it):
            return NotImplemented
        y = sy(it, it.val(args[0]))
        it.assume(Y.is_Map(y))
        return y

    def segs_y(it, y):
        return child(it, y, 'segments')

    def run_ss2y(it):
        ss = segs_of(it, 's')
        it.ghost['ss'] = ss
        y = it.val(call(it, f['segmentsToYaml'], None, [new(it, ss, vseq(tseg))]))
        listed(it, y, ss)

    def listed(it, y, ss):
        c = segs_y(it, y)
        n = size(ss)
        it.oblige('as many segments', lor(seqn(c, n), land(cmp('==', n, 0), yaml.test(c, 'Undef'))))
        j = arb(it, 'j0', n)
        yj = child(it, c, j, True)
        s = it.elem(ss, j)
        if not bounded(it):
            it.oblige('each segment in its place', yj == sy(it, s))
            return
        for nm, g in head_goals(it, yj, s):
            it.oblige(nm, g)
        for d in range(s.f['D_']):
            it.oblige('one number per coefficient', dim_goal(it, yj, s, d))
            for k in range(s.f['N_']):
                it.oblige('each coefficient in its place', coef_goal(it, yj, s, d, k))

    def inv_ss2y(L):
        it = L.it
        if 'ss' not in it.ghost:
            return None
        y, k, j, ss = L['node'], iv(L.idx), z3.Int('j0'), it.ghost['ss']
        c = segs_y(it, y)
        return [k >= 0, k <= iv(size(ss)), implies(k == 0, yaml.test(y, 'Null', 'Map')), implies(k == 0, yaml.test(c, 'Undef')), implies(k > 0, land(yaml.test(y, 'Map'), seqn(c, k))),
                implies(land(j >= 0, j < k), child(it, c, j, True) == sy(it, it.elem(ss, j)))]

    SS = lambda it: z3.Function('segments_yaml', it.S.sort(vseq(tseg)), Y)

    def ov_ss2y(it, func, this, args, node):
        if bounded(it):
            return NotImplemented
        return SS(it)(sterm(it, vseq(tseg), it.val(args[0])))

    def traj(it, name, lo=0):
        return SV(TRAJ, {'D_': z3.Int(name + '.D'), 'N_': z3.Int(name + '.N'), 'max_time_': z3.Real(name + '.max_time'), 'segments_': segs_of(it, name, lo)})

    def run_t2y(it):
        t = traj(it, 't')
        tl = new(it, t)
        y = it.val(call(it, f['trajectoryToYaml'], None, [tl]))
        it.oblige('the trajectory is unchanged', it.load(tl) is t)
        if bounded(it):
            listed(it, y, t.f['segments_'])
        else:
            it.oblige('its segments are written', y == SS(it)(sterm(it, vseq(tseg), t.f['segments_'])))

    def refused(it, y):
        return z3.Function('segment_refused', Y, z3.BoolSort())(y)

    def sv_of(it, y):
        return sval(it, tseg, z3.Function('segment_of', Y, it.S.sort(tseg))(y))

    def ov_sfy(it, func, this, args, node):
        if bounded(it):
            return NotImplemented
        y = it.val(args[0])
        if it.branch(refused(it, y)):
            if it.choose(2):
                raise ThrowX('YAML')
            it.store(it.val(args[1]).lv, it.fresh(tseg, 'partial'))
            return False
        it.store(it.val(args[1]).lv, sv_of(it, y))
        return True

    def run_ssfy(it):
        old = segs_of(it, 'o')
        if bounded(it):
            ss = segs_of(it, 's')
            y = yaml.EMPTY_SEQ
            for s in ss.items:
                y = yaml.append(it, y, node_of(it, s))
            it.assume(z3.Int('ns') >= 0)
        else:
            y = z3.Const('y', Y)
            it.assume(implies(Y.is_Seq(y), z3.And(Y.n(y) >= 0, Y.n(y) < 2 ** 32)))
        it.ghost['y'] = y
        o = new(it, old, vseq(tseg))
        w = z3.Int('w')
        try:
            r = call(it, f['segmentsFromYaml'], None, [new(it, y, TY), Ptr(o)])
        except ThrowX:
            r = None
        if bounded(it):
            it.oblige('accepted', r is not None and r)
            got = it.load(o)
            it.oblige('as many segments', cmp('==', size(got), size(ss)))
            for a, b in zip(got.items, ss.items):
                same_seg(it, a, b)
            return
        # refused input contains a refused segment or is no sequence
        good = z3.Bool('all_good')
        q = z3.Int('qs')
        if r is None or not it.branch(r):
            it.assume(forall(q, implies(land(q >= 0, q < Y.n(y)), lnot(refused(it, z3.Select(Y.arr(y), q)))), z3.Select(Y.arr(y), q)))
            it.oblige('a sequence of accepted segments is accepted', lnot(yaml.test(y, 'Seq')))
            return
        got = it.load(o)
        it.oblige('only a sequence is accepted', yaml.test(y, 'Seq'))
        it.oblige('as many segments', cmp('==', size(got), Y.n(y)))
        j = arb(it, 'j0', Y.n(y))
        e = child(it, y, j, True)
        it.oblige('each segment in its place', land(lnot(refused(it, e)), sterm(it, tseg, it.elem(got, j)) == sterm(it, tseg, sv_of(it, e))))

    def inv_ssfy(L):
        it = L.it
        if 'y' not in it.ghost:
            return None
        y, j, k = it.ghost['y'], z3.Int('j0'), iv(L['i'])
        ss = L['segments']
        ss = it.load(ss.lv) if isinstance(ss, Ptr) else ss
        e = child(it, y, j, True)
        return [k >= 0, k <= Y.n(y), cmp('==', size(ss), Y.n(y)), implies(land(j >= 0, j < k), land(lnot(refused(it, e)), sterm(it, tseg, it.elem(ss, j)) == sterm(it, tseg, sv_of(it, e))))]

    def same_seg(it, a, b, time=True):
        it.oblige('coefficient count and dimensions', land(cmp('==', a.f['N_'], b.f['N_']), cmp('==', a.f['D_'], b.f['D_']), cmp('==', size(a.f['polynomials_']), size(b.f['polynomials_']))))
        if time:
            it.oblige('duration', cmp('==', a.f['time_'], mul(Fraction(1, 10 ** 9), z3.ToReal(z3.Int('ns')))))
        for p, q in zip(items(a.f['polynomials_']), items(b.f['polynomials_'])):
            eq_list(it, 'coefficients', items(p.f['coefficients_']), items(q.f['coefficients_']))
            it.oblige('polynomial size', cmp('==', p.f['N_'], q.f['N_']))

    # ---- trajectories from input: the segments read are set; refused input leaves the target alone
    def ov_read(it, func, this, args, node):
        """segmentsFromYaml / segmentsFromFile"""
        src = it.val(args[0])
        it.ghost['src'] = src
        if it.ghost.get('need') and not it.branch(lnot(yaml.test(src, 'Undef'))):
            raise ThrowX('YAML::InvalidNode')
        if it.branch(z3.Bool('readable_segments')):
            if not bounded(it):
                ss = it.fresh_named(vseq(tseg), 'read')
            else:
                ss = segs_of(it, 'read')
            it.ghost['read'] = ss
            it.store(it.val(args[1]).lv, ss)
            return True
        if it.branch(z3.Bool('throws')) and it.ghost.get('maythrow'):
            raise ThrowX('YAML')
        it.store(it.val(args[1]).lv, segs_of(it, 'partial'))
        return False

    def ov_set(it, func, this, args, node):
        s = it.val(args[0])
        it.oblige('the trajectory gets at least one segment', cmp('>', size(s), 0), node)
        it.ghost['set'] = s
        it.store(this, SV(TRAJ, {'D_': z3.Int('nD'), 'N_': z3.Int('nN'), 'max_time_': z3.Real('sum'), 'segments_': s}))

    def run_tf(kind):
        def run(it):
            old = traj(it, 'o')
            tl = new(it, old)
            if kind == 'trajectoryFromYaml':
                y = z3.Const('y', Y)
                it.assume(Y.is_Map(y))
                it.ghost['need'] = True
                src = new(it, y, TY)
            else:
                src = z3.Const('name', it.S.sort(('str',)))
                src = new(it, src, ('str',))
            it.ghost['maythrow'] = True
            thrown = False
            try:
                r = call(it, f[kind], None, [src, Ptr(tl)])
            except ThrowX as e:
                thrown, r = True, False
            if kind == 'trajectoryFromYaml':
                it.oblige('missing segments are refused, not an error', lor(not thrown, land(lnot(yaml.test(segs_y(it, y), 'Undef')), lnot(z3.Bool('readable_segments')))))
                if 'src' in it.ghost:
                    it.oblige('the segments field is read', it.ghost['src'] == segs_y(it, y))
            elif 'src' in it.ghost:
                it.oblige('the named file is read', cmp('==', sterm(it, ('str',), it.ghost['src']), sterm(it, ('str',), it.load(src))))
            if 'read' in it.ghost:
                n = size(it.ghost['read'])
                it.oblige('accepted exactly when there is a segment', cmp('==', bv(r), bv(cmp('>', n, 0))))
            else:
                it.oblige('unreadable input is refused', lnot(r))
                if kind == 'trajectoryFromYaml' and 'src' not in it.ghost:
                    it.oblige('refused only if there are no segments', yaml.test(segs_y(it, y), 'Undef'))
            if it.branch(r):
                it.oblige('the segments read are set', 'set' in it.ghost and it.ghost['set'] is it.ghost.get('read'))
            else:
                it.oblige('refused input leaves the target alone', it.load(tl) is old)
        return run

    def ov_tofile(it, func, this, args, node):
        it.ghost['written'] = (it.val(args[0]), it.val(args[1]))
        return z3.Bool('written')

    def run_t2f(it):
        t = traj(it, 't')
        nm = z3.Const('name', it.S.sort(('str',)))
        r = call(it, f['trajectoryToFile'], None, [new(it, nm, ('str',)), new(it, t)])
        w = it.ghost.get('written')
        it.oblige('its segments are written to the named file', w is not None and w[1] is t.f['segments_'] and w[0].eq(nm))
        it.oblige('tells whether it worked', cmp('==', bv(r), z3.Bool('written')))

    # ---- files
    def run_ssf(it):
        ss = segs_of(it, 's')
        if not bounded(it):
            q, j = z3.Int('q1'), z3.Int('q2')
            g = it.elem(ss, q)
            p = it.elem(g.f['polynomials_'], j)
            it.assume(forall(q, implies(land(q >= 0, q < iv(ss.n)), land(cmp('==', size(g.f['polynomials_']), g.f['D_']), cmp('>', g.f['D_'], 0), cmp('>=', g.f['N_'], 0), iv(g.f['D_']) < I32, iv(g.f['N_']) < I32, cmp('>=', g.f['time_'], 0))), z3.Select(ss.arr, q)))
            pat = it.S.acc
            it.assume(z3.ForAll([q, j], implies(land(q >= 0, q < iv(ss.n), j >= 0, j < iv(g.f['polynomials_'].n)), land(cmp('==', size(p.f['coefficients_']), g.f['N_']), cmp('==', p.f['N_'], g.f['N_']))), patterns=[z3.Select(g.f['polynomials_'].arr, j)]))
        it.ghost['ss'] = ss
        nm = z3.Const('name', it.S.sort(('str',)))
        ok = z3.Bool('opens')
        it.ghost['writable'] = ok
        sl = new(it, ss, vseq(tseg))
        r = call(it, f['segmentsToFile'], None, [new(it, nm, ('str',)), sl])
        it.oblige('tells whether the file could be written', cmp('==', bv(r), ok))
        it.oblige('the segments are unchanged', it.load(sl) is ss)
        if not it.branch(r):
            return
        w = it.ghost.get('file')
        it.oblige('the named file is written', w is not None and cmp('==', sterm(it, ('str',), w[0]), nm))
        if w is None:
            return
        c = segs_y(it, w[1])
        it.oblige('as many segments', seqn(c, size(ss)))
        j = arb(it, 'j0', size(ss))
        yj, s = child(it, c, j, True), it.elem(ss, j)
        for n_, g in head_goals(it, yj, s):
            it.oblige(n_, g)
        d = arb(it, 'd0', s.f['D_'])
        it.oblige('one number per coefficient', dim_goal(it, yj, s, d))
        k = arb(it, 'c0', s.f['N_'])
        it.oblige('each coefficient in its place', coef_goal(it, yj, s, d, k))

    def J(it):
        return z3.Int('j0'), z3.Int('d0'), z3.Int('c0')

    def inv_ssf(L):
        it = L.it
        if 'ss' not in it.ghost:
            return None
        ss, (j, d, c) = it.ghost['ss'], J(it)
        out, old = L['out'], L.entry('out')
        r = []
        for (ka, ya, pa), (kb, yb, pb) in list(zip(out.fr, old.fr))[:-1]:
            r.append(ya == yb)
        top = out.fr[-1][1]
        n = lambda s: it.elem(ss, s)
        if L.level == 1:
            k = iv(L.idx)
            e, s = child(it, top, j, True), it.elem(ss, j)
            r += [k >= 0, k <= iv(ss.n), seqn(top, k)]
            inb = land(j >= 0, j < k)
            r += [implies(inb, g) for _, g in head_goals(it, e, s)]
            r += [implies(land(inb, d >= 0, d < iv(s.f['D_'])), dim_goal(it, e, s, d)),
                  implies(land(inb, d >= 0, d < iv(s.f['D_']), c >= 0, c < iv(s.f['N_'])), coef_goal(it, e, s, d, c))]
        elif L.level == 2:
            k, s = iv(L['i']), L['segment']
            s = it.load(s.lv) if isinstance(s, Ptr) else s
            e = child(it, top, d, True)
            r += [k >= 0, k <= iv(s.f['D_']), seqn(top, k), implies(land(d >= 0, d < k), seqn(e, s.f['N_'])),
                  implies(land(d >= 0, d < k, c >= 0, c < iv(s.f['N_'])), isreal(child(it, e, c, True), coef(it, s, d, c)))]
        else:
            k, v, s = iv(L['j']), L['coefficients'], L['segment']
            r += [k >= 0, k <= iv(s.f['N_']), seqn(top, k), implies(land(c >= 0, c < k), isreal(child(it, top, c, True), it.elem(v, c)))]
        return r

    def file_node(it, ss):
        c = yaml.EMPTY_SEQ
        for s in ss.items:
            c = yaml.append(it, c, node_of(it, s))
        return yaml.put(it, EMPTY_MAP, code(it, 'segments'), c)

    def complete(it, e):
        """every field is there and the sizes agree with the header"""
        N, D, t, c = (child(it, e, k) for k in KEYS)
        return N, D, t, c

    def well_formed(it, cs):
        """a complete file: every segment has its fields, with the sizes of its header (instances are assumed where the file is read)"""
        at = lambda y, i: z3.Select(Y.arr(y), i)

        def instance(q, p=None, u=None):
            g = at(cs, q)
            fld = lambda k: z3.Select(Y.val(g), code(it, k))
            c_, rng = fld('coefficients'), land(q >= 0, q < Y.n(cs))
            it.assume(implies(rng, land(Y.is_Map(g), *[z3.Select(Y.dom(g), code(it, k)) for k in KEYS])))
            it.assume(implies(rng, land(Y.is_Int(fld('N')), Y.is_Int(fld('D')), Y.is_Int(fld('time')), Y.int(fld('time')) >= 0, Y.is_Seq(c_), Y.n(c_) == Y.int(fld('D')))))
            if p is not None:
                y2, rp = at(c_, p), land(rng, p >= 0, p < Y.n(c_))
                it.assume(implies(rp, land(Y.is_Seq(y2), Y.n(y2) == Y.int(fld('N')))))
                if u is not None:
                    it.assume(implies(land(rp, u >= 0, u < Y.n(y2)), yaml.test(at(y2, u), 'Real', 'Int')))
        return instance

    def run_ssff(well):
        def run(it):
            old = segs_of(it, 'o')
            nm = z3.Const('name', it.S.sort(('str',)))
            ok = z3.Bool('opens')
            it.ghost['readable'] = ok
            if bounded(it):
                ss = segs_of(it, 's')
                it.assume(z3.Int('ns') >= 0)
                y = file_node(it, ss)
                miss = it.choose(6)
                if miss == 5:
                    y = EMPTY_MAP
                elif miss < 4 and ss.items:
                    a = yaml.sel(y, code(it, 'segments'))
                    e = yaml.put(it, yaml.sel(a, 0, True), code(it, KEYS[miss]), Y.Undef)
                    y = yaml.put(it, y, code(it, 'segments'), Y.Seq(a.arg(0), z3.Store(a.arg(1), 0, e)))
                    it.ghost['bad'] = True
            else:
                y = z3.Const('y', Y)
                it.assume(Y.is_Map(y))
                if well:
                    cs, k = z3.Const('segments', Y), code(it, 'segments')
                    y = Y.Map(z3.Store(Y.dom(y), k, True), z3.Store(Y.val(y), k, cs))
                else:
                    cs = segs_y(it, y)
                it.assume(z3.And(Y.is_Seq(cs), Y.n(cs) >= 0))
                # what a document is: numbers in range, sequences have a length
                def sane(q, *a):
                    N, D, t, c = complete(it, child(it, cs, q, True))
                    it.assume(implies(land(q >= 0, q < Y.n(cs)), land(implies(Y.is_Int(N), land(Y.int(N) >= 0, Y.int(N) < I32)), implies(Y.is_Int(D), land(Y.int(D) >= 0, Y.int(D) < I32)), implies(Y.is_Seq(c), Y.n(c) >= 0))))
                it.ghost['sane'] = sane
                sane(z3.Int('j0'))
                if well:
                    it.ghost['well'] = well_formed(it, cs)
                    j, d, k = J(it)
                    it.ghost['well'](j, d, k)
            it.ghost['y'] = y
            it.ghost['file'] = (nm, y)
            o = new(it, old, vseq(tseg))
            try:
                r = call(it, f['segmentsFromFile'], None, [new(it, nm, ('str',)), Ptr(o)])
            except ThrowX:
                it.oblige('a complete file is not an error', not (well or bounded(it)))
                return
            it.oblige('an unreadable file is refused', implies(r, ok))
            if well:
                it.oblige('a complete file is accepted', implies(ok, r))
            if bounded(it):
                it.oblige('a complete file is accepted, an incomplete one refused', cmp('==', bv(r), bv(land(ok, miss == 4 or miss < 4 and not ss.items))))
            if not it.branch(r):
                return
            got = it.load(o)
            if bounded(it):
                it.oblige('as many segments', cmp('==', size(got), size(ss)))
                for a, b in zip(got.items, ss.items):
                    same_seg(it, a, b)
                return
            cs = segs_y(it, y)
            it.oblige('as many segments', cmp('==', size(got), Y.n(cs)))
            j = arb(it, 'j0', size(got))
            R, e = it.elem(got, j), child(it, cs, j, True)
            for nm_, g in seg_goals(it, R, e):
                it.oblige(nm_, g)
        return run

    def seg_goals(it, R, e):
        N, D, t, c = complete(it, e)
        _, d, k = J(it)
        yd = child(it, c, d, True)
        inD, inN = land(d >= 0, d < iv(R.f['D_'])), land(k >= 0, k < iv(R.f['N_']))
        cf = it.elem(R.f['polynomials_'], d).f['coefficients_']
        yk = child(it, yd, k, True)
        return [('accepted input has every field', land(Y.is_Int(N), Y.is_Int(D), Y.is_Int(t), lnot(yaml.test(c, 'Undef')))),
                ('coefficient count and dimensions', land(Y.int(N) == iv(R.f['N_']), Y.int(D) == iv(R.f['D_']), cmp('==', size(R.f['polynomials_']), R.f['D_']))),
                ('duration', cmp('==', R.f['time_'], mul(Fraction(1, 10 ** 9), z3.ToReal(Y.int(t))))),
                ('sizes agree with the header: dimensions', implies(Y.is_Seq(c), Y.n(c) == Y.int(D))),
                ('sizes agree with the header: coefficients', implies(land(inD, Y.is_Seq(yd)), Y.n(yd) == Y.int(N))),
                ('polynomial sizes', implies(inD, land(cmp('==', size(cf), R.f['N_']), cmp('==', it.elem(R.f['polynomials_'], d).f['N_'], R.f['N_'])))),
                ('coefficients', implies(land(inD, inN), land(yaml.test(yk, 'Real', 'Int'), cmp('==', it.elem(cf, k), num(yk)))))]

    def inv_ssff(L):
        it = L.it
        if 'y' not in it.ghost:
            return None
        y, (j, d, k) = it.ghost['y'], J(it)
        cs = segs_y(it, y)
        if L.phase == 'assume':
            ix = it.ghost.setdefault('ix', {})
            ix[L.level] = iv(L.idx)
            for facts in ('sane', 'well'):
                if facts in it.ghost:
                    it.ghost[facts](*[ix[x] for x in range(1, L.level + 1)])
        if L.level == 1:
            i, out = iv(L['i']), L['segments']
            out = it.load(out.lv) if isinstance(out, Ptr) else out
            R, e = it.elem(out, j), child(it, cs, j, True)
            return [i >= 0, i <= Y.n(cs), cmp('==', size(out), i)] + [implies(land(j >= 0, j < i), g) for _, g in seg_goals(it, R, e)]
        e = child(it, cs, iv(L['i']), True)
        N, D, t, c = complete(it, e)
        s = L['segment']
        if L.level == 2:
            i = iv(L['j'])
            cf = it.elem(s.f['polynomials_'], d).f['coefficients_']
            yd = child(it, c, d, True)
            yk = child(it, yd, k, True)
            inb = land(d >= 0, d < i)
            return [i >= 0, i <= iv(s.f['D_']), cmp('==', size(s.f['polynomials_']), s.f['D_']),
                    implies(land(d >= 0, d < iv(s.f['D_'])), land(cmp('==', size(cf), s.f['N_']), cmp('==', it.elem(s.f['polynomials_'], d).f['N_'], s.f['N_']))),
                    implies(land(inb, Y.is_Seq(yd)), Y.n(yd) == Y.int(N)),
                    implies(land(inb, k >= 0, k < iv(s.f['N_'])), land(yaml.test(yk, 'Real', 'Int'), cmp('==', it.elem(cf, k), num(yk))))]
        i, v = iv(L['k']), L['coeffs']
        yk = child(it, child(it, c, iv(L['j']), True), k, True)
        return [i >= 0, i <= iv(L['N']), cmp('==', size(v), L['N']), implies(land(k >= 0, k < i), land(yaml.test(yk, 'Real', 'Int'), cmp('==', it.elem(v, k), num(yk))))]

    O = lambda **kw: {NS + k: v for k, v in kw.items()}
    T = []

    def task(nm, run, fn, inv=None, ov=None, bound='up to 2 segments, 2 dimensions, 3 coefficients', bnd=True, **kw):
        T.append(Task(nm, run, funcs=[NS + fn], invariants={fn: [('', inv)]} if inv else {}, overrides=ov or {}, bounded=[(bound, run)] if bnd else [], budget=kw.pop('budget', 60), **kw))
    task('coefficientsToYaml', run_c2y, 'coefficientsToYaml', inv_c2y)
    task('coefficientsFromYaml: any node', run_cfy, 'coefficientsFromYaml', inv_cfy)
    task('coefficientsFromYaml: numbers', lambda it: run_cfy(it, True), 'coefficientsFromYaml', inv_cfy, bnd=False)
    task('segmentToYaml', run_s2y, 'segmentToYaml', inv_s2y, O(coefficientsToYaml=ov_c2y))
    task('segmentFromYaml', run_sfy, 'segmentFromYaml', inv_sfy, O(coefficientsFromYaml=ov_cfy))
    task('segmentsToYaml', run_ss2y, 'segmentsToYaml', inv_ss2y, O(segmentToYaml=ov_s2y))
    task('segmentsFromYaml', run_ssfy, 'segmentsFromYaml', inv_ssfy, O(segmentFromYaml=ov_sfy))
    task('trajectoryToYaml', run_t2y, 'trajectoryToYaml', None, O(segmentsToYaml=ov_ss2y))
    task('trajectoryFromYaml', run_tf('trajectoryFromYaml'), 'trajectoryFromYaml', None, {NS + 'segmentsFromYaml': ov_read, TRAJ + '::setSegments': ov_set})
    task('trajectoryFromFile', run_tf('trajectoryFromFile'), 'trajectoryFromFile', None, {NS + 'segmentsFromFile': ov_read, TRAJ + '::setSegments': ov_set})
    task('trajectoryToFile', run_t2f, 'trajectoryToFile', None, O(segmentsToFile=ov_tofile))
    task('segmentsToFile', run_ssf, 'segmentsToFile', inv_ssf)
    task('segmentsFromFile: any file', run_ssff(False), 'segmentsFromFile', inv_ssff)
    task('segmentsFromFile: complete file', run_ssff(True), 'segmentsFromFile', inv_ssff, bnd=False)
    return T
