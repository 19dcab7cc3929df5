"""C30: Timing statistics equal the statistics of the recorded samples.

Contracts (any history h(0..n-1) of samples, window size N as instantiated; S(i) = h(0)+..+h(i-1); k an arbitrary slot, j an arbitrary sample):
  invariant of Accumulator   n samples counted; sum = S(n); window sum = S(n) - S(max(0, n-N)); slot k < min(n,N) holds the newest sample whose
                             number is congruent to k; min and max bound every h(j) and, for n > 0, are samples
  Accumulator()              the invariant for n = 0
  Add(x)                     the invariant for n + 1 with h(n) = x
  Sum, TotalSamples, Min, Max, Mean, RollingMean, LazyVariance    the statistics of the whole history and of the window
  Timing::GetHandle          the handle of a known tag, nothing changed; else the number of records so far, one empty record more, only that tag added
                             (so tags keep having distinct handles of existing records)
  Timing::GetTag, queries    the tag with that handle; the statistic of the record of the handle / of the tag
  Timing::Reset              afterwards no tag is known
  Timer                      constructed running unless told otherwise; Start starts; Stop and the destructor of a running timer record exactly one sample,
                             the time since the start, in the record of its handle only; of one that is not running, none
"""
import re
from ..spec import *
TUS = ['timing']
NATIVE = {'src': 'c30.cpp', 'with': ['$MAV/src/timing.cpp'], 'n': 1500}
ASSUMPTIONS = ['samples are smaller in size than the largest double; counters do not overflow (fewer than 2^31 samples)', 'the clock only returns time points', 'handles given to the queries are handles of existing records']
TG = NS + 'timing::'
TIMER, TIMING, REC = TG + 'Timer', TG + 'Timing', TG + 'TimerMapValue'
STR = ('str',)


def tasks(db, tier):
    ACC = next(q for q in db.classes if q.startswith(TG + 'Accumulator<'))
    ft = next(f[1]['qualType'] for f in db.classes[REC].fields)
    q = next((q for q in db.classes if q.startswith(TG + 'Accumulator<') and q.endswith(ft.split('::')[-1].replace(' ', '')) or q.replace(' ', '').endswith(ft.split('::')[-1].replace(' ', ''))), None)
    ACC = q or ACC
    N = int(re.findall(r'(\d+)>$', ACC)[0])
    tacc, trec = cls(ACC), cls(REC)
    h, S = uf('h', 'i', 'r'), uf('S', 'i', 'r')

    def pref(it, *at):
        it.assume(S(0) == 0)
        for i in at:
            it.assume(S(iv(i) + 1) == S(iv(i)) + h(iv(i)))

    def slot(n, k):
        """number of the newest sample in slot k"""
        return n - 1 - ((n - 1 - k) % N)

    def state(it, n):
        """an accumulator after the history h(0..n-1)"""
        f = {'window_samples_': n, 'total_samples_': n, 'window_sum_': z3.Real('window_sum'), 'sum_': z3.Real('sum'), 'min_': z3.Real('min'), 'max_': z3.Real('max'),
             'samples_': Seq(REAL, 'array', None, N, z3.Array('samples', z3.IntSort(), z3.RealSort()))}
        return SV(ACC, f)

    def inv(it, o, n, k, j, lo='wmin', hi='wmax', D=None):
        """the class invariant, for an arbitrary slot and sample; lo, hi: the samples that are the extremes"""
        D = D or DBL_MAX
        past = ite(n > N, n - N, 0)
        return [('samples counted', cmp('==', o.f['total_samples_'], n)), ('the window counts every sample', cmp('==', o.f['window_samples_'], n)),
                ('the sum of all samples', cmp('==', o.f['sum_'], S(n))), ('the sum of the window', cmp('==', o.f['window_sum_'], S(n) - S(iv(past)))),
                ('a slot holds its newest sample', implies(land(k >= 0, k < N, k < n), cmp('==', it.elem(o.f['samples_'], k), h(slot(n, k))))),
                ('no sample is below the minimum', implies(land(j >= 0, j < n), cmp('<=', o.f['min_'], h(j)))), ('no sample is above the maximum', implies(land(j >= 0, j < n), cmp('>=', o.f['max_'], h(j)))),
                ('before the first sample the minimum is above all', implies(cmp('==', n, 0), cmp('==', o.f['min_'], D))), ('before the first sample the maximum is below all', implies(cmp('==', n, 0), cmp('==', o.f['max_'], neg_(D))))]

    neg_ = lambda x: sub(0, x)

    def given(it, o, n, ks, j):
        pref(it, n - 1, n)
        for k in ks:
            for _, g in inv(it, o, n, k, j):
                it.assume(g)
        w, x = z3.Ints('wmin wmax')
        it.assume(z3.Implies(n > 0, z3.And(w >= 0, w < n, rv(o.f['min_']) == h(w), x >= 0, x < n, rv(o.f['max_']) == h(x))))

    f = {x: find(db, ACC + '::' + x) for x in ('Add', 'TotalSamples', 'Sum', 'Mean', 'RollingMean', 'Max', 'Min', 'LazyVariance')}
    n, k, j = z3.Ints('n k0 j0')
    dbl = lambda it: it.assume(DBL_MAX > 1)

    def t_new(it):
        dbl(it)
        o = it.construct(ACC, [], None)
        pref(it)
        o2 = SV(ACC, dict(o.f, samples_=Seq(REAL, 'array', None, N, z3.Array('samples', z3.IntSort(), z3.RealSort()))))
        for w, g in inv(it, o2, z3.IntVal(0), k, j):
            it.oblige(w, g)

    def t_add(it):
        dbl(it)
        it.assume(z3.And(n >= 0, n < 2 ** 31 - 1))
        x = z3.Real('x')
        o = state(it, n)
        given(it, o, n, [k, n % N], j)
        it.assume(z3.And(h(n) == x, x < DBL_MAX, x > -DBL_MAX))
        pref(it, n, n - N)
        ol = new(it, o)
        call(it, f['Add'], ol, [x])
        p = it.load(ol)
        for w, g in inv(it, p, n + 1, k, j):
            it.oblige(w, g)
        for nm, fl, ww in (('minimum', 'min_', 'wmin'), ('maximum', 'max_', 'wmax')):
            it.oblige('the %s is a sample' % nm, lor(cmp('==', p.f[fl], h(n)), land(n > 0, cmp('==', p.f[fl], h(z3.Int(ww))))))

    def t_stats(it):
        dbl(it)
        it.assume(z3.And(n >= 1, n < 2 ** 31 - 1))
        o = state(it, n)
        given(it, o, n, [k], j)
        ol = new(it, o)
        w = z3.If(n > N, z3.IntVal(N), n)
        past = n - w
        get = lambda x: call(it, f[x], ol, [])
        it.oblige('the number of samples', cmp('==', get('TotalSamples'), n))
        it.oblige('the total', cmp('==', get('Sum'), S(n)))
        m = get('Mean')
        it.oblige('the mean of all samples', cmp('==', mul(m, z3.ToReal(n)), S(n)))
        r = get('RollingMean')
        it.oblige('the mean of the window', cmp('==', mul(r, z3.ToReal(w)), S(n) - S(past)))
        lo, hi = get('Min'), get('Max')
        it.oblige('nothing is smaller than the minimum', implies(land(j >= 0, j < n), cmp('<=', lo, h(j))))
        it.oblige('nothing is larger than the maximum', implies(land(j >= 0, j < n), cmp('>=', hi, h(j))))
        it.oblige('the minimum is a sample', cmp('==', lo, h(z3.Int('wmin'))))
        it.oblige('the maximum is a sample', cmp('==', hi, h(z3.Int('wmax'))))
        it.oblige('nothing changes', it.load(ol) is o)

    Vv = uf('V', 'i', 'r')        # squared deviations of the first slots

    def dev(it, i):
        G = it.ghost
        d = h(slot(n, i)) - G['mean']
        return d * d

    def t_var(it):
        dbl(it)
        it.assume(z3.And(n >= 0, n < 2 ** 31 - 1))
        o = state(it, n)
        given(it, o, n, [k], j)
        i_ = z3.Int('ks')
        it.assume(z3.ForAll([i_], z3.Implies(z3.And(i_ >= 0, i_ < N, i_ < n), bv(cmp('==', it.elem(o.f['samples_'], i_), h(slot(n, i_)))))))
        ol = new(it, o)
        w = z3.If(n > N, z3.IntVal(N), n)
        mean = z3.Real('mean')
        it.assume(z3.Implies(n > 0, mean * z3.ToReal(w) == S(n) - S(n - w)))
        it.ghost.update(mean=mean, n=n, w=w)
        it.assume(Vv(0) == 0)
        r = call(it, f['LazyVariance'], ol, [])
        if it.branch(cmp('==', n, 0)):
            it.oblige('no samples, no variance', cmp('==', r, 0))
        else:
            it.oblige('the variance of the window', cmp('==', mul(r, z3.ToReal(w)), Vv(w)))

    def inv_var(L):
        it, G = L.it, L.it.ghost
        if 'mean' not in G:
            return None
        i = iv(L.idx)
        for x in (z3.simplify(i - 1), i):
            it.assume(implies(land(x >= 0, x < G['w']), Vv(x + 1) == Vv(x) + dev(it, x)))
        v = L.real('var')
        out = [i >= 0, i <= G['w'], cmp('==', v, Vv(i))]
        return out

    def mean_contract(it, func, this, args, node):
        if 'mean' not in it.ghost:
            return NotImplemented
        it.oblige('the mean is asked of samples', n > 0, node)
        return it.ghost['mean']

    # ---- registry
    add_uf = lambda it: z3.Function('with_sample', it.S.sort(tacc), z3.RealSort(), it.S.sort(tacc))

    def registry(it, tags=()):
        reg = SV(TIMING, {'timers_': it.fresh_named(vseq(trec), 'timers'), 'tag_map_': it.fresh_named(('map', STR, ('int', False, 64)), 'tags'), 'max_tag_length_': z3.Int('max_tag_length')})
        it.assume(z3.Int('max_tag_length') >= 0)
        lv = new(it, reg)
        it.ghost['registry'] = lv
        m = reg.f['tag_map_']
        for t in tags:      # representation invariant, for these tags
            v = known(it, m, t)
            it.assume(implies(v[0], land(v[1] >= 0, v[1] < iv(reg.f['timers_'].n))))
            for u in tags:
                x = known(it, m, u)
                it.assume(implies(land(v[0], x[0], t != u), v[1] != x[1]))
        return lv, reg

    def known(it, m, t):
        m = it.symmap(m)
        return z3.Select(m.dom, t), z3.Select(m.val, t)

    def ov_instance(it, func, this, args, node):
        return it.ghost['registry']

    def ov_add(it, func, this, args, node):
        o = it.load(this)
        it.store(this, sval(it, tacc, add_uf(it)(sterm(it, tacc, o), rv(it.val(args[0])))))

    def size_of(it, reg):
        return reg.f['timers_'].n

    def same_records(it, got, was, but=None, upto=None):
        """records other than `but` are the same"""
        i = z3.Int('r0')
        a, b = it.elem(got.f['timers_'], i), it.elem(was.f['timers_'], i)
        c = land(i >= 0, i < iv(upto if upto is not None else was.f['timers_'].n))
        if but is not None:
            c = land(c, i != iv(but))
        return implies(c, sterm(it, trec, a) == sterm(it, trec, b))

    def same_map(it, got, was):
        a, b = it.symmap(got.f['tag_map_']), it.symmap(was.f['tag_map_'])
        t = z3.Int('t0')
        return land(z3.Select(a.dom, t) == z3.Select(b.dom, t), implies(z3.Select(b.dom, t), z3.Select(a.val, t) == z3.Select(b.val, t)))

    def t_handle(it):
        t, u, v = z3.Ints('tag other t0')
        lv, reg = registry(it, (t, u, v))
        it.assume(it.fresh(('int', False, 64), 'len') >= 0)
        H = call(it, find(db, TIMING + '::GetHandle'), None, [new(it, t, STR)])
        g = it.load(lv)
        old, n0 = known(it, reg.f['tag_map_'], t), size_of(it, reg)
        if it.branch(old[0]):
            it.oblige('a known tag keeps its handle', cmp('==', H, old[1]))
            it.oblige('nothing is recorded or forgotten', land(cmp('==', size_of(it, g), n0), same_records(it, g, reg), same_map(it, g, reg)))
            return
        it.oblige('a new tag gets a record of its own', cmp('==', H, n0))
        it.oblige('one record more', cmp('==', size_of(it, g), add(n0, 1)))
        it.oblige('the other records are unchanged', same_records(it, g, reg))
        e = it.elem(g.f['timers_'], n0).f['acc_']
        fresh = it.construct(ACC, [], None)
        for x in ('window_samples_', 'total_samples_', 'window_sum_', 'sum_', 'min_', 'max_'):
            it.oblige('the new record is empty', cmp('==', e.f[x], fresh.f[x]))
        nt, nu, ou = known(it, g.f['tag_map_'], t), known(it, g.f['tag_map_'], u), known(it, reg.f['tag_map_'], u)
        it.oblige('the tag is known afterwards', land(nt[0], cmp('==', nt[1], H)))
        it.oblige('other tags are unchanged', implies(u != t, land(nu[0] == ou[0], implies(ou[0], nu[1] == ou[1]))))
        it.oblige('handles are distinct and belong to existing records', land(nt[1] < iv(size_of(it, g)), implies(land(nu[0], u != t), land(nu[1] != nt[1], nu[1] < iv(size_of(it, g))))))

    def t_tag(it):
        lv, reg = registry(it)
        H = z3.Int('handle')
        it.assume(H >= 0)
        K, I, cnt = it.map_enum(reg.f['tag_map_'])
        it.ghost['H'] = H
        g = call(it, find(db, TIMING + '::GetTag'), None, [H])
        m = reg.f['tag_map_']
        t = sterm(it, STR, g)
        x = z3.Int('other')
        v, w = known(it, m, t), known(it, m, x)
        it.oblige('the tag with that handle', lor(land(v[0], v[1] == H), land(t == sterm(it, STR, ''), implies(w[0], w[1] != H))))
        it.oblige('the registry is unchanged', it.load(lv) is reg)

    def inv_tag(L):
        it, G = L.it, L.it.ghost
        if 'H' not in G:
            return None
        m = it.load(G['registry']).f['tag_map_']
        K, I, cnt = it.map_enum(m)
        i, x = iv(L.idx), z3.Int('other')
        w = known(it, m, x)
        return [i >= 0, i <= iv(cnt), implies(land(w[0], I(x) < i), w[1] != G['H'])]

    STAT = {'GetTotalSeconds': 'Sum', 'GetMeanSeconds': 'Mean', 'GetNumSamples': 'TotalSamples', 'GetVarianceSeconds': 'LazyVariance', 'GetMinSeconds': 'Min', 'GetMaxSeconds': 'Max', 'GetHz': 'RollingMean'}

    def stat(it, x):
        return z3.Function('statistic ' + x, it.S.sort(tacc), z3.IntSort() if x == 'TotalSamples' else z3.RealSort())

    def ov_stat(x):
        def ov(it, func, this, args, node):
            r = stat(it, x)(sterm(it, tacc, it.load(this)))
            if x == 'TotalSamples':
                it.assume(z3.And(r >= 0, r < 2 ** 31))
            if x == 'RollingMean':
                it.assume(r != 0)        # the rate of a record without samples is not claimed
            return r
        return ov

    stats_ov = {ACC + '::' + x: ov_stat(x) for x in STAT.values()}

    def t_query(it):
        t = z3.Int('tag')
        lv, reg = registry(it, (t,))
        old = known(it, reg.f['tag_map_'], t)
        for q, x in STAT.items():
            want = lambda o: rdiv(1, stat(it, x)(sterm(it, tacc, o))) if q == 'GetHz' else stat(it, x)(sterm(it, tacc, o))
            H = z3.Int('handle')
            it.assume(z3.And(H >= 0, H < iv(reg.f['timers_'].n), H < 2 ** 63))
            by_h, by_t = find(db, TIMING + '::' + q, 'size_t'), find(db, TIMING + '::' + q, 'string')
            it.oblige('%s of a handle: that of its record' % q, cmp('==', call(it, by_h, None, [H]), want(it.elem(reg.f['timers_'], H).f['acc_'])))
            it.oblige('nothing changes', it.load(lv) is reg)
            it.assume(old[0])
            ov = it.e.overrides.pop(by_t.qname, None)
            g = it.val(it.enter(by_t, None, [new(it, t, STR)], None))
            it.oblige('%s of a tag: that of its record' % q, cmp('==', g, want(it.elem(reg.f['timers_'], old[1]).f['acc_'])))

    def ov_handle(it, func, this, args, node):
        reg = it.load(it.ghost['registry'])
        k_ = known(it, reg.f['tag_map_'], sterm(it, STR, it.val(args[0])))
        if it.branch(k_[0]):
            return k_[1]
        raise Unsupported('a tag not known before')

    def t_reset(it):
        lv, reg = registry(it)
        call(it, find(db, TIMING + '::Reset'), None, [])
        t = z3.Int('tag')
        it.oblige('no tag is known', lnot(known(it, it.load(lv).f['tag_map_'], t)[0]))

    # ---- timers
    def timer(it, running=None):
        H = z3.Int('handle')
        it.assume(z3.And(H >= 0, H < 2 ** 63))
        return SV(TIMER, {'time_': Opaque('time', z3.Real('started')), 'timing_': z3.Bool('running') if running is None else running, 'handle_': H}), H

    def recorded(it, lv, reg, H, times, since):
        """exactly the given number of samples was recorded, in that record"""
        g = it.load(lv)
        it.oblige('no record appears or vanishes', cmp('==', size_of(it, g), size_of(it, reg)))
        it.oblige('other records are unchanged', same_records(it, g, reg, but=H))
        it.oblige('the tags are unchanged', same_map(it, g, reg))
        a, b = sterm(it, tacc, it.elem(g.f['timers_'], H).f['acc_']), sterm(it, tacc, it.elem(reg.f['timers_'], H).f['acc_'])
        if times:
            now = it.ghost.get('nows', [])
            it.oblige('exactly one sample: a time of the clock minus the start', lor(*[a == add_uf(it)(b, rv(sub(x, since))) for x in now]))
        else:
            it.oblige('no sample', a == b)

    def clock(it, n_, t, argn):
        return NotImplemented

    def t_stop(which):
        def run(it):
            lv, reg = registry(it)
            o, H = timer(it)
            it.assume(H < iv(reg.f['timers_'].n))
            ol = new(it, o)
            call(it, find(db, TIMER + '::' + which), ol, [])
            if it.branch(o.f['timing_']):
                recorded(it, lv, reg, H, 1, z3.Real('started'))
            else:
                recorded(it, lv, reg, H, 0, None)
            if which == 'Stop':
                it.oblige('not running afterwards', lnot(it.load(ol).f['timing_']))
                it.oblige('the handle is kept', cmp('==', it.load(ol).f['handle_'], H))
        return run

    def t_start(it):
        lv, reg = registry(it)
        o, H = timer(it)
        ol = new(it, o)
        call(it, find(db, TIMER + '::Start'), ol, [])
        p = it.load(ol)
        it.oblige('running', p.f['timing_'])
        it.oblige('the handle is kept', cmp('==', p.f['handle_'], H))
        it.oblige('started now', lor(*[cmp('==', p.f['time_'].data, x) for x in it.ghost.get('nows', [])]))
        it.oblige('nothing is recorded', it.load(lv) is reg)
        it.oblige('a timer tells whether it runs', cmp('==', bv(call(it, find(db, TIMER + '::IsTiming'), new(it, o), [])), o.f['timing_']))

    def t_ctor(by_tag):
        def run(it):
            t = z3.Int('tag')
            lv, reg = registry(it, (t,))
            H, stopped = z3.Int('handle'), z3.Bool('stopped')
            it.assume(z3.And(H >= 0, H < 2 ** 63))
            if by_tag:
                it.assume(known(it, reg.f['tag_map_'], t)[0])
                H = known(it, reg.f['tag_map_'], t)[1]
            fs = [m for m in db.classes[TIMER].methods['Timer'] if m.body is not None and ('string' in m.params[0]['type']['qualType']) == by_tag]
            o = it.construct(TIMER, [new(it, t, STR) if by_tag else z3.Int('handle'), stopped], None, f=fs[0])
            it.oblige('the handle asked for', cmp('==', o.f['handle_'], H))
            it.oblige('running unless told otherwise', cmp('==', bv(o.f['timing_']), lnot(stopped)))
            if it.branch(bv(o.f['timing_'])):
                it.oblige('started now', lor(*[cmp('==', o.f['time_'].data, x) for x in it.ghost.get('nows', [])]))
            it.oblige('nothing is recorded', it.load(lv) is reg)
        return run

    reg_ov = {TIMING + '::Instance': ov_instance, ACC + '::Add': ov_add}
    tov = dict(reg_ov, **{TIMING + '::GetHandle': ov_handle})
    return [
        Task('a new accumulator', t_new, [ACC + '::Accumulator'], exact=True),
        Task('Accumulator::Add', t_add, [ACC + '::Add'], exact=True),
        Task('statistics', t_stats, [ACC + '::' + x for x in STAT.values() if x != 'LazyVariance'], exact=True),
        Task('LazyVariance', t_var, [ACC + '::LazyVariance'], overrides={ACC + '::RollingMean': mean_contract}, invariants={'LazyVariance': [('slots so far', inv_var)]}),
        Task('Timing::GetHandle', t_handle, [TIMING + '::GetHandle'], overrides=reg_ov, exact=True),
        Task('Timing::GetTag', t_tag, [TIMING + '::GetTag'], overrides=reg_ov, invariants={'GetTag': [('not found yet', inv_tag)]}),
        Task('queries', t_query, [TIMING + '::' + x for x in STAT], overrides=dict(tov, **stats_ov), exact=True),
        Task('Timing::Reset', t_reset, [TIMING + '::Reset'], overrides=reg_ov, exact=True),
        Task('Timer::Stop', t_stop('Stop'), [TIMER + '::Stop', TIMING + '::AddTime'], overrides=tov, exact=True),
        Task('Timer::~Timer', t_stop('~Timer'), [TIMER + '::~Timer'], overrides=tov, exact=True),
        Task('Timer::Start', t_start, [TIMER + '::Start', TIMER + '::IsTiming'], overrides=tov, exact=True),
        Task('Timer (handle)', t_ctor(False), [TIMER + '::Timer'], overrides=tov, exact=True),
        Task('Timer (tag)', t_ctor(True), [TIMER + '::Timer'], overrides=tov, exact=True),
    ]
