"""C21: Pending waypoint requests are combined in the documented way.

Contracts (any lists of any length):
  setWaypoints         the pending set list is exactly the given list, in order; nothing is pending to be appended or modified; a plan is asked for
  appendWaypoint       the given waypoint is added at the end of the pending ones; a plan is asked for
  modifyWaypoint       the pending position of that name is the given one, every other pending position is kept in place; names stay unique;
                       a plan is asked for when requested
  modifyWaypoints      the requests of the list, in order, then a plan is asked for
  filterPassedWaypoints, updateDynamicWaypointsPosition, resetWaypointThroughDeque   drop those timed before the last evaluation (the rest in order);
                       reset each to its current position; reset those with that name (none for the empty name), leave the others
  generateWaypointsForTheNextTrajectory   the set list or, if empty, the current waypoints filtered and reset, then the appended ones, each with a pending
                       modification of its name applied; afterwards nothing is pending and no plan is asked for
"""
from .dynlib import *
TUS = DYN_TUS
NATIVE = dict(NAT, src='c21.cpp', n=6000)
ASSUMPTIONS = ['copies of waypoints are equal to the original (C19)', 'resetting a waypoint keeps its name (C19)', 'pending modifications have distinct names (established by setWaypoints, kept by modifyWaypoint: proved here)']
NP = 'dynamic_traj_generator::'


def tasks(db, tier):
    Dn = lambda x: DT + '::' + x
    f = {x: find(db, Dn(x)) for x in ('setWaypoints', 'appendWaypoint', 'modifyWaypoint', 'modifyWaypoints', 'filterPassedWaypoints', 'generateWaypointsForTheNextTrajectory')}
    f_reset = find(db, DW + '::resetWaypoint')
    TD, TV, TM = ('seq', TW, 'deque'), ('seq', TW, 'vector'), ('seq', MOD, 'vector')

    def W(it):
        return it.S.sort(TW)

    def RW(it, w, p):
        """a waypoint reset to a position"""
        p = [it.elem(p, i) for i in range(3)]
        if bounded(it):
            sl = new(it, w)
            ov = {k: it.e.overrides.pop(k) for k in (DW + '::resetWaypoint',) if k in it.e.overrides}
            it.enter(f_reset, sl, [new(it, vec(p), V3)], None)
            it.e.overrides.update(ov)
            return it.load(sl)
        g = z3.Function('reset_to', W(it), *[z3.RealSort()] * 3, W(it))
        r = sval(it, TW, g(sterm(it, TW, w), *[rv(x) for x in p]))
        it.assume(cmp('==', r.f['name_'], w.f['name_']))
        return r

    def RC(it, w):
        """a waypoint reset to its current position"""
        if bounded(it):
            return RW(it, w, w.f['current_position_'])
        r = sval(it, TW, z3.Function('reset_here', W(it), W(it))(sterm(it, TW, w)))
        it.assume(cmp('==', r.f['name_'], w.f['name_']))
        return r

    def ov_reset(it, func, this, args, node):
        if bounded(it):
            return NotImplemented
        it.store(this, RW(it, it.load(this), it.val(args[0])))

    def ov_here(it, func, this, args, node):
        if bounded(it):
            return NotImplemented
        it.store(this, RC(it, it.load(this)))
    resets = {DW + '::resetWaypoint': ov_reset, DW + '::resetWaypointWithCurrentPosition': ov_here}

    # ------------------------------------------------ requests
    def run_set(it):
        o = dyn(it, lists=('waypoints_to_be_set_', 'waypoints_to_be_added_', 'waypoints_to_be_modified_'), hi=1)
        given = waypoints(it, 'given', 'vector')
        ol, gl = new(it, o), new(it, given, TV)
        it.ghost.update(given=given, ol=ol)
        it.ghost['o'] = o
        call(it, f['setWaypoints'], ol, [gl])
        g, o = it.load(ol), it.ghost['o']
        same(it, 'the pending set is the given list', g.f['waypoints_to_be_set_'], given)
        for n in ('waypoints_to_be_added_', 'waypoints_to_be_modified_'):
            it.oblige('earlier requests are discarded', cmp('==', size(g.f[n]), 0))
        it.oblige('a plan is asked for', bv(g.f['generate_new_traj_']))
        keep(it, g, o, ('waypoints_to_be_set_', 'waypoints_to_be_added_', 'waypoints_to_be_modified_', 'generate_new_traj_'))
        it.oblige('the given list is not changed', it.load(gl) is given)
        unlocked(it)

    def inv_set(L):
        it, G = L.it, L.it.ghost
        if 'given' not in G or bounded(it):
            return None
        j, i = z3.Int('j0'), iv(L.idx)
        s = it.load(G['ol']).f['waypoints_to_be_set_']
        return [i >= 0, i <= iv(size(G['given'])), cmp('==', size(s), i), implies(land(j >= 0, j < i), eqt(it, it.elem(s, j), it.elem(G['given'], j)))]

    def run_app(it):
        o = dyn(it, lists=('waypoints_to_be_added_',))
        w = it.fresh_named(TW, 'w')
        ol = new(it, o)
        it.ghost.update(o=o, ol=ol)
        call(it, f['appendWaypoint'], ol, [new(it, w)])
        g, o = it.load(ol), it.ghost['o']
        a, b = o.f['waypoints_to_be_added_'], g.f['waypoints_to_be_added_']
        it.oblige('one more is pending', cmp('==', size(b), add(size(a), 1)))
        it.oblige('the given one is last', eqt(it, it.elem(b, size(a)), w))
        if not bounded(it) or size(a):
            j = arb(it, 'j0', size(a)) if not bounded(it) else it.choose(size(a))
            it.oblige('the earlier ones are kept in order', eqt(it, it.elem(b, j), it.elem(a, j)))
        it.oblige('a plan is asked for', bv(g.f['generate_new_traj_']))
        keep(it, g, o, ('waypoints_to_be_added_', 'generate_new_traj_'))
        unlocked(it)

    def at(it):
        return z3.Function('place', z3.IntSort(), z3.IntSort())

    def unique(it, ms, idxs):
        """pending names are distinct: instances of place(name at i) = i"""
        for i in idxs:
            it.assume(implies(land(cmp('>=', i, 0), cmp('<', i, size(ms))), at(it)(it.elem(ms, i).f['first']) == iv(i)))

    def distinct(it, ms):
        for i in range(size(ms)):
            for j in range(i):
                it.assume(cmp('!=', ms.items[i].f['first'], ms.items[j].f['first']))

    def run_modify(it):
        o = dyn(it, lists=('waypoints_to_be_modified_',))
        ms = o.f['waypoints_to_be_modified_']
        nm, p, gen = it.fresh_named(STR, 'name'), vec(reals('p', 3)), z3.Bool('replan')
        if bounded(it):
            distinct(it, ms)
        ol = new(it, o)
        it.ghost.update(ms=ms, nm=nm, o=o, ol=ol)
        call(it, f['modifyWaypoint'], ol, [new(it, nm, STR), new(it, p, V3), gen])
        g, o, ms = it.load(ol), it.ghost['o'], it.ghost['ms']
        r = g.f['waypoints_to_be_modified_']
        hit = lambda j: cmp('==', it.elem(ms, j).f['first'], nm)
        newp = lambda e: land(cmp('==', e.f['first'], nm), *[cmp('==', it.elem(e.f['second'], i), p.d[i]) for i in range(3)])
        if bounded(it):
            k = [j for j in range(size(ms)) if it.branch(hit(j))]
            it.oblige('one entry per name', cmp('==', size(r), size(ms) + (0 if k else 1)))
            for j in range(min(size(r), size(ms) + 1)):
                if (k and j == k[0]) or (not k and j == size(ms)):
                    it.oblige('the latest position is pending', newp(it.elem(r, j)))
                elif j < size(ms):
                    same(it, 'other names keep theirs', it.elem(r, j), it.elem(ms, j))
        else:
            n, m = iv(size(ms)), iv(size(r))
            j = z3.Int('j0')
            # the list grew iff the name was not pending; every entry is an old one or the new one, old ones in place
            q = z3.Int('m0')
            unique(it, ms, [j, q])
            it.oblige('at most one entry more', lor(m == n, m == n + 1))
            it.oblige('a known name adds no entry', implies(land(q >= 0, q < n, hit(q)), m == n))
            it.oblige('an unknown name adds its entry at the end', implies(m == n + 1, newp(it.elem(r, n))))
            it.oblige('the latest position is pending for a known name', implies(land(j >= 0, j < n, hit(j)), newp(it.elem(r, j))))
            it.oblige('other names keep theirs', implies(land(j >= 0, j < n, lnot(hit(j))), eqt(it, it.elem(r, j), it.elem(ms, j))))
            it.oblige('an unchanged count means the name was known', implies(m == n, exists(it, n, hit)))
        it.oblige('a plan is asked for when requested', cmp('==', bv(g.f['generate_new_traj_']), bv(lor(o.f['generate_new_traj_'], gen))))
        keep(it, g, o, ('waypoints_to_be_modified_', 'generate_new_traj_'))
        unlocked(it)

    def inv_find(L):
        it, G = L.it, L.it.ghost
        if 'ms' not in G or bounded(it):
            return None
        i, n = iv(L.idx), iv(size(G['ms']))
        hit = lambda x: cmp('==', it.elem(G['ms'], x).f['first'], G['nm'])
        unique(it, G['ms'], [i])
        out = [i >= 0, i <= n]
        q = [z3.Int('j0'), z3.Int('m0')]
        for x in q:
            out.append(implies(land(x >= 0, x < i), lnot(hit(x))))
        return out

    def run_mods(it):
        o = dyn(it, lists=('waypoints_to_be_modified_',), hi=0 if bounded(it) else 2)
        given = seq_of(it, MOD, 'given', hi=2)
        ol, gl = new(it, o), new(it, given, TM)
        it.ghost.update(given=given, ol=ol, o=o, n=0)
        if not bounded(it):
            it.assume(FOLD(it)(z3.IntVal(0)) == sterm(it, TM, o.f['waypoints_to_be_modified_']))
        call(it, f['modifyWaypoints'], ol, [gl])
        g, o = it.load(ol), it.ghost['o']
        if bounded(it):
            # the last position given for a name is the pending one
            r = g.f['waypoints_to_be_modified_']
            for k in range(size(given)):
                later = lor(*[cmp('==', given.items[q].f['first'], given.items[k].f['first']) for q in range(k + 1, size(given))])
                hits = [land(cmp('==', e.f['first'], given.items[k].f['first']), *[cmp('==', it.elem(e.f['second'], i), it.elem(given.items[k].f['second'], i)) for i in range(3)]) for e in r.items]
                it.oblige('the last request for a name is the pending one', lor(later, *hits))
            it.oblige('no more than given', size(r) <= size(given))
        else:
            it.oblige('the requests of the list, in order', sterm(it, TM, g.f['waypoints_to_be_modified_']) == FOLD(it)(iv(size(given))))
        it.oblige('a plan is asked for', bv(g.f['generate_new_traj_']))
        keep(it, g, o, ('waypoints_to_be_modified_', 'generate_new_traj_'))
        unlocked(it)

    def FOLD(it):
        return z3.Function('requested', z3.IntSort(), it.S.sort(TM))

    def STEP(it, s, nm, p):
        so = it.S.sort(TM)
        return z3.Function('with_request', so, z3.IntSort(), *[z3.RealSort()] * 3, so)(s, it.S.term(STR, nm), *[rv(it.elem(p, i)) for i in range(3)])

    def ov_modify(it, func, this, args, node):
        if bounded(it):
            return NotImplemented
        s = this.f('waypoints_to_be_modified_')
        it.oblige('no lock is held', not it.locks, node)
        it.store(s, sval(it, TM, STEP(it, sterm(it, TM, it.load(s)), it.val(args[0]), it.val(args[1]))))
        gf = this.f('generate_new_traj_')
        it.store(gf, lor(it.load(gf), it.val(args[2]) if len(args) > 2 else True))

    def inv_mods(L):
        it, G = L.it, L.it.ghost
        if 'given' not in G or bounded(it):
            return None
        i, o = iv(L.idx), it.load(G['ol'])
        e = it.elem(G['given'], i)
        it.assume(implies(land(i >= 0, i < iv(size(G['given']))), FOLD(it)(i + 1) == STEP(it, FOLD(it)(i), e.f['first'], e.f['second'])))
        return [i >= 0, i <= iv(size(G['given'])), sterm(it, TM, o.f['waypoints_to_be_modified_']) == FOLD(it)(i)]

    # ------------------------------------------------ consumption
    KEPT = uf('kept_before', 'i', 'i')

    def run_filter(it):
        o = dyn(it)
        ws = waypoints(it, 'ws')
        ol, wl = new(it, o), new(it, ws, TD)
        last = o.f['parameters_'].f['last_global_time_evaluated']
        ahead = lambda i: cmp('>=', it.elem(ws, i).f['t_assigned_'], last)
        it.ghost.update(ws=ws, wl=wl, ahead=ahead)
        if not bounded(it):
            it.assume(KEPT(0) == 0)
        call(it, f['filterPassedWaypoints'], ol, [wl])
        r = it.load(wl)
        if bounded(it):
            want = [w for i, w in enumerate(ws.items) if it.branch(ahead(i))]
            same(it, 'the waypoints still ahead, in order', r, Seq(TW, 'deque', want))
        else:
            q = z3.Int('q0')
            it.oblige('as many as are still ahead', iv(size(r)) == KEPT(ws.n))
            it.oblige('the waypoints still ahead, in order', implies(land(q >= 0, q < ws.n, ahead(q)), eqt(it, it.elem(r, KEPT(q)), it.elem(ws, q))))
        keep(it, it.load(ol), o)
        unlocked(it)

    def inv_filter(L):
        it, G = L.it, L.it.ghost
        if 'ahead' not in G or bounded(it):
            return None
        cur, ws = it.load(G['wl']), G['ws']
        pos = next((it.cells[c[0]].idx for c in L.mods if isinstance(it.cells[c[0]], Iter)), None)
        if pos is None:
            return None
        pos, n = iv(pos), iv(size(cur))
        done = pos + (ws.n - n)      # waypoints looked at so far
        q, j = z3.Int('q0'), z3.Int('j0')
        it.assume(implies(land(done >= 0, done < ws.n), KEPT(done + 1) == KEPT(done) + z3.If(bv(G['ahead'](done)), 1, 0)))
        x = z3.Int('x0')
        tail = lambda x: implies(land(x >= pos, x < n), eqt(it, it.elem(cur, x), it.elem(ws, x + (ws.n - n))))
        kq = KEPT(q)
        mono = implies(land(q >= 0, q < done, G['ahead'](q)), land(kq >= 0, kq < pos))
        out = [pos >= 0, pos <= n, n <= ws.n, done <= ws.n, KEPT(done) == pos, mono, implies(land(q >= 0, q < done, G['ahead'](q)), eqt(it, it.elem(cur, kq), it.elem(ws, q)))]
        if L.phase == 'assume':
            out.append(z3.ForAll([x], bv(tail(x))))
        else:
            out.append(tail(z3.Int('x1')))
        return out

    fu = find(db, NP + 'updateDynamicWaypointsPosition')
    fr = find(db, NP + 'resetWaypointThroughDeque')

    def run_each(kind):
        def run(it):
            ws = waypoints(it, 'ws')
            wl = new(it, ws, TD)
            nm, p = it.fresh_named(STR, 'name'), vec(reals('p', 3))
            if kind == 'here':
                to = lambda w: RC(it, w)
            else:
                hit = lambda w: land(cmp('==', w.f['name_'], nm), cmp('!=', nm, it.S.term(STR, '')))
                to = lambda w: pick(it, hit(w), RW(it, w, p), w)
            it.ghost.update(ws=ws, wl=wl, to=to)
            if kind == 'here':
                call(it, fu, None, [wl])
            else:
                call(it, fr, None, [wl, new(it, nm, STR), new(it, p, V3)])
            r = it.load(wl)
            it.oblige('as many waypoints', cmp('==', size(r), size(ws)))
            if bounded(it) and not size(ws):
                return
            j = arb(it, 'j0', size(ws)) if not bounded(it) else it.choose(size(ws))
            it.oblige('each is reset to its current position' if kind == 'here' else 'those of that name are reset, the others kept', eqt(it, it.elem(r, j), to(it.elem(ws, j))))
        return run

    def pick(it, c, a, b):
        return sval(it, TW, z3.If(bv(c), sterm(it, TW, a), sterm(it, TW, b)))

    def inv_each(L):
        it, G = L.it, L.it.ghost
        if 'to' not in G or bounded(it):
            return None
        i, j, ws, cur = iv(L.idx), z3.Int('j0'), G['ws'], it.load(G['wl'])
        x, y = it.elem(cur, j), it.elem(ws, j)
        # the element about to be visited is still the old one
        z = it.elem(cur, i)
        out = [i >= 0, i <= ws.n, cmp('==', size(cur), ws.n), implies(land(j >= 0, j < i), eqt(it, x, G['to'](y))), implies(land(j >= i, j < ws.n, j >= 0), eqt(it, x, y))]
        return out

    # ---- the whole
    def F_(it, nm, *a):
        so = it.S.sort(TD)
        return z3.Function(nm, so, *[x.sort() for x in a], so)

    def ov_filter(it, func, this, args, node):
        if bounded(it):
            return NotImplemented
        wl = args[0]
        ws = it.load(wl)
        t = rv(it.load(this.f('parameters_').f('last_global_time_evaluated')))
        r = sval(it, TD, F_(it, 'still_ahead', t)(sterm(it, TD, ws), t))
        it.assume(land(r.n >= 0, r.n <= iv(size(ws))))
        it.store(wl, r)

    def ov_update(it, func, this, args, node):
        if bounded(it):
            return NotImplemented
        wl = args[0]
        ws = it.load(wl)
        r = sval(it, TD, F_(it, 'all_reset')(sterm(it, TD, ws)))
        it.assume(r.n == iv(size(ws)))
        it.store(wl, r)

    def ov_through(it, func, this, args, node):
        if bounded(it):
            return NotImplemented
        wl, nm, p = args[0], it.val(args[1]), it.val(args[2])
        ws = it.load(wl)
        j = z3.Int('j0')
        r = it.fresh(TD, 'rd')
        w = it.elem(ws, j)
        hit = land(cmp('==', w.f['name_'], nm), cmp('!=', nm, it.S.term(STR, '')))
        it.assume(r.n == iv(size(ws)))
        # the contract at the index under consideration
        it.assume(implies(land(j >= 0, j < r.n), eqt(it, it.elem(r, j), pick(it, hit, RW(it, w, p), w))))
        it.store(wl, r)

    def base(it, o):
        """the planned waypoints before pending modifications: (count, element)"""
        S, A, D = (o.f[x] for x in ('waypoints_to_be_set_', 'waypoints_to_be_added_', 'dynamic_waypoints_'))
        t = rv(o.f['parameters_'].f['last_global_time_evaluated'])
        cur = sval(it, TD, F_(it, 'all_reset')(F_(it, 'still_ahead', t)(sterm(it, TD, D), t)))
        it.assume(land(cur.n >= 0, cur.n <= iv(size(D))))
        empty = cmp('==', size(S), 0)
        nb = ite(empty, cur.n, size(S))
        elem = lambda j: pick(it, cmp('<', j, nb), pick(it, empty, it.elem(cur, j), it.elem(S, j)), it.elem(A, sub(j, nb)))
        return nb, add(nb, size(A)), elem

    def run_next(it):
        o = dyn(it, lists=('waypoints_to_be_set_', 'waypoints_to_be_added_', 'waypoints_to_be_modified_', 'dynamic_waypoints_'), hi=2 if not bounded(it) else 1, **({} if not bounded(it) else {'dynamic_waypoints_': waypoints(it, 'o.current', hi=2)}))
        S, A, D, Ms = (o.f[x] for x in ('waypoints_to_be_set_', 'waypoints_to_be_added_', 'dynamic_waypoints_', 'waypoints_to_be_modified_'))
        ol = new(it, o)
        it.ghost.update(o=o, ol=ol)
        r = call(it, f['generateWaypointsForTheNextTrajectory'], ol, [])
        o = it.ghost['o']
        S, A, D, Ms = (o.f[x] for x in ('waypoints_to_be_set_', 'waypoints_to_be_added_', 'dynamic_waypoints_', 'waypoints_to_be_modified_'))
        last = o.f['parameters_'].f['last_global_time_evaluated']
        if bounded(it):
            if size(S):
                ws = list(S.items)
            else:
                ws = [RC(it, w) for w in D.items if it.branch(cmp('>=', w.f['t_assigned_'], last))]
            ws += list(A.items)
            for m in Ms.items:
                nm = m.f['first']
                for i, w in enumerate(ws):
                    if it.branch(land(cmp('==', w.f['name_'], nm), cmp('!=', nm, it.S.term(STR, '')))):
                        ws[i] = RW(it, w, m.f['second'])
            same(it, 'the next plan\'s waypoints', r, Seq(TW, 'deque', ws))
        else:
            nb, n, el = base(it, o)
            it.oblige('as many waypoints as set or current, plus appended', cmp('==', size(r), n))
            j = z3.Int('j0')
            w = el(j)
            m = at(it)(w.f['name_'])
            e = it.elem(Ms, m)
            hit = land(cmp('!=', w.f['name_'], it.S.term(STR, '')), m >= 0, m < iv(size(Ms)), cmp('==', e.f['first'], w.f['name_']))
            it.oblige('each is the set, current or appended one with its pending modification', implies(land(j >= 0, j < iv(n)), eqt(it, it.elem(r, j), pick(it, hit, RW(it, w, e.f['second']), w))))
        g = it.load(ol)
        for n in ('waypoints_to_be_set_', 'waypoints_to_be_added_', 'waypoints_to_be_modified_'):
            it.oblige('nothing is pending afterwards', cmp('==', size(g.f[n]), 0))
        it.oblige('no plan is asked for afterwards', lnot(g.f['generate_new_traj_']))
        keep(it, g, o, ('waypoints_to_be_set_', 'waypoints_to_be_added_', 'waypoints_to_be_modified_', 'generate_new_traj_'))
        unlocked(it)

    def inv_next(L):
        it, G = L.it, L.it.ghost
        if 'o' not in G or bounded(it):
            return None
        o, i, j = G['o'], iv(L.idx), z3.Int('j0')
        cur = next((it.cells[c[0]] for c in L.mods if isinstance(it.cells[c[0]], Seq) and it.cells[c[0]].kind == 'deque'), None)
        if cur is None:
            return None
        S, A, Ms = (o.f[x] for x in ('waypoints_to_be_set_', 'waypoints_to_be_added_', 'waypoints_to_be_modified_'))
        nb, n, el = base(it, o)
        over = it.load(L.extra['seq']) if L.extra and 'seq' in L.extra else None
        x = it.elem(cur, j)
        if over is S:
            return [i >= 0, i <= iv(size(S)), cmp('==', size(cur), i), implies(land(j >= 0, j < i), eqt(it, x, it.elem(S, j)))]
        if over is A:
            return [i >= 0, i <= iv(size(A)), cmp('==', size(cur), add(nb, i)), implies(land(j >= 0, j < iv(size(cur))), eqt(it, x, el(j)))]
        if over is Ms:
            w = el(j)
            unique(it, Ms, [i])
            m = at(it)(w.f['name_'])
            e = it.elem(Ms, m)
            hit = land(cmp('!=', w.f['name_'], it.S.term(STR, '')), m >= 0, m < i, cmp('==', e.f['first'], w.f['name_']))
            return [i >= 0, i <= iv(size(Ms)), cmp('==', size(cur), n), implies(land(j >= 0, j < iv(n)), eqt(it, x, pick(it, hit, RW(it, w, e.f['second']), w)))]
        return None

    b = 'lists of at most 2'
    return [
        Task('setWaypoints', run_set, [Dn('setWaypoints')], invariants={'setWaypoints': [('copied', inv_set)]}, bounded=[(b, run_set)]),
        Task('appendWaypoint', run_app, [Dn('appendWaypoint')], bounded=[(b, run_app)]),
        Task('modifyWaypoint', run_modify, [Dn('modifyWaypoint')], invariants={'modifyWaypoint': [('not found yet', inv_find)]}, bounded=[(b, run_modify)]),
        Task('modifyWaypoints', run_mods, [Dn('modifyWaypoints')], overrides={Dn('modifyWaypoint'): ov_modify}, invariants={'modifyWaypoints': [('requested', inv_mods)]}, bounded=[(b, run_mods)]),
        Task('filterPassedWaypoints', run_filter, [Dn('filterPassedWaypoints')], invariants={'filterPassedWaypoints': [('kept', inv_filter)]}, bounded=[(b, run_filter)]),
        Task('updateDynamicWaypointsPosition', run_each('here'), [NP + 'updateDynamicWaypointsPosition'], overrides=resets, invariants={'updateDynamicWaypointsPosition': [('reset', inv_each)]}, bounded=[(b, run_each('here'))]),
        Task('resetWaypointThroughDeque', run_each('to'), [NP + 'resetWaypointThroughDeque'], overrides=resets, invariants={'resetWaypointThroughDeque': [('reset', inv_each)]}, bounded=[(b, run_each('to'))]),
        Task('generateWaypointsForTheNextTrajectory', run_next, [Dn('generateWaypointsForTheNextTrajectory')],
             overrides={**resets, Dn('filterPassedWaypoints'): ov_filter, NP + 'updateDynamicWaypointsPosition': ov_update, NP + 'resetWaypointThroughDeque': ov_through},
             invariants={'generateWaypointsForTheNextTrajectory': [('planned', inv_next)]}, bounded=[('at most 2 current, 1 set, 1 appended, 1 modified', run_next)]),
    ]
