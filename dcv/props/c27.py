"""C27: An accepted waypoint request is never forgotten.

The request functions, the taking in of requests and the worker iteration are proved against their contracts of C21 and C24 once more, now with other threads running:
whenever the request lock is taken, the pending lists and the flag are replaced by arbitrary ones that other threads may have left (rely), and the contract is
stated relative to that state. So a request function returns with its request pending and the flag set, whatever happened before it got the lock; what is
taken in is everything that was pending when the lock was taken, and nothing that arrives later is dropped.
Every function of the class is then checked for the other half (guarantee): the flag is withdrawn only while requests are taken in, and it and the pending lists
are only emptied with the request lock held.
"""
from .dynlib import *
from . import c20, c21, c22, c23, c24, c25, c26
TUS = DYN_TUS
NATIVE = dict(NAT, src='c27.cpp', n=1500, time=40)
ASSUMPTIONS = ['contracts of C21 and C24', 'the flag is an atomic and the lists are protected by the request lock (C26): other threads act between the critical sections only',
               'a request counts as taken in when it is part of the waypoints handed to the planner (C21, C24); a planning task that fails is outside this property']
LISTS = ('waypoints_to_be_set_', 'waypoints_to_be_added_', 'waypoints_to_be_modified_')
FLAG = 'generate_new_traj_'
LOCK = 'todo_mutex'
TAKE = DT + '::generateWaypointsForTheNextTrajectory'


def lbl(x):
    return x.split('.')[-1]


def others(it):
    """what other threads may have done since the lists were last seen"""
    G = it.ghost
    if 'ol' not in G:
        return
    lv = G['ol']
    o = it.load(lv)
    fs = dict(o.f)
    k = G['seen'] = G.get('seen', 0) + 1
    if bounded(it):
        # another client appends a waypoint, or the worker takes everything in
        c = it.choose(3)
        if c == 1:
            a = fs['waypoints_to_be_added_']
            fs['waypoints_to_be_added_'] = Seq(a.et, a.kind, list(a.items) + [it.fresh_named(TW, 'other%d' % k)])
            fs[FLAG] = True
        elif c == 2:
            for n in LISTS:
                fs[n] = Seq(fs[n].et, fs[n].kind, [])
            fs[FLAG] = False
            if it.choose(2):
                # with a modification that does not ask for a plan
                fs[LISTS[2]] = Seq(MOD, 'vector', [SV('$pair', {'first': it.fresh_named(STR, 'mod%d' % k), 'second': vec(reals('m%d' % k, 3))})])
    else:
        for n, t in zip(LISTS, (TW, TW, MOD)):
            fs[n] = it.fresh(('seq', t, 'vector'), 'others%d.%s' % (k, n))
            it.assume(fs[n].n >= 0)
        fs[FLAG] = it.fresh(('bool',), 'others%d.asked' % k)
        it.assume(lor(fs[FLAG], land(cmp('==', size(fs[LISTS[0]]), 0), cmp('==', size(fs[LISTS[1]]), 0))))
    o = SV(o.cls, fs)
    lv_store(it, lv, o)
    G['o'] = o
    if 'ms' in G:
        G['ms'] = o.f[LISTS[2]]
    if 'relate' in G:
        G['relate'](o)


def lv_store(it, lv, v):
    h, it.e.store_hook = it.e.store_hook, None
    it.store(lv, v)
    it.e.store_hook = h


def concurrent(task, only=None):
    def wrap(run):
        def go(it):
            def hook(kind, it_, label, node):
                if kind == 'acquire' and lbl(label) == LOCK:
                    others(it_)
            it.e.lock_hook = hook
            if only:
                it.e.only = only
            run(it)
        return go
    t = Task('other threads: ' + task.name, wrap(task.run), task.funcs, invariants=task.invariants, overrides=task.overrides, hooks=task.hooks,
             bounded=[(label, wrap(r)) for label, r in task.bounded], budget=task.budget, unwind=task.unwind, cut_all=task.cut_all, rewrite=task.rewrite)
    return t


def guarantee(task):
    """the flag and the lists are only withdrawn where requests are taken in"""
    def wrap(ov):
        def f(it, func, this, args, node):
            it.ghost['contract'] = it.ghost.get('contract', 0) + 1
            try:
                return ov(it, func, this, args, node)
            finally:
                it.ghost['contract'] -= 1
        return f

    def stored(it, lv, v):
        if it.ghost.get('contract') or 'of interest' not in it.ghost or lv.cell not in it.ghost['of interest']:
            return
        if any(fr.func and fr.func.kind == 'CXXConstructorDecl' and fr.func.qname.startswith(DT + '::') for fr in it.frames):
            return
        fs = [p[1] for p in lv.path if p[0] == 'f']
        taking = any(fr.func and fr.func.qname == TAKE for fr in it.frames)
        locked = LOCK in [lbl(x) for x in it.locks]
        if fs and fs[0] == FLAG:
            old = it.load(lv)
            if taking:
                it.oblige('the request to replan is only withdrawn with the request lock held', lor(lnot(old), v) if not locked else True)
            else:
                it.oblige('a request to replan is only withdrawn where requests are taken in', lor(lnot(old), v))
        if fs and fs[0] in LISTS:
            it.oblige('pending requests are only changed with the request lock held', locked)

    def run(it):
        e = it.e
        e.only = lambda name: 'the request to replan' in name or 'a request to replan' in name or 'pending requests are only' in name
        e.store_hook = stored
        orig = it.alloc

        def alloc(v, t=None, label=None):
            lv = orig(v, t, label)
            if isinstance(v, SV) and v.cls == DT:
                it.ghost.setdefault('of interest', set()).add(lv.cell)
            return lv
        it.alloc = alloc
        try:
            task.run(it)
        except ThrowX:
            pass
        finally:
            it.__dict__.pop('alloc', None)
        it.oblige('a request to replan is only withdrawn where requests are taken in', True)
    t = Task('never withdrawn: ' + task.name, run, task.funcs, invariants=task.invariants, overrides={q: wrap(o) for q, o in task.overrides.items()}, hooks=task.hooks,
             exact=True, budget=task.budget, unwind=task.unwind, cut_all=task.cut_all, rewrite=task.rewrite)
    t.min_obl = 1
    return t


def tasks(db, tier):
    Dn = lambda x: DT + '::' + x
    out = []
    by = {t.name: t for m in (c21, c24) for t in m.tasks(db, tier)}
    for n in ('setWaypoints', 'appendWaypoint', 'modifyWaypoint', 'generateWaypointsForTheNextTrajectory', 'todoThreadLoop'):
        out.append(concurrent(by[n]))

    # a list of modifications asks for a plan at its end, whatever the worker does in between
    f_mods = find(db, Dn('modifyWaypoints'))

    def ov_one(it, func, this, args, node):
        it.oblige('no lock is held', not it.locks, node)
        gf = this.f(FLAG)
        it.store(gf, it.fresh(('bool',), 'flag after one') if not bounded(it) else bool(it.choose(2)))

    def run_mods(it):
        o = dyn(it)
        ol = new(it, o)
        given = seq_of(it, MOD, 'given', hi=2)
        gl = new(it, given, ('seq', MOD, 'vector'))
        call(it, f_mods, ol, [gl])
        it.oblige('a plan is asked for', bv(it.load(ol).f[FLAG]))
        unlocked(it)
    out.append(Task('other threads: modifyWaypoints', run_mods, [Dn('modifyWaypoints')], overrides={Dn('modifyWaypoint'): ov_one}, bounded=[('at most 2 modifications', run_mods)]))

    # what is reported is the flag
    f_get = find(db, Dn('getGenerateNewTraj'))

    def run_get(it):
        o = dyn(it)
        ol = new(it, o)
        r = call(it, f_get, ol, [])
        it.oblige('the pending request is reported', cmp('==', bv(r), bv(o.f[FLAG])))
        keep(it, it.load(ol), o)
    out.append(Task('getGenerateNewTraj', run_get, [Dn('getGenerateNewTraj')], bounded=[('all inputs', run_get)]))

    for m in (c20, c21, c22, c23, c24, c25):
        for t in m.tasks(db, tier):
            if any(x.startswith(DT + '::') for x in t.funcs) and not t.name.endswith('with other threads'):
                out.append(guarantee(t))
    for t in c26.own_tasks(db):
        if any(x.startswith(DT + '::') for x in t.funcs):
            out.append(guarantee(t))
    return out
