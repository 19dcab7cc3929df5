"""C26: Locks are always released and never acquired in a cycle.

Every function of DynamicTrajectory and ThreadSafeTrajectory is executed against its contract of C20-C25 (callees by contract) with the lock protocol as obligations:
  no lock is acquired that is already held, only held locks are released, none is held when the function is left (returning or throwing),
  no callee is called, and no computation waited for, while a lock it takes is held,
  the pending request lists and the flown waypoint list are only written with their lock held.
All acquisitions together (lock held -> lock taken, directly, by a callee, or by the planning task while it is waited for) form an acyclic order: no interleaving can deadlock.
Destroying the object waits for the worker and the planning task before any member is destroyed.
"""
from .dynlib import *
from . import c20, c21, c22, c23, c24, c25
TUS = DYN_TUS
NATIVE = dict(NAT, src='c26.cpp', n=8, time=100, hang_is_failure=True)
ASSUMPTIONS = ['locks of different ThreadSafeTrajectory objects are identified with each other (coarser, sound)', 'classes without locks (DynamicWaypoint, Trajectory, Vertex, the optimiser) take none of these locks',
               'standard library calls other than those modelled do not throw inside a manual lock()/unlock() region']
GUARDS = {'waypoints_to_be_added_': 'todo_mutex', 'waypoints_to_be_set_': 'todo_mutex', 'waypoints_to_be_modified_': 'todo_mutex', 'dynamic_waypoints_': 'dynamic_waypoints_mutex_'}
PLAN = DT + '::computeTrajectory'
LOCKY = (DT + '::', TS + '::')


def lbl(x):
    return x.split('.')[-1]


def protocol(task):
    """the task with the lock protocol as its only obligations"""
    funcs = list(task.funcs)

    def record(it, q, node):
        it.e.extra.setdefault('calls', set()).add((frozenset(lbl(x) for x in it.locks if x != 'the lock of the caller'), q))

    def wrap(q, ov):
        def f(it, func, this, args, node):
            r = NotImplemented
            it.ghost['contract'] = it.ghost.get('contract', 0) + 1
            try:
                r = ov(it, func, this, args, node)
            finally:
                it.ghost['contract'] -= 1
                if r is not NotImplemented:
                    record(it, q, node)
            return r
        return f

    def wrap_wait(h):
        def f(it, n, obj, argn):
            if isinstance(obj, LV) and obj.path[-1:] == (('f', 'future_traj_'),):
                record(it, PLAN, n)
            return h(it, n, obj, argn) if h else NotImplemented
        return f

    def hook(kind, it, label, node):
        if kind == 'acquire':
            for h in it.locks:
                if h != 'the lock of the caller':
                    it.e.extra.setdefault('edges', set()).add((lbl(h), lbl(label)))
            it.e.extra.setdefault('takes', set()).add(lbl(label))
        it.ghost['since'] = it.ghost.get('since', frozenset()) - ({label} if kind == 'release' else set())

    def stored(it, lv, v):
        if it.ghost.get('contract') or 'of interest' not in it.ghost or lv.cell not in it.ghost['of interest']:
            return
        if any(fr.func and fr.func.kind == 'CXXConstructorDecl' and fr.func.qname.startswith(DT + '::') for fr in it.frames):
            return      # not shared yet
        fs = [p[1] for p in lv.path if p[0] == 'f']
        if fs and fs[0] in GUARDS and it.frames:
            it.oblige('%s is only changed with its lock held' % fs[0], GUARDS[fs[0]] in [lbl(x) for x in it.locks])

    def run(it):
        e = it.e
        e.only = lambda name: name.startswith(('lock ', 'unlock of', 'every lock', 'no lock is', 'the lock', 'callee ')) or 'only changed with its lock held' in name
        e.extra['funcs'] = funcs
        e.store_hook = stored
        own = new_hook(it)
        try:
            task.run(it)
        except ThrowX:
            pass
        finally:
            own()
        it.oblige('every lock taken is released on every way out', not it.locks)

    def new_hook(it):
        # watch() of C25 installs a hook of its own: combine
        it.e.lock_hook = hook
        cls_e = it.e
        orig = it.alloc

        def alloc(v, t=None, label=None):
            lv = orig(v, t, label)
            if isinstance(v, SV) and v.cls == DT:
                it.ghost.setdefault('of interest', set()).add(lv.cell)
            return lv
        it.alloc = alloc

        def undo():
            it.__dict__.pop('alloc', None)
        return undo

    ovs = {q: wrap(q, o) for q, o in task.overrides.items()}
    hks = dict(task.hooks)
    for h in ('member:wait', 'member:get'):
        hks[h] = wrap_wait(hks.get(h))
    t = Task('locks: ' + task.name, run, funcs, invariants=task.invariants, overrides=ovs, hooks=hks, exact=True, budget=task.budget, unwind=task.unwind, cut_all=task.cut_all, rewrite=task.rewrite)
    t.min_obl = 1
    return t


def own_tasks(db):
    Dn = lambda x: DT + '::' + x
    out = []

    def simple(name, go, funcs, ov=None, hooks=None):
        out.append(Task(name, go, funcs, overrides=ov or {}, hooks=hooks or {}))

    def on_object(fn, args=lambda it: []):
        def run(it):
            tr = plan(it, 'traj', null=bool(it.choose(2)))
            ol = new(it, dyn(it, traj=tr))
            call(it, fn, ol, args(it))
        return run

    def ov_none(it, func, this, args, node):
        return None

    def ov_true(it, func, this, args, node):
        return True

    simple('getDynamicWaypoints', on_object(find(db, Dn('getDynamicWaypoints'))), [Dn('getDynamicWaypoints')], {Dn('checkTrajectoryGenerated'): ov_true})
    simple('getGenerateNewTraj', on_object(find(db, Dn('getGenerateNewTraj'))), [Dn('getGenerateNewTraj')])
    simple('getComputingNewTrajectoryStatus', on_object(find(db, Dn('getComputingNewTrajectoryStatus'))), [Dn('getComputingNewTrajectoryStatus')])
    simple('computeSecurityTime', on_object(find(db, Dn('computeSecurityTime')), lambda it: [z3.Int('n')]), [Dn('computeSecurityTime')])
    simple('getVehiclePosition', on_object(find(db, Dn('getVehiclePosition'))), [Dn('getVehiclePosition')])
    simple('checkTrajectoryModifiers', on_object(find(db, Dn('checkTrajectoryModifiers'))), [Dn('checkTrajectoryModifiers')])

    def started(it, n, argn, *a):
        return Opaque('future')
    simple('generateTrajectory', on_object(find(db, Dn('generateTrajectory')), lambda it: [new(it, it.fresh_named(('seq', TW, 'deque'), 'ws')), True]), [Dn('generateTrajectory')], hooks={'free:async': started})
    simple('constructor', lambda it: it.construct(DT, [], None), [Dn('DynamicTrajectory')])

    # the destructor: everything that uses the members has ended when they are destroyed
    dtor = [f for f in db.by_qname.get(Dn('~DynamicTrajectory'), []) if f.body is not None]

    def run_dtor(it):
        ol = new(it, dyn(it))
        G = it.ghost
        G['valid'] = z3.Bool('future is valid')
        it.enter(dtor[0], ol, [], None)
        it.oblige('callee worker: asked to stop before it is waited for', G.get('joined') is True)
        it.oblige('callee planning task: waited for', lor(lnot(G['valid']), G.get('waited', False)))
        it.oblige('callee planning task: none is started after it was waited for', not G.get('waited') or G.get('joined first', False))

    def is_future(obj):
        return isinstance(obj, LV) and obj.path[-1:] == (('f', 'future_traj_'),)

    def join(it, n, obj, argn):
        it.ghost['joined'] = it.load(LV(obj.cell, obj.path[:-1] + (('f', 'stop_process_'),))) is True

    def wait(it, n, obj, argn):
        if not is_future(obj):
            return NotImplemented
        it.oblige('callee future: only a valid one is waited for', it.ghost['valid'])
        it.ghost['waited'] = True
        it.ghost['joined first'] = bool(it.ghost.get('joined'))
    simple('destructor', run_dtor, [Dn('~DynamicTrajectory')], hooks={'member:join': join, 'member:joinable': lambda it, n, obj, argn: True, 'member:wait': wait, 'member:get': wait,
                                                                  'member:valid': lambda it, n, obj, argn: it.ghost['valid'] if is_future(obj) else NotImplemented})

    # the thread-safe trajectory
    def on_ts(fn, args=lambda it: [], null=False):
        def run(it):
            tl = new(it, plan(it, 'traj', null=null), cls(TS))
            it.enter(fn, tl, args(it), None)
        return run
    other = lambda it: [new(it, plan(it, 'other', null=bool(it.choose(2))), cls(TS))]
    for f in db.by_qname.get(TS + '::operator=', []):
        if f.body is not None:
            simple('ThreadSafeTrajectory assignment', on_ts(f, other, True), [TS + '::operator='])
    for f in db.by_qname.get(TS + '::~ThreadSafeTrajectory', []):
        if f.body is not None:
            simple('ThreadSafeTrajectory destructor', on_ts(f), [TS + '::~ThreadSafeTrajectory'])
    k = 0
    for f in db.by_qname.get(TS + '::ThreadSafeTrajectory', []):
        if f.body is None or f.node.get('isImplicit'):
            continue
        k += 1

        def run(it, f=f):
            args = []
            if f.params:
                args = other(it) if 'shared_ptr' not in f.params[0]['type']['qualType'] else [new(it, plan(it, 'p').f['trajectory_ptr_'], ('sptr', cls(TRAJ)))]
            it.construct(TS, args, None)
        simple('ThreadSafeTrajectory constructor %d' % k, run, [TS + '::ThreadSafeTrajectory'])

    def ov_list(it, func, this, args, node):
        return None
    for n in ('getWaypoints', 'getSegments'):
        for f in db.by_qname.get(TS + '::' + n, []):
            if f.body is not None:
                simple('ThreadSafeTrajectory ' + n, on_ts(f), [TS + '::' + n], {TRAJ + '::getVertices': ov_true, TRAJ + '::getSegments': ov_list})
    return out


def tasks(db, tier):
    ts = []
    for m in (c20, c21, c22, c23, c24, c25):
        for t in m.tasks(db, tier):
            if any(x.startswith(LOCKY) for x in t.funcs) and not t.name.endswith('with other threads'):
                ts.append(protocol(t))
    return ts + [protocol(t) for t in own_tasks(db)]


def finish(db, results):
    """the global order"""
    takes, edges, calls, covered = {}, set(), [], set()
    bad = []
    for r in results:
        x = r.get('extra') or {}
        covered |= set(r['entered'])
        for f in x.get('funcs', ()):
            takes.setdefault(f, set()).update(x.get('takes', ()))
            covered.add(f)
            for held, q in x.get('calls', ()):
                calls.append((f, held, q, r['task']))
        edges |= x.get('edges', set())
    # what a function takes, with its callees
    change = True
    while change:
        change = False
        for f, held, q, t in calls:
            new_ = takes.get(q, set()) - takes.setdefault(f, set())
            if new_:
                takes[f] |= new_
                change = True
    n = 0
    for f, held, q, t in calls:
        n += 1
        again = held & takes.get(q, set())
        if again:
            bad.append('%s calls %s while holding %s, which it takes' % (f, q, sorted(again)))
        for h in held:
            for l in takes.get(q, ()):
                edges.add((h, l))
    # acyclic
    g = {}
    for a, b in edges:
        g.setdefault(a, set()).add(b)

    def reach(a, b, seen):
        return a == b or any(reach(c, b, seen | {c}) for c in g.get(a, ()) if c not in seen)
    for a, b in sorted(edges):
        n += 1
        if reach(b, a, {b}):
            bad.append('%s is taken while %s is held, and the other way round' % (b, a))
    # every function that could take a lock is under contract
    missing = []
    if all(r['status'] == 'proved' for r in results):
        for q, fs in sorted(db.by_qname.items()):
            if q.startswith(LOCKY) and any(f.body is not None and not f.node.get('isImplicit') for f in fs) and q not in covered and q not in (TS + '::lock', TS + '::unlock'):
                missing.append(q)
    t = Task('one global order of the locks', None, sorted(takes), exact=True)
    r = {'obligs': n + 1, 'proved': n + 1 - len(bad), 'status': 'refuted' if bad else ('unsupported' if missing else 'proved'),
         'note': 'not under contract: %s' % missing if missing else 'order: %s' % sorted(edges), 'entered': [], 'backends': {'graph': n + 1}, 'solver_s': {},
         'failed': [{'obligation': 'the locks are taken in one order', 'where': '', 'function': b, 'status': 'refuted', 'backend': 'graph', 'goal': b, 'model': {}} for b in bad[:4]]}
    return t, r
