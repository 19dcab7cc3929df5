"""Shared pieces of the contracts of DynamicTrajectory (C20-C27): arbitrary objects, contracts of the callees."""
from ..spec import *
DT, DW, TS = 'dynamic_traj_generator::DynamicTrajectory', 'dynamic_traj_generator::DynamicWaypoint', 'ThreadSafeTrajectory'
REFS = 'dynamic_traj_generator::References'
TW = cls(DW)
V3 = ('eig', 'r', 3, 1)
STR = ('str',)
MOD = ('pair', STR, V3)
DYN_TUS = ['dyntraj', 'tstraj', 'dynwp', 'gauss', 'vertex', 'trajectory']
WITH = ['$REPO/src/dynamic_trajectory.cpp', '$REPO/src/dynamic_waypoint.cpp'] + ['$MAV/src/' + x for x in ('trajectory.cpp', 'segment.cpp', 'polynomial.cpp', 'vertex.cpp', 'motion_defines.cpp', 'timing.cpp', 'rpoly/rpoly_ak1.cpp')]
LIBS = ['-lnlopt', '-lglog', '-lgflags', '-lpthread']
NAT = {'with': WITH, 'libs': LIBS, 'flags': ['-fno-access-control']}


def plan(it, name='traj', null=False):
    """a thread-safe trajectory holding some trajectory, or none"""
    if null:
        return SV(TS, {'evaluate_mutex_': Opaque('mutex'), 'time_mutex_': Opaque('mutex'), 'trajectory_ptr_': NULL})
    t = it.fresh_named(cls(TRAJ), name)
    it.assume(z3.And(rv(t.f['max_time_']) >= 0, t.f['D_'] == 3))
    lv = new(it, t)
    it.ghost.setdefault('plans', {})[lv.key()] = name
    return SV(TS, {'evaluate_mutex_': Opaque('mutex'), 'time_mutex_': Opaque('mutex'), 'trajectory_ptr_': Ptr(lv)})


def plan_name(it, ts):
    p = ts.f['trajectory_ptr_']
    return it.ghost['plans'][p.lv.key()] if isinstance(p, Ptr) else None


def duration(it, ts):
    return it.load(ts.f['trajectory_ptr_'].lv).f['max_time_']


def waypoints(it, name, kind='deque', hi=2, lo=0):
    return seq_of(it, TW, name, kind=kind, hi=hi, lo=lo, sep='%d')


def dyn(it, name='o', traj=None, wps=True, hi=2, **kw):
    """an arbitrary object; waypoint lists of any length (bounded: at most hi)"""
    o = it.fresh_named(cls(DT), name)
    f = dict(o.f)
    f['traj_'] = traj if traj is not None else plan(it, name + '.traj')
    f['future_traj_'] = Opaque('future')
    for n, k in (('dynamic_waypoints_', 'deque'), ('next_trajectory_waypoint_', 'deque'), ('waypoints_to_be_added_', 'vector'), ('waypoints_to_be_set_', 'vector')):
        if n in kw:
            continue
        f[n] = waypoints(it, name + '.' + n, k, hi) if n in (kw.get('lists') or ()) else (Seq(TW, k, []) if bounded(it) else it.fresh_named(('seq', TW, k), name + '.' + n))
    if bounded(it):
        f['waypoints_to_be_modified_'] = seq_of(it, MOD, name + '.modified', hi=hi) if 'waypoints_to_be_modified_' in (kw.get('lists') or ()) else Seq(MOD, 'vector', [])
    for k, v in kw.items():
        if k != 'lists':
            f[k] = v
    it.assume(rv(f['time_constant_']) >= 0)
    return SV(o.cls, f)


def constants(it):
    """the constant members, as a constructed object has them"""
    o = it.construct(DT, [], None)
    return {n: o.f[n] for n in ('dimension_', 'derivative_to_optimize_', 'a_max_')}


def eval_contract(it, func, this, args, node):
    """Trajectory::evaluate (C04): inside the trajectory, a vector of its dimension"""
    t, k = it.val(args[0]), it.val(args[1]) if len(args) > 1 else 0
    o = it.load(this)
    it.oblige('the trajectory is evaluated inside its duration', land(cmp('>=', t, 0), cmp('<=', t, o.f['max_time_'])), node)
    nm = it.ghost['plans'].get(this.key())
    if nm is None:
        raise Unsupported('evaluation of an unknown trajectory')
    return vec(E(nm, t, k))


def E(nm, t, k):
    return [z3.Function('%s.E%d' % (nm, i), z3.RealSort(), z3.IntSort(), z3.RealSort())(rv(t), iv(k)) for i in range(3)]


def comp(it, w, t, k):
    """DynamicWaypoint::trajectoryCompensation (C19) as a function of the waypoint"""
    so = it.S.sort(TW)
    x = sterm(it, TW, w)
    return [z3.Function('deformation%d' % i, so, z3.RealSort(), z3.IntSort(), z3.RealSort())(x, rv(t), iv(k)) for i in range(3)]


def comp_contract(it, func, this, args, node):
    return vec(comp(it, it.load(this), it.val(args[0]), it.val(args[1]) if len(args) > 1 else 0))


def named(it, w):
    """the waypoint has a name"""
    n = w.f['name_']
    return n != '' if isinstance(n, str) else cmp('!=', n, it.S.term(STR, ''))


def clamp(t, hi):
    return rmin(rmax(t, Fraction(0)), hi)


def same(it, name, a, b):
    """structural equality of values (symbolic sequences: at an arbitrary index)"""
    if a is b:
        it.oblige(name, True)
    elif isinstance(a, SV) and isinstance(b, SV):
        for n in sorted(set(a.f) | set(b.f)):
            same(it, '%s %s' % (name, n.strip('_')), a.f.get(n), b.f.get(n))
    elif isinstance(a, Opaque) and isinstance(b, Opaque):
        it.oblige(name, a.tag == b.tag)
    elif isinstance(a, Ptr) and isinstance(b, Ptr):
        it.oblige(name, a.lv.key() == b.lv.key())
    elif isinstance(a, (Mat, Seq)) and isinstance(b, (Mat, Seq)):
        it.oblige(name + ' (size)', cmp('==', size(a), size(b)))
        n = size(a)
        if isinstance(n, int) and isinstance(size(b), int):
            for i in range(min(n, size(b))):
                same(it, name, it.elem(a, i), it.elem(b, i))
            return
        j = z3.Int('j0')
        it.oblige(name, implies(land(j >= 0, j < iv(n)), eqt(it, it.elem(a, j), it.elem(b, j))))
    elif a is None or b is None or isinstance(a, (Ptr, Opaque)) or isinstance(b, (Ptr, Opaque)):
        it.oblige(name, False)
    elif isinstance(a, str) and isinstance(b, str):
        it.oblige(name, a == b)
    else:
        it.oblige(name, cmp('==', a, b))


def eqt(it, a, b):
    """equality of two waypoints (or other class values) as one formula"""
    if a is b:
        return True
    if isinstance(a, SV) and a.cls == DW:
        return sterm(it, TW, a) == sterm(it, TW, b)
    if isinstance(a, SV):
        return land(*[eqt(it, a.f[n], b.f[n]) for n in a.f])
    if isinstance(a, (Mat, Seq)):
        return land(*[eqt(it, it.elem(a, i), it.elem(b, i)) for i in range(size(a))])
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    return cmp('==', a, b)


def keep(it, got, old, but=(), what='kept: '):
    for n in old.f:
        if n not in but:
            same(it, what + n.strip('_').replace('_', ' '), got.f[n], old.f[n])


def unlocked(it):
    it.oblige('every lock taken is released', not it.locks)
