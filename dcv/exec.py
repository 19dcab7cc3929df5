"""Verification-condition generation by symbolic execution of the clang AST.

One Interp object is one path.  Paths are explored by replaying decision
prefixes; loops with a symbolic condition are cut at their head with
invariants (candidates that are not inductive are dropped, Houdini style), so
one exploration covers every iteration count.  Calls of functions with a
contract go through the contract (`overrides`), every other function of the
repository is entered and verified in place.
"""
import time
from fractions import Fraction
import os, traceback
import z3
from .front import ntype, DB, REPO as FRONT_REPO
from .values import *
from . import solver as SOLV

sys_uint64 = 2 ** 64


class PathEnd(Exception):
    pass


class Infeasible(PathEnd):
    pass


class Restart(Exception):
    def __init__(self, prefix):
        self.prefix = prefix


class ReturnX(Exception):
    def __init__(self, v):
        self.v = v


class BreakX(Exception):
    pass


class ContinueX(Exception):
    pass


class ThrowX(Exception):
    def __init__(self, what):
        self.what = what


class Budget(Exception):
    pass


def loc_of(n):
    b = n.get('range', {}).get('begin', {}) if n else {}
    f = (b.get('file') or '?').split('/')[-1]
    return '%s:%s' % (f, b.get('line', '?'))


class Oblig:
    __slots__ = ('name', 'where', 'func', 'status', 'backend', 'model', 'secs', 'goal', 'prefix', 'definite')

    def __init__(self, name, where, func):
        self.name, self.where, self.func = name, where, func
        self.status = self.backend = self.model = None
        self.secs = 0.0
        self.definite = False


class Engine:
    """explores one verification task"""

    def __init__(self, db, mode='proof', unroll=3, timeout_ms=8000, seed=0, max_paths=4000, deadline=None, poly_only=False):
        self.db = db
        self.sorts = Sorts(db)
        self.mode, self.unroll, self.timeout_ms, self.seed = mode, unroll, timeout_ms, seed
        self.max_paths, self.deadline = max_paths, deadline
        self.overrides = {}      # qname -> fn(interp, func, this, args, node) or NotImplemented
        self.invariants = {}     # function name -> [(label, fn(L))]
        self.loopinfo = {}
        self.obligs = []
        self.funcs_seen = {}
        self.glob_cache = {}
        self.reached = set()
        self.poly_rewrite = None
        self.lock_hook = None
        self.store_hook = None
        self.only = None        # names of the obligations of interest; the others are assumed
        self.extra = {}         # what a task reports to the property's finish()
        self.stop_on_refute = False
        self.cut_all = ()        # functions whose loops are cut even when their bounds are constants
        self.unwind = 0          # complete unrolling with an unwinding obligation
        self.peel = 2            # iterations executed before a loop is cut although its condition still holds
        self.use_cvc5 = True
        self.quick_feas_ms = 150
        self.paths = self.completed = 0
        self.stats = SOLV.Stats()
        self.assumptions = set()
        self.trusted = set()
        self.hooks = {}
        self.nonneg_cache = {}
        self.memo, self.keep = {}, []    # solver answers already obtained (restarts replay the same paths)
        self.points = {}         # decisions taken so far: prefix -> condition
        self.cutexits = {}       # loops cut by invariants: was their exit reachable

    def explore(self, task):
        """task(interp) runs the function under verification with its contract"""
        self.obligs = []
        self.paths = 0
        self.reached = set()
        self.cutexits = {}
        self.points = {}
        self.completed = 0
        work = [()]
        while work:
            p = work.pop()
            it = Interp(self, p, work)
            self.paths += 1
            if self.paths > self.max_paths:
                raise Budget('more than %d paths' % self.max_paths)
            if self.deadline and time.time() > self.deadline:
                raise Budget('time budget')
            try:
                task(it)
                self.completed += 1
            except PathEnd:
                pass
            except Restart as r:
                # an invariant candidate was dropped: everything explored through that
                # loop is explored again, what does not pass through it stays
                P = r.prefix
                n = len(P)
                self.obligs = [o for o in self.obligs if o.prefix[:n] != P]
                work[:] = [w for w in work if w[:n] != P]
                work.append(P)
                self.points = {k: v for k, v in self.points.items() if k[:n] != P}
                self.paths -= 1
            except ThrowX as e:
                it.oblige('no uncaught exception (%s)' % e.what, False)
            if self.stop_on_refute and any(o.status == 'refuted' for o in self.obligs):
                break
        self.funcs_seen = {k: 0 for k in self.funcs_seen}
        for o in self.obligs:
            self.funcs_seen[o.func] = self.funcs_seen.get(o.func, 0) + 1
        return self.obligs

    def ok(self):
        return bool(self.obligs) and all(o.status == 'proved' for o in self.obligs)


class Frame:
    __slots__ = ('vars', 'this', 'func', 'tu', 'parent', 'names', 'guards', 'retref', 'types', 'level')

    def __init__(self, func, tu, this=None, parent=None):
        self.vars, self.names, self.types = {}, {}, {}
        self.func, self.tu, self.this, self.parent = func, tu, this, parent
        self.guards = []
        self.level = 0           # loops being executed in this frame


class LoopCtx:
    """what an invariant may talk about: locals by name, their value on entry, a hidden index"""

    def __init__(self, it, frame, entry, node, extra, mods=()):
        self.it, self.frame, self._entry, self.node = it, frame, entry, node
        self.extra = extra
        self.mods = mods

    @property
    def idx(self):
        """number of the current iteration: the hidden index, the loop variable, or the only modified integer local"""
        if self.extra:
            return self.extra['k']()
        ini = (self.node.get('inner') or [{}])[0]
        if self.node.get('kind') == 'ForStmt' and ini.get('kind') == 'DeclStmt':
            for d in ini.get('inner', ()):
                if d.get('kind') == 'VarDecl' and self.has(d.get('name')):
                    v = self[d['name']]
                    if isint(v):
                        return v
                    if isinstance(v, Iter):
                        return v.idx
                    if isinstance(v, MapIter):
                        return v.key
        for nm in ('i', 'k', 'idx', 'n'):
            if self.has(nm) and isint(self[nm]):
                return self[nm]
        c = self._locals(lambda v: isint(v))
        if len(c) == 1:
            return c[0]
        raise KeyError('loop index')

    def _locals(self, pred):
        out = []
        for m in self.mods:
            if m[1]:
                continue
            v = self.it.cells[m[0]]
            if not isinstance(v, bool) and pred(v):
                out.append(v)
        return out

    def real(self, *names):
        """a modified local of type double: by name, else the only one"""
        for nm in names:
            if self.has(nm):
                return self[nm]
        c = self._locals(isr)
        if len(c) == 1:
            return c[0]
        raise KeyError('loop accumulator')

    def has(self, name):
        try:
            self[name]
            return True
        except KeyError:
            return False

    def __getitem__(self, name):
        f = self.frame
        while f is not None:
            if name in f.names:
                return self.it.val(f.names[name])
            f = f.parent
        raise KeyError(name)

    def entry(self, name):
        f = self.frame
        while f is not None:
            if name in f.names:
                lv = f.names[name]
                return self.it.load_from(self._entry, lv)
            f = f.parent
        raise KeyError(name)

    def lv(self, lv):
        return self.it.load(lv)

    def lv0(self, lv):
        return self.it.load_from(self._entry, lv)

    @property
    def this(self):
        return self.it.load(self.frame.this)

    @property
    def this0(self):
        return self.it.load_from(self._entry, self.frame.this)


class Interp:
    def __init__(self, eng, prefix, work):
        self.e, self.prefix, self.work = eng, prefix, work
        self.db, self.S = eng.db, eng.sorts
        self.k = 0
        self.taken = []
        self.cells = []
        self.ctypes = []
        self.pc = []
        self.nfresh = 0
        self.solver = SOLV.weak_solver(eng.quick_feas_ms)
        self.pckey, self.nsync = 0, 0
        self.stating = 0
        self.ncut, self.nstated, self.statekey = 0, {}, None
        self.frames = []
        self.locks = []
        self.wlogs = []
        self.depth = 0
        self.ghost = {}
        self.events = []
        self.task_name = ''
        self.loose = False

    # ------------------------------------------------------------ logic
    @property
    def replaying(self):
        return self.k < len(self.prefix)

    def fresh(self, t, name='v', defined=False):
        self.nfresh += 1
        if self.depth and not defined:
            self.loose = True        # a value the code computes is described, not followed
        nm = '%s!%d' % (name, self.nfresh)
        return self.fresh_named(t, nm)

    def fresh_named(self, t, nm):
        k = t[0]
        if k == 'class':
            f = {}
            for n, ft in self.S.fields(t[1]):
                if ft[0] == 'mutex':
                    f[n] = Opaque('mutex')
                elif ft[0] in ('future', 'sptr', 'ptr', 'opaque', 'iter'):
                    f[n] = Opaque(ft[0])
                else:
                    f[n] = self.fresh_named(ft, nm + '.' + n)
            return SV(self.db.find_class(t[1]).qname, f)
        if k == 'real':
            return z3.Real(nm)
        if k == 'int':
            x = z3.Int(nm)
            b = t[2]
            if not t[1]:
                self.assume(z3.And(x >= 0, x < 2 ** b))
            else:
                self.assume(z3.And(x >= -2 ** (b - 1), x < 2 ** (b - 1)))
            return x
        if k == 'bool':
            return z3.Bool(nm)
        if k == 'str':
            return z3.Int(nm)
        if k == 'yaml':
            return z3.Const(nm, self.S.sort(t))
        if k == 'opaque':
            return z3.Int(nm)
        if k == 'seq':
            n = z3.Int(nm + '.n')
            self.assume(z3.And(n >= 0, n < 2 ** 30))
            return Seq(t[1], t[2], None, n, z3.Array(nm + '.arr', z3.IntSort(), self.S.sort(t[1])))
        if k == 'eig':
            et = ('cplx',) if t[1] == 'c' else ('real',)
            if t[2] > 0 and t[3] > 0:
                return Mat(t[2], t[3], [self.fresh_named(et, nm + '[%d]' % i) for i in range(t[2] * t[3])], t[1])
            n = z3.Int(nm + '.n')
            self.assume(z3.And(n >= 0, n < 2 ** 30))
            return Seq(et, 'eig', None, n, z3.Array(nm + '.arr', z3.IntSort(), self.S.sort(et)))
        if k == 'cplx':
            return Cplx(z3.Real(nm + '.re'), z3.Real(nm + '.im'))
        if k == 'array':
            return Seq(t[1], 'array', [self.fresh_named(t[1], nm + '[%d]' % i) for i in range(t[2])])
        if k == 'pair':
            return SV('$pair', {'first': self.fresh_named(t[1], nm + '.first'), 'second': self.fresh_named(t[2], nm + '.second')})
        if k == 'quat':
            return SV('$quat', {c: z3.Real(nm + '.' + c) for c in 'wxyz'})
        if k == 'map':
            return SymMap(t[1], t[2], z3.Array(nm + '.dom', self.S.sort(t[1]), z3.BoolSort()), z3.Array(nm + '.val', self.S.sort(t[1]), self.S.sort(t[2])))
        if k == 'set':
            return self.S.val(t, z3.Const(nm, self.S.sort(t)))
        if k == 'triplet':
            return self.S.val(t, z3.Const(nm, self.S.sort(t)))
        if k in ('mutex',):
            return Opaque('mutex')
        if k in ('ptr', 'sptr', 'future', 'guard', 'iter', 'void'):
            return Opaque(k)
        if k == 'ref':
            return self.fresh_named(t[1], nm)
        raise Unsupported('fresh %r' % (t,))

    def assume(self, f):
        if f is True or f is None:
            return
        if f is False:
            raise Infeasible()
        if z3.is_true(f):
            return
        self.pc.append(f)
        self.pckey = hash((self.pckey, f.get_id()))
        self.e.keep.append(f)

    def simp(self, c):
        if isinstance(c, bool):
            return c
        s = z3.simplify(c)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        return c

    def pathkey(self, c, tag):
        # a path condition is identified by its terms, which are kept alive; the hash
        # chain only speeds the comparison up, the ids are compared in full
        self.e.keep.append(c)
        return (tag, self.pckey, tuple(f.get_id() for f in self.pc), c.get_id())

    def quick_check(self, c=None):
        k = self.pathkey(c if c is not None else z3.BoolVal(True), 'q')
        r = self.e.memo.get(k)
        if r is None:
            if self.nsync < len(self.pc):
                self.solver.add(*self.pc[self.nsync:])
                self.nsync = len(self.pc)
            r = self.e.memo[k] = self.solver.check(c) if c is not None else self.solver.check()
        return r

    def feasible(self, c):
        if isinstance(c, bool):
            return c
        return self.quick_check(c) != z3.unsat

    def entails(self, c):
        c = self.simp(c)
        if isinstance(c, bool):
            return c
        return self.quick_check(z3.Not(c)) == z3.unsat

    def branch(self, c):
        """decide a boolean, exploring both outcomes when both are possible"""
        c = self.simp(c)
        if isinstance(c, bool):
            return c
        if self.stating:
            # a term of an invariant is not a step of the program: it decides nothing
            if self.quick_check(z3.Not(c)) == z3.unsat:
                return True
            if self.quick_check(c) == z3.unsat:
                return False
            raise Unsupported('undecided condition in a stated term')
        if self.k < len(self.prefix):
            d = self.prefix[self.k]
            self.same_point(d, c.get_id())
            self.assume(c if d else z3.Not(c))
            return d
        t, f = self.feasible(c), self.feasible(z3.Not(c))
        if not t and not f:
            raise Infeasible()
        d = t
        if t and f:
            self.work.append(tuple(self.taken) + (False,))
        self.e.points[tuple(self.taken)] = c.get_id()
        self.k += 1
        self.taken.append(d)
        # keep the replay prefix in step
        self.prefix = tuple(self.taken)
        self.assume(c if d else z3.Not(c))
        return d

    def same_point(self, d, what):
        """a replayed decision is the one that was taken: same place, same condition"""
        k = tuple(self.taken)
        w = self.e.points.get(k)
        if w is not None and w != what:
            raise RuntimeError('replay went a different way (decision %d of %d)' % (len(k), len(self.prefix)))
        self.k += 1
        self.taken.append(d)

    def choose(self, n):
        if self.k < len(self.prefix):
            d = self.prefix[self.k]
            self.same_point(d, ('choose', n))
            return d
        self.e.points[tuple(self.taken)] = ('choose', n)
        for i in range(n - 1, 0, -1):
            self.work.append(tuple(self.taken) + (i,))
        self.k += 1
        self.taken.append(0)
        self.prefix = tuple(self.taken)
        return 0

    def oblige(self, name, goal, node=None, facts=None, func=None):
        """a proof obligation at this point of this path"""
        if self.stating:
            return True          # terms of an invariant, not of the program
        if self.replaying or (self.e.only and not self.e.only(name)):
            if not isinstance(goal, bool):
                self.assume(goal)
            elif goal is False:
                raise PathEnd()
            return True
        fn = func or (self.frames[-1].func.qname if self.frames and self.frames[-1].func else self.task_name)
        o = Oblig(name, loc_of(node), fn)
        t0 = time.time()
        g = self.simp(goal) if not isinstance(goal, bool) else goal
        if g is True:
            o.status, o.backend = 'proved', 'simplify'
        else:
            if not isinstance(g, bool) and SOLV.try_poly(goal, self.e.poly_rewrite):
                o.status, o.backend = 'proved', 'normal-form'
            elif self.e.poly_rewrite == 'only':
                o.status, o.backend = 'unknown', 'normal-form'
            else:
                to = self.e.timeout_ms
                if self.e.deadline:
                    to = max(500, min(to, int((self.e.deadline - time.time()) * 1000)))
                k = None if facts or isinstance(goal, bool) else self.pathkey(goal, 'o')
                r = self.e.memo.get(k) if k else None
                if r is None:
                    r = SOLV.check(self.pc + list(facts or ()), goal, to, self.e.seed, self.e.use_cvc5)
                    if k:
                        self.e.memo[k] = r
                o.status, o.backend, o.model = r
        o.secs = time.time() - t0
        self.e.stats.hit(o.backend, o.secs)
        o.goal = goal
        o.prefix = tuple(self.taken)
        # the path was followed statement by statement: a model of the negated obligation is an execution
        o.definite = not self.loose and not self.ncut and not self.e.invariants and not self.e.hooks
        self.e.obligs.append(o)
        if o.status != 'proved' and self.e.hooks.get('failed'):
            self.e.hooks['failed'](self, o)
        if isinstance(goal, bool):
            if goal is False:
                raise PathEnd()
        else:
            self.assume(goal)
        return o.status == 'proved'

    def cover(self, name):
        self.e.reached.add(name)

    # ------------------------------------------------------------ memory
    def alloc(self, v, t=None, label=None):
        self.cells.append(v)
        self.ctypes.append(t)
        return LV(len(self.cells) - 1)

    def new(self, v, t):
        return self.alloc(v, t)

    def load(self, lv):
        return self.load_from(self.cells, lv)

    def load_from(self, cells, lv):
        v = cells[lv.cell]
        for p in lv.path:
            v = self.proj(v, p)
        return v

    def proj(self, v, p):
        if p[0] == 'f':
            if isinstance(v, SV):
                if p[1] not in v.f:
                    raise Unsupported('field %s of %s' % (p[1], v.cls))
                return v.f[p[1]]
            if isinstance(v, Cplx):
                return getattr(v, p[1])
            raise Unsupported('field %s of %r' % (p[1], v))
        if p[0] == 'i':
            return self.elem(v, p[1])
        if p[0] == 'm':
            i, j = p[1], p[2]
            if not isinstance(v, Mat):
                if isinstance(v, Seq) and v.conc and j == 0:
                    return v.items[i]
                raise Unsupported('matrix access of %r' % (v,))
            return v.at(i, j)
        if p[0] == 'k':
            return self.map_get(v, p[1])
        if p[0] == 'y':
            from . import yaml
            return yaml.sel(v, p[1], p[2])
        raise Unsupported('path %r' % (p,))

    def elem(self, v, i):
        i = norm(i)
        if isinstance(v, Mat):
            items = v.d
        elif isinstance(v, Seq):
            if not v.conc:
                return self.S.val(v.et, select(v.arr, i))
            items = v.items
        else:
            raise Unsupported('index into %r' % (v,))
        if isinstance(i, int):
            if not 0 <= i < len(items):
                raise Unsupported('concrete index %d outside %d' % (i, len(items)))
            return items[i]
        if not items:
            if isinstance(v, Mat):
                return Fraction(0)
            # the index obligation is stated separately; this value is never relied on
            return self.S.val(v.et, self.S.default(v.et))
        r = items[-1]
        for k in range(len(items) - 2, -1, -1):
            r = self.vite(i == k, items[k], r)
        return r

    def vite(self, c, a, b):
        """if-then-else on values"""
        if isinstance(c, bool):
            return a if c else b
        if a is b:
            return a
        if isinstance(a, SV) and isinstance(b, SV):
            return SV(a.cls, {k: self.vite(c, a.f[k], b.f[k]) for k in a.f})
        if isinstance(a, Mat) and isinstance(b, Mat) and (a.r, a.c) == (b.r, b.c):
            return Mat(a.r, a.c, [self.vite(c, x, y) for x, y in zip(a.d, b.d)], a.k)
        if isinstance(a, Cplx):
            return Cplx(ite(c, a.re, b.re), ite(c, a.im, b.im))
        if isinstance(a, Seq) and isinstance(b, Seq):
            if a.conc and b.conc and len(a.items) == len(b.items):
                return Seq(a.et, a.kind, [self.vite(c, x, y) for x, y in zip(a.items, b.items)])
            t = ('seq', a.et, a.kind)
            return self.S.val(t, z3.If(c, self.S.term(t, a), self.S.term(t, b)))
        if isinstance(a, (Opaque,)) and isinstance(b, Opaque) and a.tag == b.tag:
            return a
        if isinstance(a, str) or isinstance(b, str):
            return z3.If(c, self.S.term(('str',), a), self.S.term(('str',), b))
        if (is_sym(a) or is_num(a) or isinstance(a, bool)) and (is_sym(b) or is_num(b) or isinstance(b, bool)):
            return ite(c, a, b)
        if isinstance(a, MapV) or isinstance(b, MapV) or isinstance(a, SymMap):
            t = ('map', a.kt, a.vt)
            return self.S.val(t, z3.If(c, self.S.term(t, a), self.S.term(t, b)))
        raise Unsupported('merge of %r and %r' % (a, b))

    def store(self, lv, v):
        if isinstance(lv, View):
            return self.store_view(lv, v)
        if not isinstance(lv, LV):
            raise Unsupported('store to %r' % (lv,))
        if lv.cell in self.S.frozen_cells:
            raise Unsupported('write to an object after a pointer to it was put into a symbolic container')
        if self.e.store_hook:
            self.e.store_hook(self, lv, v)
        if self.wlogs:
            key = self.wkey(lv)
            for log in self.wlogs:
                if lv.cell < log[0]:
                    log[1].add(key)
        self.cells[lv.cell] = self.upd(self.cells[lv.cell], lv.path, v)

    def wkey(self, lv):
        out = []
        for p in lv.path:
            if p[0] != 'f':
                break
            out.append(p[1])
        return (lv.cell, tuple(out))

    def upd(self, old, path, v):
        if not path:
            return v
        p = path[0]
        if p[0] == 'f':
            if isinstance(old, Cplx):
                return Cplx(v, old.im) if p[1] == 're' else Cplx(old.re, v)
            return old.with_(p[1], self.upd(old.f.get(p[1]) if old.cls == '$record' else old.f[p[1]], path[1:], v))
        if p[0] == 'm':
            if isinstance(old, Seq) and old.conc and p[2] == 0:
                it = list(old.items)
                it[p[1]] = self.upd(it[p[1]], path[1:], v)
                return Seq(old.et, old.kind, it)
            return old.set(p[1], p[2], self.upd(old.at(p[1], p[2]), path[1:], v))
        if p[0] == 'i':
            i = norm(p[1])
            if isinstance(old, Mat):
                if isinstance(i, int):
                    d = list(old.d)
                    d[i] = self.upd(d[i], path[1:], v)
                    return Mat(old.r, old.c, d, old.k)
                return Mat(old.r, old.c, [self.vite(i == k, self.upd(x, path[1:], v), x) for k, x in enumerate(old.d)], old.k)
            if old.conc:
                it = list(old.items)
                if isinstance(i, int):
                    it[i] = self.upd(it[i], path[1:], v)
                else:
                    it = [self.vite(i == k, self.upd(x, path[1:], v), x) for k, x in enumerate(it)]
                return Seq(old.et, old.kind, it)
            nv = self.upd(self.elem(old, i) if len(path) > 1 else None, path[1:], v)
            return Seq(old.et, old.kind, None, old.n, z3.Store(old.arr, iv(i), self.S.term(old.et, nv)))
        if p[0] == 'y':
            from . import yaml
            if p[2]:
                raise Unsupported('assignment to an element of a yaml sequence')
            return yaml.put(self, old, p[1], self.upd(yaml.sel(old, p[1]), path[1:], v))
        if p[0] == 'k':
            key = p[1]
            if isinstance(old, MapV) and not is_sym(key):
                d = dict(old.d)
                d[key] = self.upd(d.get(key), path[1:], v)
                return MapV(old.kt, old.vt, d)
            old = self.symmap(old)
            kk = self.S.term(old.kt, key)
            cur = self.S.val(old.vt, select_any(old.val, kk))
            nv = self.upd(cur, path[1:], v)
            return SymMap(old.kt, old.vt, old.dom, z3.Store(old.val, kk, self.S.term(old.vt, nv)))
        raise Unsupported('update %r' % (p,))

    def symmap(self, m):
        if isinstance(m, SymMap):
            return m
        t = ('map', m.kt, m.vt)
        return self.S.val(t, self.S.term(t, m))

    def map_get(self, m, key):
        if isinstance(m, MapV) and not is_sym(key):
            if key not in m.d:
                raise Unsupported('absent map key')
            return m.d[key]
        m = self.symmap(m)
        return self.S.val(m.vt, select_any(m.val, self.S.term(m.kt, key)))

    def map_has(self, m, key):
        if isinstance(m, MapV):
            if not is_sym(key):
                return key in m.d
            return lor(*[self.S.term(m.kt, key) == self.S.term(m.kt, k) for k in m.d])
        r = select_any(m.dom, self.S.term(m.kt, key))
        return self.simp(r)

    def view_vals(self, w):
        base = self.load(w.lv)
        if isinstance(base, Mat):
            return Mat(w.r, w.c, [base.d[k] for k in w.coords], base.k)
        if not base.conc:
            return Mat(w.r, w.c, [self.elem(base, k) for k in w.coords], 'c' if base.et == ('cplx',) else 'r')
        return Seq(base.et, 'eig', [base.items[k] for k in w.coords])

    def store_view(self, w, v):
        base = self.load(w.lv)
        vals = v.d if isinstance(v, Mat) else (v.items if isinstance(v, Seq) and v.conc else None)
        if vals is None:
            raise Unsupported('assignment of a symbolic-size vector to a block')
        if len(vals) != len(w.coords) or (isinstance(v, Mat) and w.r > 1 and w.c > 1 and (v.r, v.c) != (w.r, w.c)):
            self.oblige('Eigen block sizes agree', False)
        if isinstance(base, Seq) and not base.conc:
            arr = base.arr
            for k, x in zip(w.coords, vals):
                arr = z3.Store(arr, iv(k), self.S.term(base.et, x))
            return self.store(w.lv, Seq(base.et, base.kind, None, base.n, arr))
        d = list(base.d if isinstance(base, Mat) else base.items)
        for k, x in zip(w.coords, vals):
            d[k] = x
        self.store(w.lv, Mat(base.r, base.c, d, base.k) if isinstance(base, Mat) else Seq(base.et, base.kind, d))

    def val(self, x):
        if isinstance(x, LV):
            return self.load(x)
        if isinstance(x, View):
            return self.view_vals(x)
        return x

    # ------------------------------------------------------------ locks
    def lock(self, lv, node):
        key = self.lock_label(lv)
        if self.e.lock_hook:
            self.e.lock_hook('acquire', self, key, node)
        self.oblige('lock %s is not already held by this thread' % key, key not in self.locks, node)
        self.locks.append(key)

    def unlock(self, lv, node):
        key = self.lock_label(lv)
        self.oblige('unlock of %s which is held' % key, key in self.locks, node)
        if key in self.locks:
            self.locks.remove(key)
        if self.e.lock_hook:
            self.e.lock_hook('release', self, key, node)

    def lock_label(self, lv):
        names = [p[1] for p in lv.path if p[0] == 'f']
        return '%s' % ('.'.join(names) if names else 'cell%d' % lv.cell) + ('' if lv.cell == 0 else '')

    # ------------------------------------------------------------ functions
    def call(self, func, this, args, node=None, want_lv=False):
        """args: list of LV (references / glvalues) or values, already evaluated"""
        ov = self.e.overrides.get(func.qname)
        if ov is not None:
            r = ov(self, func, this, args, node)
            if r is not NotImplemented:
                self.loose = True
                return r
        if func.body is None:
            from . import models
            return models.call_bodyless(self, func, this, args, node)
        return self.enter(func, this, args, node)

    def enter(self, func, this, args, node=None):
        self.depth += 1
        if self.depth > 60:
            raise Unsupported('recursion deeper than 60 in %s' % func.qname)
        self.e.funcs_seen.setdefault(func.qname, 0)
        fr = Frame(func, func.tu, this)
        for p, a in zip(func.params, args):
            self.bind_param(fr, p, a)
        self.frames.append(fr)
        nl = len(self.locks)
        try:
            self.stmt(func.body)
            r = None
        except ReturnX as x:
            r = x.v
        finally:
            self.frames.pop()
            self.depth -= 1
            self.release(fr)
        return r

    def bind_param(self, fr, p, a):
        t = ntype(p, self.db)
        if t[0] == 'ref':
            if not isinstance(a, (LV, View)):
                a = self.alloc(self.convert(a, t[1]), t[1])
            fr.vars[p['id']] = a
        else:
            v = self.convert(self.val(a), t)
            fr.vars[p['id']] = self.alloc(v, t)
        if p.get('name'):
            fr.names[p['name']] = fr.vars[p['id']]
            fr.types[p['name']] = t

    def release(self, fr):
        for g in reversed(fr.guards):
            g(self)
        fr.guards = []

    def convert(self, v, t):
        """representation changes on initialisation: Eigen sizes"""
        if t[0] == 'real' and isinstance(v, int) and not isinstance(v, bool):
            return Fraction(v)
        if t[0] == 'real' and is_sym(v) and z3.is_int(v):
            return z3.ToReal(v)
        if t[0] == 'real' and isinstance(v, Mat):
            return v.d[0]
        if t[0] == 'eig' and t[2] > 0 and t[3] > 0 and isinstance(v, Seq):
            n = t[2] * t[3]
            if v.conc:
                if len(v.items) != n:
                    self.oblige('Eigen vector size agrees with its fixed size', False)
                return Mat(t[2], t[3], v.items)
            self.oblige('Eigen vector size agrees with its fixed size', iv(v.n) == n)
            return Mat(t[2], t[3], [self.elem(v, i) for i in range(n)])
        if t[0] == 'eig' and t[2] > 0 and t[3] > 0 and isinstance(v, Mat) and (v.r, v.c) != (t[2], t[3]):
            if v.r * v.c == t[2] * t[3]:
                return Mat(t[2], t[3], v.d, v.k)
            self.oblige('Eigen matrix size agrees with its fixed size', False)
        return v

    # ------------------------------------------------------------ construction
    def default_value(self, t, name='uninit'):
        k = t[0]
        if k in ('seq',):
            return Seq(t[1], t[2], [])
        if k == 'eig':
            if t[2] > 0 and t[3] > 0:
                return self.fresh(t, name, True)
            r, c = (0 if t[2] < 0 else t[2]), (0 if t[3] < 0 else t[3])
            return Mat(r, c, [], t[1])
        if k == 'map':
            return MapV(t[1], t[2], {})
        if k == 'set':
            return SetV(t[1], [])
        if k == 'str':
            return ''
        if k == 'class':
            return self.construct(t[1], [], None)
        if k in ('sptr', 'ptr'):
            return NULL if k == 'sptr' else Opaque('uninit-ptr')
        if k == 'future':
            return NULL
        if k == 'array':
            return Seq(t[1], 'array', [self.default_value(t[1], name) for _ in range(t[2])])
        if k == 'pair':
            z = lambda tt: Fraction(tt == ('real', 'one')) if tt[0] == 'real' else (0 if tt[0] == 'int' else self.default_value(tt))
            return SV('$pair', {'first': z(t[1]), 'second': z(t[2])})
        if k == 'cplx':
            return Cplx(Fraction(0), Fraction(0))
        if k == 'opaque':
            return Opaque(t[1])
        if k == 'yaml':
            from . import yaml
            return yaml.Y.Null
        if k == 'yemit':
            from . import yaml
            return yaml.Emit()
        return self.fresh(t, name, True)

    def zero_value(self, t):
        k = t[0]
        if k == 'real':
            return Fraction(0)
        if k in ('int',):
            return 0
        if k == 'bool':
            return False
        if k in ('ptr', 'sptr'):
            return NULL
        return self.default_value(t)

    def raw_object(self, cls):
        f = {}
        for n, ft in self.S.fields(cls):
            f[n] = Opaque('raw')
        return SV(self.db.find_class(cls).qname, f)

    def construct(self, clsname, args, node, argnodes=None, sig=None, f=None):
        c = self.db.find_class(clsname)
        if c is None:
            raise Unsupported('class %s' % clsname)
        short = c.qname.split('::')[-1].split('<')[0]
        ctors = [m for m in c.methods.get(short, []) if m.kind == 'CXXConstructorDecl']
        if sig is not None:      # the constructor clang chose
            sel = [m for m in ctors if m.node.get('type', {}).get('qualType') == sig and len(m.params) >= len(args)]
            if len(sel) == 1:
                f = sel[0]
        if f is None:
            f = self.pick(ctors, args, node)
        # copy / move without a user body
        if len(args) == 1 and (f is None or f.body is None):
            v = self.val(args[0])
            if isinstance(v, SV) and v.cls == c.qname:
                return v
        if f is not None and f.body is not None:
            ov = self.e.overrides.get(f.qname)
            if ov is not None:
                r = ov(self, f, None, args, node)
                if r is not NotImplemented:
                    self.loose = True
                    return r
            obj = self.alloc(self.raw_object(c.qname), ('class', c.qname))
            self.run_ctor(f, obj, args, c)
            return self.load(obj)
        if not args:
            obj = self.alloc(self.raw_object(c.qname), ('class', c.qname))
            self.default_fields(c, obj)
            return self.load(obj)
        raise Unsupported('constructor of %s with %d arguments' % (clsname, len(args)))

    def default_fields(self, c, obj, skip=()):
        for b in c.bases:
            bc = self.db.find_class(b)
            if bc and b not in skip:
                v = self.construct(bc.qname, [], None)
                for k, x in v.f.items():
                    self.store(obj.f(k), x)
        for n, tj, init in c.fields:
            if n in skip:
                continue
            t = ntype({'type': tj}, self.db)
            if init is not None:
                fr = Frame(None, getattr(c, 'tu', None), obj)
                self.frames.append(fr)
                try:
                    v = self.convert(self.init_value(init, t), t)
                finally:
                    self.frames.pop()
            else:
                v = self.default_value(t, c.qname.split('::')[-1] + '.' + n)
            self.store(obj.f(n), v)

    def run_ctor(self, f, obj, args, c):
        fr = Frame(f, f.tu, obj)
        for p, a in zip(f.params, args):
            self.bind_param(fr, p, a)
        self.frames.append(fr)
        self.depth += 1
        self.e.funcs_seen.setdefault(f.qname, 0)
        try:
            names = set()
            for i in f.inits:
                if 'anyInit' in i:
                    names.add(i['anyInit']['name'])
                elif 'baseInit' in i:
                    names.add(i['baseInit'].get('desugaredQualType', i['baseInit'].get('qualType')))
            if not any('delegatingInit' in i for i in f.inits):
                bn = {self.db.find_class(b).qname for b in names if self.db.find_class(b)}
                self.default_fields(c, obj, skip=names | bn | {b for b in c.bases if self.db.find_class(b) and self.db.find_class(b).qname in bn})
            for i in f.inits:
                e = i['inner'][0] if i.get('inner') else None
                if 'anyInit' in i:
                    n = i['anyInit']['name']
                    t = ntype(i['anyInit'], self.db)
                    if e is None or e.get('kind') == 'CXXDefaultInitExpr':
                        fld = [x for x in c.fields if x[0] == n][0]
                        e = fld[2]
                    v = self.convert(self.init_value(e, t), t)
                    self.store(obj.f(n), v)
                elif 'baseInit' in i:
                    v = self.rvalue(e)
                    if isinstance(v, Opaque):      # a base outside the extracted classes: its members, if any, are not accessible
                        continue
                    for k, x in v.f.items():
                        self.store(obj.f(k), x)
                else:
                    v = self.rvalue(e)
                    for k, x in v.f.items():
                        self.store(obj.f(k), x)
            try:
                self.stmt(f.body)
            except ReturnX:
                pass
        finally:
            self.frames.pop()
            self.depth -= 1
            self.release(fr)

    def init_value(self, e, t):
        if t[0] == 'ref':
            return self.glvalue(e)
        return self.rvalue(e)

    def pick(self, cands, args, node):
        """overload by arity and argument kinds"""
        best = []
        for f in cands:
            np = len(f.params)
            nd = sum(1 for p in f.params if 'init' in p)
            if not (np - nd <= len(args) <= np):
                continue
            s = 0
            for p, a in zip(f.params, args):
                m = self.match(ntype(p, self.db), a)
                if m is None:
                    s = None
                    break
                s += m
            if s is not None:
                best.append((s, f))
        if not best:
            return None
        best.sort(key=lambda x: -x[0])
        return best[0][1]

    def match(self, t, a):
        v = a
        if t[0] == 'ref':
            t = t[1]
        v = self.val(a)
        k = t[0]
        if k == 'class':
            return 3 if isinstance(v, SV) and (v.cls == t[1] or v.cls.split('::')[-1] == t[1].split('::')[-1]) else None
        if k == 'real':
            return 3 if isr(v) else (1 if is_num(v) or is_sym(v) and z3.is_int(v) else None)
        if k == 'int':
            return 3 if (isinstance(v, int) and not isinstance(v, bool)) or (is_sym(v) and z3.is_int(v)) else (1 if isr(v) or isinstance(v, bool) else None)
        if k == 'bool':
            return 3 if isinstance(v, bool) or (is_sym(v) and z3.is_bool(v)) else (1 if is_num(v) else None)
        if k == 'str':
            return 3 if isinstance(v, str) else (2 if is_sym(v) and z3.is_int(v) else None)
        if k == 'eig':
            if isinstance(v, Mat):
                return 3
            return 3 if isinstance(v, Seq) and v.kind == 'eig' else None
        if k == 'seq':
            return 3 if isinstance(v, Seq) and v.kind != 'eig' and self.same_et(v.et, t[1]) else None
        if k == 'map':
            return 3 if isinstance(v, (MapV, SymMap)) else None
        if k in ('ptr', 'sptr'):
            return 3 if v is NULL or isinstance(v, (Ptr, Opaque)) else None
        if k == 'quat':
            return 3 if isinstance(v, SV) and v.cls == '$quat' else None
        if k == 'pair':
            return 3 if isinstance(v, SV) and v.cls == '$pair' else None
        return 0

    def same_et(self, a, b):
        return a == b or a is None or b is None or a[0] == b[0] and (a[0] != 'class' or a[1].split('::')[-1] == b[1].split('::')[-1])

    # ------------------------------------------------------------ statements
    def scope(self, nodes):
        fr = self.frames[-1]
        mark = len(fr.guards)
        try:
            for s in nodes:
                self.stmt(s)
        finally:
            while len(fr.guards) > mark:
                fr.guards.pop()(self)

    def stmt(self, n):
        if not n:
            return
        k = n['kind']
        m = getattr(self, 's_' + k, None)
        if m is not None:
            return m(n)
        self.ev(n)

    def s_CompoundStmt(self, n):
        self.scope(n.get('inner', ()))

    def s_NullStmt(self, n):
        pass

    def s_DeclStmt(self, n):
        for d in n.get('inner', ()):
            if d.get('kind') == 'VarDecl':
                self.decl(d)

    def tu(self):
        return self.frames[-1].tu if self.frames else None

    def decl(self, d):
        fr = self.frames[-1]
        t = ntype(d, self.db)
        ini = [x for x in d.get('inner', ()) if x and not x.get('kind', '').endswith('Attr') and 'kind' in x and x['kind'] not in ('FullComment',)]
        if d.get('storageClass') == 'static' and not ('constexpr' in d or 'const ' in d['type']['qualType']):
            q = '$static:%s:%s' % (fr.func.qname if fr.func else '', d['name'])
            if q not in self.ghost:
                if self.e.mode == 'proof' and t[0] not in ('class', 'opaque'):
                    v = self.fresh(t, d['name'])         # may hold anything an earlier call left there
                else:
                    v = self.rvalue(ini[0]) if ini else self.zero_value(t)
                    if isinstance(v, Opaque) and v.tag == 'rng':
                        v = Opaque('rng', None)
                self.ghost[q] = self.alloc(v, t)
            fr.vars[d['id']] = self.ghost[q]
            fr.names[d.get('name')] = self.ghost[q]
            return
        if t[0] == 'guard':
            self.guard_decl(d, ini[0])
            return
        if 'LogMessage' in d['type']['qualType'] or 'ostream' in d['type']['qualType']:
            return
        if t[0] == 'ref':
            x = self.ev(ini[0])
            if not isinstance(x, (LV, View)):
                x = self.alloc(x, t[1])
            lv = x
        else:
            if ini:
                v = self.rvalue(ini[0])
                v = self.convert(v, t)
            else:
                v = self.default_value(t, d.get('name', 'v'))
            lv = self.alloc(v, t)
            if t[0] == 'class':
                dt = self.dtor_of(t[1])
                if dt is not None:
                    fr.guards.append(lambda it, f=dt, l=lv: it.enter(f, l, []))
        fr.vars[d['id']] = lv
        if d.get('name'):
            fr.names[d['name']] = lv
            fr.types[d['name']] = t

    def dtor_of(self, cls):
        c = self.db.find_class(cls)
        if not c:
            return None
        for nm, fs in c.methods.items():
            if nm.startswith('~'):
                for f in fs:
                    if f.body is not None and not f.node.get('isImplicit') and f.body.get('inner'):
                        return f
        return None

    def guard_decl(self, d, ini):
        e = ini
        while e.get('kind') in ('ExprWithCleanups', 'ImplicitCastExpr', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr', 'CXXFunctionalCastExpr'):
            e = e['inner'][0]
        args = [a for a in e.get('inner', ()) if a.get('kind') != 'CXXDefaultArgExpr']
        lvs = []
        for a in args:
            lv = self.ev(a)
            if isinstance(lv, LV) and isinstance(self.load(lv), Opaque) and self.load(lv).tag == 'mutex':
                lvs.append(lv)
        if not lvs or len(args) != len(lvs):
            raise Unsupported('lock guard form')
        for lv in lvs:
            self.lock(lv, d)
        fr = self.frames[-1]
        obj = {'held': True}
        cell = self.alloc(Opaque('guard', (lvs, obj)), ('guard',))
        fr.vars[d['id']] = cell
        if d.get('name'):
            fr.names[d['name']] = cell

        def rel(it, lvs=lvs, obj=obj):
            if obj['held']:
                for lv in reversed(lvs):
                    key = it.lock_label(lv)
                    if key in it.locks:
                        it.locks.remove(key)
                        if it.e.lock_hook:
                            it.e.lock_hook('release', it, key, d)
        fr.guards.append(rel)

    def s_IfStmt(self, n):
        inner = list(n['inner'])
        fr = self.frames[-1]
        mark = len(fr.guards)
        try:
            if n.get('hasInit'):
                self.stmt(inner.pop(0))
            if n.get('hasVar'):
                self.stmt(inner.pop(0))
            c = self.truth(self.rvalue(inner[0]))
            if self.branch(c):
                self.stmt(inner[1])
            elif len(inner) > 2:
                self.stmt(inner[2])
        finally:
            while len(fr.guards) > mark:
                fr.guards.pop()(self)

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if is_num(v):
            return v != 0
        if v is NULL:
            return False
        if isinstance(v, Ptr):
            return True
        if is_sym(v):
            if z3.is_bool(v):
                return v
            return v != 0
        if isinstance(v, Opaque) and v.tag == 'null?':
            return v.data
        raise Unsupported('condition %r' % (v,))

    def s_ReturnStmt(self, n):
        inner = n.get('inner', ())
        if not inner:
            raise ReturnX(None)
        x = self.ev(inner[0])
        f = self.frames[-1].func
        if f is not None and not isinstance(x, (LV, View)):
            t = self.ret_type(f)
            if t is not None:
                x = self.convert(x, t)
        if isinstance(x, View) and not (f is not None and f.node['type']['qualType'].split('(')[0].strip().endswith('&')):
            x = self.val(x)
        raise ReturnX(x)

    def ret_type(self, f):
        q = f.node['type']['qualType']
        d, i = 0, 0
        # return type precedes the parameter list
        for i, ch in enumerate(q):
            if ch == '<':
                d += 1
            elif ch == '>':
                d -= 1
            elif ch == '(' and d == 0:
                break
        from .front import parse_type
        try:
            t = parse_type(q[:i].strip(), self.db)
        except Exception:
            return None
        return None if t[0] in ('ref', 'void', 'opaque') else t

    def s_BreakStmt(self, n):
        raise BreakX()

    def s_ContinueStmt(self, n):
        raise ContinueX()

    def s_CXXThrowExpr(self, n):
        raise ThrowX(loc_of(n))

    def s_CXXTryStmt(self, n):
        inner = n['inner']
        fr = self.frames[-1]
        nf = len(self.frames)
        try:
            self.stmt(inner[0])
        except ThrowX as e:
            del self.frames[nf:]
            h = inner[1]
            # first handler (catch by base class or by value); ours all catch std::exception
            fr2 = self.frames[-1]
            body = [c for c in h['inner'] if c and c.get('kind') == 'CompoundStmt'][0]
            for c in h['inner']:
                if c and c.get('kind') == 'VarDecl':
                    fr2.vars[c['id']] = self.alloc(Opaque('exception'), ('opaque', 'exception'))
            self.stmt(body)

    def s_SwitchStmt(self, n):
        inner = [x for x in n['inner'] if x]
        c = self.rvalue(inner[-2])
        body = inner[-1]
        flat = []

        def add(s):
            while s.get('kind') in ('CaseStmt', 'DefaultStmt'):
                if s['kind'] == 'CaseStmt':
                    flat.append(('case', self.rvalue(s['inner'][0])))
                    s = s['inner'][-1]
                else:
                    flat.append(('default', None))
                    s = s['inner'][-1]
            flat.append(('stmt', s))
        for s in body.get('inner', ()):
            add(s)
        start = None
        for i, (k, v) in enumerate(flat):
            if k == 'case' and self.branch(cmp('==', c, v)):
                start = i
                break
        if start is None:
            d = [i for i, (k, v) in enumerate(flat) if k == 'default']
            if not d:
                return
            start = d[0]
        try:
            self.scope([s for k, s in flat[start:] if k == 'stmt'])
        except BreakX:
            pass

    # ------------------------------------------------------------ loops
    def s_WhileStmt(self, n):
        inner = [x for x in n['inner'] if x]
        if n.get('hasVar'):
            # glog CHECK_op: while (_result = Check_op(...)) LogMessageFatal
            ds = inner[0]
            v = [d for d in ds['inner'] if d['kind'] == 'VarDecl'][0]
            ini = [x for x in v.get('inner', ()) if x.get('kind')]
            ok = self.rvalue(ini[0])
            if isinstance(ok, Opaque) and ok.tag == 'check':
                self.check_fatal(ok.data, n)
                return
            raise Unsupported('while with a declaration')
        self.loop(n, None, inner[0], None, inner[1])

    def s_DoStmt(self, n):
        body, cond = n['inner'][0], n['inner'][1]
        try:
            self.stmt(body)
        except ContinueX:
            pass
        except BreakX:
            return
        self.loop(n, None, cond, None, body)

    def s_ForStmt(self, n):
        ini, _, cond, inc, body = n['inner']
        fr = self.frames[-1]
        mark = len(fr.guards)
        try:
            if ini:
                self.stmt(ini)
            self.loop(n, None, cond or None, inc or None, body)
        finally:
            while len(fr.guards) > mark:
                fr.guards.pop()(self)

    def loop(self, n, _, cond, inc, body):
        def c():
            return True if not cond else self.truth(self.rvalue(cond))

        def b():
            try:
                self.stmt(body)
            except ContinueX:
                pass

        def i():
            if inc:
                self.ev(inc)
        self.run_loop(n, c, b, i, cond)

    def run_loop(self, n, c, b, i, cond=None, extra=None):
        fr = self.frames[-1]
        fr.level += 1
        try:
            return self.run_loop1(n, c, b, i, cond, extra)
        finally:
            fr.level -= 1

    def run_loop1(self, n, c, b, i, cond=None, extra=None):
        """c(): condition, b(): body, i(): increment"""
        count = 0
        before, taken = list(self.cells), len(self.taken)
        while True:
            cv = self.simp(c())
            if cv is True and count >= 3 and len(self.taken) >= taken + count and all(x is y for x, y in zip(before, self.cells)):
                # waiting: no state of this thread changed, another turn starts from the state of the first one
                self.e.assumptions.add('waiting loop at %s: turns that change nothing are looked at %d times' % (loc_of(n), count))
                raise PathEnd()
            if cv is True and self.e.mode == 'bounded' and count >= self.e.unroll and endless(n):
                self.e.assumptions.add('bounded: at most %d iterations of the loop at %s' % (self.e.unroll, loc_of(n)))
                raise PathEnd()
            if cv is True and self.e.cut_all and self.e.mode == 'proof' and self.frames[-1].func and self.frames[-1].func.name in self.e.cut_all:
                return self.cut(n, c, b, i, cond, extra)
            if not isinstance(cv, bool):
                if self.e.mode == 'bounded':
                    cv = self.branch(cv)
                    if cv and count >= self.e.unroll:
                        self.e.assumptions.add('bounded: at most %d iterations of the loop at %s' % (self.e.unroll, loc_of(n)))
                        raise PathEnd()
                else:
                    # decided by the path condition?
                    if self.entails(cv):
                        cv = True
                        if count >= self.e.peel:
                            return self.cut(n, c, b, i, cond, extra)
                    elif self.entails(z3.Not(cv)):
                        cv = False
                    elif self.e.unwind:
                        cv = self.branch(cv)
                        if cv and count >= self.e.unwind:
                            self.oblige('loop ends within %d iterations' % self.e.unwind, False, n)
                            raise PathEnd()
                    else:
                        return self.cut(n, c, b, i, cond, extra)
            if not cv:
                return
            count += 1
            if count > 20000:
                raise Unsupported('loop of more than 20000 iterations')
            try:
                b()
            except BreakX:
                return
            i()

    def cut(self, n, c, b, i, cond, extra):
        """loop with a symbolic number of iterations: prove and use an invariant"""
        key = (tuple(self.taken), n.get('id'), len(self.frames), self.frames[-1].tu)
        info = self.e.loopinfo.setdefault(key, {'mod': {}, 'dead': set(), 'checked': False})
        entry = list(self.cells)
        base = len(self.cells)
        fr = self.frames[-1]
        # modified locations found so far, coarsest prefixes only
        mods = sorted(info['mod'])
        mods = [m for m in mods if not any(o != m and o[0] == m[0] and m[1][:len(o[1])] == o[1] for o in mods)]

        self.ncut += 1
        ncut = self.ncut

        def cands(phase):
            L = LoopCtx(self, fr, entry, n, extra, mods)
            L.phase, L.level = phase, fr.level
            L.store = info
            out = []
            fn = fr.func.name if fr.func else ''
            gen = list(self.e.invariants.get(fn, ())) + list(self.e.invariants.get('*', ()))
            for lab, f in gen:
                if lab in info['dead']:
                    continue
                back = self.begin_stating(ncut, phase)
                try:
                    g = f(L)
                except (KeyError, AttributeError, Unsupported, TypeError, IndexError, z3.Z3Exception):
                    if os.environ.get('DCV_DEBUG'):
                        traceback.print_exc()
                    continue
                finally:
                    self.end_stating(back)
                if g is None:
                    continue
                if isinstance(g, list):
                    for j, x in enumerate(g):
                        if (lab, j) not in info['dead']:
                            out.append(((lab, j), x))
                else:
                    out.append((lab, g))
            back = self.begin_stating(ncut, phase)
            try:
                gen = [] if self.e.hooks.get('no_generic') else [(l, g) for l, g in self.generic_cands(L, entry, mods, cond, extra) if l not in info['dead']]
            finally:
                self.end_stating(back)
            info['gen'] = set(l for l, _ in gen)
            out += gen
            return out
        # 1. candidates hold on entry
        if not self.replaying:
            info['entry'] = set()
            for lab, g in cands('entry'):
                if not self.quick_prove(g, 700 if lab in info['gen'] else 3000):
                    info['dead'].add(lab)
                    self.note_dead(fr, n, lab, 'entry')
                else:
                    info['entry'].add(lab)
        # 2. arbitrary iteration
        shapes = {}
        for m in mods:
            lv = LV(m[0], tuple(('f', x) for x in m[1]))
            for log in self.wlogs:
                if m[0] < log[0]:
                    log[1].add(m)
            self.cells[m[0]] = self.upd(self.cells[m[0]], lv.path, self.havoc(self.load(lv), self.type_at(lv), m in info.get('reshaped', ())))
            h = self.load(lv)
            if isinstance(h, Mat):
                shapes[m] = (h.r, h.c)
            elif hasattr(h, 'shape'):
                shapes[m] = h.shape()
        assumed = set()
        for lab, g in cands('assume'):
            # only what was proved on entry (and is proved inductive below)
            if lab in info['entry']:
                self.assume(g)
                assumed.add(lab)
            else:
                info['dead'].add(lab)
        cv = c()
        side = self.choose(2)
        if side == 0:
            self.assume(cv)
            log = (base, set())
            self.wlogs.append(log)
            try:
                try:
                    b()
                except BreakX:
                    self.wlogs.remove(log)
                    self.check_mods(info, log, mods, key[0])
                    return
                i()
            finally:
                if log in self.wlogs:
                    self.wlogs.remove(log)
                self.check_mods(info, log, mods, key[0])
            # matrices were assumed to keep their shape
            for m, sh in shapes.items():
                h = self.load(LV(m[0], tuple(('f', x) for x in m[1])))
                if hasattr(h, 'shape'):
                    if h.shape() != sh:
                        raise Unsupported('open yaml containers change in a loop')
                    continue
                if not isinstance(h, Mat) or (h.r, h.c) != sh:
                    info.setdefault('reshaped', set()).add(m)
                    raise Restart(key[0])
            c2 = [(lab, g) for lab, g in cands('step') if lab in assumed]
            # what was assumed must be stated (and proved) again
            bad = [lab for lab in assumed if lab not in set(l for l, _ in c2)]
            if not self.replaying:
                for lab, g in c2:
                    if not self.quick_prove(g, 700 if lab in info['gen'] else 3000):
                        bad.append(lab)
                        self.note_dead(fr, n, lab, 'step')
            if bad:
                info['dead'].update(bad)
                raise Restart(key[0])
            # the surviving invariants of this loop are discharged obligations
            for lab, g in c2:
                self.oblige('loop invariant %s is inductive' % (lab if isinstance(lab, str) else lab[0],), g, n)
            raise PathEnd()
        # the loop may also be left by the condition
        self.assume(lnot(cv) if not isinstance(cv, bool) else (not cv))
        self.e.cutexits.setdefault(n.get('id'), [loc_of(n), False])
        if self.quick_check() == z3.unsat:
            raise Infeasible()
        self.e.cutexits[n.get('id')][1] = True

    def begin_stating(self, ncut, phase):
        """terms of invariants are built apart: no cells, fresh names or decisions of the path are used up"""
        back = (len(self.cells), self.nfresh)
        self.nfresh = self.nstated.get((ncut, phase), 10 ** 6 * (3 * ncut + ('entry', 'assume', 'step').index(phase)))
        self.stating += 1
        self.statekey = (ncut, phase)
        return back

    def end_stating(self, back):
        self.stating -= 1
        self.nstated[self.statekey] = self.nfresh
        del self.cells[back[0]:]
        del self.ctypes[back[0]:]
        self.nfresh = back[1]

    def note_dead(self, fr, n, lab, why):
        if self.e.hooks.get('dead'):
            self.e.hooks['dead'](fr, n, lab, why)

    def check_mods(self, info, log, mods, prefix):
        new = False
        for k in log[1]:
            if not any(o[0] == k[0] and k[1][:len(o[1])] == o[1] for o in mods):
                if k not in info['mod']:
                    info['mod'][k] = True
                    new = True
        if new:
            raise Restart(prefix)

    def quick_prove(self, g, quick_ms=3000):
        g = self.simp(g)
        if isinstance(g, bool):
            return g
        k = self.pathkey(g, 'p')
        r = self.e.memo.get(k)
        if r is None:
            r = self.e.memo[k] = SOLV.check(self.pc, g, min(self.e.timeout_ms, quick_ms), self.e.seed, False, weak_only=quick_ms < 1000)[0]
        return r == 'proved'

    def type_at(self, lv):
        t = self.ctypes[lv.cell]
        for p in lv.path:
            if t is None:
                return None
            if p[0] == 'f':
                if t[0] == 'class':
                    d = dict(self.S.fields(t[1]))
                    t = d.get(p[1])
                elif t[0] == 'pair':
                    t = t[1] if p[1] == 'first' else t[2]
                else:
                    return None
        return t

    def havoc(self, v, t, reshaped=False):
        if isinstance(v, Iter):
            return Iter(v.lv, self.fresh(('int', True, 64), 'it'))
        if isinstance(v, MapIter) and v.present is None:
            return MapIter(v.lv, self.fresh(('int', True, 64), 'it'), None)
        if hasattr(v, 'shape'):
            from . import yaml
            return yaml.havoc(self, v)
        if t is not None and t[0] not in ('opaque', 'iter', 'ptr', 'sptr', 'ref'):
            if t[0] == 'eig' and isinstance(v, Mat) and (t[2] < 0 or t[3] < 0) and not reshaped:
                return Mat(v.r, v.c, [self.fresh(('real',), 'h') for _ in v.d], v.k)
            return self.fresh(t, 'h')
        if isinstance(v, bool) or (is_sym(v) and z3.is_bool(v)):
            return self.fresh(('bool',), 'h')
        if isr(v):
            return self.fresh(('real',), 'h')
        if isinstance(v, int) or is_sym(v):
            return self.fresh(('int', True, 64), 'h')
        if isinstance(v, Mat):
            return Mat(v.r, v.c, [self.havoc(x, None) for x in v.d], v.k)
        if isinstance(v, Seq):
            return self.fresh(('seq', v.et, v.kind), 'h')
        if isinstance(v, SV):
            return SV(v.cls, {k: self.havoc(x, None) for k, x in v.f.items()})
        raise Unsupported('havoc of %r' % (v,))

    def generic_cands(self, L, entry, mods, cond, extra):
        """name-independent candidate invariants"""
        out = []
        k = None
        if extra is not None:
            k = sub(extra['k'](), extra['k0'](entry) if 'k0' in extra else 0)
        idx = []
        for m in mods:
            lv = LV(m[0], tuple(('f', x) for x in m[1]))
            try:
                v, v0 = self.load(lv), self.load_from(entry, lv)
            except Exception:
                continue
            nm = 'c%d%s' % (m[0], ''.join('.' + x for x in m[1]))
            if isinstance(v, Iter) and isinstance(v0, Iter):
                out.append((nm + '>=0', cmp('>=', v.idx, v0.idx)))
                out.append((nm + '<=end', cmp('<=', v.idx, self.seq_len(self.load(v.lv)))))
                idx.append(sub(v.idx, v0.idx))
                continue
            if isinstance(v, MapIter) and isinstance(v0, MapIter):
                if v.present is None and v0.present is None:
                    out.append((nm + '>=0', cmp('>=', v.key, v0.key)))
                    out.append((nm + '<=end', cmp('<=', v.key, self.map_size(self.load(v.lv)))))
                    idx.append(sub(v.key, v0.key))
                continue
            if isint(v) and isint(v0):
                out.append((nm + '>=init', cmp('>=', v, v0)))
                out.append((nm + '<=init', cmp('<=', v, v0)))
                idx.append(sub(v, v0))
                if k is not None:
                    out.append((nm + '=init+k', cmp('==', v, add(v0, k))))
        if k is not None:
            idx.insert(0, k)
        for m in mods:
            lv = LV(m[0], tuple(('f', x) for x in m[1]))
            try:
                v, v0 = self.load(lv), self.load_from(entry, lv)
            except Exception:
                continue
            nm = 'c%d%s' % (m[0], ''.join('.' + x for x in m[1]))
            for path, a, a0 in self.subseqs(v, v0):
                out.append((nm + path + '.n=init', cmp('==', a.n, a0.n)))
                for q, ix in enumerate(idx):
                    out.append((nm + path + '.n=init+i%d' % q, cmp('==', a.n, add(a0.n, ix))))
                out.append((nm + path + '.n>=init', cmp('>=', a.n, a0.n)))
            if isinstance(v, Seq) is False:
                for path, a, a0 in self.scalars(v, v0):
                    if path:
                        out.append((nm + path + '=init', cmp('==', a, a0)))
        # the loop condition's own bound
        if cond is not None:
            e = cond
            while e.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups'):
                e = e['inner'][0]
            if e.get('kind') == 'BinaryOperator' and e.get('opcode') in ('<', '<=', '!='):
                try:
                    a, b = self.rvalue(e['inner'][0]), self.rvalue(e['inner'][1])
                    if not isr(a) and not isr(b):
                        out.append(('bound', cmp('<=', a, b if e['opcode'] != '<=' else add(b, 1))))
                        if is_sym(a) or is_num(a):
                            out.append(('bound0', lor(cmp('<=', a, b), cmp('<', b, 0))))
                except (Unsupported, PathEnd, ThrowX):
                    pass
        return out

    def subseqs(self, v, v0, path='', d=0):
        if isinstance(v, Seq) and isinstance(v0, (Seq, Mat)):
            if not isinstance(v0, Seq):
                v0 = Seq(('real',), 'eig', v0.d)
            yield path, v, v0
        elif isinstance(v, SV) and isinstance(v0, SV) and d < 3:
            for k in v.f:
                yield from self.subseqs(v.f[k], v0.f.get(k), path + '.' + k, d + 1)

    def scalars(self, v, v0, path='', d=0):
        if isinstance(v, SV) and isinstance(v0, SV) and d < 2:
            for k in v.f:
                yield from self.scalars(v.f[k], v0.f.get(k), path + '.' + k, d + 1)
        elif (is_sym(v) or is_num(v)) and (is_sym(v0) or is_num(v0)):
            yield path, v, v0

    def seq_len(self, v):
        if isinstance(v, Seq):
            return v.n
        if isinstance(v, Mat):
            return len(v.d)
        if isinstance(v, (MapV,)):
            return len(v.d)
        if isinstance(v, SetV):
            return len(v.items)
        raise Unsupported('size of %r' % (v,))

    def s_CXXForRangeStmt(self, n):
        inner = n['inner']
        rng = inner[1]['inner'][0]
        rini = [x for x in rng['inner'] if x.get('kind')][0]
        var = inner[6]['inner'][0]
        body = inner[7]
        if inner[0]:
            self.stmt(inner[0])
        r = self.ev(rini)
        if not isinstance(r, (LV, View)):
            r = self.alloc(r, None)
        self.for_each(n, r, lambda x: self.range_body(var, x, body))

    def range_body(self, var, x, body):
        fr = self.frames[-1]
        t = ntype(var, self.db)
        if t[0] == 'ref' or var['type']['qualType'].rstrip().endswith('&'):
            if not isinstance(x, LV):
                x = self.alloc(x, None)
            lv = x
        else:
            lv = self.alloc(self.convert(self.val(x), t), t)
        fr.vars[var['id']] = lv
        if var.get('name'):
            fr.names[var['name']] = lv
            fr.types[var['name']] = t
        mark = len(fr.guards)
        try:
            self.stmt(body)
        except ContinueX:
            pass
        finally:
            while len(fr.guards) > mark:
                fr.guards.pop()(self)

    def for_each(self, n, rlv, body, start=0, end=None):
        """iterate a container location with a hidden index"""
        v = self.val(rlv)
        if isinstance(v, SetV):
            for x in v.items:
                try:
                    body(self.alloc(x, v.et))
                except BreakX:
                    return
            return
        if isinstance(v, MapV):
            for k in sorted(v.d):
                c = self.alloc(SV('$pair', {'first': k, 'second': v.d[k]}), ('pair', v.kt, v.vt))
                try:
                    body(c)
                except BreakX:
                    return
                nv = self.load(c.f('second'))
                if nv is not v.d[k]:
                    self.store(LV(rlv.cell, rlv.path + (('k', k),)), nv)
            return
        if isinstance(v, SymSet):
            return self.for_each_set(n, rlv, v, body)
        if isinstance(v, SymMap):
            return self.for_each_map(n, rlv, v, body)
        if isinstance(rlv, View):
            for x in (v.d if isinstance(v, Mat) else v.items):
                body(self.alloc(x, None))
            return
        kc = self.alloc(start, ('int', True, 64))

        def c():
            hi = end if end is not None else self.seq_len(self.val(rlv))
            return cmp('<', self.load(kc), hi)

        def b():
            body(rlv.i(self.load(kc)))

        def i():
            self.store(kc, add(self.load(kc), 1))
        hi = end if end is not None else self.seq_len(v)
        extra = {'k': lambda: self.load(kc), 'k0': lambda cells: self.load_from(cells, kc), 'start': start, 'end': hi, 'seq': rlv, 'n': hi}
        # the hidden index stays within the range (names the bound generically)
        fakecond = None
        self.e.invariants.setdefault('*', [])
        if not any(l == '$range' for l, _ in self.e.invariants['*']):
            self.e.invariants['*'].append(('$range', lambda L: land(cmp('<=', L.extra['start'], L.extra['k']()), cmp('<=', L.extra['k'](), L.extra['n'])) if L.extra and 'n' in L.extra else None))
        self.run_loop(n, c, b, i, fakecond, extra)

    def map_enum(self, m):
        """the keys of a symbolic map in iteration order: (key at position, position of key, number of keys)"""
        m = self.symmap(m)
        memo = self.ghost.setdefault('$enum', {})
        h = m.dom.get_id()
        if h in memo:
            return memo[h][1]
        ks = self.S.sort(m.kt)
        self.nfresh += 1
        K = z3.Function('mapkey!%d' % self.nfresh, z3.IntSort(), ks)
        I = z3.Function('mappos!%d' % self.nfresh, ks, z3.IntSort())
        n = z3.Function('card', m.dom.sort(), z3.IntSort())(m.dom)
        i, j, k = z3.Int('me!i'), z3.Int('me!j'), z3.Const('me!k', ks)
        dom = m.dom
        if not (z3.is_const(dom) or dom.num_args() == 1):
            dom = z3.Const('mapdom!%d' % self.nfresh, m.dom.sort())
            self.assume(dom == m.dom)
        self.assume(z3.And(n >= 0, n < 2 ** 30))
        self.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(z3.Select(dom, K(i)), I(K(i)) == i)), patterns=[K(i)]))
        self.assume(z3.ForAll([k], z3.Implies(z3.Select(dom, k), z3.And(I(k) >= 0, I(k) < n, K(I(k)) == k)), patterns=[I(k)]))
        if ks == z3.IntSort():
            self.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), K(i) < K(j)), patterns=[z3.MultiPattern(K(i), K(j))]))
        memo[h] = (m.dom, (K, I, n))
        return K, I, n

    def map_size(self, m):
        return len(m.d) if isinstance(m, MapV) else norm(self.map_enum(m)[2])

    def for_each_map(self, n, rlv, v, body):
        """iteration over a symbolic map: a hidden position in the order of the keys"""
        kc = self.alloc(0, ('int', True, 64))
        size = self.map_size(v)

        def c():
            return cmp('<', self.load(kc), size)

        def b():
            from . import models
            pr = models.mapiter_deref(self, MapIter(rlv, self.load(kc), None), n)
            before = self.load(pr.f('second'))
            body(pr)
            after = self.load(pr.f('second'))
            if after is not before:
                self.store(LV(rlv.cell, rlv.path + (('k', self.load(pr.f('first'))),)), after)

        def i():
            self.store(kc, add(self.load(kc), 1))
        extra = {'k': lambda: self.load(kc), 'k0': lambda cells: self.load_from(cells, kc), 'start': 0, 'end': size, 'map': rlv, 'map0': v, 'n': size}
        if not any(l == '$range' for l, _ in self.e.invariants.setdefault('*', [])):
            self.e.invariants['*'].append(('$range', lambda L: land(cmp('<=', L.extra['start'], L.extra['k']()), cmp('<=', L.extra['k'](), L.extra['n'])) if L.extra and 'n' in L.extra else None))
        self.run_loop(n, c, b, i, None, extra)

    def symset(self, v):
        if isinstance(v, SymSet):
            return v
        t = ('set', v.et)
        return self.S.val(t, self.S.term(t, v))

    def set_elem(self, v, i):
        """the element at a position of the iteration order"""
        return self.S.val(v.vt, select_any(v.val, self.map_enum(v)[0](iv(i))))

    def for_each_set(self, n, rlv, v, body):
        kc = self.alloc(0, ('int', True, 64))
        size = self.map_size(v)
        c = lambda: cmp('<', self.load(kc), size)
        b = lambda: body(self.alloc(self.set_elem(v, self.load(kc)), v.vt))
        i = lambda: self.store(kc, add(self.load(kc), 1))
        extra = {'k': lambda: self.load(kc), 'k0': lambda cells: self.load_from(cells, kc), 'start': 0, 'end': size, 'set': rlv, 'set0': v, 'n': size}
        if not any(l == '$range' for l, _ in self.e.invariants.setdefault('*', [])):
            self.e.invariants['*'].append(('$range', lambda L: land(cmp('<=', L.extra['start'], L.extra['k']()), cmp('<=', L.extra['k'](), L.extra['n'])) if L.extra and 'n' in L.extra else None))
        self.run_loop(n, c, b, i, None, extra)

    # ------------------------------------------------------------ checks
    def check_fatal(self, ok, node):
        """CHECK(cond) of glog: a false condition aborts the process"""
        if self.e.hooks.get('abort_ok'):
            if not self.branch(ok):
                self.events.append(('abort', loc_of(node)))
                r = self.e.hooks['abort_ok'](self, node)
                raise PathEnd()
            return
        self.oblige('CHECK does not abort', ok, node)
        self.assume(ok)

    # ------------------------------------------------------------ expressions
    def rvalue(self, n):
        return self.val(self.ev(n))

    def glvalue(self, n):
        x = self.ev(n)
        if not isinstance(x, (LV, View)):
            x = self.alloc(x, None)
        return x

    def ev(self, n):
        k = n['kind']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise Unsupported('expression %s at %s' % (k, loc_of(n)))
        return m(n)

    def passthru(self, n):
        return self.ev(n['inner'][0])

    e_ParenExpr = e_ExprWithCleanups = e_CXXBindTemporaryExpr = e_ConstantExpr = passthru

    def e_SubstNonTypeTemplateParmExpr(self, n):
        return self.ev([x for x in n['inner'] if x.get('kind') != 'NonTypeTemplateParmDecl'][-1])

    e_CXXStdInitializerListExpr = passthru

    def e_MaterializeTemporaryExpr(self, n):
        x = self.ev(n['inner'][0])
        if isinstance(x, (LV, View)):
            if n['inner'][0].get('valueCategory') == 'prvalue' and isinstance(x, LV):
                if x.path and x.path[-1][0] == 'y':
                    return x        # a yaml node is a handle
                return self.alloc(self.load(x), ntype(n, self.db))
            return x
        return self.alloc(x, ntype(n, self.db))

    def e_IntegerLiteral(self, n):
        return int(n['value'])

    def e_CharacterLiteral(self, n):
        return int(n['value'])

    def e_FloatingLiteral(self, n):
        return lit_real(n['value'], n['type']['qualType'] == 'float')

    def e_CXXBoolLiteralExpr(self, n):
        return bool(n['value'])

    def e_StringLiteral(self, n):
        import ast
        try:
            return ast.literal_eval(n['value'])
        except Exception:
            return n['value']

    def e_CXXNullPtrLiteralExpr(self, n):
        return NULL

    e_GNUNullExpr = e_CXXNullPtrLiteralExpr

    def e_CXXThisExpr(self, n):
        f = self.frames[-1]
        while f is not None and f.this is None:
            f = f.parent
        return Ptr(f.this)

    def e_PredefinedExpr(self, n):
        return '__func__'

    def e_SourceLocExpr(self, n):
        return 0

    def e_UnaryExprOrTypeTraitExpr(self, n):
        return 8

    def lookup(self, i):
        f = self.frames[-1]
        while f is not None:
            if i in f.vars:
                return f.vars[i]
            f = f.parent
        return None

    def e_DeclRefExpr(self, n):
        r = n['referencedDecl']
        lv = self.lookup(r['id'])
        if lv is not None:
            return lv
        k = r['kind']
        if k == 'EnumConstantDecl':
            key = (self.tu(), r['id'])
            if key in self.db.enums:
                return self.db.enums[key]
            if r['name'] in self.db.enum_by_name:
                return self.db.enum_by_name[r['name']]
            return Opaque('enum', r['name'])
        if k == 'VarDecl':
            return self.global_lv(n, r)
        if k in ('FunctionDecl', 'CXXMethodDecl'):
            f = self.db.resolve_id(self.tu(), r['id'])
            return Opaque('func', (f, r.get('name')))
        raise Unsupported('reference to %s %s' % (k, r.get('name')))

    def global_lv(self, n, r):
        tu = self.tu()
        q = self.db.glob_by_id.get((tu, r['id']))
        if q is None:
            cands = [g for g in self.db.globals if g.split('::')[-1] == r['name']]
            if len(cands) == 1:
                q = cands[0]
            elif cands and self.frames[-1].func is not None and self.frames[-1].func.cls:
                c2 = [g for g in cands if g.startswith(self.frames[-1].func.cls)]
                q = c2[0] if len(c2) == 1 else None
        if q is None:
            if r['name'] in ('cout', 'cerr', 'clog', 'endl'):
                return Opaque('stream')
            raise Unsupported('global %s' % r['name'])
        if q in self.ghost:
            return self.ghost[q]
        node, gtu = self.db.globals[q]
        t = ntype(node, self.db)
        if q in self.e.glob_cache:
            v = self.e.glob_cache[q]
        else:
            ini = [x for x in node.get('inner', ()) if x.get('kind') and not x['kind'].endswith('Attr')]
            if not ini:
                v = self.default_value(t, q)
            else:
                fr = Frame(None, gtu)
                self.frames.append(fr)
                try:
                    v = self.convert(self.rvalue(ini[0]), t)
                finally:
                    self.frames.pop()
                self.e.glob_cache[q] = v
        lv = self.alloc(v, t)
        self.ghost[q] = lv
        return lv

    # casts
    def e_ImplicitCastExpr(self, n):
        ck = n.get('castKind')
        if ck == 'LValueToRValue':
            return self.val(self.ev(n['inner'][0]))
        if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'ConstructorConversion', 'UserDefinedConversion', 'FunctionToPointerDecay',
                  'BuiltinFnToFnPtr', 'ArrayToPointerDecay', 'BitCast', 'FloatingCast', 'AtomicToNonAtomic', 'NonAtomicToAtomic'):
            return self.ev(n['inner'][0])
        if ck == 'IntegralCast':
            return self.int_cast(self.rvalue(n['inner'][0]), ntype(n, self.db), ntype(n['inner'][0], self.db))
        if ck == 'IntegralToFloating':
            v = self.rvalue(n['inner'][0])
            if isinstance(v, bool):
                v = int(v)
            if is_sym(v) and z3.is_bool(v):
                return z3.If(v, z3.RealVal(1), z3.RealVal(0))
            return Fraction(v) if not is_sym(v) else rv(v)
        if ck == 'FloatingToIntegral':
            v = self.rvalue(n['inner'][0])
            if is_num(v):
                return int(v)
            return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean'):
            v = self.rvalue(n['inner'][0])
            if isinstance(v, Opaque) and v.tag == 'check':
                return v
            return self.truth(v)
        if ck == 'NullToPointer':
            return NULL
        if ck == 'ToVoid':
            self.ev(n['inner'][0])
            return None
        raise Unsupported('cast %s at %s' % (ck, loc_of(n)))

    e_CXXStaticCastExpr = e_CStyleCastExpr = e_CXXFunctionalCastExpr = e_CXXConstCastExpr = e_ImplicitCastExpr

    def int_cast(self, v, t, st):
        if isinstance(v, Opaque):
            return v
        if isinstance(v, bool):
            v = int(v)
        if is_sym(v) and z3.is_bool(v):
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if t[0] != 'int':
            return v
        if not t[1]:
            if st[0] == 'int' and not st[1] and st[2] <= t[2]:
                return v
            return self.wrap(v, t[2])
        if st[0] == 'int' and not st[1] and st[2] >= t[2]:
            m = 2 ** (t[2] - 1)
            if isinstance(v, int):
                v = v % (2 ** t[2])
                return v - 2 ** t[2] if v >= m else v
            if self.entails(cmp('<', v, m)):
                return v
            return z3.If(v < m, v, v - 2 ** st[2])
        return v

    def wrap(self, v, bits):
        if isinstance(v, int):
            return v % (2 ** bits)
        if self.entails(cmp('>=', v, 0)):
            return v
        if self.entails(cmp('<', v, 0)):
            return v + 2 ** bits
        return z3.If(v >= 0, v, v + 2 ** bits)

    # operators
    def e_UnaryOperator(self, n):
        op = n['opcode']
        s = n['inner'][0]
        if op == '&':
            x = self.ev(s)
            if isinstance(x, LV):
                return Ptr(x)
            return x
        if op == '*':
            p = self.rvalue(s)
            if isinstance(p, Ptr):
                return p.lv
            if isinstance(p, Opaque) and p.tag == 'func':
                return p
            if p is NULL:
                self.oblige('no null dereference', False, n)
            raise Unsupported('dereference of %r' % (p,))
        if op in ('++', '--'):
            lv = self.ev(s)
            old = self.val(lv)
            t = ntype(n, self.db)
            if isinstance(old, Iter):
                new = Iter(old.lv, add(old.idx, 1 if op == '++' else -1))
            else:
                new = add(old, 1) if op == '++' else sub(old, 1)
                if t[0] == 'int' and not t[1]:
                    new = self.wrap(new, t[2]) if op == '--' else new
            self.store(lv, new)
            return old if n.get('isPostfix') else lv
        v = self.rvalue(s)
        if op == '-':
            if isinstance(v, bool):
                v = int(v)
            return neg(v)
        if op == '+':
            return v
        if op == '!':
            if isinstance(v, Opaque) and v.tag == 'check':
                return Opaque('check', lnot(v.data))
            return lnot(self.truth(v))
        raise Unsupported('unary %s' % op)

    def e_BinaryOperator(self, n):
        op = n['opcode']
        l, r = n['inner']
        if op == ',':
            self.ev(l)
            return self.ev(r)
        if op == '=':
            lv = self.ev(l)
            v = self.rvalue(r)
            self.store(lv, v)
            return lv
        if op in ('&&', '||'):
            a = self.truth(self.rvalue(l))
            if isinstance(a, bool):
                if op == '&&':
                    return self.truth(self.rvalue(r)) if a else False
                return True if a else self.truth(self.rvalue(r))
            if self.pure(r):
                # no side effect and no obligation on the right: keep it as a formula
                saved = (len(self.pc), self.k)
                b = self.truth(self.rvalue(r))
                return land(a, b) if op == '&&' else lor(a, b)
            if self.branch(a):
                return self.truth(self.rvalue(r)) if op == '&&' else True
            return False if op == '&&' else self.truth(self.rvalue(r))
        a, b = self.rvalue(l), self.rvalue(r)
        return self.arith(op, a, b, ntype(n, self.db), n)

    def pure(self, n):
        k = n.get('kind')
        if k in ('DeclRefExpr', 'IntegerLiteral', 'FloatingLiteral', 'CXXBoolLiteralExpr', 'CXXThisExpr', 'CXXNullPtrLiteralExpr'):
            return True
        if k in ('ImplicitCastExpr', 'ParenExpr', 'MemberExpr', 'CStyleCastExpr', 'CXXStaticCastExpr'):
            if k == 'MemberExpr' and n.get('isArrow'):
                b = n['inner'][0]
                while b.get('kind') == 'ImplicitCastExpr':
                    b = b['inner'][0]
                if b.get('kind') != 'CXXThisExpr':
                    return False
            return all(self.pure(c) for c in n.get('inner', ()))
        if k == 'BinaryOperator':
            return n['opcode'] in ('<', '<=', '>', '>=', '==', '!=', '+', '-', '*', '&&', '||') and all(self.pure(c) for c in n['inner'])
        if k == 'UnaryOperator':
            return n['opcode'] in ('-', '!', '+') and all(self.pure(c) for c in n['inner'])
        return False

    def arith(self, op, a, b, t, n):
        if isinstance(a, bool) and op not in ('==', '!='):
            a = int(a)
        if isinstance(b, bool) and op not in ('==', '!='):
            b = int(b)
        if is_sym(a) and z3.is_bool(a) and op in ('+', '-', '*', '&', '|'):
            a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
        if is_sym(b) and z3.is_bool(b) and op in ('+', '-', '*', '&', '|'):
            b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
        if op in ('<', '<=', '>', '>=', '==', '!='):
            if isinstance(a, (Ptr, Opaque)) or isinstance(b, (Ptr, Opaque)) or a is NULL or b is NULL:
                return self.ptr_cmp(op, a, b)
            if isinstance(a, Iter):
                return cmp(op, a.idx, b.idx)
            return cmp(op, a, b)
        if isinstance(a, Iter) and op in ('+', '-'):
            if isinstance(b, Iter):
                return sub(a.idx, b.idx)
            return Iter(a.lv, add(a.idx, b) if op == '+' else sub(a.idx, b))
        isint = t[0] == 'int'
        if op == '+':
            return add(a, b)
        if op == '-':
            r = sub(a, b)
            return self.wrap(r, t[2]) if isint and not t[1] else r
        if op == '*':
            return mul(a, b)
        if op == '/':
            if isint:
                if is_num(b):
                    if b == 0:
                        self.oblige('divisor is not zero', False, n)
                else:
                    self.oblige('divisor is not zero', cmp('!=', b, 0), n)
                if is_num(a) and is_num(b):
                    q = abs(a) // abs(b)
                    return q if (a >= 0) == (b >= 0) else -q
                a, b = iv(a), iv(b)
                if self.entails(z3.And(a >= 0, b > 0)):
                    return a / b
                return z3.If(a >= 0, z3.If(b > 0, a / b, -(a / -b)), z3.If(b > 0, -((-a) / b), (-a) / (-b)))
            return self.fdiv(a, b, n)
        if op == '%':
            if is_num(a) and is_num(b):
                r = abs(a) % abs(b)
                return r if a >= 0 else -r
            a, b = iv(a), iv(b)
            return z3.If(a >= 0, a % b, -((-a) % b))
        if op in ('<<', '>>', '&', '|', '^') and isinstance(a, int) and isinstance(b, int):
            return {'<<': a << b, '>>': a >> b, '&': a & b, '|': a | b, '^': a ^ b}[op]
        if op in ('&', '|', '^'):
            x, y = self.as_flag(a), self.as_flag(b)
            if x is not None and y is not None:
                f = land(x, y) if op == '&' else lor(x, y) if op == '|' else lnot(cmp('==', bv(x), bv(y)))
                return ite(f, 1, 0)
        raise Unsupported('binary %s at %s' % (op, loc_of(n)))

    @staticmethod
    def as_flag(a):
        """an integer that came from a bool"""
        if isinstance(a, int) and a in (0, 1):
            return bool(a)
        if is_sym(a) and z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE and str(a.arg(1)) == '1' and str(a.arg(2)) == '0':
            return a.arg(0)
        return None

    def fdiv(self, a, b, n):
        """floating division: the divisor must not be zero (a zero divisor would give inf or nan)"""
        if is_num(b):
            if b == 0:
                self.oblige('floating divisor is not zero', False, n)
        else:
            self.oblige('floating divisor is not zero', cmp('!=', b, 0), n)
        return rdiv(a, b)

    def ptr_cmp(self, op, a, b):
        def isnull(x):
            if x is NULL or (isinstance(x, int) and x == 0):
                return True
            if isinstance(x, Ptr):
                return False
            raise Unsupported('pointer %r' % (x,))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            e = a.lv.key() == b.lv.key()
            if not e and a.lv.cell == b.lv.cell and any(h.cell == a.lv.cell for h in self.S.heap.values()):
                raise Unsupported('comparison of pointers held in a symbolic container')
        elif isinstance(a, Opaque) and isinstance(b, Opaque):
            e = (a.tag, a.data) == (b.tag, b.data)
        else:
            e = isnull(a) and isnull(b)
        return e if op == '==' else not e

    def e_CompoundAssignOperator(self, n):
        op = n['opcode'][:-1]
        l, r = n['inner']
        b = self.rvalue(r)
        lv = self.ev(l)
        a = self.val(lv)
        t = ntype(n, self.db)
        ct = ntype(n, self.db, 'computeResultType') if 'computeResultType' in n else t
        v = self.arith(op, a, b, ct, n)
        if t[0] == 'int' and (isr(v)):
            v = int(v) if is_num(v) else z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        self.store(lv, v)
        return lv

    def e_ConditionalOperator(self, n):
        c, a, b = n['inner']
        if ntype(n, self.db) == ('void',):
            # glog: cond ? (void)0 : LogMessageVoidify() & LogMessageFatal.stream()
            fatal = has_kind_name(b, 'LogMessageFatal') or has_kind_name(a, 'LogMessageFatal')
            if fatal:
                cv = self.truth(self.rvalue(c))
                neg_branch = has_kind_name(b, 'LogMessageFatal')
                self.check_fatal(cv if neg_branch else lnot(cv), n)
                return None
            if has_kind_name(a, 'LogMessage') or has_kind_name(b, 'LogMessage'):
                return None
        cv = self.truth(self.rvalue(c))
        if self.branch(cv):
            return self.ev(a)
        return self.ev(b)

    def e_ArraySubscriptExpr(self, n):
        a = self.ev(n['inner'][0])
        i = self.rvalue(n['inner'][1])
        a = a.lv if isinstance(a, Ptr) else a
        return a.i(i)

    def e_InitListExpr(self, n):
        t = ntype(n, self.db)
        xs = [self.rvalue(x) for x in n.get('inner', ())]
        if t[0] == 'array':
            while len(xs) < t[2]:
                xs.append(self.zero_value(t[1]))
            return Seq(t[1], 'array', xs)
        if t[0] == 'class':
            f = {}
            for (nm, ft), x in zip(self.S.fields(t[1]), xs):
                f[nm] = self.convert(x, ft)
            for nm, ft in self.S.fields(t[1])[len(xs):]:
                f[nm] = self.zero_value(ft)
            return SV(self.db.find_class(t[1]).qname, f)
        if t[0] == 'pair':
            return SV('$pair', {'first': xs[0], 'second': xs[1]})
        if len(xs) == 1 and t[0] in ('real', 'int', 'bool'):
            return xs[0]
        return Seq(None, 'ilist', xs)

    def e_ImplicitValueInitExpr(self, n):
        return self.zero_value(ntype(n, self.db))

    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def e_CXXDefaultInitExpr(self, n):
        raise Unsupported('default member initialiser')

    def e_LambdaExpr(self, n):
        rec = n['inner'][0]
        m = [c for c in rec.get('inner', ()) if c.get('kind') == 'CXXMethodDecl' and c.get('name') == 'operator()'][0]
        return Lam(m, self.frames[-1], self.tu())

    def call_lambda(self, lam, args):
        fr = Frame(self.frames[-1].func, lam.tu, None, lam.frame)
        ps = [c for c in lam.node.get('inner', ()) if c.get('kind') == 'ParmVarDecl']
        body = [c for c in lam.node.get('inner', ()) if c.get('kind') == 'CompoundStmt'][0]
        for p, a in zip(ps, args):
            self.bind_param(fr, p, a)
        self.frames.append(fr)
        try:
            self.stmt(body)
            r = None
        except ReturnX as x:
            r = x.v
        finally:
            self.frames.pop()
            self.release(fr)
        return r

    def e_StmtExpr(self, n):
        raise Unsupported('statement expression')

    def e_CXXNewExpr(self, n):
        v = self.rvalue(n['inner'][-1]) if n.get('inner') else None
        return Ptr(self.alloc(v, None))

    def e_CXXThrowExpr(self, n):
        raise ThrowX(loc_of(n))

    # members
    def e_MemberExpr(self, n):
        b = n['inner'][0]
        name = n['name']
        h = self.e.hooks.get('field:' + name)
        if h:
            r = h(self, n)
            if r is not NotImplemented:
                return r
        if n.get('isArrow'):
            p = self.rvalue(b)
            if isinstance(p, Ptr):
                lv = p.lv
            elif isinstance(p, Iter):
                lv = self.deref_iter(p, n)
            elif p is NULL:
                self.oblige('no null dereference', False, n)
            else:
                raise Unsupported('member %s of pointer %r' % (name, p))
        else:
            lv = self.ev(b)
        if not isinstance(lv, (LV,)):
            if isinstance(lv, SV) and name in lv.f:
                return lv.f[name]
            if isinstance(lv, Opaque):
                return Opaque('member', (lv, name))
            lv = self.alloc(lv, None)
        if isinstance(lv, LV):
            if name == 'second' and not lv.path and lv.cell in self.ghost.get('mapref', ()):
                mlv, key = self.ghost['mapref'][lv.cell]
                return LV(mlv.cell, mlv.path + (('k', key),))
            v = self.load(lv)
            if isinstance(v, SV) and (name in v.f or v.cls == '$record'):
                # ($record: settings of an unmodelled library class, any field may be written)
                return lv.f(name)
            if isinstance(v, Opaque):
                return Opaque('member', (v, name))
        # static data member through an object
        cands = [g for g in self.db.globals if g.endswith('::' + name)]
        if len(cands) == 1:
            return self.global_lv(n, {'id': None, 'name': name})
        raise Unsupported('member %s of %r' % (name, self.val(lv)))

    def deref_iter(self, it, n):
        if isinstance(it, MapIter):
            from . import models
            return models.mapiter_deref(self, it, n)
        sz = self.seq_len(self.load(it.lv))
        self.oblige('iterator is dereferenceable', land(cmp('>=', it.idx, 0), cmp('<', it.idx, sz)), n)
        return it.lv.i(it.idx)

    # calls
    def callee(self, n):
        c = n['inner'][0]
        while c.get('kind') in ('ImplicitCastExpr', 'ParenExpr'):
            c = c['inner'][0]
        return c

    def args_for(self, f, nodes):
        out = []
        for i, a in enumerate(nodes):
            if a.get('kind') == 'CXXDefaultArgExpr':
                p = f.params[i]
                ini = [x for x in p.get('inner', ()) if x.get('kind') and not x['kind'].endswith('Attr')]
                if not ini:
                    raise Unsupported('default argument of %s' % f.qname)
                fr = Frame(f, f.tu)
                self.frames.append(fr)
                try:
                    out.append(self.ev(ini[0]))
                finally:
                    self.frames.pop()
            else:
                out.append(self.ev(a))
        return out

    def find_method(self, objval, name, nargs, args=None, const=None):
        """resolve a member of a class that lives in another dump"""
        if not isinstance(objval, SV):
            return None
        c = self.db.find_class(objval.cls)
        seen = []
        while c is not None:
            fs = [m for m in c.methods.get(name, [])]
            seen += fs
            if fs:
                break
            c = self.db.find_class(c.bases[0]) if c.bases else None
        if not seen:
            return None
        return self.pick(seen, args, None) if args is not None else seen[0]

    def e_CXXMemberCallExpr(self, n):
        from . import models
        c = self.callee(n)
        argn = n['inner'][1:]
        if c['kind'] != 'MemberExpr':
            raise Unsupported('member call through %s' % c['kind'])
        name = c['name']
        b = c['inner'][0]
        f = self.db.resolve_id(self.tu(), c.get('referencedMemberDecl'))
        if models.is_logging(n):
            return Opaque('stream')
        # the object
        obj = self.ev(b)
        if c.get('isArrow'):
            p = self.val(obj)
            if isinstance(p, Ptr):
                obj = p.lv
            elif isinstance(p, Iter) or isinstance(p, MapIter):
                obj = self.deref_iter(p, n)
            elif p is NULL:
                self.oblige('no null dereference', False, n)
            else:
                obj = p
        if f is not None and not f.node.get('isImplicit'):
            args = self.args_for(f, argn)
            if not isinstance(obj, LV):
                obj = self.alloc(self.val(obj), ('class', f.cls))
            return self.call(f, obj, args, n)
        v = self.val(obj)
        if isinstance(v, SV) and not v.cls.startswith('$'):
            args = [self.ev(a) for a in argn if a.get('kind') != 'CXXDefaultArgExpr']
            f = self.find_method(v, name, len(args), args)
            if f is not None:
                args = self.args_for(f, argn)
                if not isinstance(obj, LV):
                    obj = self.alloc(v, ('class', f.cls))
                return self.call(f, obj, args, n)
        return models.member(self, n, name, obj, argn)

    def e_CallExpr(self, n):
        from . import models
        c = self.callee(n)
        argn = n['inner'][1:]
        if c['kind'] == 'DeclRefExpr':
            r = c['referencedDecl']
            f = self.db.resolve_id(self.tu(), r['id'])
            if f is None and r['kind'] in ('CXXMethodDecl', 'FunctionDecl'):
                f = self.static_elsewhere(n, c, r, argn)
            if f is not None:
                args = self.args_for(f, argn)
                return self.call(f, None, args, n)
            return models.free(self, n, r['name'], argn, c)
        if c['kind'] == 'MemberExpr':
            # static member called through an object
            f = self.db.resolve_id(self.tu(), c.get('referencedMemberDecl'))
            if f is not None:
                args = self.args_for(f, argn)
                return self.call(f, None, args, n)
        if c['kind'] == 'UnaryOperator':
            p = self.rvalue(c['inner'][0])
            if isinstance(p, Opaque) and p.tag == 'func' and p.data[0] is not None:
                return self.call(p.data[0], None, self.args_for(p.data[0], argn), n)
        raise Unsupported('call through %s at %s' % (c['kind'], loc_of(n)))

    def static_elsewhere(self, n, c, r, argn):
        """a static member / free function declared in another dump"""
        name = r['name']
        cands = [f for f in self.db.funcs.values() if f.name == name and f.body is not None and (f.file or '').startswith(FRONT_REPO)]
        if not cands:
            return None
        qt = r.get('type', {}).get('qualType')
        same = [f for f in cands if f.node['type']['qualType'].replace('mav_trajectory_generation::', '') == (qt or '').replace('mav_trajectory_generation::', '')]
        if len(same) >= 1:
            return same[0]
        return None

    def e_CXXOperatorCallExpr(self, n):
        from . import models
        c = self.callee(n)
        argn = n['inner'][1:]
        r = c.get('referencedDecl', {})
        f = self.db.resolve_id(self.tu(), r.get('id')) if r else None
        if models.is_logging(n):
            return Opaque('stream')
        name = r.get('name') or c.get('name')
        if f is not None and not f.node.get('isImplicit') and (f.body is not None):
            if f.kind == 'CXXMethodDecl':
                obj = self.ev(argn[0])
                args = self.args_for(f, argn[1:])
                if not isinstance(obj, LV):
                    obj = self.alloc(self.val(obj), ('class', f.cls))
                return self.call(f, obj, args, n)
            return self.call(f, None, self.args_for(f, argn), n)
        xs = [self.ev(a) for a in argn]
        v0 = self.val(xs[0])
        if isinstance(v0, Lam) and name == 'operator()':
            return self.call_lambda(v0, xs[1:])
        if isinstance(v0, SV) and not v0.cls.startswith('$'):
            g = self.find_method(v0, name, len(xs) - 1, xs[1:])
            if g is not None and g.body is not None and not g.node.get('isImplicit'):
                obj = xs[0] if isinstance(xs[0], LV) else self.alloc(v0, ('class', g.cls))
                return self.call(g, obj, xs[1:], n)
            if name == 'operator=':
                self.store(xs[0], self.val(xs[1]))
                return xs[0]
            # free operator on classes
            fs = [q for q in self.db.funcs.values() if q.name == name and q.kind == 'FunctionDecl' and q.body is not None]
            g = self.pick(fs, xs, n)
            if g is not None:
                return self.call(g, None, xs, n)
        return models.operator(self, n, name, xs, argn)

    def e_CXXConstructExpr(self, n):
        from . import models
        t = ntype(n, self.db)
        argn = [a for a in n.get('inner', ())]
        if t[0] == 'class':
            c = self.db.find_class(t[1])
            live = [a for a in argn if a.get('kind') != 'CXXDefaultArgExpr']
            args = [self.ev(a) for a in live]
            if len(live) != len(argn):
                short = c.qname.split('::')[-1].split('<')[0]
                fs = [m for m in c.methods.get(short, []) if m.kind == 'CXXConstructorDecl' and len(m.params) == len(argn)]
                f = self.pick(fs, args, n)
                if f is not None:
                    args = args + self.args_for(f, argn)[len(live):]
            return self.construct(t[1], args, n, sig=n.get('ctorType', {}).get('qualType'))
        return models.construct(self, n, t, argn)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_CXXInheritedCtorInitExpr(self, n):
        raise Unsupported('inherited constructor')

    def e_UserDefinedLiteral(self, n):
        return Opaque('udl')


def isint(v):
    if isinstance(v, bool):
        return False
    return isinstance(v, int) or (is_sym(v) and z3.is_int(v))


def self_symmap(L, lv):
    return L.it.symmap(L.it.val(lv))


def select_any(arr, k):
    a = arr
    while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
        j = a.arg(1)
        if j.eq(k):
            return a.arg(2)
        if (z3.is_int_value(j) and z3.is_int_value(k)):
            a = a.arg(0)
            continue
        break
    if z3.is_const_array(a):
        return a.arg(0)
    return z3.Select(a, k)


def endless(n):
    """while (true), for (;;), do ... while (true)"""
    inner = n.get('inner') or []
    if n.get('kind') == 'ForStmt':
        c = inner[2] if len(inner) > 2 else None
    elif n.get('kind') == 'DoStmt':
        c = inner[-1] if inner else None
    else:
        c = inner[-2] if len(inner) > 1 else None
    while c and c.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups'):
        c = (c.get('inner') or [None])[0]
    return not c or c.get('kind') == 'CXXBoolLiteralExpr' or c.get('kind') == 'IntegerLiteral'


def has_kind_name(n, nm):
    if not n:
        return False
    if nm in n.get('type', {}).get('qualType', ''):
        return True
    return any(has_kind_name(c, nm) for c in n.get('inner', ()))


def lit_real(s, is_float=False):
    import struct
    x = float(s)
    if is_float:
        f32 = lambda y: struct.unpack('f', struct.pack('f', y))[0]
        for p in range(1, 10):
            d = '%.*g' % (p, x)
            if f32(float(d)) == f32(x):
                return Fraction(d)
    return Fraction(repr(x))
