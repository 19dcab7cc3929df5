"""Assumed contracts of the library calls the repository makes (Eigen, STL, libm,
glog, yaml-cpp, std::thread machinery).  They are part of the trusted base."""
from fractions import Fraction
import math
import z3
from .front import ntype, parse_type
from .values import *
from . import yaml
from .exec import PathEnd, ThrowX, BreakX, ContinueX, loc_of, select_any, has_kind_name

RS = z3.RealSort()
F_sqrt = z3.Function('sqrt', RS, RS)
F_exp = z3.Function('exp', RS, RS)
F_sin = z3.Function('sin', RS, RS)
F_cos = z3.Function('cos', RS, RS)
F_acos = z3.Function('acos', RS, RS)
F_asin = z3.Function('asin', RS, RS)
F_atan2 = z3.Function('atan2', RS, RS, RS)
F_pow = z3.Function('pow', RS, RS, RS)
F_log = z3.Function('log', RS, RS)
F_vnorm = z3.Function('vecnorm', z3.IntSort(), z3.ArraySort(z3.IntSort(), RS), RS)
DBL_MAX = z3.Real('DBL_MAX')
INF = z3.Real('INF')       # only ever compared and stored
EPS = Fraction(1, 2 ** 52)
NAN = z3.Real('NaN')

LOGTYPES = ('google::LogMessage', 'google::LogMessageVoidify', 'google::LogMessageFatal')


def is_logging(n):
    """an output expression: LOG(..) << .., std::cout << .., std::cerr << .."""
    q = n.get('type', {}).get('qualType', '')
    if n['kind'] == 'CXXOperatorCallExpr':
        c = n['inner'][0]
        while c.get('kind') in ('ImplicitCastExpr', 'ParenExpr'):
            c = c['inner'][0]
        nm = c.get('referencedDecl', {}).get('name')
        if nm == 'operator<<' and ('ostream' in q or 'basic_ostream' in q):
            return root_stream(n)
        if nm == 'operator&' and 'LogMessageVoidify' in n['inner'][1].get('type', {}).get('qualType', ''):
            return True
    if n['kind'] == 'CXXMemberCallExpr':
        c = n['inner'][0]
        if c.get('kind') == 'MemberExpr' and c['name'] == 'stream' and 'LogMessage' in c['inner'][0].get('type', {}).get('qualType', ''):
            return True
    return False


def root_stream(n):
    while n.get('kind') == 'CXXOperatorCallExpr':
        n = n['inner'][1]
        while n.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr'):
            n = n['inner'][0]
    if n.get('kind') == 'DeclRefExpr':
        return n['referencedDecl']['name'] in ('cout', 'cerr', 'clog', 'os', 'stream', 'ss', 'out')
    return True


# ------------------------------------------------------------------ math
def usqrt(it, x, node=None):
    if is_num(x):
        if x < 0:
            it.oblige('sqrt of a non-negative number', False, node)
        n, d = math.isqrt(Fraction(x).numerator), math.isqrt(Fraction(x).denominator)
        if n * n == Fraction(x).numerator and d * d == Fraction(x).denominator:
            return Fraction(n, d)
    x = rv(x)
    r = F_sqrt(x)
    it.assume(z3.Implies(x >= 0, z3.And(r >= 0, r * r == x)))
    return r


def rabs(x):
    if is_num(x):
        return abs(x)
    return z3.If(x >= 0, x, -x)


def rmin(a, b):
    if is_num(a) and is_num(b):
        return min(a, b)
    return ite(cmp('<=', a, b), a, b)


def rmax(a, b):
    if is_num(a) and is_num(b):
        return max(a, b)
    return ite(cmp('>=', a, b), a, b)


def rexp(it, x):
    if is_num(x) and x == 0:
        return Fraction(1)
    r = F_exp(rv(x))
    it.assume(r > 0)
    it.assume(z3.Implies(rv(x) == 0, r == 1))
    it.assume(z3.Implies(rv(x) <= 0, r <= 1))
    return r


def rsin(it, x):
    if is_num(x) and x == 0:
        return Fraction(0)
    trig_ax(it, rv(x))
    return F_sin(rv(x))


def rcos(it, x):
    if is_num(x) and x == 0:
        return Fraction(1)
    trig_ax(it, rv(x))
    return F_cos(rv(x))


def trig_ax(it, x):
    s, c = F_sin(x), F_cos(x)
    it.assume(z3.And(s * s + c * c == 1, s >= -1, s <= 1, c >= -1, c <= 1))
    it.assume(z3.Implies(x == 0, z3.And(s == 0, c == 1)))


def rpow(it, x, y):
    if is_num(y) and Fraction(y).denominator == 1:
        k = int(y)
        if is_num(x) and (x != 0 or k >= 0):
            return Fraction(x) ** k
        r = Fraction(1)
        for _ in range(abs(k)):
            r = mul(r, x)
        return r if k >= 0 else rdiv(Fraction(1), r)
    if is_num(y) and Fraction(y) == Fraction(1, 2):
        return usqrt(it, x)
    return F_pow(rv(x), rv(y))


# ------------------------------------------------------------------ Eigen helpers
def as_mat(it, v):
    if isinstance(v, Mat):
        return v
    if isinstance(v, Seq) and v.conc:
        return Mat(len(v.items), 1, v.items)
    raise Unsupported('symbolic-size vector used as a matrix: %r' % (v,))


def is_eig(v):
    return isinstance(v, Mat) or (isinstance(v, Seq) and v.kind == 'eig')


def is_scalar(v):
    return is_num(v) or (is_sym(v) and z3.is_arith(v)) or isinstance(v, bool)


def fold_add(xs):
    r = None
    for x in xs:
        r = x if r is None else add(r, x)
    return Fraction(0) if r is None else r


def cx(v):
    return v if isinstance(v, Cplx) else Cplx(v, Fraction(0))


def matmul(a, b):
    if a.c != b.r:
        return None
    d = []
    for i in range(a.r):
        for j in range(b.c):
            d.append(fold_add(mul(a.at(i, k), b.at(k, j)) for k in range(a.c) if not (is_num(a.at(i, k)) and a.at(i, k) == 0)))
    return Mat(a.r, b.c, d)


def sym_zip(it, a, b, f, node):
    """element-wise operation on vectors of symbolic size"""
    it.oblige('Eigen vector sizes agree', cmp('==', a.n, b.n), node)
    n = a.n if not a.conc else b.n
    i = z3.Int('ei!')
    ta = it.S.term(('eig', 'r', -1, 1), a)
    tb = it.S.term(('eig', 'r', -1, 1), b)
    sa, sb = it.S.sort(('eig', 'r', -1, 1)), None
    aa, bb = it.S.acc(sa, 1, ta), it.S.acc(sa, 1, tb)
    x, y = z3.Real('vx!'), z3.Real('vy!')
    F = z3.Function('vec(%s)' % f(x, y), z3.IntSort(), aa.sort(), aa.sort(), aa.sort())
    aa, bb = z3.simplify(aa), z3.simplify(bb)
    r = Seq(('real',), 'eig', None, n, F(iv(n), aa, bb))
    if F.name() == 'vec(vx! - vy!)':
        # |a - b| == |b - a|
        it.assume(F_vnorm(iv(n), F(iv(n), aa, bb)) == F_vnorm(iv(n), F(iv(n), bb, aa)))
        it.assume(F_vnorm(iv(n), F(iv(n), aa, bb)) >= 0)
    if not it.e.hooks.get('no_elements'):
        body = z3.Implies(z3.And(i >= 0, i < iv(n)), z3.Select(r.arr, i) == f(z3.Select(aa, i), z3.Select(bb, i)))
        try:
            ax = z3.ForAll([i], body, patterns=[z3.Select(r.arr, i), z3.Select(aa, i), z3.Select(bb, i)])
        except z3.Z3Exception:
            ax = z3.ForAll([i], body, patterns=[z3.Select(r.arr, i)])
        it.assume(ax)
    return r


def sym_map(it, a, f):
    r = it.fresh(('eig', 'r', -1, 1), 'ev')
    it.assume(r.n == iv(a.n))
    i = z3.Int('ei!')
    it.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < iv(a.n)), z3.Select(r.arr, i) == f(z3.Select(a.arr, i))), patterns=[z3.Select(r.arr, i)]))
    return r


def norm2(it, v, node=None):
    if isinstance(v, Seq) and not v.conc:
        r = F_vnorm(iv(v.n), v.arr)
        it.assume(r >= 0)
        return r
    m = as_mat(it, v)
    h = it.e.hooks.get('norm')
    if h:
        return h(it, m)
    return usqrt(it, fold_add(mul(x, x) for x in m.d))


def eig_size(v):
    return len(v.d) if isinstance(v, Mat) else v.n


def make_view(it, lv, r, c, coords, node):
    return View(lv, r, c, coords)


def conc_int(it, x, what):
    if isinstance(x, int):
        return x
    if is_sym(x):
        s = z3.simplify(x)
        if z3.is_int_value(s):
            return s.as_long()
    # enumerate when the path condition pins it
    for k in range(0, 64):
        if it.entails(x == k):
            return k
    raise Unsupported('%s is symbolic' % what)


def block_of(it, obj, i, j, h, w, node):
    v = it.val(obj)
    m = as_mat(it, v)
    i, j, h, w = [conc_int(it, q, 'block geometry') for q in (i, j, h, w)]
    ok = h >= 0 and w >= 0 and i >= 0 and j >= 0 and i + h <= m.r and j + w <= m.c
    if not ok:
        it.oblige('Eigen block inside the matrix', False, node)
    coords = [a * m.c + b for a in range(i, i + h) for b in range(j, j + w)]
    if isinstance(obj, LV):
        return View(obj, h, w, coords)
    if isinstance(obj, View):
        return View(obj.lv, h, w, [obj.coords[q] for q in coords])
    return m.block(i, j, h, w)


# ------------------------------------------------------------------ dispatch: members
def args_of(it, argn):
    return [it.ev(a) for a in argn if a.get('kind') != 'CXXDefaultArgExpr']


def member(it, n, name, obj, argn):
    v = it.val(obj)
    mt = n.get('type', {}).get('qualType', '')
    h = it.e.hooks.get('member:' + name)
    if h:
        r = h(it, n, obj, argn)
        if r is not NotImplemented:
            return r
    if isinstance(v, Lam) and name == 'operator()':
        return it.call_lambda(v, args_of(it, argn))
    if isinstance(v, Opaque):
        return opaque_member(it, n, name, obj, v, argn)
    if yaml.is_y(v):
        return yaml.member(it, n, name, obj, v, args_of(it, argn))
    if isinstance(v, yaml.Emit):
        if name in ('c_str', 'good'):
            return v if name == 'c_str' else True
        if name.startswith('Set'):
            return True
        raise Unsupported('yaml emitter %s' % name)
    if isinstance(v, Ptr):
        if name == 'get':
            return v
        if name == 'reset':
            it.store(obj, it.val(args_of(it, argn)[0]) if argn else NULL)
            return None
        if name == 'operator bool':
            return True
    if v is NULL:
        if name == 'get':
            return NULL
        if name == 'reset':
            it.store(obj, it.val(args_of(it, argn)[0]) if argn else NULL)
            return None
        if name == 'operator bool':
            return False
        if name == 'valid':
            return False
        if name == 'joinable':
            return False
    if is_eig(v) and not (isinstance(v, Seq) and v.kind != 'eig'):
        return eigen_member(it, n, name, obj, v, argn)
    if isinstance(v, Seq):
        return seq_member(it, n, name, obj, v, argn)
    if isinstance(v, SymSet):
        return set_member(it, n, name, obj, v, argn)
    if isinstance(v, (MapV, SymMap)):
        return map_member(it, n, name, obj, v, argn)
    if isinstance(v, SetV):
        return set_member(it, n, name, obj, v, argn)
    if isinstance(v, Cplx):
        if name in ('real', 'imag'):
            return v.re if name == 'real' else v.im
    if isinstance(v, bool) or (is_sym(v) and z3.is_bool(v)):
        if name in ('operator bool', 'load'):
            return v
        if name == 'store':
            it.store(obj, it.val(args_of(it, argn)[0]))
            return None
        if name == 'exchange':
            it.store(obj, it.val(args_of(it, argn)[0]))
            return v
    if isinstance(v, str) or (is_sym(v) and z3.is_int(v) and name in ('empty', 'size', 'c_str', 'length')):
        if name == 'empty':
            return cmp('==', it.S.term(('str',), v), 0)
        if name == 'c_str':
            return v
        if name in ('size', 'length'):
            if isinstance(v, str):
                return len(v)
            return it.fresh(('int', False, 64), 'strlen')
    if is_scalar(v) and name.startswith('operator'):
        return v
    if isinstance(v, SV) and v.cls == '$quat':
        return quat_member(it, n, name, obj, v, argn)
    if isinstance(v, SV) and v.cls == '$aa' and name == 'toRotationMatrix':
        return rot_of(v)
    if isinstance(v, SV) and v.cls == '$rng':
        return it.fresh(('int', True, 64), 'rng')
    raise Unsupported('member %s of %r at %s' % (name, v, loc_of(n)))


def opaque_member(it, n, name, obj, v, argn):
    if v.tag == 'mutex':
        if name == 'lock':
            it.lock(obj, n)
            return None
        if name == 'unlock':
            it.unlock(obj, n)
            return None
    if v.tag == 'guard':
        lvs, st = v.data
        if name == 'unlock':
            st['held'] = False
            for lv in lvs:
                it.unlock(lv, n)
            return None
        if name == 'lock':
            for lv in lvs:
                it.lock(lv, n)
            st['held'] = True
            return None
    if v.tag == 'null?' and name == 'operator bool':
        return v.data
    if v.tag == 'func':
        return None
    if v.tag in ('ofile', 'ifile'):
        if name in ('good', 'is_open', 'operator bool'):
            return v.data[1]
        if name == 'fail':
            return lnot(v.data[1])
        if name in ('close', 'flush'):
            return None
        raise Unsupported('file member %s' % name)
    if v.tag == 'dur' and name == 'count':
        return v.data
    if v.tag in ('stream', 'thread', 'member', 'exception', 'ostr'):
        for a in argn:
            if a.get('kind') != 'CXXDefaultArgExpr' and v.tag != 'stream':
                pass
        return Opaque('stream') if v.tag == 'stream' else Opaque('member', (v, name))
    raise Unsupported('member %s of %s at %s' % (name, v.tag, loc_of(n)))


def seq_member(it, n, name, obj, v, argn):
    if name == 'size':
        return v.n
    if name == 'empty':
        return cmp('==', v.n, 0)
    if name in ('reserve', 'shrink_to_fit'):
        for a in args_of(it, argn):
            pass
        return None
    if name == 'capacity':
        return v.n
    if name == 'clear':
        it.store(obj, Seq(v.et, v.kind, []))
        return None
    if name in ('push_back', 'emplace_back'):
        xs = args_of(it, argn)
        et = v.et
        x = make_elem(it, et, xs, n)
        v = it.val(obj)
        h = it.e.hooks.get('push')
        if h:
            h(it, obj, v, x)
        it.store(obj, seq_push(it, v, x))
        v2 = it.val(obj)
        return obj.i(sub(v2.n, 1))
    if name in ('push_front', 'emplace_front'):
        x = make_elem(it, v.et, args_of(it, argn), n)
        v = it.val(obj)
        if v.conc:
            it.store(obj, Seq(v.et, v.kind, (x,) + v.items))
        else:
            r = it.fresh(('seq', v.et, v.kind), 'pf', True)
            i = z3.Int('ei!')
            it.assume(r.n == iv(v.n) + 1)
            it.assume(z3.Select(r.arr, 0) == it.S.term(v.et, x))
            it.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 1, i <= iv(v.n)), z3.Select(r.arr, i) == z3.Select(v.arr, i - 1)), patterns=[z3.Select(r.arr, i)]))
            it.store(obj, r)
        return None
    if name in ('pop_back', 'pop_front'):
        it.oblige('container is not empty', cmp('>', v.n, 0), n)
        if v.conc:
            it.store(obj, Seq(v.et, v.kind, v.items[:-1] if name == 'pop_back' else v.items[1:]))
        elif name == 'pop_back':
            it.store(obj, Seq(v.et, v.kind, None, sub(v.n, 1), v.arr))
        else:
            it.store(obj, seq_drop_front(it, v, 1))
        return None
    if name in ('operator[]', 'at'):
        return index(it, obj, it.val(it.ev(argn[0])), n, throws=name == 'at')
    if name in ('front', 'back'):
        it.oblige('container is not empty', cmp('>', v.n, 0), n)
        if v.conc and not v.items:
            raise PathEnd()
        return obj.i(0 if name == 'front' else sub(v.n, 1))
    if name in ('begin', 'cbegin'):
        return Iter(obj, 0)
    if name in ('end', 'cend'):
        return Iter(obj, v.n)
    if name == 'data':
        return Ptr(obj.i(0))
    if name == 'resize':
        xs = [it.val(a) for a in args_of(it, argn)]
        m = norm(xs[0])
        if v.conc and isinstance(m, int):
            items = list(v.items[:m])
            while len(items) < m:
                items.append(xs[1] if len(xs) > 1 else it.zero_value(v.et))
            it.store(obj, Seq(v.et, v.kind, items))
        else:
            r = it.fresh(('seq', v.et, v.kind), 'rs')
            i = z3.Int('ei!')
            it.assume(r.n == iv(m))
            t = it.S.term(('seq', v.et, v.kind), v)
            s = it.S.sort(('seq', v.et, v.kind))
            dv = it.S.term(v.et, xs[1] if len(xs) > 1 else it.zero_value(v.et))
            it.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < iv(m)), z3.Select(r.arr, i) == z3.If(i < iv(v.n), z3.Select(it.S.acc(s, 1, t), i), dv)), patterns=[z3.Select(r.arr, i)]))
            it.store(obj, r)
        return None
    if name == 'assign':
        xs = [it.val(a) for a in args_of(it, argn)]
        if isinstance(xs[0], int):
            it.store(obj, Seq(v.et, v.kind, [xs[1]] * xs[0]))
            return None
        if len(xs) == 2 and isinstance(xs[0], Iter) and isinstance(xs[1], Iter):
            src = it.load(xs[0].lv)
            if isinstance(src, Seq):
                if is_num(xs[0].idx) and xs[0].idx == 0 and same(xs[1].idx, src.n):
                    it.store(obj, Seq(v.et, v.kind, src.items) if src.conc else Seq(v.et, v.kind, None, src.n, src.arr))
                    return None
                it.store(obj, seq_append(it, Seq(v.et, v.kind, []), src, xs[0].idx, xs[1].idx))
                return None
        if len(xs) == 2 and not isinstance(xs[0], Iter):
            it.store(obj, Seq(v.et, v.kind, []))
            return seq_member(it, n, 'resize', obj, it.val(obj), argn)
    if name == 'insert':
        xs = [it.val(a) for a in args_of(it, argn)]
        pos = xs[0]
        if len(xs) == 3 and isinstance(xs[1], Iter):
            src = it.load(xs[1].lv)
            whole = is_num(xs[1].idx) and xs[1].idx == 0 and same(xs[2].idx, src.n)
            if v.conc and src.conc:
                k = conc_int(it, pos.idx, 'insert position')
                a, b = conc_int(it, xs[1].idx, 'x'), conc_int(it, xs[2].idx, 'x')
                it.store(obj, Seq(v.et, v.kind, v.items[:k] + src.items[a:b] + v.items[k:]))
                return Iter(obj, pos.idx)
            if it.entails(cmp('==', pos.idx, v.n)):
                it.store(obj, seq_append(it, v, src, xs[1].idx, xs[2].idx))
                return Iter(obj, pos.idx)
        if len(xs) == 2 and not isinstance(xs[1], Iter):
            if v.conc and isinstance(pos.idx, int):
                it.store(obj, Seq(v.et, v.kind, v.items[:pos.idx] + (xs[1],) + v.items[pos.idx:]))
                return Iter(obj, pos.idx)
        raise Unsupported('insert at %s' % loc_of(n))
    if name == 'erase':
        xs = [it.val(a) for a in args_of(it, argn)]
        if len(xs) == 1:
            xs.append(Iter(xs[0].lv, add(xs[0].idx, 1)))
        a, b = xs[0].idx, xs[1].idx
        it.oblige('erased range lies inside the container', land(cmp('<=', 0, a), cmp('<=', a, b), cmp('<=', b, v.n)), n)
        if v.conc and isinstance(norm(a), int) and isinstance(norm(b), int):
            it.store(obj, Seq(v.et, v.kind, v.items[:a] + v.items[b:]))
        elif is_num(a) and a == 0:
            it.store(obj, seq_drop_front(it, v, b))
        elif not v.conc:
            i = z3.Int('er!')
            d = sub(b, a)
            it.store(obj, Seq(v.et, v.kind, None, norm(iv(v.n) - iv(d)), z3.Lambda([i], z3.If(i < iv(a), z3.Select(v.arr, i), z3.Select(v.arr, i + iv(d))))))
        else:
            raise Unsupported('erase at %s' % loc_of(n))
        return Iter(obj, a)
    if name == 'swap':
        o = it.ev(argn[0])
        w = it.val(o)
        it.store(o, v)
        it.store(obj, w)
        return None
    raise Unsupported('container member %s at %s' % (name, loc_of(n)))


def same(a, b):
    if is_num(a) and is_num(b):
        return a == b
    return is_sym(a) and is_sym(b) and a.eq(b)


def seq_push(it, v, x):
    if v.conc:
        return Seq(v.et, v.kind, v.items + (x,))
    return Seq(v.et, v.kind, None, add(v.n, 1), z3.Store(v.arr, iv(v.n), it.S.term(v.et, x)))


def seq_arr(it, v):
    t = ('seq', v.et, v.kind)
    return it.S.acc(it.S.sort(t), 1, it.S.term(t, v))


def seq_append(it, v, src, a, b):
    va, sa = seq_arr(it, v), seq_arr(it, src)
    r = it.fresh(('seq', v.et, v.kind), 'ap', True)
    i = z3.Int('ei!')
    cnt = sub(b, a)
    it.assume(iv(r.n) == iv(add(v.n, cnt)))
    it.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < r.n), z3.Select(r.arr, i) == z3.If(i < iv(v.n), z3.Select(va, i), z3.Select(sa, i - iv(v.n) + iv(a)))), patterns=[z3.Select(r.arr, i)]))
    return r


def seq_drop_front(it, v, k):
    r = it.fresh(('seq', v.et, v.kind), 'dr', True)
    i = z3.Int('ei!')
    va = seq_arr(it, v)
    it.assume(iv(r.n) == iv(sub(v.n, k)))
    it.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < r.n), z3.Select(r.arr, i) == z3.Select(va, i + iv(k))), patterns=[z3.Select(r.arr, i)]))
    return r


def make_elem(it, et, xs, n):
    if et is not None and et[0] == 'class':
        if len(xs) == 1:
            v = it.val(xs[0])
            if isinstance(v, SV) and v.cls == it.db.find_class(et[1]).qname:
                return v
        return it.construct(et[1], xs, n)
    if not xs:
        return it.zero_value(et) if et and et[0] != 'eig' else it.default_value(et)
    if et and et[0] == 'pair' and len(xs) == 2:
        return SV('$pair', {'first': it.val(xs[0]), 'second': it.val(xs[1])})
    if et and et[0] == 'triplet':
        return SV('$triplet', {k: it.val(x) for k, x in zip(('row', 'col', 'value'), xs)}) if len(xs) == 3 else it.val(xs[0])
    v = it.val(xs[0])
    if et and et[0] == 'eig' and isinstance(v, int):
        return eigen_sized(it, et, [v] + [it.val(x) for x in xs[1:]])
    return it.convert(v, et) if et else v


def index(it, obj, i, node, throws=False):
    v = it.val(obj)
    size = it.seq_len(v)
    i = norm(i)
    if isinstance(i, bool):
        i = int(i)
    inb = land(cmp('>=', i, 0), cmp('<', i, size))
    if throws:
        if not it.branch(inb):
            raise ThrowX('out_of_range at %s' % loc_of(node))
    else:
        it.oblige('index within bounds', inb, node)
    if isinstance(obj, View):
        return View(obj.lv, 1, 1, [obj.coords[conc_int(it, i, 'index into a block')]])
    if not isinstance(obj, LV):
        obj = it.alloc(v, None)
    return obj.i(i)


# ------------------------------------------------------------------ maps and sets
def map_member(it, n, name, obj, v, argn):
    xs = [it.val(a) for a in args_of(it, argn)]
    if name in ('begin', 'cbegin'):
        return MapIter(obj, 0, None)
    if name in ('end', 'cend'):
        if isinstance(v, MapV):
            return MapIter(obj, len(v.d), None)
        return MapIter(obj, None, False)
    if name == 'size':
        return it.map_size(v)
    if name == 'empty':
        if isinstance(v, MapV):
            return len(v.d) == 0
        q = z3.Const('mk!', v.dom.sort().domain())
        return z3.Not(z3.Exists([q], z3.Select(v.dom, q)))
    if name == 'clear':
        it.store(obj, MapV(v.kt, v.vt, {}))
        return None
    if name == 'count':
        return ite(it.map_has(v, xs[0]), 1, 0)
    if name == 'find':
        if isinstance(v, MapV) and not is_sym(xs[0]):
            ks = sorted(v.d)
            return MapIter(obj, ks.index(xs[0]) if xs[0] in ks else len(ks), None)
        return MapIter(obj, xs[0], it.map_has(v, xs[0]))
    if name == 'at':
        if not it.branch(it.map_has(v, xs[0])):
            raise ThrowX('map::at at %s' % loc_of(n))
        return LV(obj.cell, obj.path + (('k', xs[0]),))
    if name == 'operator[]':
        return map_index(it, obj, xs[0])
    if name in ('insert', 'emplace'):
        if name == 'insert':
            k, x = xs[0].f['first'], xs[0].f['second']
        else:
            k, x = xs[0], make_elem(it, v.vt, xs[1:], n)
        had = it.map_has(v, k)
        if it.branch(lnot(had) if not isinstance(had, bool) else not had):
            map_put(it, obj, k, x)
            had = False
        else:
            had = True
        return SV('$pair', {'first': find_iter(it, obj, k), 'second': not had})
    if name == 'erase':
        x = xs[0]
        if isinstance(x, MapIter):
            if x.present is None and isinstance(v, SymMap):
                K, I, n_ = it.map_enum(v)
                it.oblige('erased iterator is valid', land(cmp('>=', x.key, 0), cmp('<', x.key, n_)), n)
                map_del(it, obj, norm(K(iv(x.key))))
            elif x.present is None:
                ks = sorted(v.d)
                it.oblige('erased iterator is valid', x.key < len(ks), n)
                map_del(it, obj, ks[x.key])
            else:
                it.oblige('erased iterator is valid', x.present, n)
                map_del(it, obj, x.key)
            return None
        had = it.map_has(v, x)
        map_del(it, obj, x)
        return ite(had, 1, 0)
    raise Unsupported('map member %s' % name)


def find_iter(it, obj, k):
    v = it.val(obj)
    if isinstance(v, MapV) and not is_sym(k):
        return MapIter(obj, sorted(v.d).index(k), None)
    return MapIter(obj, k, True)


def map_put(it, obj, k, x):
    v = it.val(obj)
    if isinstance(v, MapV) and not is_sym(k):
        d = dict(v.d)
        d[k] = x
        it.store(obj, MapV(v.kt, v.vt, d))
        return
    v = it.symmap(v)
    kk = it.S.term(v.kt, k)
    it.store(obj, SymMap(v.kt, v.vt, z3.Store(v.dom, kk, z3.BoolVal(True)), z3.Store(v.val, kk, it.S.term(v.vt, x))))


def map_del(it, obj, k):
    v = it.val(obj)
    if isinstance(v, MapV) and not is_sym(k):
        d = dict(v.d)
        d.pop(k, None)
        it.store(obj, MapV(v.kt, v.vt, d))
        return
    v = it.symmap(v)
    kk = it.S.term(v.kt, k)
    it.store(obj, SymMap(v.kt, v.vt, z3.Store(v.dom, kk, z3.BoolVal(False)), v.val))


def map_index(it, obj, k):
    v = it.val(obj)
    if isinstance(v, MapV) and not is_sym(k):
        if k not in v.d:
            map_put(it, obj, k, it.zero_value(v.vt))
    else:
        v = it.symmap(v)
        kk = it.S.term(v.kt, k)
        has = it.simp(select_any(v.dom, kk))
        if has is not True:
            dv = it.S.term(v.vt, it.zero_value(v.vt))
            hb = bv(has)
            it.store(obj, SymMap(v.kt, v.vt, z3.Store(v.dom, kk, z3.BoolVal(True)), z3.Store(v.val, kk, z3.If(hb, select_any(v.val, kk), dv))))
    return LV(obj.cell, obj.path + (('k', k),))


def mapiter_deref(it, mi, n):
    v = it.load(mi.lv)
    if mi.present is None and isinstance(v, SymMap):
        K, I, n_ = it.map_enum(v)
        it.oblige('map iterator is dereferenceable', land(cmp('>=', mi.key, 0), cmp('<', mi.key, n_)), n)
        k = norm(K(iv(mi.key)))
    elif mi.present is None:
        ks = sorted(v.d)
        it.oblige('map iterator is dereferenceable', 0 <= mi.key < len(ks), n)
        k = ks[mi.key]
    else:
        it.oblige('map iterator is dereferenceable', mi.present, n)
        k = mi.key
    pr = it.alloc(SV('$pair', {'first': k, 'second': it.map_get(v, k)}), ('pair', v.kt, v.vt))
    it.ghost.setdefault('mapref', {})[pr.cell] = (mi.lv, k)
    return pr


def set_member(it, n, name, obj, v, argn):
    xs = [it.val(a) for a in args_of(it, argn)]
    if name in ('insert', 'emplace') and it.e.mode == 'proof' and isinstance(v, SetV):
        v = it.symset(v)
    if isinstance(v, SymSet):
        if name == 'size':
            return it.map_size(v)
        if name == 'empty':
            return cmp('==', it.map_size(v), 0)
        if name == 'clear':
            it.store(obj, SetV(v.et, []))
            return None
        kk = None
        if name in ('insert', 'emplace'):
            x = xs[0] if len(xs) == 1 else make_elem(it, v.et, xs, n)
            kk = it.S.term(v.kt, it.S.set_key(v.et, x))
            has = select_any(v.dom, kk)
            it.store(obj, SymSet(v.kt, v.vt, z3.Store(v.dom, kk, z3.BoolVal(True)), z3.Store(v.val, kk, z3.If(has, select_any(v.val, kk), it.S.term(v.vt, x)))))
            return SV('$pair', {'first': None, 'second': lnot(has)})
        if name in ('count', 'contains'):
            return ite(select_any(v.dom, it.S.term(v.kt, it.S.set_key(v.et, xs[0]))), 1, 0)
        raise Unsupported('set member %s' % name)
    if name == 'size':
        return len(v.items)
    if name == 'empty':
        return not v.items
    if name in ('insert', 'emplace'):
        x = xs[0] if len(xs) == 1 else make_elem(it, v.et, xs, n)
        keyf = set_key(x)
        items = list(v.items)
        ks = [set_key(y) for y in items]
        if keyf in ks:
            return SV('$pair', {'first': None, 'second': False})
        import bisect
        ks2 = sorted(ks + [keyf])
        items.insert(ks2.index(keyf), x)
        it.store(obj, SetV(v.et, items))
        return SV('$pair', {'first': None, 'second': True})
    if name in ('begin', 'cbegin'):
        return Iter(obj, 0)
    if name in ('end', 'cend'):
        return Iter(obj, len(v.items))
    if name == 'clear':
        it.store(obj, SetV(v.et, []))
        return None
    raise Unsupported('set member %s' % name)


def set_key(x):
    """ordering key of set elements; constraint records are ordered by their operator<"""
    if isinstance(x, SV):
        c = x.cls.split('::')[-1]
        if 'Constraint' in c and 'vertex_idx' in x.f:
            k = (x.f['vertex_idx'], x.f['constraint_idx'])
        else:
            k = tuple(x.f.values())
    else:
        k = (x,)
    for q in k:
        if is_sym(q):
            raise Unsupported('symbolic set key')
    return k


# ------------------------------------------------------------------ Eigen
def eigen_sized(it, t, dims):
    r, c = t[2], t[3]
    dims = [norm(d) for d in dims]
    if len(dims) == 1:
        if c == 1:
            R, C = dims[0], 1
        elif r == 1:
            R, C = 1, dims[0]
        else:
            R, C = dims[0], dims[0]
    else:
        R, C = dims
    et = ('cplx',) if t[1] == 'c' else ('real',)
    if isinstance(R, int) and isinstance(C, int):
        return Mat(R, C, [it.fresh(et, 'u') for _ in range(R * C)], t[1])
    if C == 1 or R == 1:
        n = R if C == 1 else C
        v = it.fresh(('eig', t[1], -1, 1), 'u')
        return Seq(v.et, 'eig', None, n, v.arr)
    raise Unsupported('symbolic matrix size')


def eigen_member(it, n, name, obj, v, argn):
    if name in ('size',):
        return eig_size(v)
    if name in ('rows', 'cols'):
        if isinstance(v, Mat):
            return v.r if name == 'rows' else v.c
        return v.n if name == 'rows' else 1
    if name in ('derived', 'eval', 'array', 'matrix', 'noalias', 'real', 'toDenseMatrix'):
        return obj
    xs = args_of(it, argn)
    X = [it.val(x) for x in xs]
    if name in ('setZero', 'setOnes', 'setConstant', 'fill', 'setIdentity'):
        if X and name in ('setZero', 'setOnes') and isinstance(v, (Mat, Seq)):
            t = ('eig', 'r', -1, 1 if (isinstance(v, Seq) or v.c == 1) else -1)
            v = eigen_sized(it, t, X)
        c = Fraction(0) if name == 'setZero' else Fraction(1)
        if name in ('setConstant', 'fill'):
            c = X[-1]
        if name == 'setIdentity':
            it.store(obj, Mat(v.r, v.c, [Fraction(int(i == j)) for i in range(v.r) for j in range(v.c)]))
            return obj
        if isinstance(v, Seq) and not v.conc:
            it.store(obj, Seq(v.et, 'eig', None, v.n, z3.K(z3.IntSort(), rv(c))))
        elif isinstance(obj, View):
            it.store(obj, Mat(obj.r, obj.c, [c] * len(obj.coords)))
        else:
            it.store(obj, v.map(lambda _: c) if isinstance(v, Mat) else Seq(v.et, 'eig', [c] * len(v.items)))
        return obj
    if name in ('resize', 'conservativeResize'):
        if name == 'conservativeResize' or isinstance(obj, View):
            raise Unsupported(name)
        k = v.k if isinstance(v, Mat) else ('c' if v.et == ('cplx',) else 'r')
        for j in (0, 1):
            if len(X) == 2 and 'NoChange' in argn[j]['type']['qualType']:
                X = [X[0] if j else (v.r if isinstance(v, Mat) else v.n), (v.c if isinstance(v, Mat) else 1) if j else X[1]]
        if isinstance(v, Mat) and v.c == 0 and len(X) == 2 and X[1] == 0:
            X = [X[0], 1]
        if isinstance(v, Mat) and len(X) == 2 and X == [v.r, v.c]:
            return None
        ty = ('eig', k, -1, 1) if len(X) == 1 or (is_num(X[1]) and X[1] == 1) else ('eig', k, -1, -1)
        it.store(obj, eigen_sized(it, ty, X))
        return None
    if name in ('operator()', 'operator[]', 'coeff', 'coeffRef'):
        return eigen_index(it, obj, v, X, n)
    if name in ('x', 'y', 'z', 'w'):
        return eigen_index(it, obj, v, ['xyzw'.index(name)], n)
    if isinstance(v, Seq) and not v.conc:
        if name == 'norm':
            return norm2(it, v, n)
        if name in ('head', 'tail', 'segment'):
            k = norm(X[-1]) if X and not (name == 'segment' and len(X) == 1) else fixed_dim(it, n)
            if not isinstance(k, int):
                raise Unsupported('block of symbolic size')
            lo = 0 if name == 'head' else (X[0] if name == 'segment' else norm(z3.simplify(iv(v.n) - k)))
            it.oblige('Eigen block is within the vector', land(cmp('>=', lo, 0), cmp('<=', add(lo, k), v.n)), n)
            co = [norm(z3.simplify(iv(lo) + i)) for i in range(k)]
            if isinstance(obj, LV):
                return View(obj, k, 1, co)
            return Mat(k, 1, [it.elem(v, i) for i in co])
        if name == 'isZero':
            i, p_ = z3.Int('ei!'), rv(X[0] if X else Fraction(1, 10 ** 12))
            e = z3.Select(v.arr, i)
            return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < iv(v.n)), z3.And(e <= p_, e >= -p_)), patterns=[e])
        raise Unsupported('member %s of a symbolic-size vector at %s' % (name, loc_of(n)))
    m = as_mat(it, v)
    if name == 'norm':
        return norm2(it, m, n)
    if name == 'squaredNorm':
        return fold_add(mul(x, x) for x in m.d)
    if name == 'sum':
        return fold_add(m.d)
    if name == 'prod':
        r = Fraction(1)
        for x in m.d:
            r = mul(r, x)
        return r
    if name == 'trace':
        return fold_add(m.at(i, i) for i in range(min(m.r, m.c)))
    if name == 'transpose':
        if isinstance(obj, LV) and (m.r == 1 or m.c == 1):
            return m.T
        return m.T
    if name == 'reverse':
        return Mat(m.r, m.c, tuple(reversed(m.d)), m.k)
    if name == 'cwiseProduct':
        return m.zip(as_mat(it, X[0]), mul)
    if name == 'cwiseInverse':
        return m.map(lambda x: it.fdiv(Fraction(1), x, n))
    if name == 'cwiseAbs':
        return m.map(rabs)
    if name == 'dot':
        o = as_mat(it, X[0])
        if len(o.d) != len(m.d):
            it.oblige('Eigen vector sizes agree', False, n)
        return fold_add(mul(a, b) for a, b in zip(m.d, o.d))
    if name == 'cross':
        a, b = m.d, as_mat(it, X[0]).d
        return Mat(3, 1, [sub(mul(a[1], b[2]), mul(a[2], b[1])), sub(mul(a[2], b[0]), mul(a[0], b[2])), sub(mul(a[0], b[1]), mul(a[1], b[0]))])
    if name in ('normalized', 'normalize'):
        nn = norm2(it, m, n)
        r = m.map(lambda x: it.fdiv(x, nn, n))
        if name == 'normalize':
            it.store(obj, r)
            return None
        return r
    if name == 'determinant':
        return det(m)
    if name == 'inverse':
        return minverse(it, m, n)
    if name in ('maxCoeff', 'minCoeff'):
        r = m.d[0]
        for x in m.d[1:]:
            r = rmax(r, x) if name == 'maxCoeff' else rmin(r, x)
        return r
    if name == 'isZero':
        p = X[0] if X else Fraction(1, 10 ** 12)
        return land(*[cmp('<=', rabs(x), p) for x in m.d])
    if name == 'isApprox':
        h = it.e.hooks.get('isApprox')
        if h:
            return h(it, m, X[0])
    if name == 'asDiagonal':
        k = len(m.d)
        return Mat(k, k, [m.d[i] if i == j else Fraction(0) for i in range(k) for j in range(k)])
    if name == 'diagonal':
        k = min(m.r, m.c)
        if isinstance(obj, LV):
            return View(obj, k, 1, [i * m.c + i for i in range(k)])
        return Mat(k, 1, [m.at(i, i) for i in range(k)])
    if name == 'head':
        k = X[0] if X else fixed_dim(it, n)
        return block_of(it, obj, 0, 0, k if m.c == 1 else 1, 1 if m.c == 1 else k, n)
    if name == 'tail':
        k = conc_int(it, X[0] if X else fixed_dim(it, n), 'tail')
        L = len(m.d)
        return block_of(it, obj, L - k if m.c == 1 else 0, 0 if m.c == 1 else L - k, k if m.c == 1 else 1, 1 if m.c == 1 else k, n)
    if name == 'segment':
        k = X[1] if len(X) > 1 else fixed_dim(it, n)
        return block_of(it, obj, X[0] if m.c == 1 else 0, 0 if m.c == 1 else X[0], k if m.c == 1 else 1, 1 if m.c == 1 else k, n)
    if name == 'block':
        if len(X) == 4:
            return block_of(it, obj, X[0], X[1], X[2], X[3], n)
        h, w = fixed_dim2(it, n)
        return block_of(it, obj, X[0], X[1], h, w, n)
    if name == 'row':
        return block_of(it, obj, X[0], 0, 1, m.c, n)
    if name == 'col':
        return block_of(it, obj, 0, X[0], m.r, 1, n)
    if name in ('topRows', 'bottomRows', 'leftCols', 'rightCols'):
        k = conc_int(it, X[0], name)
        g = {'topRows': (0, 0, k, m.c), 'bottomRows': (m.r - k, 0, k, m.c), 'leftCols': (0, 0, m.r, k), 'rightCols': (0, m.c - k, m.r, k)}[name]
        return block_of(it, obj, *g, n)
    if name == 'setFromTriplets':
        b, e_ = X[0], X[1]
        seq = it.load(b.lv)
        d = [Fraction(0)] * (m.r * m.c)
        for t in seq.items:
            r, c = t.f['row'], t.f['col']
            if is_sym(r) or is_sym(c):
                raise Unsupported('symbolic triplet')
            if not (0 <= r < m.r and 0 <= c < m.c):
                it.oblige('triplet inside the sparse matrix', False, n)
            d[r * m.c + c] = add(d[r * m.c + c], t.f['value'])
        it.store(obj, Mat(m.r, m.c, d))
        return None
    if name == 'format':
        return Opaque('stream')
    if name == 'rotation':
        return m
    if name.startswith('operator '):
        return m.d[0]
    raise Unsupported('Eigen member %s at %s' % (name, loc_of(n)))


def fixed_dim(it, n):
    import re
    q = n['type'].get('desugaredQualType', '') + ' ' + n['type'].get('qualType', '')
    m = re.search(r'(?:Vector)?Block<[^;]*?,\s*(\d+)\s*(?:,\s*1)?(?:,\s*\w+)?>', q)
    m2 = re.search(r'FixedSegmentReturnType<(\d+)', q)
    if m2:
        return int(m2.group(1))
    m3 = re.search(r',\s*(\d+)>\s*$', q.split(' typename')[0].strip())
    if m3:
        return int(m3.group(1))
    if m:
        return int(m.group(1))
    raise Unsupported('fixed block size of %s' % q)


def fixed_dim2(it, n):
    import re
    for q in (n['type'].get('desugaredQualType', ''), n['type'].get('qualType', '')):
        m = re.search(r',\s*(\d+),\s*(\d+)(?:,\s*(?:true|false|0|1))?>\s*$', q.strip()) or re.search(r'FixedBlockXpr<(\d+),\s*(\d+)>', q)
        if m:
            return int(m.group(1)), int(m.group(2))
    raise Unsupported('fixed block size of %s' % n['type'])


def eigen_index(it, obj, v, X, n):
    X = [norm(x) for x in X]
    if len(X) == 2:
        i, j = X
        r, c = (v.r, v.c) if isinstance(v, Mat) else (v.n, 1)
        it.oblige('Eigen index within bounds', land(cmp('>=', i, 0), cmp('<', i, r), cmp('>=', j, 0), cmp('<', j, c)), n)
        if isinstance(v, Mat) and isinstance(i, int) and isinstance(j, int):
            k = i * v.c + j
        elif isinstance(v, Mat):
            if v.c == 1:
                k = i
            elif v.r == 1:
                k = j
            else:
                raise Unsupported('symbolic matrix index')
        else:
            k = i
    else:
        k = X[0]
        if isinstance(v, Mat) and v.r > 1 and v.c > 1:
            raise Unsupported('linear index into a matrix')
        it.oblige('Eigen index within bounds', land(cmp('>=', k, 0), cmp('<', k, eig_size(v))), n)
    if isinstance(obj, View):
        k = conc_int(it, k, 'index into a block')
        return obj.lv.i(obj.coords[k])
    if not isinstance(obj, LV):
        obj = it.alloc(v, None)
    if isinstance(v, Mat) and isinstance(k, int):
        return LV(obj.cell, obj.path + (('i', k),))
    return obj.i(k)


def det(m):
    if m.r == 1:
        return m.d[0]
    if m.r == 2:
        return sub(mul(m.d[0], m.d[3]), mul(m.d[1], m.d[2]))
    r = Fraction(0)
    for j in range(m.c):
        a = m.at(0, j)
        if is_num(a) and a == 0:
            continue
        minor = Mat(m.r - 1, m.c - 1, [m.at(i, k) for i in range(1, m.r) for k in range(m.c) if k != j])
        t = mul(a, det(minor))
        r = add(r, t) if j % 2 == 0 else sub(r, t)
    return r


def minverse(it, m, n):
    """inverse of a matrix of known numbers, or a symbolic one by its defining equations"""
    h = it.e.hooks.get('inverse')
    if h:
        r = h(it, m, n)
        if r is not None:
            return r
    k = m.r
    if all(is_num(x) for x in m.d):
        a = [[Fraction(m.at(i, j)) for j in range(k)] + [Fraction(int(i == j)) for j in range(k)] for i in range(k)]
        for c in range(k):
            p = next((r for r in range(c, k) if a[r][c] != 0), None)
            if p is None:
                it.oblige('inverted matrix is regular', False, n)
            a[c], a[p] = a[p], a[c]
            f = a[c][c]
            a[c] = [x / f for x in a[c]]
            for r in range(k):
                if r != c and a[r][c] != 0:
                    f = a[r][c]
                    a[r] = [x - f * y for x, y in zip(a[r], a[c])]
        return Mat(k, k, [a[i][j] for i in range(k) for j in range(k, 2 * k)])
    d = det(m) if k <= 3 else None
    if d is None:
        raise Unsupported('inverse of a symbolic matrix')
    it.oblige('inverted matrix is regular', cmp('!=', d, 0), n)
    adj = []
    for i in range(k):
        for j in range(k):
            minor = Mat(k - 1, k - 1, [m.at(a, b) for a in range(k) for b in range(k) if a != j and b != i])
            c = det(minor) if k > 1 else Fraction(1)
            adj.append(rdiv(c if (i + j) % 2 == 0 else neg(c), d))
    return Mat(k, k, adj)


# quaternions
def quat_member(it, n, name, obj, v, argn):
    if name in ('x', 'y', 'z', 'w'):
        return obj.f(name) if isinstance(obj, LV) else v.f[name]
    if name in ('inverse', 'conjugate'):
        q = v.f
        if name == 'conjugate':
            return SV('$quat', {'w': q['w'], 'x': neg(q['x']), 'y': neg(q['y']), 'z': neg(q['z'])})
        n2 = fold_add(mul(q[c], q[c]) for c in 'wxyz')
        return SV('$quat', {'w': it.fdiv(q['w'], n2, n), 'x': it.fdiv(neg(q['x']), n2, n), 'y': it.fdiv(neg(q['y']), n2, n), 'z': it.fdiv(neg(q['z']), n2, n)})
    if name == 'toRotationMatrix':
        return quat_rot(v)
    if name == 'norm':
        return usqrt(it, fold_add(mul(v.f[c], v.f[c]) for c in 'wxyz'))
    if name == 'coeffs':
        return Mat(4, 1, [v.f[c] for c in 'xyzw'])
    raise Unsupported('quaternion member %s' % name)


def quat_mul(a, b):
    a, b = a.f, b.f
    m = mul
    return SV('$quat', {
        'w': sub(sub(sub(m(a['w'], b['w']), m(a['x'], b['x'])), m(a['y'], b['y'])), m(a['z'], b['z'])),
        'x': sub(add(add(m(a['w'], b['x']), m(a['x'], b['w'])), m(a['y'], b['z'])), m(a['z'], b['y'])),
        'y': add(sub(add(m(a['w'], b['y']), m(a['y'], b['w'])), m(a['x'], b['z'])), m(a['z'], b['x'])),
        'z': sub(add(add(m(a['w'], b['z']), m(a['z'], b['w'])), m(a['x'], b['y'])), m(a['y'], b['x']))})


def quat_rot(q):
    w, x, y, z = (q.f[c] for c in 'wxyz')
    two = Fraction(2)
    m = lambda a, b: mul(two, mul(a, b))
    one = Fraction(1)
    return Mat(3, 3, [sub(one, add(m(y, y), m(z, z))), sub(m(x, y), m(w, z)), add(m(x, z), m(w, y)),
                      add(m(x, y), m(w, z)), sub(one, add(m(x, x), m(z, z))), sub(m(y, z), m(w, x)),
                      sub(m(x, z), m(w, y)), add(m(y, z), m(w, x)), sub(one, add(m(x, x), m(y, y)))])


def rot_of(aa):
    raise Unsupported('angle-axis matrix')


# ------------------------------------------------------------------ operators
def operator(it, n, name, xs, argn):
    V = [it.val(x) for x in xs]
    a = V[0]
    b = V[1] if len(V) > 1 else None
    h = it.e.hooks.get('op:' + name)
    if h:
        r = h(it, n, xs, V)
        if r is not NotImplemented:
            return r
    if yaml.is_y(a) and name in ('operator[]', 'operator!', 'operator='):
        return yaml.operator(it, n, name, xs, V, argn)
    if isinstance(a, yaml.Emit) and name == 'operator<<':
        return yaml.emit(it, n, xs[0], a, b, argn[1])
    if isinstance(a, Opaque) and a.tag == 'ofile':
        if name == 'operator!':
            return lnot(a.data[1])
        if name == 'operator<<' and isinstance(b, yaml.Emit):
            it.ghost['file'] = (a.data[0], b.fr[0][1])
            return xs[0]
    if name == 'operator=':
        return assign(it, n, xs[0], a, b)
    if name in ('operator[]', 'operator()'):
        if is_eig(a):
            return eigen_index(it, xs[0], a, V[1:], n)
        if isinstance(a, Seq):
            return index(it, xs[0], b, n)
        if isinstance(a, (MapV, SymMap)):
            return map_index(it, xs[0], b)
        if isinstance(a, Lam):
            return it.call_lambda(a, xs[1:])
        if isinstance(a, SV) and a.cls == '$pair' and isinstance(b, Opaque) and b.tag == 'rng':
            # a draw of a uniform distribution: anything inside its bounds
            lo, hi = a.f['first'], a.f['second']
            r = it.fresh(('real',), 'rand')
            it.assume(z3.And(r >= rv(lo), r <= rv(hi)))
            h = it.e.hooks.get('draw')
            if h:
                h(it, n, r, b.data)
            return r
    if name in ('operator*', 'operator->') and len(V) == 1:
        if isinstance(a, Iter):
            return it.deref_iter(a, n) if name == 'operator*' else Ptr(it.deref_iter(a, n))
        if isinstance(a, MapIter):
            lv = mapiter_deref(it, a, n)
            return lv if name == 'operator*' else Ptr(lv)
        if isinstance(a, Ptr):
            return a.lv if name == 'operator*' else a
        if a is NULL:
            it.oblige('no null dereference', False, n)
        if isinstance(a, Opaque) and a.tag == 'null?':
            it.oblige('no null dereference', a.data, n)
    if name in ('operator++', 'operator--'):
        d = 1 if name == 'operator++' else -1
        if isinstance(a, Iter):
            new = Iter(a.lv, add(a.idx, d))
        elif isinstance(a, MapIter) and a.present is None:
            new = MapIter(a.lv, a.key + d, None)
        else:
            raise Unsupported('increment of %r' % (a,))
        it.store(xs[0], new)
        return a if len(V) > 1 else xs[0]
    if name in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>='):
        return compare(it, n, name[8:], a, b, xs)
    if name == 'operator!':
        if isinstance(a, (Ptr,)) or a is NULL:
            return a is NULL
    if name == 'operator-' and len(V) == 1:
        if is_eig(a):
            return sym_map(it, a, lambda x: -x) if isinstance(a, Seq) and not a.conc else as_mat(it, a).map(neg)
    if name in ('operator+', 'operator-', 'operator+=', 'operator-='):
        op = add if '+' in name else sub
        if isinstance(a, Iter):
            r = sub(a.idx, b.idx) if isinstance(b, Iter) else Iter(a.lv, op(a.idx, b))
            if name.endswith('='):
                it.store(xs[0], r)
                return xs[0]
            return r
        if isinstance(a, MapIter) and isinstance(b, int):
            return MapIter(a.lv, a.key + (b if '+' in name else -b), None)
        if isinstance(a, str) or isinstance(b, str):
            return it.fresh(('str',), 'strcat')
        if is_eig(a) and is_eig(b):
            if (isinstance(a, Seq) and not a.conc) or (isinstance(b, Seq) and not b.conc):
                r = sym_zip(it, a, b, (lambda x, y: x + y) if '+' in name else (lambda x, y: x - y), n)
            else:
                ma, mb = as_mat(it, a), as_mat(it, b)
                if (ma.r, ma.c) != (mb.r, mb.c):
                    it.oblige('Eigen sizes agree', False, n)
                r = ma.zip(mb, op)
            if name.endswith('='):
                it.store(xs[0], r)
                return xs[0]
            return r
        if isinstance(a, Cplx) or isinstance(b, Cplx):
            a, b = cx(a), cx(b)
            return Cplx(op(a.re, b.re), op(a.im, b.im))
        if isinstance(a, Opaque) and a.tag == 'time':
            return Opaque('dur', sub(a.data, b.data)) if isinstance(b, Opaque) and b.tag == 'time' else Opaque('time', op(a.data, b.data))
        if isinstance(a, Opaque) and a.tag == 'dur':
            return Opaque('dur', op(a.data, b.data))
    if name in ('operator*', 'operator*='):
        r = product(it, n, a, b)
        if name.endswith('='):
            it.store(xs[0], r)
            return xs[0]
        return r
    if name in ('operator/', 'operator/='):
        if is_eig(a) and is_scalar(b):
            if isinstance(a, Seq) and not a.conc:
                it.oblige('floating divisor is not zero', cmp('!=', b, 0), n)
                r = sym_map(it, a, lambda x: x / rv(b))
            else:
                if not is_num(b):
                    it.oblige('floating divisor is not zero', cmp('!=', b, 0), n)
                r = as_mat(it, a).map(lambda x: it.fdiv(x, b, n) if is_num(b) else rdiv(x, b))
            if name.endswith('='):
                it.store(xs[0], r)
                return xs[0]
            return r
    if name == 'operator<<':
        if is_eig(a) and (isinstance(a, Seq) and not a.conc or isinstance(b, Seq) and not b.conc):
            return comma_sym(it, n, xs[0], a, 0, b)
        if is_eig(a):
            base = as_mat(it, a)
            tgt = xs[0]
            bm = b
            if is_eig(b):
                vals = as_mat(it, b).d
            else:
                vals = [b]
            d = list(base.d)
            for k, x in enumerate(vals):
                if k >= len(d):
                    it.oblige('comma initialiser fits', False, n)
                d[k] = x
            it.store(tgt, Mat(base.r, base.c, d, base.k))
            return CommaInit(tgt, len(vals))
        return Opaque('stream')
    if name == 'operator,':
        if isinstance(a, CommaInit):
            base = it.val(a.lv)
            if isinstance(base, Seq) and not base.conc:
                return comma_sym(it, n, a.lv, base, a.pos, b)
            base = as_mat(it, base)
            vals = as_mat(it, b).d if is_eig(b) else [b]
            d = list(base.d)
            for k, x in enumerate(vals):
                if a.pos + k >= len(d):
                    it.oblige('comma initialiser fits', False, n)
                d[a.pos + k] = x
            it.store(a.lv, Mat(base.r, base.c, d, base.k))
            return CommaInit(a.lv, a.pos + len(vals))
    if name == 'operator&' or isinstance(a, Opaque) and a.tag == 'stream':
        return Opaque('stream')
    if name == 'operator>>':
        return Opaque('stream')
    raise Unsupported('operator %s on %r at %s' % (name, V, loc_of(n)))


def comma_sym(it, n, tgt, base, pos, b):
    """comma initialiser into a column vector of symbolic size"""
    m = iv(b.n) if isinstance(b, Seq) else len(as_mat(it, b).d) if is_eig(b) else 1
    size = iv(base.n if isinstance(base, Seq) else len(base.d))
    it.oblige('comma initialiser fits', iv(pos) + m <= size, n)
    r = it.fresh(('eig', 'r', -1, 1), 'comma')
    it.assume(r.n == size)
    i = z3.Int('ei!')
    new = lambda j: rv(it.elem(b, j)) if is_eig(b) else rv(b)
    old = lambda j: rv(it.elem(base, j))
    if isinstance(b, Mat):
        for k in range(len(b.d)):
            it.assume(z3.Select(r.arr, iv(pos) + k) == rv(b.d[k]))
        body = z3.Implies(z3.And(i >= 0, i < iv(pos)), z3.Select(r.arr, i) == old(i))
    elif not is_eig(b):
        it.assume(z3.Select(r.arr, iv(pos)) == rv(b))
        body = z3.Implies(z3.And(i >= 0, i < iv(pos)), z3.Select(r.arr, i) == old(i))
    else:
        body = z3.And(z3.Implies(z3.And(i >= 0, i < iv(pos)), z3.Select(r.arr, i) == old(i)), z3.Implies(z3.And(i >= iv(pos), i < iv(pos) + m), z3.Select(r.arr, i) == new(i - iv(pos))))
    it.assume(z3.ForAll([i], body, patterns=[z3.Select(r.arr, i)]))
    it.store(tgt, r)
    return CommaInit(tgt, add(pos, m))


def product(it, n, a, b):
    if is_scalar(a) and is_eig(b):
        a, b = b, a
    if is_eig(a) and is_scalar(b):
        if isinstance(a, Seq) and not a.conc:
            return sym_map(it, a, lambda x: x * rv(b))
        return as_mat(it, a).map(lambda x: mul(x, b))
    if is_eig(a) and is_eig(b):
        h = it.e.hooks.get('matmul')
        ma, mb = as_mat(it, a), as_mat(it, b)
        if ma.c != mb.r:
            it.oblige('Eigen product sizes agree', False, n)
        if h:
            r = h(it, ma, mb)
            if r is not None:
                return r
        return matmul(ma, mb)
    if isinstance(a, SV) and a.cls == '$quat':
        if isinstance(b, SV) and b.cls == '$quat':
            return quat_mul(a, b)
        if is_eig(b):
            return matmul(quat_rot(a), as_mat(it, b))
    if isinstance(a, Cplx) or isinstance(b, Cplx):
        a, b = cx(a), cx(b)
        return Cplx(sub(mul(a.re, b.re), mul(a.im, b.im)), add(mul(a.re, b.im), mul(a.im, b.re)))
    raise Unsupported('product of %r and %r' % (a, b))


def assign(it, n, dst, a, b):
    if isinstance(dst, View):
        it.store(dst, as_mat(it, b))
        return dst
    if is_eig(a) and isinstance(a, Mat) and isinstance(b, Seq):
        # a fixed size target keeps its size
        pass
    it.store(dst, b)
    return dst


def compare(it, n, op, a, b, xs):
    if isinstance(a, Iter) and isinstance(b, Iter):
        return cmp(op, a.idx, b.idx)
    if isinstance(a, MapIter) and isinstance(b, MapIter):
        if a.present is None and b.present is None:
            return cmp(op, a.key, b.key)
        m = it.load(a.lv)
        if (a.present is None or b.present is None) and isinstance(m, SymMap):
            K, I, n_ = it.map_enum(m)
            pos = [x.key if x.present is None else n_ if x.present is False else ite(x.present, I(it.S.term(m.kt, x.key)), n_) for x in (a, b)]
            return cmp(op, pos[0], pos[1])
        if op in ('==', '!=') and a.present not in (True, False) and b.present not in (True, False):
            raise Unsupported('comparison of two map positions')
        # find(..) compared with end()
        x = a if b.present is False else b
        r = lnot(x.present)
        return r if op == '==' else lnot(r)
    if isinstance(a, (Ptr,)) or isinstance(b, (Ptr,)) or a is NULL or b is NULL:
        for p, q in ((a, b), (b, a)):
            if isinstance(p, Opaque) and p.tag == 'null?':
                r = lnot(p.data)
                return r if op == '==' else lnot(r)
        return it.ptr_cmp(op, a, b)
    if isinstance(a, str) or isinstance(b, str):
        if isinstance(a, str) and isinstance(b, str):
            return (a == b) if op == '==' else (a != b)
        return cmp(op, it.S.term(('str',), a), it.S.term(('str',), b))
    if is_eig(a) and is_eig(b):
        if isinstance(a, Seq) and not a.conc or isinstance(b, Seq) and not b.conc:
            it.oblige('Eigen vector sizes agree', cmp('==', a.n, b.n), n)
            i = z3.Int('ei!')
            aa, bb = seq_arr_e(it, a), seq_arr_e(it, b)
            r = z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < iv(a.n)), z3.Select(aa, i) == z3.Select(bb, i)))
        else:
            ma, mb = as_mat(it, a), as_mat(it, b)
            if (ma.r, ma.c) != (mb.r, mb.c):
                # Eigen asserts equal sizes
                it.oblige('Eigen sizes agree', False, n)
            r = land(*[cmp('==', x, y) for x, y in zip(ma.d, mb.d)])
        return r if op == '==' else lnot(r)
    if isinstance(a, Seq) and isinstance(b, Seq):
        r = seq_equal(it, n, a, b, xs)
        return r if op == '==' else lnot(r)
    if isinstance(a, (MapV, SymMap)):
        raise Unsupported('map comparison')
    if isinstance(a, Opaque) and a.tag in ('time', 'dur'):
        return cmp(op, a.data, b.data)
    if isinstance(a, Cplx):
        r = land(cmp('==', a.re, cx(b).re), cmp('==', a.im, cx(b).im))
        return r if op == '==' else lnot(r)
    if is_scalar(a) and is_scalar(b):
        return cmp(op, a, b)
    raise Unsupported('comparison of %r and %r at %s' % (a, b, loc_of(n)))


def seq_arr_e(it, v):
    t = ('eig', 'r', -1, 1)
    return it.S.acc(it.S.sort(t), 1, it.S.term(t, v))


def seq_equal(it, n, a, b, xs):
    """std::vector operator==: same size and pairwise operator=="""
    h = it.e.hooks.get('seq_equal')
    if h:
        r = h(it, n, a, b, xs)
        if r is not None:
            return r
    if a.conc and b.conc:
        if len(a.items) != len(b.items):
            return False
        for x, y in zip(a.items, b.items):
            if isinstance(x, SV):
                f = it.find_method(x, 'operator==', 1, [y])
                if f is None:
                    raise Unsupported('element comparison')
                r = it.val(it.call(f, it.alloc(x, ('class', x.cls)), [y], n))
            elif is_eig(x):
                r = compare(it, n, '==', x, y, None)
            else:
                r = cmp('==', x, y)
            if not it.branch(r):
                return False
        return True
    if a.et and a.et[0] in ('real', 'int', 'bool', 'uint', 'r', 'i', 'b'):
        va, vb = seq_arr(it, a), seq_arr(it, b)
        i = z3.Int('ei!')
        r = z3.Bool('eq!%d' % (it.nfresh + 1))
        it.nfresh += 1
        k = z3.Int('ne!%d' % it.nfresh)
        it.assume(z3.Implies(r, z3.And(iv(a.n) == iv(b.n), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < iv(a.n)), z3.Select(va, i) == z3.Select(vb, i)), patterns=[z3.Select(va, i), z3.Select(vb, i)]))))
        it.assume(z3.Implies(z3.Not(r), z3.Or(iv(a.n) != iv(b.n), z3.And(k >= 0, k < iv(a.n), z3.Select(va, k) != z3.Select(vb, k)))))
        return r
    raise Unsupported('comparison of symbolic containers')


# ------------------------------------------------------------------ free functions
def free(it, n, name, argn, c):
    h = it.e.hooks.get('free:' + name)
    if h:
        r = h(it, n, argn)
        if r is not NotImplemented:
            return r
    qt = c.get('referencedDecl', {}).get('type', {}).get('qualType', '')
    if name in ('CheckNotNull', ):
        x = it.ev(argn[-1])
        v = it.val(x)
        if v is NULL:
            it.check_fatal(False, n)
        elif isinstance(v, Opaque) and v.tag == 'null?':
            it.check_fatal(v.data, n)
        return x if not isinstance(x, LV) else v
    if name.startswith('Check_') and name.endswith('Impl'):
        a, b = it.rvalue(argn[0]), it.rvalue(argn[1])
        op = {'EQ': '==', 'NE': '!=', 'LT': '<', 'LE': '<=', 'GT': '>', 'GE': '>='}[name[6:8]]
        return Opaque('check', it.arith(op, a, b, ('bool',), n))
    if name == 'GetReferenceableValue':
        return it.ev(argn[0])
    if name == '__builtin_expect':
        return it.rvalue(argn[0])
    if name in ('PRINT_STRINGS', 'printf', 'snprintf', 'sleep_for', 'InitVLOG3__', 'yield'):
        return 0
    if name == '__assert_fail':
        it.oblige('assert does not abort', False, n)
    if name in ('move', 'forward'):
        return it.ev(argn[0])
    if name in ('epsilon', 'max', 'min', 'lowest', 'quiet_NaN', 'infinity') and not argn:
        t = ntype(n, it.db)
        if t[0] == 'int':
            b = t[2]
            lo, hi = (-(2 ** (b - 1)), 2 ** (b - 1) - 1) if t[1] else (0, 2 ** b - 1)
            return hi if name == 'max' else lo
        if name == 'epsilon':
            return EPS
        it.assume(DBL_MAX > z3.RealVal(10 ** 30))
        if name == 'max':
            return DBL_MAX
        if name == 'lowest':
            return -DBL_MAX
        if name == 'min':
            return Fraction(1, 2 ** 1022)
        if name == 'infinity':
            it.assume(INF > DBL_MAX)
            return INF
        raise Unsupported(name)
    if name in ('Zero', 'Ones', 'Identity', 'Constant', 'UnitZ', 'UnitX', 'UnitY'):
        return eigen_const(it, n, name, argn)
    if name == 'base_coefficients_':
        raise Unsupported(name)
    if name in ('for_each', 'find_if', 'accumulate', 'iota', 'any_of', 'all_of', 'none_of', 'count_if', 'transform', 'copy', 'sort', 'reverse', 'fill', 'max_element', 'min_element', 'distance', 'next', 'prev', 'advance', 'back_inserter'):
        return algorithm(it, n, name, argn)
    if name in ('begin', 'end', 'cbegin', 'cend'):
        lv = it.glvalue(argn[0])
        v = it.val(lv)
        return Iter(lv, 0) if 'begin' in name else Iter(lv, it.seq_len(v))
    if name == 'make_shared':
        t = ntype(n, it.db)
        xs = [it.ev(a) for a in argn]
        it.trusted.add('x') if hasattr(it, 'trusted') else None
        return Ptr(it.alloc(it.construct(t[1][1], xs, n), t[1]))
    if name in ('make_pair',):
        xs = [it.rvalue(a) for a in argn]
        return SV('$pair', {'first': xs[0], 'second': xs[1]})
    xs = [it.rvalue(a) for a in argn if a.get('kind') != 'CXXDefaultArgExpr']
    if name in ('abs', 'fabs', 'labs'):
        return rabs(xs[0])
    if name in ('max', 'min') and len(xs) == 2 and isinstance(xs[0], SV) and isinstance(xs[1], SV):
        # std::max(a, b) is (a < b) ? b : a, std::min(a, b) is (b < a) ? b : a
        a, b = xs
        x, y = (a, b) if name == 'max' else (b, a)
        fs = [f for f in it.db.by_qname.get(a.cls + '::operator<', []) if f.body is not None]
        if len(fs) != 1:
            raise Unsupported('std::%s of %s' % (name, a.cls))
        t = ('class', a.cls)
        less = it.truth(it.val(it.enter(fs[0], it.alloc(x, t), [it.alloc(y, t)], n)))
        return b if it.branch(less) else a
    if name in ('max', 'fmax'):
        if len(xs) == 1 and isinstance(xs[0], Seq):
            r = xs[0].items[0]
            for x in xs[0].items[1:]:
                r = rmax(r, x)
            return r
        return rmax(xs[0], xs[1])
    if name in ('min', 'fmin'):
        return rmin(xs[0], xs[1])
    if name == 'clamp':
        return rmin(rmax(xs[0], xs[1]), xs[2])
    if name == 'sqrt':
        return usqrt(it, xs[0], n)
    if name == 'exp':
        return rexp(it, xs[0])
    if name == 'sin':
        return rsin(it, xs[0])
    if name == 'cos':
        return rcos(it, xs[0])
    if name == 'pow':
        return rpow(it, xs[0], xs[1])
    if name == 'acos':
        x = rv(xs[0])
        r = F_acos(x)
        it.assume(z3.Implies(z3.And(x >= -1, x <= 1), z3.And(r >= 0, F_cos(r) == x)))
        trig_ax(it, r)
        return r
    if name == 'asin':
        x = rv(xs[0])
        r = F_asin(x)
        it.assume(z3.Implies(z3.And(x >= -1, x <= 1), z3.And(F_sin(r) == x, F_cos(r) >= 0)))
        trig_ax(it, r)
        return r
    if name == 'atan2':
        y, x = rv(xs[0]), rv(xs[1])
        r = F_atan2(y, x)
        trig_ax(it, r)
        q = z3.Real('hyp!%d' % it.nfresh)
        it.nfresh += 1
        it.assume(z3.And(q >= 0, q * q == x * x + y * y, q * F_cos(r) == x, q * F_sin(r) == y))
        return r
    if name == 'log':
        return F_log(rv(xs[0]))
    if name == 'swap':
        la, lb = it.ev(argn[0]), it.ev(argn[1])
        va, vb = it.val(la), it.val(lb)
        it.store(la, vb)
        it.store(lb, va)
        return None
    if name in ('ceil', 'floor', 'round'):
        x = xs[0]
        if is_num(x):
            return Fraction({'ceil': math.ceil, 'floor': math.floor, 'round': lambda q: math.floor(q + Fraction(1, 2))}[name](x))
        x = rv(x)
        if name == 'floor':
            return z3.ToReal(z3.ToInt(x))
        if name == 'ceil':
            return z3.ToReal(-z3.ToInt(-x))
        return z3.If(x >= 0, z3.ToReal(z3.ToInt(x + z3.Q(1, 2))), -z3.ToReal(z3.ToInt(-x + z3.Q(1, 2))))
    if name in ('isfinite',):
        return True
    if name in ('isnan', 'isinf'):
        return False
    if name == 'Comment' and 'YAML' in str(n.get('type')):
        return Opaque('comment')
    if name == 'LoadFile':
        return yaml.load_file(it, it.rvalue(argn[0]))
    if name == 'to_string':
        return it.fresh(('str',), 'tostr')
    if name == 'now':
        it.nfresh += 1
        t = z3.Real('now!%d' % it.nfresh)
        it.ghost['nows'] = it.ghost.get('nows', []) + [t]
        return Opaque('time', t)
    if name == 'duration_cast':
        return xs[0]
    raise Unsupported('call of %s at %s' % (name, loc_of(n)))


def eigen_const(it, n, name, argn):
    import re
    xs = [it.rvalue(a) for a in argn]
    q = n['type'].get('desugaredQualType') or n['type']['qualType']
    r = c = -1
    m = re.search(r'Matrix<(?:double|float|std::complex<double>)\s*,\s*(-?\d+)\s*,\s*(-?\d+)', q)
    if m:
        r, c = int(m.group(1)), int(m.group(2))
    else:
        cal = it.callee(n)
        q2 = str(cal.get('foundReferencedDecl', '')) + q
        if 'Vector3d' in q2:
            r, c = 3, 1
        elif 'Matrix3d' in q2:
            r, c = 3, 3
    if name in ('UnitX', 'UnitY', 'UnitZ'):
        k = 'XYZ'.index(name[-1])
        return Mat(3, 1, [Fraction(int(i == k)) for i in range(3)])
    if name == 'Identity' and 'Quaternion' in q:
        return SV('$quat', {'w': Fraction(1), 'x': Fraction(0), 'y': Fraction(0), 'z': Fraction(0)})
    val = Fraction(1) if name == 'Ones' else Fraction(0)
    if name == 'Constant':
        val = xs.pop()
    dims = [norm(x) for x in xs]
    if not dims:
        if r < 0 or c < 0:
            raise Unsupported('dimensions of %s in %s' % (name, q))
        dims = [r, c]
    elif len(dims) == 1:
        dims = [dims[0], 1] if c == 1 or c == -1 and r == -1 else [1, dims[0]]
        if r == 1 and c != 1:
            dims = [1, xs[0]]
    if isinstance(dims[0], int) and isinstance(dims[1], int):
        R, C = dims
        if name == 'Identity':
            return Mat(R, C, [Fraction(int(i == j)) for i in range(R) for j in range(C)])
        return Mat(R, C, [val] * (R * C))
    if is_num(dims[1]) and dims[1] == 1:
        it.oblige('Eigen size is not negative', cmp('>=', dims[0], 0), n)
        return Seq(('real',), 'eig', None, dims[0], z3.K(z3.IntSort(), rv(val)))
    raise Unsupported('symbolic matrix size')


def algorithm(it, n, name, argn):
    xs = [it.ev(a) for a in argn]
    V = [it.val(x) for x in xs]
    if name in ('next', 'prev'):
        k = V[1] if len(V) > 1 else 1
        return Iter(V[0].lv, add(V[0].idx, k if name == 'next' else neg(k)))
    if name == 'distance':
        return sub(V[1].idx, V[0].idx)
    a, b = V[0], V[1]
    seq = it.load(a.lv)

    def callf(f, args):
        if isinstance(f, Lam):
            return it.val(it.call_lambda(f, args))
        raise Unsupported('callable %r' % (f,))
    if name == 'for_each':
        it.for_each(n, a.lv, lambda lv: callf(V[2], [lv]), a.idx, b.idx)
        return V[2]
    if name in ('find_if', 'any_of', 'all_of', 'none_of', 'count_if'):
        res = it.alloc(b.idx if name == 'find_if' else (False if name == 'any_of' else (True if name != 'count_if' else 0)), ('int', True, 64) if name in ('find_if', 'count_if') else ('bool',))
        kc = it.alloc(a.idx, ('int', True, 64))

        def body(lv):
            r = it.truth(callf(V[2], [lv]))
            if name == 'count_if':
                if it.branch(r):
                    it.store(res, add(it.load(res), 1))
                return
            hit = r if name in ('find_if', 'any_of', 'none_of') else lnot(r)
            if it.branch(hit):
                if name == 'find_if':
                    it.store(res, lv.path[-1][1])
                else:
                    it.store(res, name == 'any_of')
                raise BreakX()
        it.for_each(n, a.lv, body, a.idx, b.idx)
        r = it.load(res)
        return Iter(a.lv, r) if name == 'find_if' else r
    if name == 'accumulate':
        init = V[2]
        acc = it.alloc(init, ('real',) if isr(init) else ('int', True, 64))
        intinit = not isr(init)

        def body(lv):
            x = it.load(lv)
            if len(V) > 3:
                r = callf(V[3], [it.load(acc), lv])
            else:
                r = add(it.load(acc), x)
                if intinit and isr(r):
                    # the accumulator is an int: every partial sum is truncated
                    r = int(r) if is_num(r) else z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r))
            it.store(acc, r)
        it.ghost['acc'] = acc
        it.frames[-1].names['$acc'] = acc
        it.for_each(n, a.lv, body, a.idx, b.idx)
        return it.load(acc)
    if name == 'iota':
        if seq.conc if isinstance(seq, Seq) else True:
            items = list(seq.items)
            v = V[2]
            for k in range(a.idx, b.idx):
                items[k] = add(v, k - a.idx)
            it.store(a.lv, Seq(seq.et, seq.kind, items))
        else:
            r = it.fresh(('seq', seq.et, seq.kind), 'iota')
            i = z3.Int('ei!')
            it.assume(r.n == seq.n)
            it.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < seq.n), z3.Select(r.arr, i) == i + iv(V[2])), patterns=[z3.Select(r.arr, i)]))
            it.store(a.lv, r)
        return None
    raise Unsupported('algorithm %s' % name)


# ------------------------------------------------------------------ construction of library types
def construct(it, n, t, argn):
    k = t[0]
    live = [a for a in argn if a.get('kind') != 'CXXDefaultArgExpr']
    q = n['type']['qualType']
    h = it.e.hooks.get('ctor')
    if h:
        r = h(it, n, t, argn)
        if r is not NotImplemented:
            return r
    if k == 'str':
        xs = [it.rvalue(a) for a in live]
        return xs[0] if xs else ''
    if k == 'yaml':
        return yaml.construct(it, n, live)
    if k == 'yemit':
        return yaml.Emit()
    if k == 'opaque' and ('ofstream' in q or 'ifstream' in q):
        return yaml.open_file(it, n, q, live)
    if k == 'opaque':
        if 'Log' in q or 'ostream' in q or 'stream' in q or 'IOFormat' in q or 'Check' in q:
            return Opaque('stream')
        if 'mt19937' in q or 'mersenne_twister' in q or 'linear_congruential' in q or 'default_random_engine' in q:
            return Opaque('rng', tuple(it.rvalue(a) for a in live))
        if 'AngleAxis' in q:
            xs = [it.rvalue(a) for a in live]
            return SV('$aa', {'angle': xs[0], 'axis': xs[1]})
        if 'SparseQR' in q:
            return Opaque('qr')
        if q in ('std::thread', 'thread') and live:
            # starts nothing here: the started function is recorded
            fs = []
            def refs(x):
                if isinstance(x, dict):
                    r = x.get('referencedDecl', {})
                    if 'Method' in r.get('kind', '') or 'Function' in r.get('kind', ''):
                        fs.append(r.get('name'))
                    for y in x.get('inner', ()):
                        refs(y)
            for a in live:
                refs(a)
            it.events.append(('thread', tuple(fs)))
            return Opaque('thread', tuple(fs))
        if len(live) == 1:
            return it.ev(live[0])
        if not live:
            return Opaque('v')
        raise Unsupported('constructor of %s' % q)
    if not live:
        return it.default_value(t)
    xs = [it.ev(a) for a in live]
    V = [it.val(x) for x in xs]
    if k == 'seq':
        if len(V) == 1:
            v = V[0]
            if isinstance(v, Seq):
                if v.kind == 'ilist':
                    return Seq(t[1], t[2], [it.convert(x, t[1]) for x in v.items])
                return Seq(t[1], t[2], v.items, v.n, v.arr) if v.conc else Seq(t[1], t[2], None, v.n, v.arr)
            if isinstance(v, int):
                return Seq(t[1], t[2], [it.zero_value(t[1]) for _ in range(v)])
            if is_sym(v):
                dv = it.S.term(t[1], it.zero_value(t[1]))
                return Seq(t[1], t[2], None, v, z3.K(z3.IntSort(), dv))
        if len(V) == 2:
            if isinstance(V[0], Iter):
                src = it.load(V[0].lv)
                if src.conc:
                    return Seq(t[1], t[2], src.items[V[0].idx:V[1].idx])
                if is_num(V[0].idx) and V[0].idx == 0 and same(V[1].idx, src.n):
                    return Seq(t[1], t[2], None, src.n, src.arr)
                return seq_drop_front(it, Seq(t[1], t[2], None, V[1].idx, src.arr), V[0].idx)
            if isinstance(V[0], int):
                return Seq(t[1], t[2], [it.convert(V[1], t[1])] * V[0])
            if is_sym(V[0]):
                return Seq(t[1], t[2], None, V[0], z3.K(z3.IntSort(), it.S.term(t[1], V[1])))
    if k == 'eig':
        if len(V) == 1:
            if is_eig(V[0]):
                v = V[0]
                if t[3] == 1 and isinstance(v, Mat) and v.c != 1 and v.r == 1:
                    v = v.T
                elif t[2] == 1 and isinstance(v, Mat) and v.r != 1 and v.c == 1:
                    v = v.T
                return it.convert(v, t)
            if isinstance(V[0], SV) and V[0].cls == '$quat':
                return quat_rot(V[0])
            return eigen_sized(it, t, V)
        if t[2] > 0 and t[3] > 0:
            return Mat(t[2], t[3], [Fraction(x) if isinstance(x, int) else x for x in V])
        return eigen_sized(it, t, V)
    if k == 'pair':
        if len(V) == 1:
            return V[0]
        return SV('$pair', {'first': it.convert(V[0], t[1]), 'second': it.convert(V[1], t[2])})
    if k in ('map', 'set', 'array', 'sptr', 'cplx', 'bool', 'real', 'int', 'future', 'ptr', 'iter', 'guard'):
        if len(V) == 1:
            return V[0]
        if k == 'cplx':
            return Cplx(V[0], V[1])
    if k == 'quat':
        if len(V) == 4:
            return SV('$quat', dict(zip('wxyz', V)))
        v = V[0]
        if isinstance(v, SV) and v.cls == '$quat':
            return v
        if isinstance(v, SV) and v.cls == '$aa':
            ang, ax = v.f['angle'], v.f['axis']
            half = rdiv(ang, Fraction(2))
            s, c = rsin(it, half), rcos(it, half)
            return SV('$quat', {'w': c, 'x': mul(s, ax.d[0]), 'y': mul(s, ax.d[1]), 'z': mul(s, ax.d[2])})
        h = it.e.hooks.get('quat_from_mat')
        if h:
            return h(it, v)
    if k == 'triplet':
        return SV('$triplet', dict(zip(('row', 'col', 'value'), V))) if len(V) == 3 else V[0]
    raise Unsupported('constructor of %r with %d arguments at %s' % (t, len(V), loc_of(n)))


def call_bodyless(it, func, this, args, node):
    """declared in the repository, body not loaded"""
    for f in it.db.by_qname.get(func.qname, []):
        if f.body is not None and len(f.params) == len(func.params) and [p['type']['qualType'] for p in f.params] == [p['type']['qualType'] for p in func.params]:
            return it.enter(f, this, args, node)
    if func.name == 'operator=' and this is not None:
        it.store(this, it.val(args[0]))
        return this
    if func.node.get('isImplicit') or func.node.get('explicitlyDefaulted'):
        if func.name.startswith('operator='):
            it.store(this, it.val(args[0]))
            return this
    raise Unsupported('no body for %s' % func.qname)
