"""Symbolic values: C++ values of the verified code as trees over z3 terms.

double is a mathematical real and the integer types are mathematical integers
(conversions to unsigned wrap modulo 2^64 as in C++); both are recorded as
assumptions in the evidence.
"""
from fractions import Fraction
import z3

R0 = Fraction(0)


class Unsupported(Exception):
    """The code uses a construct the generator has no semantics for."""


def is_sym(x):
    return isinstance(x, z3.ExprRef)


def is_num(x):
    return isinstance(x, (int, Fraction)) and not isinstance(x, bool)


def rv(x):
    """as z3 real"""
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        return z3.RealVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(str(x.numerator) + '/' + str(x.denominator)) if x.denominator != 1 else z3.RealVal(x.numerator)
    if z3.is_int(x):
        return z3.ToReal(x)
    return x


def iv(x):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, Fraction):
        if x.denominator != 1:
            raise Unsupported('int from fraction')
        x = int(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    return x


def bv(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    return x


def _pyconst(x):
    if is_sym(x):
        if z3.is_int_value(x):
            return x.as_long()
        if z3.is_rational_value(x):
            return Fraction(x.numerator_as_long(), x.denominator_as_long())
        if z3.is_true(x):
            return True
        if z3.is_false(x):
            return False
    return None


def norm(x):
    c = _pyconst(x)
    return x if c is None else c


def isr(x):
    """is the value of sort Real (or a Fraction)"""
    return isinstance(x, Fraction) or (is_sym(x) and z3.is_real(x))


def coerce(a, b):
    if is_sym(a) or is_sym(b):
        if isr(a) or isr(b):
            return rv(a), rv(b)
        return iv(a), iv(b)
    return a, b


def add(a, b):
    if is_num(a) and is_num(b):
        return a + b
    if is_num(a) and a == 0:
        return rv(b) if isr(a) and not isr(b) else b
    if is_num(b) and b == 0:
        return rv(a) if isr(b) and not isr(a) else a
    a, b = coerce(a, b)
    return a + b


def neg(a):
    if is_num(a):
        return -a
    return -a


def sub(a, b):
    if is_num(a) and is_num(b):
        return a - b
    if is_num(b) and b == 0:
        return a
    a, b = coerce(a, b)
    if a.eq(b):
        return Fraction(0) if z3.is_real(a) else 0
    return a - b


def mul(a, b):
    if is_num(a) and is_num(b):
        return a * b
    for x, y in ((a, b), (b, a)):
        if is_num(x):
            if x == 0:
                return Fraction(0) if (isr(x) or isr(y)) else 0
            if x == 1:
                return y if not isr(x) or isr(y) else rv(y)
    a, b = coerce(a, b)
    return a * b


def rdiv(a, b):
    if is_num(a) and is_num(b):
        return Fraction(a) / Fraction(b)
    if is_num(b) and b == 1:
        return rv(a)
    if is_num(b):
        return mul(Fraction(1) / Fraction(b), rv(a))
    return rv(a) / rv(b)


def cmp(op, a, b):
    if isinstance(a, bool):
        a = int(a) if not is_sym(b) or not z3.is_bool(b) else a
    if isinstance(b, bool):
        b = int(b) if not is_sym(a) or not z3.is_bool(a) else b
    if not is_sym(a) and not is_sym(b):
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op]
    if (is_sym(a) and z3.is_bool(a)) or (is_sym(b) and z3.is_bool(b)):
        a, b = bv(a), bv(b)
        if z3.is_int(a):
            a = a != 0
        if z3.is_int(b):
            b = b != 0
    else:
        a, b = coerce(a, b)
    if a.eq(b):
        return op in ('<=', '>=', '==')
    return {'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b,
            '==': lambda: a == b, '!=': lambda: a != b}[op]()


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if not is_sym(a) and not is_sym(b) and a is b:
        return a
    if isinstance(a, bool) or isinstance(b, bool) or (is_sym(a) and z3.is_bool(a)):
        return z3.If(c, bv(a), bv(b))
    if is_num(a) and is_num(b):
        if isr(a) or isr(b):
            return z3.If(c, rv(a), rv(b))
        return z3.If(c, iv(a), iv(b))
    a, b = coerce(a, b)
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def land(*xs):
    out = []
    for x in xs:
        if x is True or x is None:
            continue
        if x is False:
            return False
        if isinstance(x, z3.BoolRef) and z3.is_true(x):
            continue
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def lor(*xs):
    out = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def lnot(x):
    if isinstance(x, bool):
        return not x
    return z3.Not(x)


def implies(a, b):
    return lor(lnot(a), b)


# ---------------------------------------------------------------- compound values
class SV:
    """struct / class value"""
    __slots__ = ('cls', 'f')

    def __init__(self, cls, f):
        self.cls, self.f = cls, f

    def with_(self, k, v):
        d = dict(self.f)
        d[k] = v
        return SV(self.cls, d)

    def __getitem__(self, k):
        return self.f[k]

    def __repr__(self):
        return 'SV<%s>%r' % (self.cls.split('::')[-1], self.f)


class Mat:
    """Eigen object of concrete size; entries row-major"""
    __slots__ = ('r', 'c', 'd', 'k')

    def __init__(self, r, c, d, k='r'):
        self.r, self.c, self.d, self.k = r, c, tuple(d), k
        assert len(self.d) == r * c

    def at(self, i, j=None):
        if j is None:
            return self.d[i]
        return self.d[i * self.c + j]

    def set(self, i, j, v):
        d = list(self.d)
        d[i * self.c + j] = v
        return Mat(self.r, self.c, d, self.k)

    @property
    def T(self):
        return Mat(self.c, self.r, [self.d[i * self.c + j] for j in range(self.c) for i in range(self.r)], self.k)

    def map(self, f):
        return Mat(self.r, self.c, [f(x) for x in self.d], self.k)

    def zip(self, o, f):
        if (self.r, self.c) != (o.r, o.c):
            raise Unsupported('Eigen size mismatch %dx%d vs %dx%d' % (self.r, self.c, o.r, o.c))
        return Mat(self.r, self.c, [f(x, y) for x, y in zip(self.d, o.d)], self.k)

    def block(self, i, j, h, w):
        return Mat(h, w, [self.at(a, b) for a in range(i, i + h) for b in range(j, j + w)], self.k)

    def __repr__(self):
        return 'Mat%dx%d%r' % (self.r, self.c, self.d if len(self.d) < 13 else '...')


class Seq:
    """vector / deque / symbolic-length Eigen column vector"""
    __slots__ = ('et', 'kind', 'items', 'n', 'arr')

    def __init__(self, et, kind, items=None, n=None, arr=None):
        self.et, self.kind, self.arr = et, kind, arr
        self.items = tuple(items) if items is not None else None
        self.n = len(self.items) if items is not None else n

    @property
    def conc(self):
        return self.items is not None

    def __repr__(self):
        return 'Seq%s' % (list(self.items),) if self.conc else 'Seq<n=%s>' % self.n


class Cplx:
    __slots__ = ('re', 'im')

    def __init__(self, re, im):
        self.re, self.im = re, im


class MapV:
    """map with concretely known keys (value present) - keys are python ints"""
    __slots__ = ('kt', 'vt', 'd')

    def __init__(self, kt, vt, d):
        self.kt, self.vt, self.d = kt, vt, d


class SymMap:
    __slots__ = ('kt', 'vt', 'dom', 'val')

    def __init__(self, kt, vt, dom, val):
        self.kt, self.vt, self.dom, self.val = kt, vt, dom, val


class SymSet(SymMap):
    """std::set of elements ordered by a key: key -> element"""
    __slots__ = ()

    @property
    def et(self):
        return self.vt


class SetV:
    """std::set with concrete, ordered elements"""
    __slots__ = ('et', 'items')

    def __init__(self, et, items):
        self.et, self.items = et, tuple(items)


class Ptr:
    __slots__ = ('lv',)

    def __init__(self, lv):
        self.lv = lv


NULL = None


class Iter:
    __slots__ = ('lv', 'idx')

    def __init__(self, lv, idx):
        self.lv, self.idx = lv, idx


class MapIter:
    """pos: index into the sorted keys of a concrete map, or a (key, present) pair of a symbolic one"""
    __slots__ = ('lv', 'key', 'present')

    def __init__(self, lv, key, present):
        self.lv, self.key, self.present = lv, key, present


class Opaque:
    __slots__ = ('tag', 'data')

    def __init__(self, tag, data=None):
        self.tag, self.data = tag, data

    def __repr__(self):
        return '<%s>' % self.tag


class LV:
    """location: a cell and an access path"""
    __slots__ = ('cell', 'path')

    def __init__(self, cell, path=()):
        self.cell, self.path = cell, path

    def f(self, name):
        return LV(self.cell, self.path + (('f', name),))

    def i(self, idx):
        return LV(self.cell, self.path + (('i', idx),))

    def key(self):
        out = []
        for p in self.path:
            out.append((p[0],) + tuple(str(x) for x in p[1:]))
        return (self.cell, tuple(out))

    def __repr__(self):
        return '&%s%s' % (self.cell, ''.join('.' + str(p[1]) if p[0] == 'f' else '[%s]' % (p[1:],) for p in self.path))


class View:
    """assignable Eigen block expression over an lvalue: list of flat element coordinates"""
    __slots__ = ('lv', 'r', 'c', 'coords')

    def __init__(self, lv, r, c, coords):
        self.lv, self.r, self.c, self.coords = lv, r, c, coords


class CommaInit:
    __slots__ = ('lv', 'pos')

    def __init__(self, lv, pos):
        self.lv, self.pos = lv, pos


class Lam:
    __slots__ = ('node', 'frame', 'tu')

    def __init__(self, node, frame, tu):
        self.node, self.frame, self.tu = node, frame, tu


# ---------------------------------------------------------------- sorts
class Sorts:
    """z3 sorts for C++ types, datatypes generated from the classes clang reports."""

    def __init__(self, db):
        self.db = db
        self.cache = {}
        self.strs = {'': 0}
        self.heap = {}          # pointed-to type -> lvalue of the list of its objects; a pointer in a symbolic container is an index there
        self.frozen_cells = set()
        self.frozen = {}        # objects copied into that list when a pointer to them was put into a symbolic container

    def strcode(self, s):
        if s not in self.strs:
            self.strs[s] = len(self.strs)
        return self.strs[s]

    def sort(self, t):
        if t in self.cache:
            return self.cache[t]
        k = t[0]
        if k == 'real':
            s = z3.RealSort()
        elif k in ('int', 'str', 'opaque'):
            s = z3.IntSort()
        elif k == 'bool':
            s = z3.BoolSort()
        elif k == 'yaml':
            from .yaml import Y
            s = Y
        elif k == 'cplx':
            s = self._dt('Cplx', [('re', z3.RealSort()), ('im', z3.RealSort())])
        elif k == 'seq':
            e = self.sort(t[1])
            s = self._dt('Seq_' + e.name(), [('n', z3.IntSort()), ('arr', z3.ArraySort(z3.IntSort(), e))])
        elif k == 'eig':
            e = self.sort(('cplx',) if t[1] == 'c' else ('real',))
            if t[2] > 0 and t[3] > 0:
                s = self._dt('M%dx%d' % (t[2], t[3]), [('e%d' % i, e) for i in range(t[2] * t[3])])
            else:
                s = self._dt('EV_' + e.name(), [('n', z3.IntSort()), ('arr', z3.ArraySort(z3.IntSort(), e))])
        elif k == 'array':
            e = self.sort(t[1])
            s = self._dt('Arr%d_%s' % (t[2], e.name()), [('e%d' % i, e) for i in range(t[2])])
        elif k == 'pair':
            a, b = self.sort(t[1]), self.sort(t[2])
            s = self._dt('Pair_%s_%s' % (a.name(), b.name()), [('first', a), ('second', b)])
        elif k == 'map':
            a, b = self.sort(t[1]), self.sort(t[2])
            s = self._dt('Map_%s_%s' % (a.name(), b.name()), [('dom', z3.ArraySort(a, z3.BoolSort())), ('val', z3.ArraySort(a, b))])
        elif k == 'triplet':
            s = self._dt('Triplet', [('row', z3.IntSort()), ('col', z3.IntSort()), ('value', z3.RealSort())])
        elif k == 'set':
            a, b = self.sort(self.set_keytype(t[1])), self.sort(t[1])
            s = self._dt('Set_%s' % b.name(), [('dom', z3.ArraySort(a, z3.BoolSort())), ('val', z3.ArraySort(a, b))])
        elif k == 'quat':
            s = self._dt('Quat', [(x, z3.RealSort()) for x in 'wxyz'])
        elif k == 'class':
            c = self.db.find_class(t[1])
            fs = []
            for n, ft in self.fields(t[1]):
                if ft[0] in ('mutex', 'future', 'sptr', 'ptr'):
                    continue
                fs.append((n, self.sort(ft)))
            s = self._dt(c.qname.split('::')[-1], fs)
        elif k in ('sptr', 'ptr') and t[1] in self.heap:
            return z3.IntSort()
        else:
            raise Unsupported('no sort for %r' % (t,))
        self.cache[t] = s
        return s

    def _dt(self, name, fs):
        d = z3.Datatype(name)
        d.declare('mk_' + name, *[('%s_%s' % (name, n), s) for n, s in fs])
        return d.create()

    def set_keytype(self, et):
        """what the elements of a set are ordered by (verified against operator< where the set is used)"""
        if et[0] in ('int', 'real', 'str'):
            return et
        if et[0] == 'class' and et[1].split('::')[-1] == 'Constraint':
            return ('pair', ('int', False, 64), ('int', False, 64))
        raise Unsupported('set of %r' % (et,))

    def set_key(self, et, x):
        if et[0] == 'class':
            return SV('$pair', {'first': x.f['vertex_idx'], 'second': x.f['constraint_idx']})
        return x

    def fields(self, cls):
        from .front import ntype
        c = self.db.find_class(cls)
        if c is None:
            raise Unsupported('class ' + cls)
        out = []
        for b in c.bases:
            bc = self.db.find_class(b)
            if bc:
                out += self.fields(bc.qname)
        for n, tj, init in c.fields:
            out.append((n, ntype({'type': tj}, self.db)))
        return out

    # value -> term
    def term(self, t, v):
        k = t[0]
        if is_sym(v) and k not in ('real', 'int', 'bool', 'str'):
            return v
        if k == 'real':
            return rv(v)
        if k == 'int':
            return iv(v) if not (is_sym(v) and z3.is_bool(v)) else z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if k == 'str':
            return z3.IntVal(self.strcode(v)) if isinstance(v, str) else v
        if k == 'bool':
            return bv(v)
        if k == 'opaque':
            return z3.IntVal(0)
        s = self.sort(t)
        mk = lambda *args: self.make(s, args)
        if k == 'cplx':
            return mk(rv(v.re), rv(v.im))
        if k in ('seq',) or (k == 'eig' and not (t[2] > 0 and t[3] > 0)):
            et = t[1] if k == 'seq' else (('cplx',) if t[1] == 'c' else ('real',))
            if isinstance(v, Mat):
                items = v.d
            elif v.conc:
                items = v.items
            else:
                return mk(iv(v.n), v.arr)
            a = z3.K(z3.IntSort(), self.default(et))
            for i, x in enumerate(items):
                a = z3.Store(a, z3.IntVal(i), self.term(et, x))
            return mk(z3.IntVal(len(items)), a)
        if k == 'eig':
            return mk(*[rv(x) for x in v.d])
        if k == 'array':
            return mk(*[self.term(t[1], x) for x in v.items])
        if k == 'pair':
            return mk(self.term(t[1], v.f['first']), self.term(t[2], v.f['second']))
        if k == 'quat':
            return mk(*[rv(v.f[x]) for x in 'wxyz'])
        if k == 'triplet':
            return mk(iv(v.f['row']), iv(v.f['col']), rv(v.f['value']))
        if k == 'set':
            if isinstance(v, SymMap):
                return mk(v.dom, v.val)
            kt = self.set_keytype(t[1])
            dom = z3.K(self.sort(kt), z3.BoolVal(False))
            val = z3.K(self.sort(kt), self.default(t[1]))
            for x in v.items:
                kk = self.term(kt, self.set_key(t[1], x))
                dom, val = z3.Store(dom, kk, z3.BoolVal(True)), z3.Store(val, kk, self.term(t[1], x))
            return mk(dom, val)
        if k == 'map':
            if isinstance(v, SymMap):
                return mk(v.dom, v.val)
            dom = z3.K(self.sort(t[1]), z3.BoolVal(False))
            val = z3.K(self.sort(t[1]), self.default(t[2]))
            for kk, x in v.d.items():
                dom = z3.Store(dom, self.term(t[1], kk), z3.BoolVal(True))
                val = z3.Store(val, self.term(t[1], kk), self.term(t[2], x))
            return mk(dom, val)
        if k == 'class':
            args = []
            for n, ft in self.fields(t[1]):
                if ft[0] in ('mutex', 'future', 'sptr', 'ptr'):
                    continue
                args.append(self.term(ft, v.f[n]))
            return mk(*args)
        if k in ('sptr', 'ptr') and t[1] in self.heap and isinstance(v, Ptr):
            return self.handle(t[1], v)
        raise Unsupported('term of %r' % (t,))

    def make(self, s, args):
        """constructor application; the components of one term, put together, are that term"""
        x = None
        for i, a in enumerate(args):
            if not (z3.is_app(a) and a.num_args() == 1 and a.decl().eq(s.accessor(0, i)) and (x is None or a.arg(0).eq(x))):
                return s.constructor(0)(*args)
            x = a.arg(0)
        return x if x is not None else s.constructor(0)(*args)

    def default(self, t):
        k = t[0]
        if k == 'real':
            return z3.RealVal(0)
        if k in ('int', 'str', 'opaque'):
            return z3.IntVal(0)
        if k == 'bool':
            return z3.BoolVal(False)
        return z3.Const('dflt_' + self.sort(t).name(), self.sort(t))

    def acc(self, s, i, term):
        if z3.is_app(term) and term.decl().eq(s.constructor(0)):
            return term.arg(i)
        return s.accessor(0, i)(term)

    # term -> value
    def val(self, t, x):
        k = t[0]
        if k in ('real', 'int', 'bool', 'str'):
            return norm(x)
        if k == 'opaque':
            return Opaque('v')
        if k == 'yaml':
            return x
        s = self.sort(t)
        if k == 'cplx':
            return Cplx(norm(self.acc(s, 0, x)), norm(self.acc(s, 1, x)))
        if k == 'seq':
            return Seq(t[1], t[2], None, norm(self.acc(s, 0, x)), self.acc(s, 1, x))
        if k == 'eig':
            if t[2] > 0 and t[3] > 0:
                return Mat(t[2], t[3], [norm(self.acc(s, i, x)) for i in range(t[2] * t[3])])
            return Seq(('cplx',) if t[1] == 'c' else ('real',), 'eig', None, norm(self.acc(s, 0, x)), self.acc(s, 1, x))
        if k == 'array':
            return Seq(t[1], 'array', [self.val(t[1], self.acc(s, i, x)) for i in range(t[2])])
        if k == 'pair':
            return SV('$pair', {'first': self.val(t[1], self.acc(s, 0, x)), 'second': self.val(t[2], self.acc(s, 1, x))})
        if k == 'quat':
            return SV('$quat', {c: norm(self.acc(s, i, x)) for i, c in enumerate('wxyz')})
        if k == 'map':
            return SymMap(t[1], t[2], self.acc(s, 0, x), self.acc(s, 1, x))
        if k == 'triplet':
            return SV('$triplet', {n: norm(self.acc(s, i, x)) for i, n in enumerate(('row', 'col', 'value'))})
        if k == 'set':
            return SymSet(self.set_keytype(t[1]), t[1], self.acc(s, 0, x), self.acc(s, 1, x))
        if k == 'class':
            f, i = {}, 0
            for n, ft in self.fields(t[1]):
                if ft[0] in ('mutex', 'future', 'sptr', 'ptr'):
                    f[n] = Opaque('mutex') if ft[0] == 'mutex' else NULL
                    continue
                f[n] = self.val(ft, self.acc(s, i, x))
                i += 1
            return SV(self.db.find_class(t[1]).qname, f)
        if k in ('sptr', 'ptr') and t[1] in self.heap:
            return Ptr(self.heap[t[1]].i(x))
        raise Unsupported('val of %r' % (t,))

    def handle(self, t, p):
        h = self.heap[t]
        if p.lv.cell == h.cell and len(p.lv.path) == len(h.path) + 1:
            return iv(p.lv.path[-1][1])
        key = p.lv.key()
        if key not in self.frozen:
            self.frozen[key] = self.intern(h, t, p)
            self.frozen_cells.add(p.lv.cell)
        return self.frozen[key]


def select(arr, i):
    i = iv(i)
    a = arr
    while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
        j = a.arg(1)
        if j.eq(i):
            return a.arg(2)
        if z3.is_int_value(i) and z3.is_int_value(j):
            a = a.arg(0)
            continue
        break
    if z3.is_const_array(a):
        return a.arg(0)
    return z3.Select(a, i)
