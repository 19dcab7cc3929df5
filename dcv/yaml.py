"""Model of the yaml-cpp calls of /repo: a document is a tree (undefined, null, number, sequence, map from strings);
an emitter is the stack of open containers; a file holds one document.  Part of the trusted base."""
from fractions import Fraction
import z3
from .values import *

_d = z3.Datatype('Yaml')
_d.declare('Undef')
_d.declare('Null')
_d.declare('Real', ('real', z3.RealSort()))
_d.declare('Int', ('int', z3.IntSort()))
_d.declare('Seq', ('n', z3.IntSort()), ('arr', z3.ArraySort(z3.IntSort(), z3.DatatypeSort('Yaml'))))
_d.declare('Map', ('dom', z3.ArraySort(z3.IntSort(), z3.BoolSort())), ('val', z3.ArraySort(z3.IntSort(), z3.DatatypeSort('Yaml'))))
Y = _d.create()
T = ('yaml',)
EMPTY_MAP = Y.Map(z3.K(z3.IntSort(), z3.BoolVal(False)), z3.K(z3.IntSort(), Y.Undef))
EMPTY_SEQ = Y.Seq(0, z3.K(z3.IntSort(), Y.Undef))


def is_y(v):
    return is_sym(v) and v.sort().eq(Y)


def kind(y):
    if z3.is_app(y):
        n = y.decl().name()
        if n in ('Undef', 'Null', 'Real', 'Int', 'Seq', 'Map'):
            return n
    return None


def test(y, *ks):
    k = kind(y)
    if k:
        return k in ks
    return lor(*[getattr(Y, 'is_' + x)(y) for x in ks])


def key_of(it, k):
    return it.S.term(('str',), k)


def sel(y, key, idx=False):
    """child of a node; undefined when absent"""
    k = kind(y)
    key = iv(key)
    if idx:
        if k == 'Seq':
            n, a = norm(y.arg(0)), y.arg(1)
            return z3.simplify(z3.If(z3.And(key >= 0, key < iv(n)), select(a, key), Y.Undef))
        if k:
            return Y.Undef
        return z3.If(z3.And(Y.is_Seq(y), key >= 0, key < Y.n(y)), z3.Select(Y.arr(y), key), Y.Undef)
    if k == 'Map':
        return z3.simplify(z3.If(z3.Select(y.arg(0), key), z3.Select(y.arg(1), key), Y.Undef))
    if k:
        return Y.Undef
    return z3.If(z3.And(Y.is_Map(y), z3.Select(Y.dom(y), key)), z3.Select(Y.val(y), key), Y.Undef)


def throws(it, cond, what):
    from .exec import ThrowX
    if it.branch(cond):
        raise ThrowX(what)


def put(it, y, key, x):
    k = kind(y)
    key = iv(key)
    if k is None:
        if it.branch(test(y, 'Undef', 'Null')):
            y = EMPTY_MAP
        elif not it.branch(Y.is_Map(y)):
            raise Unsupported('assignment into a yaml node that is not a map')
    elif k in ('Undef', 'Null'):
        y = EMPTY_MAP
    elif k in ('Real', 'Int'):
        throws(it, True, 'YAML::BadSubscript')
    elif k != 'Map':
        raise Unsupported('assignment into a yaml node that is not a map')
    d, v = (y.arg(0), y.arg(1)) if kind(y) else (Y.dom(y), Y.val(y))
    return Y.Map(z3.Store(d, key, z3.BoolVal(True)), z3.Store(v, key, x))


def append(it, y, x):
    k = kind(y)
    if k is None:
        if it.branch(test(y, 'Undef', 'Null')):
            y = EMPTY_SEQ
        elif not it.branch(Y.is_Seq(y)):
            raise Unsupported('push_back into a yaml node that is not a sequence')
    elif k in ('Undef', 'Null'):
        y = EMPTY_SEQ
    elif k in ('Real', 'Int'):
        throws(it, True, 'YAML::BadPushback')
    elif k != 'Seq':
        raise Unsupported('push_back into a yaml node that is not a sequence')
    n, a = (y.arg(0), y.arg(1)) if kind(y) else (Y.n(y), Y.arr(y))
    return Y.Seq(iv(norm(z3.simplify(n + 1))), z3.Store(a, z3.simplify(n), x))


def to_yaml(it, v):
    if is_y(v):
        return v
    if isinstance(v, bool):
        raise Unsupported('yaml bool')
    if isinstance(v, int) or is_sym(v) and z3.is_int(v):
        return Y.Int(iv(v))
    if isr(v):
        return Y.Real(rv(v))
    raise Unsupported('yaml scalar %r' % (v,))


def operator(it, n, name, xs, V, argn):
    a = V[0]
    if name == 'operator[]':
        throws(it, test(a, 'Undef') if 'const' in n['type']['qualType'].split() else False, 'YAML::InvalidNode')
        throws(it, test(a, 'Real', 'Int'), 'YAML::BadSubscript')
        b = V[1]
        isidx = not (isinstance(b, str) or 'string' in argn[1].get('type', {}).get('qualType', '') or 'char' in argn[1].get('type', {}).get('qualType', ''))
        key = iv(b) if isidx else key_of(it, b)
        if 'const' in n['type']['qualType'].split() or not isinstance(xs[0], LV):
            return sel(a, key, isidx)
        return LV(xs[0].cell, xs[0].path + (('y', key, isidx),))
    if name == 'operator!':
        return test(a, 'Undef')
    if name == 'operator=':
        it.store(xs[0], to_yaml(it, V[1]))
        return xs[0]
    raise Unsupported('yaml %s' % name)


def member(it, n, name, obj, v, xs):
    if name == 'push_back':
        it.store(obj, append(it, v, to_yaml(it, it.val(xs[0]))))
        return None
    if name in ('SetStyle', 'SetTag'):
        return None
    if name == 'IsDefined' or name.startswith('operator'):
        return lnot(test(v, 'Undef'))
    throws(it, test(v, 'Undef'), 'YAML::InvalidNode')
    if name == 'IsSequence':
        return test(v, 'Seq')
    if name == 'IsMap':
        return test(v, 'Map')
    if name == 'IsNull':
        return test(v, 'Null')
    if name == 'IsScalar':
        return test(v, 'Real', 'Int')
    if name == 'size':
        if kind(v) == 'Seq':
            return norm(v.arg(0))
        if kind(v) in ('Null', 'Real', 'Int'):
            return 0
        it.nfresh += 1
        m = z3.Int('mapsize!%d' % it.nfresh)
        it.assume(m >= 0)
        it.assume(z3.Implies(Y.is_Seq(v), Y.n(v) >= 0))
        return z3.If(Y.is_Seq(v), Y.n(v), z3.If(Y.is_Map(v), m, z3.IntVal(0)))
    if name == 'as':
        from .front import ntype
        t = ntype(n, it.db)
        if t[0] == 'int':
            throws(it, lnot(test(v, 'Int')), 'YAML::BadConversion')
            x = norm(v.arg(0)) if kind(v) == 'Int' else Y.int(v)
            if not t[1]:
                throws(it, cmp('<', x, 0), 'YAML::BadConversion')
            return x
        if t[0] == 'real':
            throws(it, lnot(test(v, 'Int', 'Real')), 'YAML::BadConversion')
            if kind(v) == 'Real':
                return norm(v.arg(0))
            if kind(v) == 'Int':
                return norm(z3.simplify(z3.ToReal(v.arg(0))))
            return z3.If(Y.is_Real(v), Y.real(v), z3.ToReal(Y.int(v)))
    raise Unsupported('yaml member %s' % name)


class Emit:
    """open containers, innermost last: (kind, node, pending key); the first is the document"""
    __slots__ = ('fr',)

    def __init__(self, fr=(('doc', Y.Null, None),)):
        self.fr = tuple(fr)

    def shape(self):
        return tuple((k, p) for k, y, p in self.fr)


def add_item(it, fr, x):
    k, y, p = fr[-1]
    if k == 'doc':
        return fr[:-1] + ((k, x, p),)
    if k == 'Seq':
        return fr[:-1] + ((k, append(it, y, x), p),)
    if p is None:
        raise Unsupported('yaml value without a key')
    if isinstance(p, str):
        raise Unsupported('yaml key missing')
    return fr[:-1] + ((k, put(it, y, p, x), None),)


def emit(it, n, lv, e, x, xn):
    q = xn.get('type', {}).get('qualType', '')
    fr = e.fr
    if 'EMITTER_MANIP' in q:
        m = xn
        while m.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'MaterializeTemporaryExpr'):
            m = m['inner'][0]
        if m.get('kind') != 'DeclRefExpr':
            raise Unsupported('yaml manipulator')
        m = m['referencedDecl']['name']
        if m in ('BeginMap', 'BeginSeq'):
            fr = fr + ((m[5:], EMPTY_MAP if m == 'BeginMap' else EMPTY_SEQ, None),)
        elif m in ('EndMap', 'EndSeq'):
            if len(fr) < 2 or fr[-1][0] != m[3:] or fr[-1][2] is not None:
                it.oblige('yaml containers are closed in order', False, n)
            fr = add_item(it, fr[:-1], fr[-1][1])
        elif m == 'Key':
            fr = fr[:-1] + ((fr[-1][0], fr[-1][1], '$next'),)
        elif m in ('Value', 'Flow', 'Block', 'Newline'):
            pass
        else:
            raise Unsupported('yaml manipulator %s' % m)
    elif '_Comment' in q or isinstance(x, Opaque):
        pass
    elif isinstance(fr[-1][2], str):
        fr = fr[:-1] + ((fr[-1][0], fr[-1][1], key_of(it, x)),)
    else:
        fr = add_item(it, fr, to_yaml(it, x))
    it.store(lv, Emit(fr))
    return lv


def havoc(it, e):
    out = []
    for k, y, p in e.fr:
        it.nfresh += 1
        if k == 'Seq':
            m, a = z3.Int('ym!%d' % it.nfresh), z3.Const('ya!%d' % it.nfresh, Y.arr(Y.Null).sort())
            it.assume(m >= 0)
            y = Y.Seq(m, a)
        elif k == 'Map':
            y = Y.Map(z3.Const('yd!%d' % it.nfresh, Y.dom(Y.Null).sort()), z3.Const('yv!%d' % it.nfresh, Y.val(Y.Null).sort()))
        else:
            y = z3.Const('yy!%d' % it.nfresh, Y)
        out.append((k, y, p))
    return Emit(out)


def construct(it, n, live):
    if not live:
        return Y.Null
    xs = [it.ev(a) for a in live]
    v = it.val(xs[0])
    if is_y(v):
        return v
    m = live[0]
    while m.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'MaterializeTemporaryExpr'):
        m = m['inner'][0]
    if m.get('kind') == 'DeclRefExpr' and 'NodeType' in m.get('type', {}).get('qualType', ''):
        return {'Sequence': EMPTY_SEQ, 'Map': EMPTY_MAP, 'Null': Y.Null, 'Undefined': Y.Undef}[m['referencedDecl']['name']]
    if is_num(v) or is_sym(v):
        return to_yaml(it, v)
    raise Unsupported('yaml constructor')


def open_file(it, n, q, live):
    name = it.rvalue(live[0]) if live else None
    ok = it.ghost.get('writable' if 'ofstream' in q else 'readable')
    if ok is None:
        ok = z3.Bool('file_opens')
    return Opaque('ofile' if 'ofstream' in q else 'ifile', (name, ok))


def load_file(it, name):
    f = it.ghost.get('file')
    if f is None:
        raise Unsupported('unknown file content')
    it.oblige('the file that was checked is the one loaded', cmp('==', it.S.term(('str',), f[0]), it.S.term(('str',), name)))
    return f[1]
