"""Front end: runs clang on the real translation units of /repo and loads the JSON AST.

Nothing is rewritten or copied: the verified text is what clang parsed from
/repo's working tree with /repo's own headers.  The dump is filtered by
namespace, which drops the bodies of third-party headers (Eigen, STL, glog,
yaml-cpp, nlopt); calls into those are given by the models in models.py, which
are listed as assumed contracts in the evidence.
"""
import json, os, subprocess, re, concurrent.futures as cf, hashlib, sys

REPO = os.environ.get('DCV_REPO', '/repo')
MAV = REPO + '/subpackages/mav_trajectory_generation'
CLANG = os.environ.get('DCV_CLANG', '/usr/bin/clang++-18')
HERE = os.path.dirname(os.path.abspath(__file__))
INC = ['-std=gnu++17', '-I' + MAV + '/include', '-I' + MAV + '/include/mav_msgs', '-I' + REPO + '/include',
       '-I' + REPO + '/include/dynamic_trajectory_generator', '-I/usr/include/eigen3', '-w']

TUS = {
    'polynomial': (MAV + '/src/polynomial.cpp', 'mav_trajectory_generation'),
    'segment': (MAV + '/src/segment.cpp', 'mav_trajectory_generation'),
    'trajectory': (MAV + '/src/trajectory.cpp', 'mav_trajectory_generation'),
    'vertex': (MAV + '/src/vertex.cpp', 'mav_trajectory_generation'),
    'io': (MAV + '/src/io.cpp', 'mav_trajectory_generation'),
    'sampling': (MAV + '/src/trajectory_sampling.cpp', 'mav_trajectory_generation'),
    'timing': (MAV + '/src/timing.cpp', 'mav_trajectory_generation'),
    'dynwp': (REPO + '/src/dynamic_waypoint.cpp', 'dynamic_traj'),
    'gauss': (REPO + '/src/dynamic_waypoint.cpp', 'GaussianModifier'),
    'dyntraj': (REPO + '/src/dynamic_trajectory.cpp', 'dynamic_traj'),
    'tstraj': (REPO + '/src/dynamic_trajectory.cpp', 'ThreadSafeTrajectory'),
    'mavmsgs': (MAV + '/src/trajectory_sampling.cpp', 'mav_msgs'),
    'linopt': (HERE + '/tu/linopt.cpp', 'mav_trajectory_generation'),
    'nlopt': (HERE + '/tu/nlopt.cpp', 'mav_trajectory_generation'),
}


class FrontError(Exception):
    pass


def _dump(item):
    name, (path, filt) = item
    cmd = [CLANG] + INC + ['-fsyntax-only', '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + filt, path]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0:
        raise FrontError('clang failed on %s: %s' % (path, p.stderr[-2000:]))
    return name, p.stdout


def _docs(s):
    d = json.JSONDecoder()
    i, n = 0, len(s)
    while i < n:
        while i < n and s[i].isspace():
            i += 1
        if i >= n:
            break
        o, i = d.raw_decode(s, i)
        yield o


FUNC = ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl')
REC = ('CXXRecordDecl', 'ClassTemplateSpecializationDecl')


class Func:
    __slots__ = ('node', 'qname', 'cls', 'name', 'body', 'params', 'tu', 'kind', 'inits', 'file', 'line', 'rettype', 'mangled')

    def __repr__(self):
        return '<F %s>' % self.qname

    @property
    def sig(self):
        return '%s(%s)' % (self.qname, ','.join(p['type']['qualType'] for p in self.params))


class Cls:
    def __init__(self, qname):
        self.qname = qname
        self.fields = []      # (name, type-json, init node)
        self.bases = []
        self.methods = {}     # name -> [Func]
        self.node = None


class DB:
    """All declarations of the loaded translation units."""

    def __init__(self):
        self.byid = {}        # (tu, id) -> node
        self.func_by_id = {}  # (tu, id) -> mangled
        self.funcs = {}       # mangled -> Func (definition preferred)
        self.by_qname = {}    # qname -> [Func]
        self.classes = {}
        self.cls_by_id = {}   # (tu,id)-> qname
        self.globals = {}     # qname -> (node, tu)
        self.glob_by_id = {}
        self.enums = {}       # (tu,id) -> int value
        self.enum_by_name = {}
        self.dump_sha = {}
        self.typedefs = {}

    def load(self, names):
        with cf.ThreadPoolExecutor(8) as ex:
            res = list(ex.map(_dump, [(n, TUS[n]) for n in names]))
        for name, txt in res:
            self.dump_sha[name] = hashlib.sha256(txt.encode()).hexdigest()[:16]
            self.cur = (None, 0)
            for o in _docs(txt):
                self._fill(o)
                self._walk(o, name, [])
        self._outside(names)
        return self

    def _outside(self, names):
        """file-level globals and helper functions that live outside the dumped namespaces"""
        want = {}
        for name in names:
            try:
                txt = open(TUS[name][0], errors='replace').read()
            except OSError:
                continue
            txt = re.sub(r'//[^\n]*|/\*.*?\*/', '', txt, flags=re.S)
            gl = set(re.findall(r'^(?:(?:static|const|constexpr|inline)\s+)+[\w:<>,\s*&]*?\b(\w+)\s*(?:=|\{|\[|\()', txt, re.M))
            fn = set(re.findall(r'^(?!\s)[\w:<>,&*\s]+?[\s&*](\w+)\s*\([^;{}]*\)\s*(?:const\s*)?(?:noexcept\s*)?\{', txt, re.M))
            have = {g.split('::')[-1] for g in self.globals} | {f.name for f in self.funcs.values() if f.body is not None}
            for x in (gl | fn) - have - {'operator', 'main'}:
                want[(x, TUS[name][0])] = name
        if not want:
            return
        items = [('%s#%s' % (n, x), (path, x)) for (x, path), n in sorted(want.items())]
        with cf.ThreadPoolExecutor(8) as ex:
            res = list(ex.map(_dump, items))
        for (nm, (path, x)), (_, txt) in zip(items, res):
            self.cur = (None, 0)
            for o in _docs(txt):
                self._fill(o)
                if o.get('name') == x and (o.get('loc', {}).get('file') or '').startswith(REPO):
                    self._walk(o, nm, [])
            self.dump_sha[nm] = hashlib.sha256(txt.encode()).hexdigest()[:16]

    def _fill(self, o):
        """clang prints file/line only when they change; make them explicit."""
        stack = [o]
        cur_f, cur_l = self.cur

        def loc(d):
            nonlocal cur_f, cur_l
            if not isinstance(d, dict):
                return
            if 'spellingLoc' in d or 'expansionLoc' in d:
                for k in ('spellingLoc', 'expansionLoc'):
                    if k in d:
                        loc(d[k])
                e = d.get('expansionLoc') or d.get('spellingLoc')
                d['line'], d['file'] = e.get('line'), e.get('file')
                return
            if 'offset' in d:
                if 'file' in d:
                    cur_f = d['file']
                if 'line' in d:
                    cur_l = d['line']
                d['file'], d['line'] = cur_f, cur_l

        def rec(n):
            if 'loc' in n:
                loc(n['loc'])
            if 'range' in n:
                loc(n['range'].get('begin'))
                loc(n['range'].get('end'))
            for c in n.get('inner', ()):
                if c:
                    rec(c)
        sys.setrecursionlimit(20000)
        rec(o)
        self.cur = (cur_f, cur_l)

    def _walk(self, n, tu, ctx):
        if not n:
            return
        k = n.get('kind')
        i = n.get('id')
        if i:
            self.byid[(tu, i)] = n
        if k in FUNC:
            self._func(n, tu, ctx)
            if k != 'FunctionDecl' or True:
                for c in n.get('inner', ()):
                    if c and c.get('kind') in ('ParmVarDecl',):
                        self.byid[(tu, c['id'])] = c
            # lambdas and local classes
            return
        if k == 'NamespaceDecl':
            for c in n.get('inner', ()):
                self._walk(c, tu, ctx + [n.get('name', '')])
            return
        if k in REC:
            nm = n.get('name', '')
            if k == 'ClassTemplateSpecializationDecl':
                args = []
                for c in n.get('inner', ()):
                    if c and c.get('kind') == 'TemplateArgument':
                        args.append(str(c.get('value', c.get('type', {}).get('qualType', ''))))
                nm = nm + '<' + ', '.join(args) + '>'
            if self.cls_by_id.get((tu, n.get('parentDeclContextId'))):
                q = self.cls_by_id[(tu, n['parentDeclContextId'])] + '::' + nm
            else:
                q = '::'.join([c for c in ctx if c] + [nm])
            if i:
                self.cls_by_id[(tu, i)] = q
            if n.get('inner') is None:
                return
            c = self.classes.get(q)
            has_def = n.get('completeDefinition')
            if c is None or (has_def and c.node is None):
                c = self.classes.setdefault(q, Cls(q))
                if has_def and c.node is None:
                    c.node = n
                    c.tu = tu
                    c.bases = [b['type'].get('desugaredQualType', b['type']['qualType']) for b in n.get('bases', ())]
                    for f in n.get('inner', ()):
                        if f and f.get('kind') == 'FieldDecl':
                            init = [x for x in f.get('inner', ()) if x and x.get('kind', '').endswith(('Expr', 'Literal', 'Cleanups', 'Operator'))]
                            c.fields.append((f.get('name'), f['type'], init[0] if init and f.get('hasInClassInitializer') else None))
            for x in n.get('inner', ()):
                self._walk(x, tu, ctx + [nm])
            return
        if k == 'EnumDecl':
            val = -1
            for c in n.get('inner', ()):
                if c and c.get('kind') == 'EnumConstantDecl':
                    v = None
                    for e in c.get('inner', ()):
                        v = _constval(e)
                    val = v if v is not None else val + 1
                    self.enums[(tu, c['id'])] = val
                    self.enum_by_name[c['name']] = val
            return
        if k == 'VarDecl':
            q = '::'.join([c for c in ctx if c] + [n.get('name', '')])
            pc = self.cls_by_id.get((tu, n.get('parentDeclContextId')))
            if pc:
                q = pc + '::' + n.get('name', '')
            self.glob_by_id[(tu, i)] = q
            has_init = 'init' in n
            if q not in self.globals or has_init:
                self.globals[q] = (n, tu)
            return
        if k in ('TypedefDecl', 'TypeAliasDecl'):
            q = '::'.join([c for c in ctx if c] + [n.get('name', '')])
            self.typedefs[q] = n['type'].get('desugaredQualType', n['type']['qualType'])
            return
        if k == 'ClassTemplateDecl':
            for c in n.get('inner', ()):
                if c and c.get('kind') == 'ClassTemplateSpecializationDecl':
                    self._walk(c, tu, ctx)
                elif c and c.get('kind') == 'CXXRecordDecl':
                    pass
            return
        if k == 'FunctionTemplateDecl':
            first = True
            for c in n.get('inner', ()):
                if c and c.get('kind') in FUNC:
                    # instantiations carry template arguments; the pattern does not
                    if any(x and x.get('kind') == 'TemplateArgument' for x in c.get('inner', ())):
                        self._walk(c, tu, ctx)
            return
        for c in n.get('inner', ()):
            self._walk(c, tu, ctx)

    def _func(self, n, tu, ctx):
        if n.get('isImplicit') and not n.get('inner'):
            pass
        mg = n.get('mangledName') or ('%s@%s' % (n.get('name'), n.get('id')))
        cls = self.cls_by_id.get((tu, n.get('parentDeclContextId')))
        if cls is None and ctx:
            q = '::'.join(c for c in ctx if c)
            if q in self.classes:
                cls = q
        if cls is None and n.get('previousDecl'):
            pm = self.func_by_id.get((tu, n['previousDecl']))
            if pm and pm in self.funcs:
                cls = self.funcs[pm].cls
        nm = n.get('name', '')
        qn = (cls + '::' + nm) if cls else '::'.join([c for c in ctx if c] + [nm])
        f = Func()
        f.node, f.qname, f.cls, f.name, f.tu, f.kind, f.mangled = n, qn, cls, nm, tu, n['kind'], mg
        f.params = [c for c in n.get('inner', ()) if c and c.get('kind') == 'ParmVarDecl']
        bodies = [c for c in n.get('inner', ()) if c and c.get('kind') in ('CompoundStmt', 'CXXTryStmt')]
        f.body = bodies[0] if bodies else None
        f.inits = [c for c in n.get('inner', ()) if c and c.get('kind') == 'CXXCtorInitializer']
        f.rettype = n['type']['qualType'].split('(')[0].strip() if 'type' in n else 'void'
        l = n.get('loc', {})
        f.file, f.line = l.get('file'), l.get('line')
        self.func_by_id[(tu, n['id'])] = mg
        old = self.funcs.get(mg)
        if old is None or (old.body is None and f.body is not None):
            self.funcs[mg] = f
            lst = self.by_qname.setdefault(qn, [])
            if old is not None:
                lst[:] = [x for x in lst if x is not old]
            lst.append(f)
            if cls:
                c = self.classes.setdefault(cls, Cls(cls))
                ml = c.methods.setdefault(nm, [])
                if old is not None:
                    ml[:] = [x for x in ml if x is not old]
                ml.append(f)
        if old is not None and f.body is not None and old.body is None:
            # default arguments live on the declaration
            for a, b in zip(f.params, old.params):
                if 'init' in b and 'init' not in a:
                    a['init'] = b['init']
                    a['inner'] = b.get('inner', [])
        elif old is not None and f.body is None:
            for a, b in zip(old.params, f.params):
                if 'init' in b and 'init' not in a:
                    a['init'] = b['init']
                    a['inner'] = b.get('inner', [])

    # -- lookups
    def resolve_id(self, tu, i):
        m = self.func_by_id.get((tu, i))
        return self.funcs.get(m) if m else None

    def find_class(self, name):
        name = name.strip()
        if name in self.classes:
            return self.classes[name]
        c = [x for x in self.classes if x.endswith('::' + name)]
        if len(c) == 1:
            return self.classes[c[0]]
        if name in self.typedefs:
            return self.find_class(self.typedefs[name])
        return None


def _constval(e):
    if not e:
        return None
    if e.get('kind') == 'ConstantExpr' and 'value' in e:
        try:
            return int(e['value'])
        except ValueError:
            return None
    if e.get('kind') == 'IntegerLiteral':
        return int(e['value'])
    if e.get('kind') == 'UnaryOperator' and e.get('opcode') == '-':
        v = _constval(e['inner'][0])
        return None if v is None else -v
    for c in e.get('inner', ()):
        v = _constval(c)
        if v is not None:
            return v
    return None


# ---------------------------------------------------------------- types
INTS = {'int': (True, 32), 'unsigned int': (False, 32), 'long': (True, 64), 'unsigned long': (False, 64),
        'long long': (True, 64), 'unsigned long long': (False, 64), 'short': (True, 16), 'unsigned short': (False, 16),
        'char': (True, 8), 'unsigned char': (False, 8), 'signed char': (True, 8), 'size_t': (False, 64),
        'std::size_t': (False, 64), 'Eigen::Index': (True, 64), 'uint64_t': (False, 64), 'int64_t': (True, 64),
        'std::ptrdiff_t': (True, 64), 'ptrdiff_t': (True, 64), 'long int': (True, 64), 'unsigned': (False, 32),
        'std::vector::size_type': (False, 64), '__int128': (True, 128), 'int8_t': (True, 8), 'Index': (True, 64)}


def split_args(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<([':
            d += 1
        elif ch in '>)]':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


_tcache = {}


def parse_type(q, db=None):
    key = q
    if key in _tcache:
        return _tcache[key]
    r = _parse_type(q, db)
    _tcache[key] = r
    return r


def _parse_type(q, db):
    q = q.strip()
    while True:
        o = q
        for p in ('const ', 'volatile ', 'mutable ', 'class ', 'struct ', 'enum ', 'typename '):
            if q.startswith(p):
                q = q[len(p):].strip()
        if q.endswith(' const'):
            q = q[:-6].strip()
        if o == q:
            break
    if q.endswith('&&'):
        return ('ref', parse_type(q[:-2], db))
    if q.endswith('&'):
        return ('ref', parse_type(q[:-1], db))
    if q.endswith('*'):
        return ('ptr', parse_type(q[:-1], db))
    if q.endswith('*const'):
        return ('ptr', parse_type(q[:-6], db))
    m = re.match(r'^(.*?)\s*\[(\d+)\]$', q)
    if m:
        return ('array', parse_type(m.group(1), db), int(m.group(2)))
    if q in ('double', 'float', 'long double', 'Scalar', 'RealScalar'):
        return ('real',)
    if q in ('bool', 'std::atomic_bool', '_Bool'):
        return ('bool',)
    if q == 'void':
        return ('void',)
    if q in INTS:
        return ('int',) + INTS[q]
    if q in ('std::string', 'std::basic_string<char>', 'std::__cxx11::basic_string<char>', 'string'):
        return ('str',)
    if q in ('YAML::Node', 'YAML::detail::iterator_value'):
        return ('yaml',)
    if q == 'YAML::Emitter':
        return ('yemit',)
    if q in ('std::complex<double>', 'complex<double>'):
        return ('cplx',)
    b, a = q, None
    i = q.find('<')
    if i > 0 and q.endswith('>'):
        b, a = q[:i].strip(), q[i + 1:-1]
        bs = b.split('::')[-1]
        args = split_args(a)
        if bs == 'atomic':
            return parse_type(args[0], db)
        if bs in ('vector', 'deque', 'list'):
            return ('seq', parse_type(args[0], db), bs)
        if bs == 'array' :
            return ('array', parse_type(args[0], db), int(args[1].rstrip('UL')))
        if bs == 'pair':
            return ('pair', parse_type(args[0], db), parse_type(args[1], db))
        if bs == 'uniform_real_distribution':
            return ('pair', ('real',), ('real', 'one'))
        if bs == 'map':
            return ('map', parse_type(args[0], db), parse_type(args[1], db))
        if bs == 'set':
            return ('set', parse_type(args[0], db))
        if bs in ('shared_ptr', 'unique_ptr', '__shared_ptr', 'weak_ptr'):
            return ('sptr', parse_type(args[0], db))
        if bs == 'Matrix':
            def dim(x):
                x = x.strip()
                try:
                    return int(x)
                except ValueError:
                    return None
            if len(args) >= 3 and dim(args[1]) is not None:
                return ('eig', 'c' if 'complex' in args[0] else 'r', dim(args[1]), dim(args[2]))
        if bs == 'SparseMatrix':
            return ('eig', 'r', -1, -1)
        if bs == 'Quaternion':
            return ('quat',)
        if bs in ('lock_guard', 'unique_lock', 'scoped_lock'):
            return ('guard',)
        if bs == 'Triplet':
            return ('triplet',)
        if bs in ('future', 'shared_future'):
            return ('future', parse_type(args[0], db))
        if bs in ('__alloc_traits', '__normal_iterator', '_Deque_iterator', '_Rb_tree_iterator', '_Rb_tree_const_iterator'):
            return ('iter',)
    E = {'Eigen::VectorXd': ('eig', 'r', -1, 1), 'Eigen::MatrixXd': ('eig', 'r', -1, -1), 'Eigen::RowVectorXd': ('eig', 'r', 1, -1),
         'Eigen::Vector3d': ('eig', 'r', 3, 1), 'Eigen::Matrix3d': ('eig', 'r', 3, 3), 'Eigen::VectorXcd': ('eig', 'c', -1, 1),
         'Eigen::Vector4d': ('eig', 'r', 4, 1), 'Eigen::Quaterniond': ('quat',), 'ConstraintValue': ('eig', 'r', -1, 1)}
    if q in E:
        return E[q]
    if q in ('std::mutex', 'mutex'):
        return ('mutex',)
    if q == 'std::thread':
        return ('opaque', 'thread')
    if db is not None:
        c = db.find_class(q)
        if c is None and '<' in q:          # a template written without its arguments: the instance of the driver
            s = re.sub(r'<(N|_N)?>', '<10>', q)
            c = db.find_class(s) or db.find_class(s.replace('mav_trajectory_generation::', ''))
        if c is not None:
            return ('class', c.qname)
    return ('opaque', q)


def ntype(n, db, field='type'):
    t = n.get(field)
    if not t:
        return ('void',)
    d = t.get('desugaredQualType')
    r = parse_type(d, db) if d else None
    if r is None or r[0] == 'opaque':
        r2 = parse_type(t['qualType'], db)
        if r is None or r2[0] != 'opaque':
            r = r2
    return r
