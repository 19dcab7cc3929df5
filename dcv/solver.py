"""Back ends: z3 on the obligation, an exact polynomial/rational normaliser for
real equalities, and cvc5 as a second opinion when z3 gives up."""
from fractions import Fraction
import time, os, subprocess, tempfile
import z3
z3.set_param("warning", False)
from .values import is_sym

CVC5 = '/usr/bin/cvc5'


class TooBig(Exception):
    pass


class Norm:
    """exact normal form of real/integer terms as quotients of polynomials over atoms"""

    def __init__(self, limit=60000, rewrite=None):
        self.atoms = {}
        self.alias, self.apps = {}, {}
        self.memo = {}
        self.limit = limit
        self.rewrite = rewrite   # monomial rewriting hook (e.g. s^2 -> 1-c^2)

    def atom(self, t):
        """identity of an atom; applications of one function to equal arguments are one atom"""
        k = t.get_id()
        if k in self.atoms:
            return k
        if k in self.alias:
            return self.alias[k]
        if z3.is_app(t) and t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and all(z3.is_arith(a) for a in t.children()):
            for k2, u in self.apps.setdefault(t.decl().get_id(), []):
                if all(self.equal(a, b) for a, b in zip(t.children(), u.children())):
                    self.alias[k] = k2
                    return k2
            self.apps[t.decl().get_id()].append((k, t))
        self.atoms[k] = t
        return k

    def padd(self, p, q, s=1):
        r = dict(p)
        for m, c in q.items():
            v = r.get(m, 0) + s * c
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
        return r

    def pmul(self, p, q):
        r = {}
        if len(p) * len(q) > self.limit * 20:
            raise TooBig()
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                if not m1:
                    m = m2
                elif not m2:
                    m = m1
                else:
                    d = dict(m1)
                    for a, e in m2:
                        d[a] = d.get(a, 0) + e
                    m = tuple(sorted(d.items()))
                v = r.get(m, 0) + c1 * c2
                if v == 0:
                    r.pop(m, None)
                else:
                    r[m] = v
        if len(r) > self.limit:
            raise TooBig()
        return r

    ONE = {(): Fraction(1)}

    def nf(self, t):
        """(num, den)"""
        if not is_sym(t):
            f = Fraction(t)
            return ({(): f} if f else {}), self.ONE
        i = t.get_id()
        if i in self.memo:
            return self.memo[i][0]
        r = self._nf(t)
        self.memo[i] = r, t                                      # the term is kept: identities of dead terms are reused
        return r

    def _nf(self, t):
        if z3.is_rational_value(t):
            f = Fraction(t.numerator_as_long(), t.denominator_as_long())
            return ({(): f} if f else {}), self.ONE
        if z3.is_int_value(t):
            f = Fraction(t.as_long())
            return ({(): f} if f else {}), self.ONE
        if z3.is_app(t):
            k = t.decl().kind()
            if k == z3.Z3_OP_ADD or k == z3.Z3_OP_SUB:
                n, d = self.nf(t.arg(0))
                for j in range(1, t.num_args()):
                    n2, d2 = self.nf(t.arg(j))
                    s = 1 if k == z3.Z3_OP_ADD else -1
                    if d == d2:
                        n = self.padd(n, n2, s)
                    else:
                        n = self.padd(self.pmul(n, d2), self.pmul(n2, d), s)
                        d = self.pmul(d, d2)
                return n, d
            if k == z3.Z3_OP_UMINUS:
                n, d = self.nf(t.arg(0))
                return {m: -c for m, c in n.items()}, d
            if k == z3.Z3_OP_MUL:
                n, d = self.nf(t.arg(0))
                for j in range(1, t.num_args()):
                    n2, d2 = self.nf(t.arg(j))
                    n = self.pmul(n, n2)
                    d = d if d2 == self.ONE else self.pmul(d, d2)
                return n, d
            if k == z3.Z3_OP_DIV:
                n, d = self.nf(t.arg(0))
                n2, d2 = self.nf(t.arg(1))
                if not n2:
                    return {((self.atom(t), 1),): Fraction(1)}, self.ONE
                if len(n2) == 1 and () in n2 and d2 == self.ONE:
                    c = n2[()]
                    return {m: v / c for m, v in n.items()}, d
                return self.pmul(n, d2), self.pmul(d, n2)
            if k == z3.Z3_OP_TO_REAL:
                return self.nf(t.arg(0))
            if k == z3.Z3_OP_POWER and z3.is_int_value(t.arg(1)):
                e = t.arg(1).as_long()
                n, d = self.nf(t.arg(0))
                rn, rd = self.ONE, self.ONE
                for _ in range(e):
                    rn, rd = self.pmul(rn, n), self.pmul(rd, d)
                return rn, rd
        return {((self.atom(t), 1),): Fraction(1)}, self.ONE

    def equal(self, a, b):
        na, da = self.nf(a)
        nb, db_ = self.nf(b)
        if da == db_:
            p = self.padd(na, nb, -1)
        else:
            p = self.padd(self.pmul(na, db_), self.pmul(nb, da), -1)
        if self.rewrite:
            p = self.rewrite(self, p)
        return not p


class Stats:
    def __init__(self):
        self.by = {}
        self.time = {}

    def hit(self, b, dt):
        self.by[b] = self.by.get(b, 0) + 1
        self.time[b] = self.time.get(b, 0.0) + dt


def try_poly(f, rewrite=None):
    """equality (or conjunction of equalities) of arithmetic terms by normal form"""
    if isinstance(f, bool):
        return f
    if z3.is_and(f):
        return all(try_poly(c, rewrite) for c in f.children())
    if z3.is_eq(f) and (z3.is_arith(f.arg(0))):
        try:
            return Norm(rewrite=rewrite).equal(f.arg(0), f.arg(1))
        except (TooBig, RecursionError):
            return False
    return False


def weak_solver(timeout_ms, seed=0):
    """z3 without array extensionality: unsat is an answer (fewer axioms), sat is not"""
    s = z3.SimpleSolver()
    s.set('timeout', int(timeout_ms))
    s.set('random_seed', seed)
    s.set('array.extensional', False)
    return s


def check(facts, goal, timeout_ms, seed=0, use_cvc5=True, want_model=False, weak_only=False):
    """returns (status, backend, model) with status in proved / refuted / unknown"""
    w = weak_solver(timeout_ms if weak_only else min(timeout_ms, 1000), seed)
    for f in facts:
        if not isinstance(f, bool):
            w.add(f)
        elif f is False:
            return 'proved', 'z3', None
    w.add(z3.Not(goal if not isinstance(goal, bool) else z3.BoolVal(goal)))
    if w.check() == z3.unsat:
        return 'proved', 'z3', None
    if weak_only:
        return 'unknown', 'z3', None
    s = z3.Solver()
    s.set('timeout', int(timeout_ms))
    s.set('random_seed', seed)
    for f in facts:
        if not isinstance(f, bool):
            s.add(f)
        elif f is False:
            return 'proved', 'z3', None
    g = goal if not isinstance(goal, bool) else z3.BoolVal(goal)
    s.add(z3.Not(g))
    r = s.check()
    if r == z3.unsat:
        return 'proved', 'z3', None
    if r == z3.sat:
        return 'refuted', 'z3', s.model()
    if use_cvc5 and os.path.exists(CVC5):
        r2 = cvc5_check(s.to_smt2(), timeout_ms)
        if r2 == 'unsat':
            return 'proved', 'cvc5', None
    return 'unknown', 'z3', None


def cvc5_check(smt2, timeout_ms):
    try:
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write('(set-logic ALL)\n' + smt2)
            fn = f.name
        p = subprocess.run([CVC5, '--tlimit=%d' % int(timeout_ms), fn], capture_output=True, text=True, timeout=timeout_ms / 1000 + 5)
        return p.stdout.strip().split('\n')[0] if p.stdout else 'unknown'
    except Exception:
        return 'unknown'
    finally:
        try:
            os.unlink(fn)
        except Exception:
            pass
