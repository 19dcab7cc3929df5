"""C17: Attitude conversions are consistent with each other.

Contracts (all angles, vectors, matrices; [a] = skew matrix of a):
  quaternionFromYaw, yawFromQuaternion    the angle read back has the same cosine and sine as the one set; also through EigenTrajectoryPoint and EigenOdometry
  setVelocityWorld, getVelocityWorld      the body velocity is the world velocity turned by the inverse attitude; reading back gives the one set
  getEulerAnglesFromQuaternion            for every unit quaternion whose matrix is Rz(y) Ry(p) Rx(r) with cos p > 0 the angles returned have the cosines and sines of r, p, y
  isRotationMatrix                        accepted only if every entry of R'R - I and det R - 1 is at most 1e-6 in size; every rotation is accepted
  skewMatrixFromVector                    [a] x = a cross x; vectorFromSkewMatrix recovers a, refuses a matrix that is not skew with zero
  matrixFromRotationVector                R'R = I, det 1, R r = r, R - R' = 2 sin|r| [r/|r|], trace 1 + 2 cos|r|; identity for the zero vector
  vectorFromRotationMatrix o matrixFromRotationVector   the identity for |r| < pi (zero for rotations below 2e-6)
  omegaFromRotationVector                 [omega] R = dR/dt along (r, r'), for |r| >= 1e-3
  omegaDotFromRotationVector              d omega/dt along (r, r', r''), for |r| >= 1e-3; below 1e-3 both return the derivative of the vector itself
"""
from ..spec import *
from .. import models
TUS = ['mavmsgs']
NATIVE = {'src': 'c17.cpp', 'with': [], 'n': 6000}
ASSUMPTIONS = ['the library functions sin, cos, atan2, asin, acos and the Eigen conversion of an angle and axis to a quaternion have their mathematical meaning (double-angle identities, principal values)',
               'the Euclidean norm bounds every entry, is zero for zero, and its square is the sum of squares']
MM = 'mav_msgs::'
Q3, M33 = ('eig', 'r', 3, 1), ('eig', 'r', 3, 3)
sin, cos = models.F_sin, models.F_cos


def tasks(db, tier):
    r = reals('rot_vec', 3)
    phi = z3.Real('phi')
    s, c = sin(phi), cos(phi)

    def rules(norm, p):
        """s^2 = 1 - c^2 and r3^2 = phi^2 - r1^2 - r2^2 (k3^2 = 1 - k1^2 - k2^2)"""
        rules_ = []
        def ids(t):
            for i, u in norm.atoms.items():
                if u.eq(t):
                    return i
        for a, body in ((s, lambda e: 1 - c * c), (z3.Real('rot_vec2'), lambda e: phi * phi - r[0] * r[0] - r[1] * r[1]), (K[2], lambda e: 1 - K[0] * K[0] - K[1] * K[1]), (Q4[0], lambda e: 1 - Q4[1] * Q4[1] - Q4[2] * Q4[2] - Q4[3] * Q4[3])):
            i = ids(a)
            if i is not None:
                rules_.append((i, norm.nf(body(0))[0]))
        for _ in range(40):
            done = True
            for i, rep in rules_:
                out = {}
                for m, co in p.items():
                    d = dict(m)
                    if d.get(i, 0) >= 2:
                        done = False
                        d[i] -= 2
                        if not d[i]:
                            del d[i]
                        out = norm.padd(out, norm.pmul({tuple(sorted(d.items())): co}, rep))
                    else:
                        out = norm.padd(out, {m: co})
                p = out
            if done:
                break
        return p

    K, Q4 = reals('axis', 3), reals('att', 4)

    # ------------------------------------------------ matrices of terms
    def mm(A, B):
        return [[fold(mul(A[i][k], B[k][j]) for k in range(len(B))) for j in range(len(B[0]))] for i in range(len(A))]

    def fold(xs):
        t = Fraction(0)
        for x in xs:
            t = add(t, x)
        return t

    def ma(*Ms):
        return [[fold(M[i][j] for M in Ms) for j in range(len(Ms[0][0]))] for i in range(len(Ms[0]))]

    def ms(M, x):
        return [[mul(e, x) for e in row] for row in M]

    def tp(M):
        return [list(x) for x in zip(*M)]

    def col(v):
        return [[x] for x in v]

    def skew(a):
        return [[Fraction(0), sub(0, a[2]), a[1]], [a[2], Fraction(0), sub(0, a[0])], [sub(0, a[1]), a[0], Fraction(0)]]

    I3 = [[Fraction(int(i == j)) for j in range(3)] for i in range(3)]

    def rows(M):
        return [[M.at(i, j) for j in range(3)] for i in range(3)]

    def mat(M):
        return Mat(3, 3, [x for row in M for x in row])

    def det(M):
        return fold([mul(M[0][0], sub(mul(M[1][1], M[2][2]), mul(M[1][2], M[2][1]))), mul(-1, mul(M[0][1], sub(mul(M[1][0], M[2][2]), mul(M[1][2], M[2][0])))), mul(M[0][2], sub(mul(M[1][0], M[2][1]), mul(M[1][1], M[2][0])))])

    def same_mat(it, nm, A, B):
        for i in range(len(A)):
            for j in range(len(A[0])):
                it.oblige(nm, cmp('==', A[i][j], B[i][j]))

    F = lambda x, *t: find(db, MM + x, *t)
    nrm = [0]

    def norm_hook(it, n, obj, argn):
        m = it.val(obj)
        if not isinstance(m, Mat):
            return NotImplemented
        return norm_of(it, m)

    def norm_of(it, m):
        """the Euclidean norm: bounds every entry, zero for zero; of the rotation vector: phi"""
        if m.r * m.c == 3 and it.ghost.get('rotvec') and all(is_sym(x) and x.eq(y) for x, y in zip(m.d, it.ghost['rotvec'])):
            return phi
        it.nfresh += 1
        x = z3.Real('norm!%d' % it.nfresh)
        it.assume(land(x >= 0, *[land(cmp('<=', e, x), cmp('>=', e, sub(0, x))) for e in m.d]))
        it.assume(implies(land(*[cmp('==', e, 0) for e in m.d]), x == 0))
        sq = it.ghost.get('squares')
        if sq is not None:
            want = sq(it, m)
            if want is not None:
                it.assume(x * x == want)
        return x

    hk = {'norm': norm_of}

    # ------------------------------------------------ heading
    def half_angle(it, a):
        """double-angle identities"""
        h = rv(a) / 2
        sh, ch = sin(h), cos(h)
        it.assume(z3.And(cos(rv(a)) == ch * ch - sh * sh, sin(rv(a)) == 2 * sh * ch, sh * sh + ch * ch == 1, cos(rv(a)) * cos(rv(a)) + sin(rv(a)) * sin(rv(a)) == 1))

    def same_angle(it, nm, a, b):
        it.oblige(nm + ' (cosine)', cos(rv(a)) == cos(rv(b)))
        it.oblige(nm + ' (sine)', sin(rv(a)) == sin(rv(b)))

    yaw = z3.Real('yaw')

    def t_yaw(it):
        half_angle(it, yaw)
        q = call(it, F('quaternionFromYaw'), None, [yaw])
        it.oblige('a unit quaternion', cmp('==', fold(mul(q.f[x], q.f[x]) for x in 'wxyz'), 1))
        R = rows(models.quat_rot(q))
        it.oblige('a rotation about the vertical axis by that angle', land(*[cmp('==', R[i][j], w) for (i, j), w in {(2, 2): 1, (0, 2): 0, (1, 2): 0, (2, 0): 0, (2, 1): 0}.items()], cmp('==', R[0][0], cos(yaw)), cmp('==', R[1][0], sin(yaw)), cmp('==', R[0][1], sub(0, sin(yaw))), cmp('==', R[1][1], cos(yaw))))
        a = call(it, F('yawFromQuaternion'), None, [new(it, q, ('quat',))])
        same_angle(it, 'the heading read back is the one set', a, yaw)

    def state_of(it, C):
        return it.fresh_named(('class', MM + C), 'point')

    def t_point(C, vel, acc):
        def run(it):
            half_angle(it, yaw)
            o = state_of(it, C)
            ol = new(it, o)
            call(it, F(C + '::setFromYaw'), ol, [yaw])
            p = it.load(ol)
            for x in o.f:
                if x != 'orientation_W_B':
                    it.oblige('only the orientation is set', p.f[x] is o.f[x] or it.S.term(ftype(it, C, x), p.f[x]).eq(it.S.term(ftype(it, C, x), o.f[x])))
            same_angle(it, 'the heading read back is the one set', call(it, F(C + '::getYaw'), ol, []), yaw)
            for w, fld in (('YawRate', vel), ('YawAcc', acc)):
                if not fld:
                    continue
                x = z3.Real('rate')
                o = it.load(ol)
                call(it, F(C + '::setFrom' + w), ol, [x])
                p = it.load(ol)
                v = items(p.f[fld])
                it.oblige('a rate about the vertical axis', land(cmp('==', v[0], 0), cmp('==', v[1], 0), cmp('==', v[2], x)))
                it.oblige('the rate read back is the one set', cmp('==', call(it, F(C + '::get' + w), ol, []), x))
                it.oblige('nothing else is set', all(p.f[k] is o.f[k] for k in o.f if k != fld))
        return run

    def t_velocity(it):
        it.assume(fold(mul(x, x) for x in Q4) == 1)
        o = state_of(it, 'EigenOdometry')
        o.f['orientation_W_B'] = SV('$quat', dict(zip('wxyz', Q4)))
        ol, v = new(it, o), reals('velocity', 3)
        call(it, F('EigenOdometry::setVelocityWorld'), ol, [new(it, vec(v), Q3)])
        p = it.load(ol)
        it.oblige('only the velocity is set', all(p.f[k] is o.f[k] for k in o.f if k != 'velocity_B'))
        b = items(p.f['velocity_B'])
        R = rows(models.quat_rot(o.f['orientation_W_B']))
        same_mat(it, 'turned into the body frame', col(b), mm(tp(R), col(v)))
        same_mat(it, 'the velocity read back is the one set', col(items(call(it, F('EigenOdometry::getVelocityWorld'), ol, []))), col(v))

    def ftype(it, C, x):
        return next(t for n_, t in it.S.fields(MM + C) if n_ == x)

    # ------------------------------------------------ roll, pitch, yaw
    def t_euler(it):
        w, x, y, z = reals('q', 4)
        ro, pi_, ya = z3.Reals('roll pitch yaw')
        q = SV('$quat', dict(zip('wxyz', (w, x, y, z))))
        R = rows(models.quat_rot(q))
        cp, sp = cos(pi_), sin(pi_)
        for a in (ro, pi_, ya):
            it.assume(z3.And(cos(a) * cos(a) + sin(a) * sin(a) == 1))
        it.assume(z3.And(w * w + x * x + y * y + z * z == 1, cp > 0))
        # the third row and first column of Rz(yaw) Ry(pitch) Rx(roll)
        it.assume(land(cmp('==', R[2][0], sub(0, sp)), cmp('==', R[2][1], mul(cp, sin(ro))), cmp('==', R[2][2], mul(cp, cos(ro))), cmp('==', R[1][0], mul(cp, sin(ya))), cmp('==', R[0][0], mul(cp, cos(ya)))))
        out = new(it, it.fresh_named(Q3, 'angles'), Q3)
        call(it, F('getEulerAnglesFromQuaternion'), None, [new(it, q, ('quat',)), Ptr(out)])
        g = items(it.load(out))
        same_angle(it, 'roll', g[0], ro)
        same_angle(it, 'pitch', g[1], pi_)
        same_angle(it, 'yaw', g[2], ya)

    # what the principal values mean, in a form a solver can use: y = rho sin a, x = rho cos a, rho > 0 gives the angle up to full turns
    def free_atan2(it, n, argn):
        xs = [it.rvalue(a) for a in argn]
        y, x = rv(xs[0]), rv(xs[1])
        a = models.F_atan2(y, x)
        rho = z3.Real('rho!%d' % it.nfresh)
        it.nfresh += 1
        it.assume(z3.And(rho >= 0, rho * rho == x * x + y * y, rho * cos(a) == x, rho * sin(a) == y, cos(a) * cos(a) + sin(a) * sin(a) == 1))
        cands = [(sin(yaw), cos(yaw), z3.RealVal(1))]
        for b in z3.Reals('roll yaw'):
            cands.append((sin(b), cos(b), cos(z3.Real('pitch'))))
        for sb, cb, k in cands:
            # lemma: k > 0, y = k sin b, x = k cos b  =>  rho = k and the angles agree
            it.assume(z3.Implies(z3.And(k > 0, y == k * sb, x == k * cb, sb * sb + cb * cb == 1), z3.And(rho == k, cos(a) == cb, sin(a) == sb)))
        return a

    def free_asin(it, n, argn):
        x = rv(it.rvalue(argn[0]))
        a = models.F_asin(x)
        it.assume(z3.Implies(z3.And(x >= -1, x <= 1), z3.And(sin(a) == x, cos(a) >= 0, cos(a) * cos(a) + sin(a) * sin(a) == 1)))
        p = z3.Real('pitch')
        it.assume(z3.Implies(z3.And(x == sin(p), cos(p) > 0), cos(a) == cos(p)))     # lemma below
        return a

    def t_atan(it):
        # the lemmas used above
        ca, cp, sp = z3.Reals('ca cp sp')
        it.assume(z3.And(ca >= 0, cp > 0, cp * cp + sp * sp == 1, ca * ca + sp * sp == 1))
        it.oblige('arc sine: squares', (ca - cp) * (ca + cp) == 0)
        it.oblige('arc sine: the cosine', ca == cp)
        k, sb, cb, rho, ca, sa = z3.Reals('k sb cb rho ca sa')
        it.assume(z3.And(k > 0, sb * sb + cb * cb == 1, rho >= 0, rho * rho == (k * cb) * (k * cb) + (k * sb) * (k * sb)))
        it.oblige('squares', rho * rho == k * k)
        it.oblige('the radius', rho == k)
        it.assume(z3.And(rho * ca == k * cb, rho * sa == k * sb))
        it.oblige('the cosine', k * (ca - cb) == 0)
        it.oblige('the sine', k * (sa - sb) == 0)
        it.oblige('the angle', z3.And(ca == cb, sa == sb))

    # ------------------------------------------------ rotation matrices
    M = [[z3.Real('m%d%d' % (i, j)) for j in range(3)] for i in range(3)]

    def t_isrot(exact):
        def run(it):
            E = ma(mm(tp(M), M), ms(I3, Fraction(-1)))
            if exact:
                it.assume(land(*[cmp('==', x, 0) for row in E for x in row], cmp('==', det(M), 1)))
            g = call(it, F('isRotationMatrix'), None, [new(it, mat(M), M33)])
            if exact:
                it.oblige('a rotation is accepted', g)
                return
            if it.branch(bv(g)):
                tol = Fraction(1, 10 ** 6)
                for i in range(3):
                    for j in range(3):
                        it.oblige('orthonormal within 1e-6', land(cmp('<=', E[i][j], tol), cmp('>=', E[i][j], -tol)))
                it.oblige('determinant one within 1e-6', land(cmp('<=', sub(det(M), 1), tol), cmp('>=', sub(det(M), 1), -tol)))
        return run

    def isrot_contract(it, func, this, args, node):
        A = rows(it.val(args[0]))
        E = ma(mm(tp(A), A), ms(I3, Fraction(-1)))
        ok = all([it.oblige('the matrix given is a rotation', land(*[cmp('==', x, 0) for row in E for x in row]), node), it.oblige('of determinant one', cmp('==', det(A), 1), node)])
        return True

    # ------------------------------------------------ skew matrices
    a3, x3 = reals('vec', 3), reals('x', 3)

    def t_skew(it):
        out = new(it, it.fresh_named(M33, 'skew'), M33)
        call(it, F('skewMatrixFromVector'), None, [new(it, vec(a3), Q3), Ptr(out)])
        S = rows(it.load(out))
        cr = [sub(mul(a3[1], x3[2]), mul(a3[2], x3[1])), sub(mul(a3[2], x3[0]), mul(a3[0], x3[2])), sub(mul(a3[0], x3[1]), mul(a3[1], x3[0]))]
        same_mat(it, 'applied to a vector it is the cross product', mm(S, col(x3)), col(cr))
        back = new(it, it.fresh_named(Q3, 'back'), Q3)
        ok = call(it, F('vectorFromSkewMatrix'), None, [out, Ptr(back)])
        it.oblige('a skew matrix is accepted', ok)
        same_mat(it, 'the vector is recovered', col(items(it.load(back))), col(a3))

    def t_unskew(it):
        A = new(it, mat(M), M33)
        out = new(it, it.fresh_named(Q3, 'vec'), Q3)
        ok = call(it, F('vectorFromSkewMatrix'), None, [A, Ptr(out)])
        v = items(it.load(out))
        Z = ma(M, tp(M))
        tol = Fraction(1, 10 ** 6)
        if it.branch(bv(ok)):
            it.oblige('accepted only if skew within 1e-6', land(*[land(cmp('<', x, tol), cmp('>', x, -tol)) for row in Z for x in row]))
            it.oblige('the vector of the matrix', land(cmp('==', v[0], M[2][1]), cmp('==', v[1], M[0][2]), cmp('==', v[2], M[1][0])))
        else:
            it.oblige('zero when refused', land(*[cmp('==', x, 0) for x in v]))
            it.oblige('not refused when skew', lor(*[cmp('!=', x, 0) for row in Z for x in row]))

    def skew_contract(it, func, this, args, node):
        a = items(it.val(args[0]))
        it.store(it.val(args[1]).lv, mat(skew(a)))

    # ------------------------------------------------ rotation vectors
    def angle(it, lo=0, strict=True):
        it.assume(z3.And(phi > lo if strict else phi >= lo, phi * phi == r[0] * r[0] + r[1] * r[1] + r[2] * r[2]))
        it.assume(s * s + c * c == 1)
        it.ghost['rotvec'] = r

    def t_matrix(it):
        zero = it.choose(2)
        angle(it, strict=not zero)
        if zero:
            it.assume(z3.And(phi == 0, r[0] == 0, r[1] == 0, r[2] == 0))
        out = new(it, it.fresh_named(M33, 'mat'), M33)
        call(it, F('matrixFromRotationVector'), None, [new(it, vec(r), Q3), Ptr(out)])
        R = rows(it.load(out))
        if zero:
            same_mat(it, 'no rotation for the zero vector', R, I3)
            return
        same_mat(it, 'orthonormal', mm(tp(R), R), I3)
        it.oblige('determinant one', cmp('==', det(R), 1))
        same_mat(it, 'the axis is kept', mm(R, col(r)), col(r))
        it.oblige('the angle: trace 1 + 2 cos', cmp('==', fold(R[i][i] for i in range(3)), add(1, mul(2, c))))
        u = [x / phi for x in r]
        same_mat(it, 'the sense: R - R\' = 2 sin [axis]', ma(R, ms(tp(R), Fraction(-1))), ms(skew(u), mul(2, s)))

    def matrix_contract(it, func, this, args, node):
        """Rodrigues' formula for the unit axis and the angle of the vector"""
        Kx = skew(K)
        it.store(it.val(args[1]).lv, mat(ma(I3, ms(Kx, s), ms(mm(Kx, Kx), sub(1, c)))))

    def t_rodrigues(it):
        # the contract of matrixFromRotationVector used in the round trip follows from what was proved
        angle(it)
        out = new(it, it.fresh_named(M33, 'mat'), M33)
        call(it, F('matrixFromRotationVector'), None, [new(it, vec(r), Q3), Ptr(out)])
        u = [x / phi for x in r]
        Kx = skew(u)
        same_mat(it, 'Rodrigues formula of the axis and angle', rows(it.load(out)), ma(I3, ms(Kx, s), ms(mm(Kx, Kx), sub(1, c))))

    PI = z3.Real('pi')

    def t_round(it):
        it.assume(z3.And(PI > Fraction(314159, 100000), PI < Fraction(31416, 10000), phi > 0, phi < PI))
        it.assume(z3.And(K[0] * K[0] + K[1] * K[1] + K[2] * K[2] == 1, s * s + c * c == 1, s > 0, c < 1, c >= -1, *[z3.And(k >= -1, k <= 1) for k in K]))
        it.assume(5 * (1 - c) >= phi * phi)                         # 1 - cos x >= 2 x^2 / pi^2 >= x^2 / 5 up to half a turn
        v = [mul(phi, x) for x in K]
        vl, ml = new(it, vec(v), Q3), new(it, it.fresh_named(M33, 'mat'), M33)
        call_contract(it, ml)
        it.ghost['squares'] = lambda it, m: squares(it, m)
        out = new(it, it.fresh_named(Q3, 'vec'), Q3)
        ok = call(it, F('vectorFromRotationMatrix'), None, [ml, Ptr(out)])
        it.oblige('the matrix of a rotation vector is accepted', ok)
        g = items(it.load(out))
        if all(not is_sym(x) and x == 0 for x in g):
            it.oblige('zero only for tiny rotations', z3.And(phi >= 0, phi < z3.RealVal('2/1000000')))
            for a in range(3):
                it.oblige('each entry is at most the angle', z3.And(phi * K[a] <= phi, phi * K[a] >= -phi))
            return
        same_mat(it, 'the vector is recovered', col(g), col(v))

    def call_contract(it, ml):
        Kx = skew(K)
        it.store(ml, mat(ma(I3, ms(Kx, s), ms(mm(Kx, Kx), sub(1, c)))))

    def squares(it, m):
        """the sum of squares of R - I is 4 (1 - cos)"""
        if m.r * m.c != 9:
            return None
        if not SOLV_poly(it, fold(mul(x, x) for x in m.d), mul(4, sub(1, c))):
            return None
        return rv(mul(4, sub(1, c)))

    def SOLV_poly(it, a, b):
        from ..solver import try_poly
        return try_poly(rv(a) == rv(b), rules)

    def acos_hook(it, n, argn):
        x = it.rvalue(argn[0])
        it.oblige('the angle is the arc cosine of cos phi', cmp('==', x, c), n)
        return phi                                               # arc cosine on [0, pi]

    def trace_hook(it, n, obj, argn):
        m = it.val(obj)
        it.oblige('the trace is 1 + 2 cos', cmp('==', fold(m.at(i, i) for i in range(3)), 1 + 2 * c), n)
        return 1 + 2 * c

    def unskew_contract(it, func, this, args, node):
        A = rows(it.val(args[0]))
        same_mat(it, 'the matrix is skew', ma(A, tp(A)), [[Fraction(0)] * 3] * 3)
        it.store(it.val(args[1]).lv, vec([A[2][1], A[0][2], A[1][0]]))
        return True

    # ------------------------------------------------ angular velocity and acceleration
    vel, acc = reals('rot_vec_vel', 3), reals('rot_vec_acc', 3)

    def rates():
        rd = fold(mul(a, b) for a, b in zip(r, vel))
        fd = rd / phi                                              # d phi/dt
        al, ald = s / phi, (c * fd * phi - s * fd) / (phi * phi)
        be, bed = (1 - c) / (phi * phi), (s * fd * phi * phi - (1 - c) * 2 * phi * fd) / (phi * phi * phi * phi)
        ga = (phi - s) / (phi * phi * phi)
        gad = ((1 - c) * fd * phi * phi * phi - (phi - s) * 3 * phi * phi * fd) / (phi * phi * phi * phi * phi * phi)
        return fd, al, ald, be, bed, ga, gad

    def t_omega(it):
        angle(it)
        w = call(it, F('omegaFromRotationVector'), None, [new(it, vec(r), Q3), new(it, vec(vel), Q3)])
        if it.branch(phi < z3.RealVal('1/1000')):
            same_mat(it, 'the derivative of the vector for small angles', col(items(w)), col(vel))
            return
        fd, al, ald, be, bed, ga, gad = rates()
        X, V = skew(r), skew(vel)
        XX = mm(X, X)
        R = ma(I3, ms(X, al), ms(XX, be))
        Rd = ma(ms(X, ald), ms(V, al), ms(XX, bed), ms(ma(mm(V, X), mm(X, V)), be))
        same_mat(it, 'the angular velocity of the attitude', mm(skew(items(w)), R), Rd)

    def t_omega_dot(it):
        angle(it)
        w = call(it, F('omegaDotFromRotationVector'), None, [new(it, vec(r), Q3), new(it, vec(vel), Q3), new(it, vec(acc), Q3)])
        if it.branch(phi < z3.RealVal('1/1000')):
            same_mat(it, 'the second derivative of the vector for small angles', col(items(w)), col(acc))
            return
        fd, al, ald, be, bed, ga, gad = rates()
        X, V = skew(r), skew(vel)
        XX = mm(X, X)
        v, a = col(vel), col(acc)
        want = ma(a, ms(mm(X, v), bed), ms(ma(mm(V, v), mm(X, a)), be), ms(mm(XX, v), gad), ms(mm(ma(mm(V, X), mm(X, V)), v), ga), ms(mm(XX, a), ga))
        same_mat(it, 'the derivative of the angular velocity', col(items(w)), want)

    def t_omega_formula(it):
        # the angular velocity whose derivative is taken above
        angle(it)
        w = call(it, F('omegaFromRotationVector'), None, [new(it, vec(r), Q3), new(it, vec(vel), Q3)])
        if it.branch(phi < z3.RealVal('1/1000')):
            return
        fd, al, ald, be, bed, ga, gad = rates()
        X = skew(r)
        same_mat(it, 'v + (1-cos)/phi^2 [r] v + (phi-sin)/phi^3 [r]^2 v', col(items(w)), ma(col(vel), ms(mm(X, col(vel)), be), ms(mm(mm(X, X), col(vel)), ga)))

    hy = dict(hk, **{'free:atan2': free_atan2, 'free:asin': free_asin})
    sk = {MM + 'skewMatrixFromVector': skew_contract}
    P = lambda *x: [MM + y for y in x]
    C1, C2 = 'EigenTrajectoryPoint', 'EigenOdometry'
    return [
        Task('principal value lemma', t_atan, [], lemma=True, exact=True),
        Task('heading', t_yaw, P('quaternionFromYaw', 'yawFromQuaternion'), hooks=hy),
        Task('heading of a trajectory point', t_point(C1, 'angular_velocity_W', 'angular_acceleration_W'), P(C1 + '::setFromYaw', C1 + '::getYaw', C1 + '::setFromYawRate', C1 + '::setFromYawAcc', C1 + '::getYawRate', C1 + '::getYawAcc'), hooks=hy),
        Task('heading of an odometry', t_point(C2, 'angular_velocity_B', None), P(C2 + '::setFromYaw', C2 + '::getYaw', C2 + '::setFromYawRate', C2 + '::getYawRate'), hooks=hy),
        Task('velocity of an odometry', t_velocity, P(C2 + '::setVelocityWorld', C2 + '::getVelocityWorld'), hooks=hy, rewrite=rules),
        Task('roll, pitch, yaw', t_euler, P('getEulerAnglesFromQuaternion'), hooks=hy),
        Task('accepted matrices', t_isrot(False), P('isRotationMatrix'), hooks=hk),
        Task('rotations are accepted', t_isrot(True), P('isRotationMatrix'), hooks=hk),
        Task('skew matrix', t_skew, P('skewMatrixFromVector', 'vectorFromSkewMatrix'), hooks=hk),
        Task('vector of a matrix', t_unskew, P('vectorFromSkewMatrix'), hooks=hk),
        Task('matrix of a rotation vector', t_matrix, P('matrixFromRotationVector'), hooks=hk, overrides=sk, rewrite=rules),
        Task('matrix of a rotation vector: formula', t_rodrigues, P('matrixFromRotationVector'), hooks=hk, overrides=sk, rewrite=rules),
        Task('rotation vector and back', t_round, P('vectorFromRotationMatrix'), hooks=dict(hk, **{'free:acos': acos_hook, 'member:trace': trace_hook}), overrides=dict(sk, **{MM + 'isRotationMatrix': isrot_contract, MM + 'vectorFromSkewMatrix': unskew_contract}), rewrite=rules),
        Task('angular velocity', t_omega, P('omegaFromRotationVector'), hooks=hk, overrides=sk, rewrite=rules),
        Task('angular velocity: formula', t_omega_formula, P('omegaFromRotationVector'), hooks=hk, overrides=sk, rewrite=rules),
        Task('angular acceleration', t_omega_dot, P('omegaDotFromRotationVector'), hooks=hk, overrides=sk, rewrite=rules),
    ]
