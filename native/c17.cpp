#define DCV_MAIN
#include "dcv.hpp"
#include "mav_msgs/eigen_mav_msgs.hpp"
using namespace dcv;
using namespace mav_msgs;
typedef Eigen::Matrix<ld, 3, 3> M3;
typedef Eigen::Matrix<ld, 3, 1> V3;
void dcv_once() {}
static Eigen::Vector3d v3(Src& s, const std::string& n, double m) {
  Eigen::Vector3d v;
  for (int i = 0; i < 3; ++i) v(i) = s.real(n + std::to_string(i), -m, m);
  return v;
}
static M3 sk(const V3& a) { M3 m; m << 0, -a(2), a(1), a(2), 0, -a(0), -a(1), a(0), 0; return m; }
static M3 rod(const V3& v) {
  ld p = v.norm();
  if (p == 0) return M3::Identity();
  M3 k = sk(v / p);
  return M3::Identity() + k * sinl(p) + k * k * (1 - cosl(p));
}
// angular velocity by the series-free formula, derivative of the attitude
static V3 omega(const V3& r, const V3& v) {
  ld h = 1e-6L;
  M3 d = (rod(r + h * v) - rod(r - h * v)) / (2 * h);
  M3 w = d * rod(r).transpose();
  return V3((w(2, 1) - w(1, 2)) / 2, (w(0, 2) - w(2, 0)) / 2, (w(1, 0) - w(0, 1)) / 2);
}
static double turn(double a, double b) { return std::abs(std::remainder(a - b, 2 * M_PI)); }
static void heading(Src& s) {
  double y = s.real("yaw", -50, 50), r = s.real("rate", -9, 9);
  if (s.flag("edge")) y = M_PI * s.num("halfturns", -5, 5) + s.plain("near", -1e-6, 1e-6);
  ensure(turn(yawFromQuaternion(quaternionFromYaw(y)), y) < 1e-9, "heading", str(y));
  Eigen::Matrix3d R = quaternionFromYaw(y).toRotationMatrix();
  ensure((R - Eigen::AngleAxisd(y, Eigen::Vector3d::UnitZ()).toRotationMatrix()).norm() < 1e-12, "vertical_axis");
  EigenTrajectoryPoint p;
  p.setFromYaw(y); p.setFromYawRate(r); p.setFromYawAcc(r + 1);
  ensure(turn(p.getYaw(), y) < 1e-9 && p.getYawRate() == r && p.getYawAcc() == r + 1, "trajectory_point");
  EigenOdometry o;
  o.setFromYaw(y); o.setFromYawRate(r);
  ensure(turn(o.getYaw(), y) < 1e-9 && o.getYawRate() == r, "odometry");
  double ro = s.plain("roll", -3.1, 3.1), pi = s.plain("pitch", -1.5, 1.5), ya = s.plain("heading", -3.1, 3.1);
  Eigen::Quaterniond q = Eigen::AngleAxisd(ya, Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(pi, Eigen::Vector3d::UnitY()) * Eigen::AngleAxisd(ro, Eigen::Vector3d::UnitX());
  Eigen::Vector3d e;
  if (s.flag("negated")) q.coeffs() = -q.coeffs();
  getEulerAnglesFromQuaternion(q, &e);
  ensure(turn(e(0), ro) < 1e-6 && turn(e(1), pi) < 1e-6 && turn(e(2), ya) < 1e-6, "roll_pitch_yaw", str(ro) + " " + str(pi) + " " + str(ya));
  o.orientation_W_B = q;
  Eigen::Vector3d v = v3(s, "v", 20);
  o.setVelocityWorld(v);
  ensure((o.getVelocityWorld() - v).norm() < 1e-12, "velocity_read_back");
  ensure((o.velocity_B - q.normalized().toRotationMatrix().transpose() * v).norm() < 1e-12, "velocity_in_the_body_frame");
  ensure(turn(yawFromQuaternion(q), ya) < 1e-6, "heading_of_any_attitude", str(ya));
}
static void matrices(Src& s) {
  Eigen::Vector3d a = v3(s, "vec", 9), x = v3(s, "x", 9), b;
  Eigen::Matrix3d S;
  skewMatrixFromVector(a, &S);
  ensure((S * x - a.cross(x)).norm() < 1e-12, "cross_product");
  ensure(vectorFromSkewMatrix(S, &b) && b == a, "vector_recovered");
  int i = s.num("i", 0, 2), j = s.num("j", 0, 2);
  double d = s.plain("d", 1e-5, 0.5) * (s.flag("neg") ? -1 : 1);
  S(i, j) += d;
  ensure(!vectorFromSkewMatrix(S, &b) && b.isZero(0), "not_skew_refused");
  Eigen::Matrix3d R = rod(v3(s, "r", 4).cast<ld>()).cast<double>();
  ensure(isRotationMatrix(R), "rotation_accepted");
  Eigen::Matrix3d W = R;
  int k = s.num("kind", 0, 3);
  if (k == 0) W.col(i) = -W.col(i);
  if (k == 1) W *= 1 + d;
  if (k == 2) W(i, j) += d;
  if (k == 3) W.col(i) += d * W.col((i + 1) % 3);
  bool ok = (W.transpose() * W - Eigen::Matrix3d::Identity()).cwiseAbs().maxCoeff() <= 1.001e-6 && std::abs(W.determinant() - 1) <= 1.001e-6;
  bool far = (W.transpose() * W - Eigen::Matrix3d::Identity()).norm() > 1.001e-6 || std::abs(W.determinant() - 1) > 1.001e-6;
  if (isRotationMatrix(W)) ensure(ok, "not_a_rotation");
  else ensure(far, "rotation_refused");
  if (far) ensure(!vectorFromRotationMatrix(W, &b), "no_vector_of_a_non_rotation");
}
static void vectors(Src& s) {
  Eigen::Vector3d k = v3(s, "axis", 1);
  if (k.norm() < 1e-3) k = Eigen::Vector3d(0, s.flag("up") ? 1 : -1, 0);
  double p = s.real("phi", 0, 3);
  if (s.flag("small")) p = std::pow(10.0, s.plain("e", -9, -1));
  Eigen::Vector3d r = k.normalized() * p, g = Eigen::Vector3d::Constant(7);
  Eigen::Matrix3d R;
  matrixFromRotationVector(r, &R);
  ensure((R.cast<ld>() - rod(r.cast<ld>())).norm() < 1e-12, "matrix_of_a_vector");
  ensure(vectorFromRotationMatrix(R, &g) && (g - r).norm() < (p < 1e-4 ? 2e-6 : 1e-7), "vector_and_back", str(p));
  Eigen::Vector3d v = v3(s, "vel", 3), a = v3(s, "acc", 3);
  Eigen::Vector3d w = omegaFromRotationVector(r, v), wd = omegaDotFromRotationVector(r, v, a);
  double n = r.norm();
  if (n < 0.999e-3) { ensure(w == v && wd == a, "small_angles"); return; }
  if (n < 1.001e-3) return;
  V3 rl = r.cast<ld>(), vl = v.cast<ld>(), al = a.cast<ld>();
  ensure((w.cast<ld>() - omega(rl, vl)).norm() < 1e-6, "angular_velocity", str(n));
  ld h = 1e-5L;
  V3 d = (omega(rl + h * vl + h * h / 2 * al, vl + h * al) - omega(rl - h * vl + h * h / 2 * al, vl - h * al)) / (2 * h);
  ensure((wd.cast<ld>() - d).norm() < 1e-4, "angular_acceleration", str(n));
}
void dcv_case(Src& s, long i) {
  if (s.flag("a")) heading(s);
  else if (s.flag("b")) matrices(s);
  else vectors(s);
}
