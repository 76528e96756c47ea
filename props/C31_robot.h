// C31/C32: poses, robot states, kinematics (PART 1, 2), dynamics wrappers, contact model and rigid-body systems (PART 3, 4)
#include "pbt.h"
#include <ct/rbd/rbd.h>
#if PART >= 2
#define C31_CAT2(a, b) a##b
#define C31_CAT(a, b) C31_CAT2(a, b)
#define urdfJointNames C31_CAT(urdfJointNames_, PART)  // defined, not declared inline, in a header
#include <ct/models/HyA/HyA.h>
#include <ct/models/HyQ/HyQ.h>
#endif
#include "gen.h"
#include "rbd_ref.h"
#include <functional>
using namespace pbt;
using namespace rbdref;
namespace {
M3 rx(double a) { M3 m; m << 1, 0, 0, 0, cos(a), -sin(a), 0, sin(a), cos(a); return m; }
M3 ry(double a) { M3 m; m << cos(a), 0, sin(a), 0, 1, 0, -sin(a), 0, cos(a); return m; }
M3 rz(double a) { M3 m; m << cos(a), -sin(a), 0, sin(a), cos(a), 0, 0, 0, 1; return m; }
M3 rot(const V3& e) { return rx(e(0)) * ry(e(1)) * rz(e(2)); }
M3 skew(const V3& w) { M3 m; m << 0, -w(2), w(1), w(2), 0, -w(0), -w(1), w(0), 0; return m; }
//! w x y z, Hamiltonian
Eigen::Vector4d quatOf(const M3& R)
{
    Eigen::AngleAxisd a(R);
    Eigen::Vector4d q;
    q << std::cos(a.angle() / 2), std::sin(a.angle() / 2) * a.axis();
    return q;
}
M3 rotOfQuat(const Eigen::Vector4d& q)
{
    double w = q(0);
    V3 v = q.tail<3>();
    return (w * w - v.squaredNorm()) * M3::Identity() + 2 * v * v.transpose() + 2 * w * skew(v);
}
//! away from the Euler singularity
V3 drawEuler(Src& s)
{
    V3 e;
    e << s.real(-3, 3), s.real(-1.2, 1.2), s.real(-3, 3);
    return e;
}
VX draw(Src& s, int n, double m)
{
    VX v(n);
    for (int i = 0; i < n; i++) v(i) = s.real(-m, m);
    return v;
}
V6 gravityIn(const M3& R)
{
    V6 g = V6::Zero();
    g.tail<3>() = R.transpose() * V3(0, 0, -9.81);
    return g;
}
typedef ct::rbd::RigidBodyPose Pose;
struct PoseM {
    M3 R = M3::Identity();
    V3 e = V3::Zero(), p = V3::Zero();
    Pose::STORAGE_TYPE st = Pose::EULER;
    bool eulerKnown = true;  // the angles themselves are what was set
};
#if PART >= 2
struct RobotHyA {
    typedef ct::rbd::HyA::Dynamics Dyn;
    typedef ct::rbd::HyA::Kinematics Kin;
    static constexpr int N = 6, E = 1;
    static const Tree& tree() { static const Tree t(HyA_links, HyA_frames); return t; }
    static const char* ee(int) { return "ee"; }
    static const char* name() { return "HyA"; }
    static int first(int) { return 0; }
};
struct RobotHyQ {
    typedef ct::rbd::HyQ::Dynamics Dyn;
    typedef ct::rbd::HyQ::Kinematics Kin;
    static constexpr int N = 12, E = 4;
    static const Tree& tree() { static const Tree t(HyQ_links, HyQ_frames); return t; }
    static const char* ee(int i) { static const char* f[4] = {"LF_foot", "RF_foot", "LH_foot", "RH_foot"}; return f[i]; }
    static const char* name() { return "HyQ"; }
    static int first(int i) { return 3 * i; }
};
//! 6 x N geometric Jacobian (angular first) of an end effector in base coordinates
template <class R> MX fullJac(int e, const VX& q)
{
    MX c = R::tree().jacobian(R::ee(e), q), j = MX::Zero(6, R::N);
    j.middleCols(R::first(e), c.cols()) = c;
    return j;
}
//! force and torque at the end-effector point (base coordinates) as a wrench in the frame of its link
template <class R> V6 toLink(int e, const VX& q, const V3& pB, const V3& tB, const V3& fB)
{
    M4 L = R::tree().linkPose(R::tree().frameLink(R::ee(e)), q);
    M3 RL = L.block<3, 3>(0, 0);
    V3 pL = L.block<3, 1>(0, 3);
    V6 w;
    w << RL.transpose() * ((pB - pL).cross(fB) + tB), RL.transpose() * fB;
    return w;
}
//! a random robot configuration and motion
template <class R> struct Motion {
    static constexpr int N = R::N;
    VX q, qd, tau;
    M3 RB;
    V3 pb, w, v;
    ct::rbd::RBDState<N> x;
    Motion(Src& s, double vmax = 2) : x(s.p(1, 2) ? Pose::EULER : Pose::QUAT)
    {
        q = draw(s, N, 2);
        qd = draw(s, N, vmax);
        tau = draw(s, N, 50);
        RB = rot(drawEuler(s));
        pb = gen::vec<3>(s, 2);
        w = gen::vec<3>(s, vmax);
        v = gen::vec<3>(s, vmax);
        x.basePose().setFromRotationMatrix(kindr::RotationMatrixD(RB));
        x.basePose().position() = kindr::Position3D(pb);
        x.baseLocalAngularVelocity().toImplementation() = w;
        x.baseLinearVelocity().toImplementation() = v;
        x.jointPositions() = q;
        x.jointVelocities() = qd;
    }
    V6 v0() const { V6 r; r << w, v; return r; }
    V6 g() const { return gravityIn(RB); }
    VX vel() const { VX r(6 + N); r << w, v, qd; return r; }
};
//! 3 x (6 + N) Jacobian of the velocity of an end effector in base coordinates
template <class R> MX footJac(int e, const VX& q)
{
    MX j(3, 6 + R::N);
    V3 p = R::tree().pose(R::ee(e), q).template block<3, 1>(0, 3);
    j << -skew(p), M3::Identity(), fullJac<R>(e, q).bottomRows(3);
    return j;
}
template <class R> MX footJacDot(int e, const VX& q, const VX& qd)
{
    const double h = 1e-5;
    return (footJac<R>(e, q + h * qd) - footJac<R>(e, q - h * qd)) / (2 * h);
}
#endif
}  // namespace

#if PART == 1
namespace {
void comparePose(Pose& P, const PoseM& m, Src& s)
{
    const double tol = 1e-9;
    PBT_REQUIRE(P.getStorageType() == m.st, "storage", "storage type");
    require_close(P.position().toImplementation(), m.p, tol, tol, "position", "position");
    require_close(P.getRotationMatrix().toImplementation(), m.R, tol, tol, "rotation", "rotation matrix");
    auto q = P.getRotationQuaternion();
    require_close(rotOfQuat(Eigen::Vector4d(q.w(), q.x(), q.y(), q.z())), m.R, tol, tol, "rotation", "quaternion");
    auto e = P.getEulerAnglesXyz();
    require_close(rot(e.toImplementation()), m.R, tol, tol, "rotation", "Euler angles");
    if (m.eulerKnown && m.st == Pose::EULER) require_close(e.toImplementation(), m.e, tol, tol, "rotation", "Euler angles as set");
    V3 v = gen::vec<3>(s, 2);
    require_close(P.rotateBaseToInertia(v), m.R * v, tol, tol, "rotate", "base to inertia");
    require_close(P.rotateInertiaToBase(v), m.R.transpose() * v, tol, tol, "rotate", "inertia to base");
    kindr::Position3D kv(v);
    require_close(P.rotateBaseToInertia(kv).toImplementation(), m.R * v, tol, tol, "rotate", "base to inertia (kindr)");
    require_close(P.rotateInertiaToBase(kv).toImplementation(), m.R.transpose() * v, tol, tol, "rotate", "inertia to base (kindr)");
    M3 A = gen::mat<3, 3>(s, 2);
    require_close(P.rotateBaseToInertiaMat(A), m.R * A, tol, tol, "rotate", "matrix");
    V3 e2 = drawEuler(s);
    Eigen::Vector4d q2 = quatOf(rot(e2));
    auto qr = P.rotateBaseToInertiaQuaternion(kindr::RotationQuaternionD(q2(0), q2(1), q2(2), q2(3)));
    require_close(rotOfQuat(Eigen::Vector4d(qr.w(), qr.x(), qr.y(), qr.z())), m.R * rot(e2), tol, tol, "rotate", "quaternion");
    require_close(P.computeGravityB(), m.R.transpose() * V3(0, 0, -9.81), tol, tol, "gravity", "gravity in base");
    require_close(P.computeGravityB(v), m.R.transpose() * v, tol, tol, "gravity", "given gravity in base");
    V6 g6 = V6::Zero();
    g6.tail<3>() = m.R.transpose() * v;
    require_close(P.computeGravityB6D(v), g6, tol, tol, "gravity", "6D gravity");
    require_close(P.computeGravityB6D(), gravityIn(m.R), tol, tol, "gravity", "6D gravity");
}
Pose make(Src& s, PoseM& m)
{
    m = PoseM();
    m.st = s.p(1, 2) ? Pose::EULER : Pose::QUAT;
    int how = s.i(0, 4);
    if (how == 0) return Pose(m.st);
    m.e = drawEuler(s);
    m.R = rot(m.e);
    m.p = gen::vec<3>(s, 3);
    m.eulerKnown = how == 1;
    Eigen::Vector4d q = quatOf(m.R);
    bool dflt = m.st == Pose::EULER && s.p(1, 2);  // EULER is the default storage
    if (how == 1) return dflt ? Pose(kindr::EulerAnglesXyzD(m.e), kindr::Position3D(m.p)) : Pose(kindr::EulerAnglesXyzD(m.e), kindr::Position3D(m.p), m.st);
    if (how == 2) return dflt ? Pose(kindr::RotationQuaternionD(q), kindr::Position3D(m.p)) : Pose(kindr::RotationQuaternionD(q), kindr::Position3D(m.p), m.st);
    if (how == 3) return Pose(Eigen::Quaterniond(q(0), q(1), q(2), q(3)), Eigen::Vector3d(m.p), m.st);
    M4 T = M4::Identity();
    T.block<3, 3>(0, 0) = m.R;
    T.block<3, 1>(0, 3) = m.p;
    return Pose(T, m.st);
}
}
// histories of a pose, in both storage types
FACET(pose, 4)
{
    PoseM m;
    Pose P = make(s, m);
    comparePose(P, m, s);
    int n = s.i(1, 6);
    s.nontrivial();
    for (int k = 0; k < n; k++)
    {
        int op = s.i(0, 9);
        if (op <= 4) { m.e = drawEuler(s); m.R = rot(m.e); m.eulerKnown = op <= 1; }
        Eigen::Vector4d q = quatOf(m.R);
        switch (op)
        {
            case 0: P.setFromEulerAnglesXyz(kindr::EulerAnglesXyzD(m.e)); break;
            case 1: P.setFromEulerAnglesXyz(m.e); break;
            case 2: P.setFromRotationQuaternion(kindr::RotationQuaternionD(q)); break;
            case 3: P.setFromRotationQuaternion(Eigen::Quaterniond(q(0), q(1), q(2), q(3))); break;
            case 4: P.setFromRotationMatrix(kindr::RotationMatrixD(m.R)); break;
            case 5: m.p = gen::vec<3>(s, 3); P.position() = kindr::Position3D(m.p); break;
            case 6: { Pose c(P); P.setIdentity(); P.position() = kindr::Position3D(1, 2, 3); P = c; break; }
            case 7: { auto st = m.st; P.setIdentity(); m = PoseM(); m.st = st; break; }
            case 8: {
                PoseM m2;
                Pose ref = make(s, m2);
                M3 rel = m2.R.transpose() * m.R;
                if (std::abs(rel(0, 2)) > 0.99) break;
                PoseM r;
                r.R = rel;
                r.p = m2.R.transpose() * (m.p - m2.p);
                r.eulerKnown = false;
                Pose in = P.inReferenceFrame(ref);
                r.st = in.getStorageType();  // not promised
                comparePose(in, r, s);
                comparePose(ref, m2, s);
                double dist = (m.R - m2.R).norm() + (m.p - m2.p).norm();
                if (dist > 1e-3) PBT_REQUIRE(!P.isNear(ref), "near", "poses ", dist, " apart are near");
                Pose c(P);
                if (m.p.norm() > 1e-3) PBT_REQUIRE(c.isNear(P, 1e-7), "near", "copy is not near");
                break;
            }
            case 9: { Pose c = make(s, m); P = c; break; }
        }
        comparePose(P, m, s);
    }
}

namespace {
template <int N> struct StateM {
    M3 R = M3::Identity();
    V3 p = V3::Zero(), w = V3::Zero(), v = V3::Zero();
    VX q = VX::Zero(N), qd = VX::Zero(N);
    void fill(Src& s) { R = rot(drawEuler(s)); p = gen::vec<3>(s, 2); w = gen::vec<3>(s, 2); v = gen::vec<3>(s, 2); q = draw(s, N, 2); qd = draw(s, N, 2); }
    VX tail() const { VX t(6 + N); t << w, v, qd; return t; }
};
template <int N> void compareState(const ct::rbd::RBDState<N>& x, const StateM<N>& m)
{
    const double tol = 1e-9;
    VX e = x.toStateVectorEulerXyz(), u = x.toStateVectorEulerXyzUnique(), q = x.toStateVectorQuaternion(), rest(3 + N);
    rest << m.p, m.q;
    require_close(rot(e.head(3)), m.R, tol, tol, "state", "Euler vector: orientation");
    require_close(rot(u.head(3)), m.R, tol, tol, "state", "unique Euler vector: orientation");
    PBT_REQUIRE(std::abs(u(0)) <= M_PI + 1e-9 && std::abs(u(1)) <= M_PI / 2 + 1e-9 && std::abs(u(2)) <= M_PI + 1e-9, "state", "unique angles out of range");
    require_close(rotOfQuat(q.head(4)), m.R, tol, tol, "state", "quaternion vector: orientation");
    require_close(e.segment(3, 3 + N), rest, tol, tol, "state", "Euler vector: positions");
    require_close(u.segment(3, 3 + N), rest, tol, tol, "state", "unique Euler vector: positions");
    require_close(q.segment(4, 3 + N), rest, tol, tol, "state", "quaternion vector: positions");
    require_close(e.tail(6 + N), m.tail(), tol, tol, "state", "Euler vector: velocities");
    require_close(u.tail(6 + N), m.tail(), tol, tol, "state", "unique Euler vector: velocities");
    require_close(q.tail(6 + N), m.tail(), tol, tol, "state", "quaternion vector: velocities");
    require_close(x.toCoordinatePosition(), e.head(6 + N), tol, tol, "state", "coordinate position");
    require_close(x.toCoordinatePositionUnique(), u.head(6 + N), tol, tol, "state", "unique coordinate position");
    require_close(x.toCoordinateVelocity(), m.tail(), tol, tol, "state", "coordinate velocity");
    require_close(x.base().computeTranslationalVelocityW().toImplementation(), m.R * m.v, tol, tol, "state", "translational velocity in world");
    V6 t;
    t << m.w, m.v;
    require_close(x.baseVelocities().getVector(), t, tol, tol, "state", "base twist");
    require_close(x.baseLocalAngularVelocity().toImplementation(), m.w, tol, tol, "state", "angular velocity");
    require_close(x.baseLinearVelocity().toImplementation(), m.v, tol, tol, "state", "linear velocity");
    require_close(x.jointPositions(), m.q, tol, tol, "state", "joint positions");
    require_close(x.jointVelocities(), m.qd, tol, tol, "state", "joint velocities");
    require_close(x.basePose().position().toImplementation(), m.p, tol, tol, "state", "base position");
}
template <int N> VX quatVector(const StateM<N>& m)
{
    VX v(13 + 2 * N);
    v << quatOf(m.R), m.p, m.q, m.tail();
    return v;
}
template <int N> VX eulerVector(const StateM<N>& m)
{
    VX v(12 + 2 * N);
    v << kindr::EulerAnglesXyzD(kindr::RotationMatrixD(m.R)).toImplementation(), m.p, m.q, m.tail();
    return v;
}
template <int N> void set(ct::rbd::RBDState<N>& x, StateM<N>& m, Src& s)
{
    typedef ct::rbd::RBDState<N> X;
    int op = s.i(0, 7);
    if (op <= 4) m.fill(s);
    switch (op)
    {
        case 0: x.fromStateVectorQuaternion(typename X::state_vector_quat_t(quatVector<N>(m))); break;
        case 1: x.fromStateVectorEulerXyz(typename X::state_vector_euler_t(eulerVector<N>(m))); break;
        case 2: x.fromStateVectorRaw(typename X::state_vector_quat_t(quatVector<N>(m))); break;
        case 3: x.fromStateVectorRaw(typename X::state_vector_euler_t(eulerVector<N>(m))); break;
        case 4: {
            x.basePose().setFromRotationMatrix(kindr::RotationMatrixD(m.R));
            x.basePose().position() = kindr::Position3D(m.p);
            if (s.p(1, 2)) { x.baseLocalAngularVelocity().toImplementation() = m.w; x.baseLinearVelocity().toImplementation() = m.v; }
            else { V6 t; t << m.w, m.v; x.baseVelocities().setVector(t); }
            if (s.p(1, 2)) { x.jointPositions() = m.q; x.jointVelocities() = m.qd; }
            else { x.joints().getPositions() = m.q; x.joints().getVelocities() = m.qd; }
            break;
        }
        case 5: m = StateM<N>(); if (s.p(1, 2)) x.setZero(); else x.setDefault(); break;
        case 6: { X c(x); x.setZero(); PBT_REQUIRE(c.isApprox(c, 1e-9), "state", "not approximately itself"); x = c; break; }
        case 7: { X c(x.base(), x.joints()); x = c; break; }
    }
}
//! derivative of the state vector when the body moves with the velocities of the state and the given acceleration
template <int N> void compareRate(const ct::rbd::RBDState<N>& x, const StateM<N>& m, Src& s)
{
    V6 a = gen::vec<6>(s, 3);
    VX qdd = draw(s, N, 3), acc(6 + N);
    acc << a, qdd;
    ct::rbd::RBDAcceleration<N> A;
    if (s.p(1, 2)) { A.base().fromVector6d(a); A.joints().getAcceleration() = qdd; }
    else A = ct::rbd::RBDAcceleration<N>(ct::rbd::RigidBodyAcceleration(a), ct::rbd::JointAcceleration<N>(Eigen::Matrix<double, N, 1>(qdd)));
    require_close(A.toCoordinateAcceleration(), acc, 1e-12, 1e-12, "rate", "coordinate acceleration");
    require_close(A.base().getVector6d(), a, 1e-12, 1e-12, "rate", "base acceleration");
    require_close(A.base().getAngularAcceleration().toImplementation(), a.head<3>(), 1e-12, 1e-12, "rate", "angular acceleration");
    require_close(A.base().getTranslationalAcceleration().toImplementation(), a.tail<3>(), 1e-12, 1e-12, "rate", "linear acceleration");
    VX rest(3 + N);
    rest << m.R * m.v, m.qd;
    VX e = A.toStateUpdateVectorEulerXyz(x), q = A.toStateUpdateVectorQuaternion(x);
    require_close(e.segment(3, 3 + N), rest, 1e-9, 1e-9, "rate", "Euler rates: positions");
    require_close(q.segment(4, 3 + N), rest, 1e-9, 1e-9, "rate", "quaternion rates: positions");
    require_close(e.tail(6 + N), acc, 1e-12, 1e-12, "rate", "Euler rates: accelerations");
    require_close(q.tail(6 + N), acc, 1e-12, 1e-12, "rate", "quaternion rates: accelerations");
    // orientation: dR/dt = R skew(w)
    const double h = 1e-5;
    V3 ex = x.basePose().getEulerAnglesXyz().toImplementation(), ed = e.head(3);
    require_close((rot(ex + h * ed) - rot(ex - h * ed)) / (2 * h), m.R * skew(m.w), 1e-6, 1e-5 * (1 + ed.squaredNorm() * ed.norm() * 1e-3), "rate", "Euler rates");
    auto kq = x.basePose().getRotationQuaternion();
    Eigen::Vector4d qx(kq.w(), kq.x(), kq.y(), kq.z()), qd = q.head(4);
    require_close((rotOfQuat(qx + h * qd) - rotOfQuat(qx - h * qd)) / (2 * h), m.R * skew(m.w), 1e-6, 1e-6, "rate", "quaternion rates");
    PBT_REQUIRE(std::abs(qx.dot(qd)) < 1e-9, "rate", "quaternion rate changes the norm");
}
}
FACET(rbd_state, 3)
{
    constexpr int N = 3;
    ct::rbd::RBDState<N> x(s.p(1, 2) ? Pose::EULER : Pose::QUAT);
    StateM<N> m;
    compareState<N>(x, m);
    int n = s.i(1, 6);
    for (int k = 0; k < n; k++)
    {
        set<N>(x, m, s);
        compareState<N>(x, m);
    }
    if (std::abs(m.R(0, 2)) < 0.99) { compareRate<N>(x, m, s); s.nontrivial(); }
}
namespace {
template <int A> void floatingRobotState(Src& s)
{
    constexpr int N = 2;
    typedef ct::rbd::FloatingBaseRobotState<N, A> X;
    X x(s.p(1, 2) ? Pose::EULER : Pose::QUAT);
    StateM<N> m;
    VX act = VX::Zero(A);
    int n = s.i(1, 5);
    s.nontrivial();
    for (int k = 0; k < n; k++)
    {
        int op = s.i(0, 6);
        if (op <= 3)
        {
            m.fill(s);
            act = draw(s, A, 2);
            VX q(13 + 2 * N + A), e(12 + 2 * N + A);
            q << quatVector<N>(m), act;
            e << eulerVector<N>(m), act;
            typename X::state_vector_quat_t vq = q;
            typename X::state_vector_euler_t ve = e;
            if (op == 0) x.fromStateVectorQuaternion(vq);
            if (op == 1) x.fromStateVectorEulerXyz(ve);
            if (op == 2) x.fromStateVectorRaw(vq);
            if (op == 3) x.fromStateVectorRaw(ve);
        }
        else if (op == 4) { set<N>(x.rbdState(), m, s); }
        else if (op == 5) { X c(x); x.setZero(); PBT_REQUIRE(x.toStateVectorEulerXyz().norm() == 0, "robot_state", "not zero after setZero"); x = c; }
        else
        {
            m.fill(s);
            act = draw(s, A, 2);
            ct::rbd::RBDState<N> r(s.p(1, 2) ? Pose::EULER : Pose::QUAT);
            r.fromStateVectorQuaternion(typename ct::rbd::RBDState<N>::state_vector_quat_t(quatVector<N>(m)));
            if (s.p(1, 2)) { X c(r, typename X::actuator_state_vector_t(act)); x = c; }
            else { X c(r.base(), r.joints(), typename X::actuator_state_vector_t(act)); x = c; }
        }
        compareState<N>(x.rbdState(), m);
        VX q = x.toStateVectorQuaternion(), e = x.toStateVectorEulerXyz(), u = x.toStateVectorEulerXyzUnique();
        require_close(q.head(13 + 2 * N), x.rbdState().toStateVectorQuaternion(), 1e-12, 1e-12, "robot_state", "quaternion vector");
        require_close(e.head(12 + 2 * N), x.rbdState().toStateVectorEulerXyz(), 1e-12, 1e-12, "robot_state", "Euler vector");
        require_close(u.head(12 + 2 * N), x.rbdState().toStateVectorEulerXyzUnique(), 1e-12, 1e-12, "robot_state", "unique Euler vector");
        if (A)
        {
            require_close(q.tail(A), act, 1e-12, 1e-12, "robot_state", "quaternion vector: actuator state");
            require_close(e.tail(A), act, 1e-12, 1e-12, "robot_state", "Euler vector: actuator state");
            require_close(u.tail(A), act, 1e-12, 1e-12, "robot_state", "unique Euler vector: actuator state");
            require_close(x.actuatorState(), act, 1e-12, 1e-12, "robot_state", "actuator state");
        }
    }
}
template <int A> void fixRobotState(Src& s)
{
    constexpr int N = 3;
    typedef ct::rbd::FixBaseRobotState<N, A> X;
    typename X::state_vector_t v = draw(s, 2 * N + A, 2);
    s.nontrivial();
    X x;
    int op = s.i(0, 3);
    if (op == 0) x.fromStateVector(v);
    else if (op == 1) x = X(v);
    else if (op == 2) { X y(v); X c(y); y.setZero(); x = c; }
    else
    {
        typename X::JointState_t j;
        j.getPositions() = v.template head<N>();
        j.getVelocities() = v.template segment<N>(N);
        X c(j, typename X::actuator_state_vector_t(v.template tail<A>()));
        x = c;
    }
    require_close(x.toStateVector(), v, 0, 0, "robot_state", "state vector");
    require_close(x.joints().getPositions(), v.template head<N>(), 0, 0, "robot_state", "joint positions");
    require_close(x.joints().getVelocities(), v.template segment<N>(N), 0, 0, "robot_state", "joint velocities");
    for (int i = 0; i < A; i++) PBT_REQUIRE(x.actuatorState(i) == v(2 * N + i) && x.actuatorState()(i) == v(2 * N + i), "robot_state", "actuator state ", i);
    require_close(X::jointStateFromVector(v).toImplementation(), v.template head<2 * N>(), 0, 0, "robot_state", "jointStateFromVector");
    require_close(X::toFullState(ct::core::StateVector<2 * N>(v.template head<2 * N>()), typename X::actuator_state_vector_t(v.template tail<A>())), v, 0, 0, "robot_state", "toFullState");
    if (A) require_close(X::actuatorStateFromVector(v), v.template tail<A>(), 0, 0, "robot_state", "actuatorStateFromVector");
    PoseM pm;
    Pose P = make(s, pm);
    ct::rbd::RBDState<N> r = s.p(1, 2) ? x.toRBDState(P) : X::rbdStateFromVector(v, P);
    StateM<N> m;
    m.R = pm.R;
    m.p = pm.p;
    m.q = v.template head<N>();
    m.qd = v.template segment<N>(N);
    compareState<N>(r, m);
    x.setZero();
    PBT_REQUIRE(x.toStateVector().norm() == 0, "robot_state", "not zero after setZero");
}
}
FACET(robot_state, 3)
{
    switch (s.i(0, 3))
    {
        case 0: floatingRobotState<0>(s); break;
        case 1: floatingRobotState<2>(s); break;
        case 2: fixRobotState<0>(s); break;
        case 3: fixRobotState<2>(s); break;
    }
}
#endif

#if PART == 2
namespace {
template <class R> void kinematics(Src& s)
{
    typedef typename R::Kin Kin;
    constexpr int N = R::N;
    const Tree& t = R::tree();
    std::unique_ptr<Kin> K(new Kin());
    s.nontrivial();
    const double tol = 2e-6;  // the generated code carries single-precision constants
    int n = s.i(1, 4);
    for (int k = 0; k < n; k++)
    {
        if (s.p(1, 3)) K.reset(s.p(1, 2) ? K->clone() : new Kin(*K));
        int e = s.i(0, R::E - 1);
        VX q = draw(s, N, 3), qd = draw(s, N, 2);
        V3 w = gen::vec<3>(s, 2), v = gen::vec<3>(s, 2), eu = drawEuler(s), pb = gen::vec<3>(s, 3);
        M3 RB = rot(eu);
        Pose base(s.p(1, 2) ? Pose::EULER : Pose::QUAT);
        base.setFromRotationMatrix(kindr::RotationMatrixD(RB));
        base.position() = kindr::Position3D(pb);
        typename Kin::JointState_t::Position jq = q;
        ct::rbd::RBDState<N> x(base.getStorageType());
        x.basePose() = base;
        x.baseLocalAngularVelocity().toImplementation() = w;
        x.baseLinearVelocity().toImplementation() = v;
        x.jointPositions() = q;
        x.jointVelocities() = qd;
        M4 T = t.pose(R::ee(e), q);
        V3 p = T.block<3, 1>(0, 3);
        M3 RE = T.block<3, 3>(0, 0);
        MX J = fullJac<R>(e, q);
        std::string key = std::string(R::name()) + "-kinematics";
        require_close(K->getEEPositionInBase(e, jq).toImplementation(), p, tol, tol, key, "end-effector position in base");
        require_close(K->getEERotInBase(e, jq), RE, tol, tol, key, "end-effector rotation in base");
        require_close(K->getEEPositionInWorld(e, base, jq).toImplementation(), pb + RB * p, tol, tol, key, "end-effector position in world");
        require_close(K->getEERotInWorld(e, base, jq), RB * RE, tol, tol, key, "end-effector rotation in world");
        if (std::abs(RE(0, 2)) < 0.99)
        {
            Pose P = K->getEEPoseInBase(e, jq);
            require_close(P.position().toImplementation(), p, tol, tol, key, "end-effector pose in base: position");
            require_close(P.getRotationMatrix().toImplementation(), RE, 1e-5, 1e-5, key, "end-effector pose in base: rotation");
            Pose W = K->getEEPoseInWorld(e, base, jq);
            require_close(W.position().toImplementation(), pb + RB * p, tol, tol, key, "end-effector pose in world: position");
            if (std::abs((RB * RE)(0, 2)) < 0.99) require_close(W.getRotationMatrix().toImplementation(), RB * RE, 1e-5, 1e-5, key, "end-effector pose in world: rotation");
        }
        require_close(K->getJacobianBaseEEbyId(e, x), J, tol, tol, key, "Jacobian");
        V3 ve = v + w.cross(p) + J.bottomRows(3) * qd;
        require_close(K->getEEVelocityInBase(e, x).toImplementation(), ve, tol, tol * 10, key, "end-effector velocity in base");
        require_close(K->getEEVelocityInWorld(e, x).toImplementation(), RB * ve, tol, tol * 10, key, "end-effector velocity in world");
        // forces
        V3 f = gen::vec<3>(s, 50), tq = gen::vec<3>(s, 20);
        typename Kin::EEForce F;
        F.force() = f;
        F.torque() = tq;
        V3 fB = RB.transpose() * f, tB = RB.transpose() * tq;
        key = std::string(R::name()) + "-forces";
        require_close(K->mapForceFromWorldToLink3d(f, base, jq, e), toLink<R>(e, q, p, V3::Zero(), fB), tol, 100 * tol, key, "force from world to link");
        require_close(K->mapForceFromWorldToLink(F, base, jq, e), toLink<R>(e, q, p, tB, fB), tol, 100 * tol, key, "wrench from world to link");
        V3 pe = gen::vec<3>(s, 1);
        require_close(K->mapForceFromWorldToLink(F, base, jq, kindr::Position3D(pe), e), toLink<R>(e, q, pe, tB, fB), tol, 100 * tol, key, "wrench at a point from world to link");
        Pose TE(s.p(1, 2) ? Pose::EULER : Pose::QUAT);
        V3 ee = drawEuler(s);
        TE.setFromRotationMatrix(kindr::RotationMatrixD(rot(ee)));
        TE.position() = kindr::Position3D(pe);
        require_close(K->mapForceFromEEToLink(F, TE, jq, e), toLink<R>(e, q, pe, rot(ee) * tq, rot(ee) * f), tol, 100 * tol, key, "wrench from end effector to link");
        // links by id
        int l = s.i(0, N);
        M4 L = t.linkPose(l, q);
        require_close(K->robcogen().getHomogeneousTransformBaseLinkById(l, jq), L, tol, tol, std::string(R::name()) + "-links", "link transform");
        M3 RL = L.block<3, 3>(0, 0);
        V6 wB, wL;
        wB << tB, fB;
        wL << RL.transpose() * (tB - V3(L.block<3, 1>(0, 3)).cross(fB)), RL.transpose() * fB;
        require_close(K->robcogen().getForceTransformLinkBaseById(l, jq) * wB, wL, tol, 100 * tol, std::string(R::name()) + "-links", "force transform");
        PBT_REQUIRE((int)K->getEndEffector(e).getLinkId() == t.frameLink(R::ee(e)), std::string(R::name()) + "-links", "link of the end effector");
    }
}
}
FACET(kinematics_hya, 2) { kinematics<RobotHyA>(s); }
FACET(kinematics_hyq, 2) { kinematics<RobotHyQ>(s); }
FACET(spatial_force, 1)
{
    typedef ct::rbd::SpatialForceVector<double> F;
    V6 a = gen::vec<6>(s, 3), b = gen::vec<6>(s, 3);
    double c = s.real(-3, 3);
    s.nontrivial();
    F x(a), y(b);
    const F z(a);
    require_close(x.torque(), a.head<3>(), 0, 0, "spatial", "torque");
    require_close(x.force(), a.tail<3>(), 0, 0, "spatial", "force");
    require_close(z.torque(), a.head<3>(), 0, 0, "spatial", "const torque");
    require_close(z.force(), a.tail<3>(), 0, 0, "spatial", "const force");
    require_close(x + b, a + b, 1e-14, 1e-14, "spatial", "sum");
    require_close(x - b, a - b, 1e-14, 1e-14, "spatial", "difference");
    require_close(x * c, a * c, 1e-14, 1e-14, "spatial", "product");
    if (std::abs(c) > 1e-3) require_close(x / c, a / c, 1e-14, 1e-14, "spatial", "quotient");
    PBT_REQUIRE((x == a) && !(x != a), "spatial", "comparison");
    PBT_REQUIRE((x == b) == (a == b) && (x != b) == (a != b), "spatial", "comparison");
    y.torque() = a.head<3>();
    y.force() = a.tail<3>();
    require_close(y.toImplementation(), a, 0, 0, "spatial", "assignment of parts");
    y.setZero();
    PBT_REQUIRE(y.norm() == 0, "spatial", "setZero");
}
#endif

#if PART == 3
namespace {
typedef RobotHyQ Q;
typedef ct::rbd::HyQ::Dynamics QDyn;
template <class Ext, class LinkId> void drawForces(Src& s, Ext& ext, std::vector<V6>& fe)
{
    if (!s.p(1, 2)) return;
    for (size_t k = 0; k < fe.size(); k++) { fe[k] = gen::vec<6>(s, 30); ext[static_cast<LinkId>(k)] = fe[k]; }
}
}
FACET(dynamics_hya, 2)
{
    typedef ct::rbd::HyA::Dynamics Dyn;
    const Tree& t = RobotHyA::tree();
    std::unique_ptr<Dyn> D(new Dyn());
    V6 g = V6::Zero();
    g(5) = -9.81;
    int n = s.i(1, 4);
    s.nontrivial();
    for (int k = 0; k < n; k++)
    {
        if (s.p(1, 3)) D.reset(new Dyn(*D));
        Motion<RobotHyA> m(s);
        VX qdd = draw(s, 6, 20);
        Dyn::ExtLinkForces_t ext(V6(V6::Zero()));
        std::vector<V6> fe = t.zeroF();
        drawForces<Dyn::ExtLinkForces_t, Dyn::ROBCOGEN::LinkIdentifiers>(s, ext, fe);
        Dyn::JointAcceleration_t a, in(Eigen::Matrix<double, 6, 1>(qdd.head<6>()));
        Dyn::control_vector_t u = m.tau, out;
        D->FixBaseForwardDynamics(m.x.joints(), u, ext, a);
        require_close(a.getAcceleration(), t.fixedFD(m.q, m.qd, m.tau, g, fe), 1e-5, 1e-3, "HyA-forward-dynamics", "joint acceleration");
        D->FixBaseForwardDynamics(m.x.joints(), u, a);
        require_close(a.getAcceleration(), t.fixedFD(m.q, m.qd, m.tau, g, t.zeroF()), 1e-5, 1e-3, "HyA-forward-dynamics", "joint acceleration without external forces");
        D->FixBaseID(m.x.joints(), in, ext, out);
        require_close(out, t.fixedID(m.q, m.qd, qdd, g, fe), 1e-6, 1e-5, "HyA-inverse-dynamics", "torque");
        D->FixBaseID(m.x.joints(), in, out);
        require_close(out, t.fixedID(m.q, m.qd, qdd, g, t.zeroF()), 1e-6, 1e-5, "HyA-inverse-dynamics", "torque without external forces");
    }
}
FACET(dynamics_hyq, 2)
{
    const Tree& t = Q::tree();
    std::unique_ptr<QDyn> D(new QDyn());
    int n = s.i(1, 3);
    s.nontrivial();
    for (int k = 0; k < n; k++)
    {
        if (s.p(1, 3)) D.reset(new QDyn(*D));
        Motion<Q> m(s);
        VX acc = draw(s, 18, 10), both(18);
        QDyn::ExtLinkForces_t ext(V6(V6::Zero()));
        std::vector<V6> fe = t.zeroF();
        drawForces<QDyn::ExtLinkForces_t, QDyn::ROBCOGEN::LinkIdentifiers>(s, ext, fe);
        QDyn::RBDAcceleration_t a;
        QDyn::control_vector_t u = m.tau, out;
        D->FloatingBaseForwardDynamics(m.x, u, ext, a);
        require_close(a.toCoordinateAcceleration(), t.floatFD(m.q, m.qd, m.tau, m.v0(), m.g(), fe), 1e-5, 1e-3, "HyQ-forward-dynamics", "acceleration (base, joints)");
        V6 a0 = acc.head<6>();
        QDyn::ForceVector_t bw;
        QDyn::JointAcceleration_t qdd(Eigen::Matrix<double, 12, 1>(acc.tail<12>()));
        D->FloatingBaseFullyActuatedID(m.x, QDyn::RigidBodyAcceleration_t(a0), qdd, ext, bw, out);
        both << bw, out;
        require_close(both, t.full(m.q, m.qd, acc, m.v0(), m.g(), fe), 1e-6, 1e-4, "HyQ-inverse-dynamics", "wrench and torques");
    }
}
namespace {
//! feet in contact, with a well-conditioned constraint
std::vector<int> drawContacts(Src& s, ct::rbd::RBDDataMap<bool, 4>& c)
{
    std::vector<int> r;
    for (int i = 0; i < 4; i++) { c[i] = s.p(1, 2); if (c[i]) r.push_back(i); }
    return r;
}
MX stack(const std::vector<int>& c, const VX& q)
{
    MX J(3 * c.size(), 18);
    for (size_t i = 0; i < c.size(); i++) J.middleRows(3 * i, 3) = footJac<Q>(c[i], q);
    return J;
}
VX bias(const std::vector<int>& c, const Motion<Q>& m)
{
    VX b(3 * c.size());
    for (size_t i = 0; i < c.size(); i++)
    {
        V3 vf = footJac<Q>(c[i], m.q) * m.vel();
        b.segment<3>(3 * i) = footJacDot<Q>(c[i], m.q, m.qd) * m.vel() + m.w.cross(vf);
    }
    return b;
}
}
// forward dynamics with rigid contacts: the equations of motion hold and the feet in contact do not accelerate
FACET(projected_dynamics, 2)
{
    const Tree& t = Q::tree();
    typedef ct::rbd::ProjectedDynamics<QDyn::ROBCOGEN, 4> PD;
    std::unique_ptr<QDyn> D(new QDyn());
    PD P(std::shared_ptr<QDyn::Kinematics_t>(new QDyn::Kinematics_t()));
    int n = s.i(1, 3);
    for (int k = 0; k < n; k++)
    {
        Motion<Q> m(s);
        QDyn::EE_in_contact_t in;
        std::vector<int> c = drawContacts(s, in);
        MX J = stack(c, m.q);
        if (!c.empty())
        {
            Eigen::SelfAdjointEigenSolver<MX> es(J * t.massMatrix(m.q).inverse() * J.transpose());
            if (es.eigenvalues()(0) < 1e-3 * es.eigenvalues().maxCoeff()) continue;
        }
        s.nontrivial();
        QDyn::RBDAcceleration_t a, b;
        QDyn::control_vector_t u = m.tau, back;
        if (s.p(1, 3)) D.reset(new QDyn(*D));
        D->ProjectedForwardDynamics(in, m.x, u, a);
        P.setContactConfiguration(in);
        PD::EE_contact_forces_t lambda;
        if (s.p(1, 2)) { P.ProjectedForwardDynamics(m.x, u, b); P.getContactForcesInBase(lambda); }
        else { P.getContactForcesInBase(m.x, u, lambda); b = a; }
        VX acc = a.toCoordinateAcceleration(), f = VX::Zero(18);
        require_close(b.toCoordinateAcceleration(), acc, 1e-9, 1e-9, "projected", "acceleration of two objects");
        f.tail(12) = m.tau;
        double scale = 1 + f.norm();
        for (int i = 0; i < 4; i++)
        {
            if (!in[i]) PBT_REQUIRE(lambda[i].norm() == 0, "projected", "force at a foot that is not in contact");
            else f += footJac<Q>(i, m.q).transpose() * lambda[i], scale += lambda[i].norm();
        }
        require_close(t.full(m.q, m.qd, acc, m.v0(), m.g(), t.zeroF()), f, 1e-5, 1e-5 * scale, "projected", "equations of motion");
        if (!c.empty()) require_close(J * acc + bias(c, m), VX::Zero(J.rows()), 0, 1e-4 * (1 + acc.norm()), "projected", "feet in contact do not accelerate");
        // inverse dynamics: torques with the same motion
        if (s.p(1, 2)) D->ProjectedInverseDynamics(in, m.x, a, back); else P.ProjectedInverseDynamics(m.x, a, back);
        D->ProjectedForwardDynamics(in, m.x, back, b);
        require_close(b.toCoordinateAcceleration(), acc, 1e-4, 1e-3, "projected-inverse", "acceleration of the torques of the inverse dynamics");
    }
}
FACET(constraint_jacobian, 2)
{
    typedef ct::rbd::ConstraintJacobian<QDyn::Kinematics_t, 12, 12> CJ;
    CJ C;
    int n = s.i(1, 3);
    s.nontrivial();
    for (int k = 0; k < n; k++)
    {
        Motion<Q> m(s);
        ct::rbd::RBDDataMap<bool, 4> in;
        std::vector<int> c = drawContacts(s, in);
        C.ee_indices_ = c;
        C.c_size_ = 3 * c.size();
        for (int i = 0; i < 4; i++) C.eeInContact_[i] = in[i];
        C.updateState(m.x);
        MX J = MX::Zero(12, 18), Jd = J;
        for (int i : c) { J.middleRows(3 * i, 3) = footJac<Q>(i, m.q); Jd.middleRows(3 * i, 3) = footJacDot<Q>(i, m.q, m.qd); }
        bool first = s.p(1, 2);
        if (first) require_close(C.dJdt(), Jd, 1e-5, 1e-4, "constraint-jacobian", "time derivative");
        require_close(C.J(), J, 1e-6, 1e-6, "constraint-jacobian", "Jacobian");
        if (!first) require_close(C.dJdt(), Jd, 1e-5, 1e-4, "constraint-jacobian", "time derivative");
        CJ::jacobian_t num;
        C.getJacobianOriginDerivativeNumdiff(m.x, num);
        require_close(num, Jd, 1e-4, 1e-4, "constraint-jacobian", "numerical time derivative");
        MX Jc = stack(c, m.q);
        if (c.empty()) { require_close(C.P(), MX::Identity(18, 18), 1e-9, 1e-9, "constraint-jacobian", "projector without contacts"); continue; }
        Eigen::JacobiSVD<MX> svd(Jc);
        if (svd.singularValues()(Jc.rows() - 1) < 0.05) continue;
        MX Pi = MX::Identity(18, 18) - Jc.transpose() * (Jc * Jc.transpose()).ldlt().solve(Jc);
        require_close(C.P(), Pi, 1e-4, 1e-4, "constraint-jacobian", "null space projector");
    }
}
FACET(contact_model, 2)
{
    typedef ct::rbd::EEContactModel<QDyn::Kinematics_t> CM;
    double k = s.real(100, 5000), d = s.real(1, 500), al = s.real(1, 100), an = s.p(1, 2) ? -1 : s.real(0.1, 50), zo = 0;
    auto sm = (CM::VELOCITY_SMOOTHING)s.i(0, 3);
    if (sm != CM::NONE && s.p(1, 2)) zo = s.real(-0.2, 0.2);
    std::unique_ptr<CM> C(s.p(1, 2) ? new CM(k, d, al, an, zo, sm) : new CM());
    C->k() = k; C->d() = d; C->alpha() = al; C->alpha_n() = an; C->zOffset() = zo; C->smoothing() = sm;
    CM::ActiveMap act;
    act.fill(true);
    int n = s.i(1, 3);
    s.nontrivial();
    for (int r = 0; r < n; r++)
    {
        if (s.p(1, 3)) { for (int i = 0; i < 4; i++) act[i] = s.p(2, 3); C->setActiveEE(act); }
        if (s.p(1, 3)) C.reset(C->clone());
        Motion<Q> m(s);
        // near the ground
        int near = s.i(0, 3);
        V3 p0 = Q::tree().pose(Q::ee(near), m.q).block<3, 1>(0, 3);
        m.pb(2) = s.real(-0.2, 0.2) - (m.RB * p0)(2);
        m.x.basePose().position() = kindr::Position3D(m.pb);
        CM::EEForcesLinear F = C->computeContactForces(m.x);
        for (int i = 0; i < 4; i++)
        {
            V3 p = Q::tree().pose(Q::ee(i), m.q).block<3, 1>(0, 3), f = V3::Zero();
            double z = (m.pb + m.RB * p)(2);
            if (std::abs(z) < 1e-6 || std::abs(z - zo) < 1e-6) continue;
            V3 v = m.RB * (footJac<Q>(i, m.q) * m.vel());
            if (act[i] && !(sm == CM::NONE && z > 0))
            {
                double c = sm == CM::NONE ? 1 : sm == CM::ABS ? -0.5 * z * al / (1 + std::abs(z * al)) + 0.5 : 1 / (1 + std::exp(z * al));
                f = -d * c * v;
                if (an > 0) f(2) += k * std::exp(-an * (z - zo));
                else if (z <= zo) f(2) -= k * (z - zo);
            }
            require_close(F[i], f, 1e-4, 1e-4 * (k + d), "contact-model", "contact force of foot " + std::to_string(i));
        }
    }
}
#endif

#if PART == 4
namespace {
typedef RobotHyQ Q;
typedef ct::rbd::HyQ::Dynamics QDyn;
typedef ct::rbd::HyA::Dynamics ADyn;
typedef ct::rbd::EEContactModel<QDyn::Kinematics_t> CM;
//! derivative of the pose coordinates: orientation by its effect on the rotation matrix
void requirePoseRate(const VX& x, const VX& dx, bool quat, const Motion<Q>& m, const std::string& key)
{
    const double h = 1e-5;
    int o = quat ? 4 : 3;
    M3 dR;
    double tol = 1e-5;
    if (quat) dR = (rotOfQuat(x.head(4) + h * dx.head(4)) - rotOfQuat(x.head(4) - h * dx.head(4))) / (2 * h);
    else
    {
        dR = (rot(x.head(3) + h * dx.head(3)) - rot(x.head(3) - h * dx.head(3))) / (2 * h);
        tol *= 1 + 1e-3 * std::pow(dx.head(3).norm(), 3);
    }
    require_close(dR, m.RB * skew(m.w), 1e-6, tol, key, "rate of the orientation");
    VX r(15);
    r << m.RB * m.v, m.qd;
    require_close(dx.segment(o, 15), r, 1e-9, 1e-9, key, "rates of the base and joint positions");
}
VX stateVector(Motion<Q>& m, bool quat) { return quat ? VX(m.x.toStateVectorQuaternion()) : VX(m.x.toStateVectorEulerXyz()); }

template <bool QUAT, bool EE> void floatingSystem(Src& s)
{
    typedef ct::rbd::FloatingBaseFDSystem<QDyn, QUAT, EE> Sys;
    const Tree& t = Q::tree();
    std::shared_ptr<Sys> S(new Sys());
    CM::ActiveMap act;
    act.fill(true);
    double k = 0, d = 0;
    bool contact = false;
    int n = s.i(1, 4);
    s.nontrivial();
    for (int r = 0; r < n; r++)
    {
        if (s.p(1, 3))
        {
            contact = s.p(3, 4);
            k = s.real(100, 2000);
            d = s.real(1, 100);
            for (int i = 0; i < 4; i++) act[i] = s.p(3, 4);
            std::shared_ptr<CM> c(new CM(k, d));
            c->setActiveEE(act);
            S->setContactModel(contact ? c : nullptr);
        }
        if (s.p(1, 3)) S.reset(S->clone());
        Motion<Q> m(s);
        V3 p0 = t.pose(Q::ee(s.i(0, 3)), m.q).block<3, 1>(0, 3);
        m.pb(2) = s.real(-0.2, 0.2) - (m.RB * p0)(2);
        m.x.basePose().position() = kindr::Position3D(m.pb);
        VX u(Sys::CONTROL_DIM);
        u.head(12) = m.tau;
        if (EE) u.tail(12) = draw(s, 12, 100);
        std::vector<V6> fe = t.zeroF();
        for (int i = 0; i < 4; i++)
        {
            V3 p = t.pose(Q::ee(i), m.q).block<3, 1>(0, 3), f = V3::Zero();
            double z = (m.pb + m.RB * p)(2);
            if (contact && std::abs(z) < 1e-6) return;
            if (contact && act[i] && z <= 0) { f = -d * (m.RB * (footJac<Q>(i, m.q) * m.vel())); f(2) -= k * z; }
            if (EE) f += u.segment(12 + 3 * i, 3);
            fe[t.frameLink(Q::ee(i))] += toLink<Q>(i, m.q, p, V3::Zero(), m.RB.transpose() * f);
        }
        VX xv = stateVector(m, QUAT);
        typename Sys::StateVector x = xv, dx;
        typename Sys::ControlVector uc = u;
        S->computeControlledDynamics(x, 0.0, uc, dx);
        requirePoseRate(xv, dx, QUAT, m, "floating-system");
        VX a = t.floatFD(m.q, m.qd, m.tau, m.v0(), m.g(), fe);
        require_close(dx.tail(18), a, 1e-5, 1e-2, "floating-system", "acceleration");
    }
}
}
FACET(floating_system, 3)
{
    switch (s.i(0, 3))
    {
        case 0: floatingSystem<false, false>(s); break;
        case 1: floatingSystem<false, true>(s); break;
        case 2: floatingSystem<true, false>(s); break;
        case 3: floatingSystem<true, true>(s); break;
    }
}
namespace {
template <bool QUAT> void projectedSystem(Src& s)
{
    typedef ct::rbd::ProjectedFDSystem<QDyn, QUAT> Sys;
    const Tree& t = Q::tree();
    QDyn::EE_in_contact_t in(true);
    Sys S;
    int n = s.i(1, 3);
    for (int r = 0; r < n; r++)
    {
        if (s.p(1, 2)) { for (int i = 0; i < 4; i++) in[i] = s.p(1, 2); S.setEEInContact(in); }
        Motion<Q> m(s);
        std::vector<int> c;
        for (int i = 0; i < 4; i++) if (in[i]) c.push_back(i);
        MX J(3 * c.size(), 18), M = t.massMatrix(m.q);
        VX b(3 * c.size()), f = VX::Zero(18);
        f.tail(12) = m.tau;
        for (size_t i = 0; i < c.size(); i++)
        {
            J.middleRows(3 * i, 3) = footJac<Q>(c[i], m.q);
            V3 vf = footJac<Q>(c[i], m.q) * m.vel();
            b.segment<3>(3 * i) = footJacDot<Q>(c[i], m.q, m.qd) * m.vel() + m.w.cross(vf);
        }
        VX a = M.ldlt().solve(f - t.full(m.q, m.qd, VX::Zero(18), m.v0(), m.g(), t.zeroF()));
        if (!c.empty())
        {
            MX L = J * M.ldlt().solve(MX(J.transpose()));
            Eigen::SelfAdjointEigenSolver<MX> es(L);
            if (es.eigenvalues()(0) < 1e-3 * es.eigenvalues().maxCoeff()) continue;
            a -= M.ldlt().solve(MX(J.transpose() * L.ldlt().solve(J * a + b)));
        }
        s.nontrivial();
        VX xv = stateVector(m, QUAT);
        typename Sys::StateVector x = xv, dx;
        S.computeControlledDynamics(x, 0.0, typename Sys::ControlVector(m.tau), dx);
        requirePoseRate(xv, dx, QUAT, m, "projected-system");
        require_close(dx.tail(18), a, 1e-3, 1e-2, "projected-system", "constrained acceleration");
    }
}
}
FACET(projected_system, 1) { if (s.p(1, 2)) projectedSystem<true>(s); else projectedSystem<false>(s); }

namespace {
V6 fixedGravity() { V6 g = V6::Zero(); g(5) = -9.81; return g; }
//! torque-controlled arm, forces at its end effector, two actuator models
template <int A, bool EE> void fixedSystem(Src& s)
{
    typedef ct::rbd::FixBaseFDSystem<ADyn, A, EE> Sys;
    const Tree& t = RobotHyA::tree();
    M3 RB = rot(drawEuler(s));
    Pose base(s.p(1, 2) ? Pose::EULER : Pose::QUAT);
    base.setFromRotationMatrix(kindr::RotationMatrixD(RB));
    base.position() = kindr::Position3D(gen::vec<3>(s, 3));
    double k = s.real(50, 500), r = s.real(1, 100), wn = s.real(1, 50), z = s.real(0, 2), gdc = s.real(0.2, 3);
    std::shared_ptr<Sys> S;
    bool act = A > 0;
    std::shared_ptr<ct::rbd::ActuatorDynamics<A, 6, double>> ad;
    if (A == 6) ad.reset((ct::rbd::ActuatorDynamics<A, 6, double>*)(void*)static_cast<ct::rbd::ActuatorDynamics<6, 6, double>*>(new ct::rbd::SEADynamicsFirstOrder<6, double>(k, r)));
    if (A == 12) ad.reset((ct::rbd::ActuatorDynamics<A, 6, double>*)(void*)static_cast<ct::rbd::ActuatorDynamics<12, 6, double>*>(new ct::rbd::SecondOrderActuatorDynamics<6, double>(wn, z, gdc)));
    if (act) S.reset(new Sys(ad, base)); else S.reset(new Sys(base));
    int n = s.i(1, 3);
    s.nontrivial();
    for (int i = 0; i < n; i++)
    {
        if (s.p(1, 3)) S.reset(S->clone());
        VX x = draw(s, 12 + A, 2), u = draw(s, 6, 20), q = x.head(6), qd = x.segment(6, 6), as = x.tail(A);
        VX uf(Sys::CONTROL_DIM), tau = u, da = VX::Zero(A);
        uf.head(6) = u;
        if (EE) uf.tail(3) = draw(s, 3, 50);
        if (A == 6) { tau = (as - q) * k; da = u / r; }
        if (A == 12)
        {
            tau = as.head(A / 2);
            for (int j = 0; j < 6; j++) { da(j) = as(A / 2 + j); da(A / 2 + j) = gdc * wn * wn * u(j) - 2 * wn * z * as(A / 2 + j) - wn * wn * as(j); }
        }
        std::vector<V6> fe = t.zeroF();
        if (EE) fe[t.frameLink("ee")] = toLink<RobotHyA>(0, q, t.pose("ee", q).block<3, 1>(0, 3), V3::Zero(), RB.transpose() * V3(uf.tail(3)));
        typename Sys::state_vector_t xs = x, dx;
        S->computeControlledDynamics(xs, 0.0, typename Sys::control_vector_t(uf), dx);
        require_close(dx.head(6), qd, 0, 0, "fixed-system", "joint velocity");
        require_close(dx.segment(6, 6), t.fixedFD(q, qd, tau, fixedGravity(), fe), 1e-5, 2e-2, "fixed-system", "joint acceleration");
        if (A) require_close(dx.tail(A), da, 1e-9, 1e-9, "fixed-system", "actuator rates");
        ct::rbd::JointState<6> js;
        js.getPositions() = q;
        js.getVelocities() = qd;
        VX qdd = draw(s, 6, 10), hold = t.fixedID(q, qd, VX::Zero(6), fixedGravity(), t.zeroF());
        require_close(S->computeIDTorques(js), hold, 1e-6, 1e-5, "fixed-system", "holding torques");
        require_close(S->computeIDTorques(js, ct::rbd::JointAcceleration<6>(Eigen::Matrix<double, 6, 1>(qdd))), t.fixedID(q, qd, qdd, fixedGravity(), t.zeroF()), 1e-6, 1e-5, "fixed-system", "torques");
    }
}
//! an actuator state that delivers the torques that hold the arm
template <int A> void consistent(Src& s)
{
    typedef ct::rbd::FixBaseFDSystem<ADyn, A, false> Sys;
    double k = s.real(50, 500), wn = s.real(1, 50), z = s.real(0, 2);
    std::shared_ptr<ct::rbd::ActuatorDynamics<A, 6, double>> ad;
    if (A == 6) ad.reset((ct::rbd::ActuatorDynamics<A, 6, double>*)(void*)static_cast<ct::rbd::ActuatorDynamics<6, 6, double>*>(new ct::rbd::SEADynamicsFirstOrder<6, double>(k, 10)));
    else ad.reset((ct::rbd::ActuatorDynamics<A, 6, double>*)(void*)static_cast<ct::rbd::ActuatorDynamics<12, 6, double>*>(new ct::rbd::SecondOrderActuatorDynamics<6, double>(wn, z)));
    Sys S(ad);
    ct::rbd::JointState<6> js;
    js.getPositions() = draw(s, 6, 2);
    js.getVelocities() = draw(s, 6, 1);
    s.nontrivial();
    VX x(12 + A);
    x.head(12) = js.toImplementation();
    if (s.p(1, 2)) x.tail(A) = S.computeConsistentActuatorState(js);
    else
    {
        VX tau = S.computeIDTorques(js);
        x.tail(A) = S.computeConsistentActuatorState(js, ct::core::ControlVector<6>(tau));
    }
    typename Sys::state_vector_t dx;
    S.computeControlledDynamics(typename Sys::state_vector_t(x), 0.0, typename Sys::control_vector_t(draw(s, 6, 20)), dx);
    require_close(dx.segment(6, 6), VX::Zero(6), 0, 1e-3, "consistent-actuator", "joint acceleration with the consistent actuator state");
}
template <bool EE> void symplecticSystem(Src& s)
{
    typedef ct::rbd::FixBaseFDSystemSymplectic<ADyn, 0, EE> Sys;
    const Tree& t = RobotHyA::tree();
    std::shared_ptr<Sys> S(new Sys());
    if (s.p(1, 2)) S.reset(S->clone());
    s.nontrivial();
    VX x = draw(s, 12, 2), u = draw(s, Sys::CONTROL_DIM, 30), q = x.head(6), qd = x.tail(6);
    std::vector<V6> fe = t.zeroF();
    if (EE) fe[t.frameLink("ee")] = toLink<RobotHyA>(0, q, t.pose("ee", q).block<3, 1>(0, 3), V3::Zero(), V3(u.tail(3)));
    typename Sys::state_vector_full_t xs = x, dx;
    S->computeControlledDynamics(xs, 0.0, typename Sys::control_vector_full_t(u), dx);
    require_close(dx.head(6), qd, 0, 0, "symplectic-system", "joint velocity");
    require_close(dx.tail(6), t.fixedFD(q, qd, u.head(6), fixedGravity(), fe), 1e-5, 2e-2, "symplectic-system", "joint acceleration");
}
//! a user-defined second-order actuator, coupled to the joints
struct SpringActuator : ct::rbd::ActuatorDynamicsSymplectic<6, 12, double>
{
    double w, c, k;
    SpringActuator(double w_, double c_, double k_) : w(w_), c(c_), k(k_) {}
    SpringActuator* clone() const override { return new SpringActuator(*this); }
    void computePdot(const ct::rbd::JointState<6, double>& j, const act_state_vector_t& x, const act_vel_vector_t& v, const ct::core::ControlVector<6>& u, act_pos_vector_t& d) override
    {
        d = v + 0.1 * j.getPositions();
    }
    void computeVdot(const ct::rbd::JointState<6, double>& j, const act_state_vector_t& x, const act_pos_vector_t& p, const ct::core::ControlVector<6>& u, act_vel_vector_t& d) override
    {
        d = w * (u - p) - c * x.tail<6>() + 0.3 * j.getVelocities();
    }
    ct::core::ControlVector<6> computeControlOutput(const ct::rbd::JointState<6, double>& j, const act_state_vector_t& x) override
    {
        return ct::core::ControlVector<6>(k * (x.head<6>() - j.getPositions()) + x.tail<6>());
    }
    ct::core::StateVector<12> computeStateFromOutput(const ct::rbd::JointState<6, double>& j, const ct::core::ControlVector<6>& u) override
    {
        ct::core::StateVector<12> r;
        r << j.getPositions() + u / k, ct::core::StateVector<6>::Zero();
        return r;
    }
};
void symplecticActuators(Src& s)
{
    typedef ct::rbd::FixBaseFDSystemSymplectic<ADyn, 12, false> Sys;
    const Tree& t = RobotHyA::tree();
    double w = s.real(1, 20), c = s.real(0, 3), k = s.real(10, 100);
    std::shared_ptr<Sys> S(new Sys(std::make_shared<SpringActuator>(w, c, k)));
    if (s.p(1, 2)) S.reset(S->clone());
    s.nontrivial();
    VX q = draw(s, 6, 2), qd = draw(s, 6, 2), ap = draw(s, 6, 2), av = draw(s, 6, 2), u = draw(s, 6, 5), x(24), ref(24), rb(12), ac(12);
    x << q, ap, qd, av;
    rb << q, qd;
    ac << ap, av;
    ref << qd, av + 0.1 * q, t.fixedFD(q, qd, k * (ap - q) + av, fixedGravity(), t.zeroF()), w * (u - ap) - c * av + 0.3 * qd;
    Sys::state_vector_full_t xs = x, dx;
    S->computeControlledDynamics(xs, 0.0, Sys::control_vector_full_t(u), dx);
    require_close(dx, ref, 1e-5, 2e-2, "symplectic-system", "rates with actuators");
    require_close(Sys::toFullState(Sys::state_vector_rbd_t(rb), Sys::state_vector_act_t(ac)), x, 0, 0, "symplectic-system", "toFullState");
    require_close(Sys::rbdStateFromVector(xs), rb, 0, 0, "symplectic-system", "rbdStateFromVector");
    require_close(Sys::actuatorStateFromVector(xs), ac, 0, 0, "symplectic-system", "actuatorStateFromVector");
    require_close(Sys::jointStateFromVector(xs).toImplementation(), rb, 0, 0, "symplectic-system", "jointStateFromVector");
}
}
FACET(fixed_system, 3)
{
    switch (s.i(0, 8))
    {
        case 0: fixedSystem<0, false>(s); break;
        case 1: fixedSystem<0, true>(s); break;
        case 2: fixedSystem<6, false>(s); break;
        case 3: fixedSystem<12, false>(s); break;
        case 4: consistent<6>(s); break;
        case 5: consistent<12>(s); break;
        case 6: symplecticSystem<true>(s); break;
        case 7: symplecticSystem<false>(s); break;
        case 8: symplecticActuators(s); break;
    }
}
// linearisations are the derivatives of the dynamics of the system
FACET(linearizer_hyq, 1)
{
    typedef ct::rbd::FloatingBaseFDSystem<QDyn, false, false> Sys;
    std::shared_ptr<Sys> S(new Sys());
    std::unique_ptr<ct::rbd::RbdLinearizer<Sys>> L(new ct::rbd::RbdLinearizer<Sys>(S, true));
    int n = s.i(1, 2);
    s.nontrivial();
    const Tree& t = Q::tree();
    for (int r = 0; r < n; r++)
    {
        if (s.p(1, 3)) L.reset(L->clone());
        Motion<Q> m(s, 1);
        Sys::StateVector x = m.x.toStateVectorEulerXyz();
        Sys::ControlVector u = m.tau;
        MX A = L->getDerivativeState(x, u, 0.0), B = L->getDerivativeControl(x, u, 0.0);
        MX Br = MX::Zero(36, 12);
        Br.bottomRows(18) = t.massMatrix(m.q).inverse().rightCols(12);
        require_close(B, Br, 1e-4, 1e-4, "linearizer", "derivative with respect to the control");
        VX dir = draw(s, 36, 1);
        const double h = 1e-4;
        Sys::StateVector p = x, q = x, dp, dq;
        p += h * dir;
        q -= h * dir;
        S->computeControlledDynamics(p, 0.0, u, dp);
        S->computeControlledDynamics(q, 0.0, u, dq);
        VX ref = (dp - dq) / (2 * h);
        require_close(VX(A * dir), ref, 2e-3, 1e-2, "linearizer", "directional derivative of the dynamics");
    }
}
FACET(linearizer_hya, 1)
{
    typedef ct::rbd::FixBaseFDSystem<ADyn, 0, false> Sys;
    std::shared_ptr<Sys> S(new Sys());
    Quiet quiet;
    ct::rbd::RbdLinearizer<Sys> L(S, s.p(1, 2));
    const Tree& t = RobotHyA::tree();
    VX x = draw(s, 12, 2), u = draw(s, 6, 20), dir = draw(s, 12, 1);
    s.nontrivial();
    Sys::state_vector_t xs = x;
    Sys::control_vector_t us = u;
    MX A = L.getDerivativeState(xs, us, 0.0), B = L.getDerivativeControl(xs, us, 0.0), Br = MX::Zero(12, 6);
    Br.bottomRows(6) = MX(t.massMatrix(x.head(6)).bottomRightCorner(6, 6)).inverse();
    require_close(B, Br, 1e-4, 1e-4, "linearizer", "derivative with respect to the control");
    const double h = 1e-5;
    VX ref(12);
    ref << dir.tail(6), (t.fixedFD(x.head(6) + h * dir.head(6), x.tail(6) + h * dir.tail(6), u, fixedGravity(), t.zeroF()) - t.fixedFD(x.head(6) - h * dir.head(6), x.tail(6) - h * dir.tail(6), u, fixedGravity(), t.zeroF())) / (2 * h);
    require_close(VX(A * dir), ref, 1e-3, 2e-2, "linearizer", "directional derivative of the dynamics");
}
FACET(joint_systems, 1)
{
    s.nontrivial();
    ct::rbd::FixBaseVelSystem<ADyn> V0;
    ct::rbd::FixBaseAccSystem<ADyn> A0;
    std::shared_ptr<ct::rbd::FixBaseVelSystem<ADyn>> V(V0.clone());
    std::shared_ptr<ct::rbd::FixBaseAccSystem<ADyn>> A(A0.clone());
    VX x = draw(s, 12, 3), u = draw(s, 6, 3), r(12);
    ct::core::StateVector<6> dv;
    ct::core::StateVector<12> da;
    V->computeControlledDynamics(ct::core::StateVector<6>(x.head(6)), 0.0, ct::core::ControlVector<6>(u), dv);
    require_close(dv, u, 0, 0, "joint-systems", "velocity-controlled arm");
    A->computeControlledDynamics(ct::core::StateVector<12>(x), 0.0, ct::core::ControlVector<6>(u), da);
    r << x.tail(6), u;
    require_close(da, r, 0, 0, "joint-systems", "acceleration-controlled arm");
}
#endif
