// C29: shipped generated derivative code, quadrotor model and analytic inverse kinematics against an independent model
#include "pbt.h"
#include <ct/core/core.h>
#include <ct/models/HyQ/codegen/HyQForwardZero.h>
#include <ct/models/HyQ/codegen/HyQBareModelLinearizedForward.h>
#include <ct/models/HyQ/codegen/HyQInverseDynJacForward.h>
#include <ct/models/HyQ/codegen/HyQInverseDynJacReverse.h>
#include <ct/models/HyQ/codegen/HyQForwardKinJacForward.h>
#include <ct/models/HyQ/codegen/HyQForwardKinJacReverse.h>
#include <ct/models/HyA/codegen/HyALinearizedForward.h>
#include <ct/models/HyA/codegen/HyALinearizedReverse.h>
#include <ct/models/HyA/codegen/HyAInverseDynJacForward.h>
#include <ct/models/HyA/codegen/HyAInverseDynJacReverse.h>
#include <ct/models/HyA/codegen/HyAInverseDynHessian.h>
#include <ct/models/InvertedPendulum/codegen/InvertedPendulumActDynLinearizedForward.h>
#include <ct/models/Quadrotor/Quadrotor.hpp>
#include <ct/models/Quadrotor/QuadrotorLinear.hpp>
#define IKFAST_HAS_LIBRARY
#define IKFAST_NAMESPACE hya_ik
#include <ikfast.h>
namespace irb4600_ik {
IKFAST_API bool ComputeIk(const double* eetrans, const double* eerot, const double* pfree, ikfast::IkSolutionListBase<double>& solutions);
IKFAST_API void ComputeFk(const double* joints, double* eetrans, double* eerot);
}
#include "rbd_ref.h"
#include <functional>
using namespace pbt;
using namespace rbdref;
using namespace ct::models;
namespace {
const Tree& hya() { static const Tree t(HyA_links, HyA_frames); return t; }
const Tree& hyq() { static const Tree t(HyQ_links, HyQ_frames); return t; }
const Tree& pend() { static const Tree t(InvertedPendulum_links, InvertedPendulum_frames); return t; }
const V6 G = (V6() << 0, 0, 0, 0, 0, -9.81).finished();

M3 rx(double a) { M3 m; m << 1, 0, 0, 0, cos(a), -sin(a), 0, sin(a), cos(a); return m; }
M3 ry(double a) { M3 m; m << cos(a), 0, sin(a), 0, 1, 0, -sin(a), 0, cos(a); return m; }
M3 rz(double a) { M3 m; m << cos(a), -sin(a), 0, sin(a), cos(a), 0, 0, 0, 1; return m; }
M3 rot(const V3& e) { return rx(e(0)) * ry(e(1)) * rz(e(2)); }
//! body angular velocity = E(e) * de/dt for R = Rx Ry Rz
M3 eulerMap(const V3& e)
{
    M3 E;
    E.col(0) = rz(e(2)).transpose() * ry(e(1)).transpose() * V3::UnitX();
    E.col(1) = rz(e(2)).transpose() * V3::UnitY();
    E.col(2) = V3::UnitZ();
    return E;
}
typedef std::function<VX(const VX&)> Fun;
//! directional derivative with one Richardson step
VX directional(const Fun& f, const VX& x, const VX& d, double h)
{
    VX a = (f(x + h * d) - f(x - h * d)) / (2 * h), b = (f(x + 0.5 * h * d) - f(x - 0.5 * h * d)) / h;
    return (4 * b - a) / 3;
}
VX draw(Src& s, int n, double m)
{
    VX v(n);
    for (int i = 0; i < n; i++) v(i) = s.real(-m, m);
    return v;
}
VX direction(Src& s, int n)
{
    if (s.p(1, 3)) return VX::Unit(n, s.i(0, n - 1));
    return draw(s, n, 1);
}
void require_dir(const MX& J, const VX& d, const VX& ref, double scale, double tol, const std::string& key, const std::string& what)
{
    require_close(J * d, ref, tol, tol * (1 + scale), key, what + " applied to a direction");
}

// foot positions and velocities in the world frame
VX hyqFeet(const VX& x)
{
    static const char* feet[4] = {"LF_foot", "RF_foot", "LH_foot", "RH_foot"};
    static const int cols[4] = {0, 3, 6, 9};
    M3 R = rot(x.head(3));
    V3 p = x.segment(3, 3), w = x.segment(18, 3), v = x.segment(21, 3);
    VX q = x.segment(6, 12), qd = x.segment(24, 12), y(24);
    for (int i = 0; i < 4; i++)
    {
        V3 r = hyq().pose(feet[i], q).block<3, 1>(0, 3);
        MX J = hyq().jacobian(feet[i], q);
        V3 vel = v + w.cross(r) + J.bottomRows(3) * qd.segment(cols[i], 3);
        y.segment(6 * i, 3) = p + R * r;
        y.segment(6 * i + 3, 3) = R * vel;
    }
    return y;
}
//! HyQ with (optionally) the soft ground contact the generated code was built with
VX hyqOde(const VX& x, const VX& u, bool contact)
{
    M3 R = rot(x.head(3));
    V3 w = x.segment(18, 3), v = x.segment(21, 3);
    VX q = x.segment(6, 12), qd = x.segment(24, 12);
    std::vector<V6> fe = hyq().zeroF();
    if (contact)
    {
        static const int lower[4] = {3, 6, 9, 12};
        static const char* feet[4] = {"LF_foot", "RF_foot", "LH_foot", "RH_foot"};
        VX y = hyqFeet(x);
        for (int i = 0; i < 4; i++)
        {
            double z = y(6 * i + 2);
            V3 f = -1000.0 * y.segment(6 * i + 3, 3) / (1 + std::exp(100 * z));
            f(2) += 5000 * std::exp(-100 * (z + 0.02));
            M4 T = hyq().linkPose(lower[i], q);
            M3 RL = R * T.topLeftCorner<3, 3>();
            V3 fl = RL.transpose() * f;
            V3 r = T.topLeftCorner<3, 3>().transpose() * (hyq().pose(feet[i], q).block<3, 1>(0, 3) - T.block<3, 1>(0, 3));
            fe[lower[i]] << r.cross(fl), fl;
        }
    }
    V6 v0, g = V6::Zero();
    v0 << w, v;
    g.tail(3) = R.transpose() * V3(0, 0, -9.81);
    VX dx(36);
    dx.head(3) = eulerMap(x.head(3)).inverse() * w;
    dx.segment(3, 3) = R * v;
    dx.segment(6, 12) = qd;
    dx.tail(18) = hyq().floatFD(q, qd, u, v0, g, fe);
    return dx;
}
VX hyqState(Src& s, double height)
{
    double e = s.pick(std::vector<double>{0.1, 0.5, 1.2}), vs = s.pick(std::vector<double>{0., 0.5, 3.});
    VX x(36);
    x << draw(s, 3, e), draw(s, 2, 2), height, draw(s, 12, 1.5), draw(s, 18, vs);
    return x;
}
VX hyaState(Src& s)
{
    double vs = s.pick(std::vector<double>{0., 1., 5.});
    VX x(12);
    x << draw(s, 6, 3.1), draw(s, 6, vs);
    return x;
}
VX quadOde(const VX& x, const VX& u)
{
    const double m = 0.546, I1 = 2.32e-3, I3 = 3e-4;
    V3 e = x.segment(3, 3), de = x.segment(9, 3);
    M3 E = eulerMap(e), dE;
    // time derivative of E, column by column
    M3 Ry = ry(e(1)), Rz = rz(e(2));
    V3 wy = V3::UnitY() * de(1), wz = V3::UnitZ() * de(2);
    // d/dt(R^T a) = -w x (R^T a) for a rotation R with body rate w
    V3 c1 = Ry.transpose() * V3::UnitX();
    V3 dc1 = -wy.cross(c1);
    dE.col(0) = Rz.transpose() * dc1 - wz.cross(Rz.transpose() * c1);
    dE.col(1) = -wz.cross(Rz.transpose() * V3::UnitY());
    dE.col(2).setZero();
    V3 w = E * de, I(I1, I1, I3);
    V3 L = I.cwiseProduct(w);
    V3 dw = (V3(u(1), u(2), u(3)) - w.cross(L)).cwiseQuotient(I);
    VX dx(12);
    dx.head(6) = x.tail(6);
    dx.segment(6, 3) = rot(e) * V3(0, 0, u(0)) / m + V3(0, 0, -9.81);
    dx.tail(3) = E.inverse() * (dw - dE * de);
    return dx;
}
}

// ------------------------------------------------------------------ HyQ forward dynamics with soft contact
FACET(hyq_forward_zero, 4)
{
    double h = s.pick(std::vector<double>{0.2, 0.5, 0.65, 0.8, 2., 50.}) + s.real(-0.05, 0.05);
    VX x = hyqState(s, h), u = draw(s, 12, s.pick(std::vector<double>{0., 30.}));
    HyQ::HyQForwardZero F;
    int rep = s.i(1, 2);
    s.nontrivial();
    for (int k = 0; k < rep; k++)
    {
        VX z(49);
        z << x, u, s.real(-5, 5);
        VX r = hyqOde(x, u, true);
        discard_unless(r.norm() < 1e6);
        require_close(MX(F.forwardZero(z)), r, 1e-6, 1e-6, "hyq_forward_zero", "HyQForwardZero");
        x = hyqState(s, h);
    }
}
// ------------------------------------------------------------------ HyQ linearisation
FACET(hyq_linearization, 4)
{
    VX x = hyqState(s, s.real(-1, 1)), u = draw(s, 12, s.pick(std::vector<double>{0., 30.}));
    HyQ::HyQBareModelLinearizedForward L0;
    std::unique_ptr<HyQ::HyQBareModelLinearizedForward> L(s.b() ? L0.clone() : new HyQ::HyQBareModelLinearizedForward(L0));
    s.nontrivial();
    VX other = hyqState(s, 0);
    if (s.b()) L->getDerivativeState(other, u, 0.);  // an earlier evaluation must leave no trace
    MX A = L->getDerivativeState(x, u, s.real(-3, 3)), B = L->getDerivativeControl(x, u, s.real(-3, 3));
    VX d = direction(s, 36), e = direction(s, 12);
    VX rA = directional([&](const VX& y) { return hyqOde(y, u, false); }, x, d, 1e-3);
    VX rB = hyqOde(x, e, false) - hyqOde(x, VX::Zero(12), false);
    require_dir(A, d, rA, A.norm() * d.norm(), 1e-6, "hyq_A", "HyQ state derivative");
    require_dir(B, e, rB, B.norm() * e.norm(), 1e-7, "hyq_B", "HyQ control derivative");
}
// ------------------------------------------------------------------ HyQ inverse dynamics and forward kinematics Jacobians
FACET(hyq_jacobians, 4)
{
    VX x = hyqState(s, s.real(-1, 1));
    bool reverse = s.b();
    s.nontrivial();
    {
        MX K;
        if (reverse) K = HyQ::HyQForwardKinJacReverse().jacobian(x);
        else K = HyQ::HyQForwardKinJacForward().jacobian(x);
        VX d = direction(s, 36);
        require_dir(K, d, directional(hyqFeet, x, d, 1e-3), K.norm() * d.norm(), 1e-7, reverse ? "hyq_kin_reverse" : "hyq_kin_forward", "HyQ foot kinematics Jacobian");
    }
    {
        VX y(54);
        y << x, draw(s, 18, s.pick(std::vector<double>{0., 10.}));
        MX J;
        if (reverse) J = HyQ::HyQInverseDynJacReverse().jacobian(y);
        else J = HyQ::HyQInverseDynJacForward().jacobian(y);
        auto f = [&](const VX& z, bool withBase) {
            V6 v0, g = V6::Zero();
            v0 << z.segment(18, 6);
            g.tail(3) = rot(z.head(3)).transpose() * V3(0, 0, -9.81);
            VX acc = z.tail(18);
            if (!withBase) acc.head(6).setZero();
            return hyq().full(z.segment(6, 12), z.segment(24, 12), acc, v0, g, hyq().zeroF());
        };
        VX d = direction(s, 54);
        VX db = VX::Zero(54), dr = d;
        db.segment(36, 6) = d.segment(36, 6);
        dr.segment(36, 6).setZero();
        // columns of the base acceleration
        if (db.norm() > 0)
        {
            VX got = J * db, want = f(y + db, true) - f(y, true);
            PBT_REQUIRE((got - want).norm() <= 1e-6 * (1 + want.norm()), J.middleCols(36, 6).isZero(0) ? "hyq_id_base_acceleration_columns_zero" : "hyq_id_base_acceleration",
                "derivative with respect to the base acceleration ", got.transpose(), "\nexpected ", want.transpose());
        }
    }
}
// the remaining columns (the generated function evaluates the model at zero base acceleration)
FACET(hyq_id_jacobian, 4)
{
    VX y(54);
    y << hyqState(s, s.real(-1, 1)), VX::Zero(6), draw(s, 12, s.pick(std::vector<double>{0., 10.}));
    bool reverse = s.b();
    s.nontrivial();
    MX J;
    if (reverse) J = HyQ::HyQInverseDynJacReverse().jacobian(y);
    else J = HyQ::HyQInverseDynJacForward().jacobian(y);
    auto f = [&](const VX& z) {
        V6 v0, g = V6::Zero();
        v0 << z.segment(18, 6);
        g.tail(3) = rot(z.head(3)).transpose() * V3(0, 0, -9.81);
        return hyq().full(z.segment(6, 12), z.segment(24, 12), z.tail(18), v0, g, hyq().zeroF());
    };
    VX d = direction(s, 54);
    d.segment(36, 6).setZero();
    require_dir(J, d, directional(f, y, d, 1e-3), J.norm() * d.norm(), 1e-6, reverse ? "hyq_id_reverse" : "hyq_id_forward", "HyQ inverse dynamics Jacobian");
}
// ------------------------------------------------------------------ HyA
FACET(hya_linearization, 5)
{
    VX x = hyaState(s), u = draw(s, 6, s.pick(std::vector<double>{0., 20.}));
    bool reverse = s.b();
    s.nontrivial();
    HyA::HyALinearizedForward F;
    HyA::HyALinearizedReverse R;
    std::unique_ptr<ct::core::LinearSystem<12, 6>> L(reverse ? (ct::core::LinearSystem<12, 6>*)R.clone() : F.clone());
    if (s.b()) L->getDerivativeState(hyaState(s), u, 0.);
    MX A = L->getDerivativeState(x, u, s.real(-3, 3)), B = L->getDerivativeControl(x, u, s.real(-3, 3));
    auto f = [&](const VX& y, const VX& v) { VX r(12); r << y.tail(6), hya().fixedFD(y.head(6), y.tail(6), v, G, hya().zeroF()); return r; };
    VX d = direction(s, 12), e = direction(s, 6);
    require_dir(A, d, directional([&](const VX& y) { return f(y, u); }, x, d, 1e-3), A.norm() * d.norm(), 3e-5, reverse ? "hya_A_reverse" : "hya_A_forward", "HyA state derivative");
    require_dir(B, e, f(x, e) - f(x, VX::Zero(6)), B.norm() * e.norm(), 1e-6, reverse ? "hya_B_reverse" : "hya_B_forward", "HyA control derivative");
}
FACET(hya_inverse_dynamics, 5)
{
    VX x = hyaState(s);
    int kind = s.i(0, 2);
    s.nontrivial();
    auto f = [&](const VX& y) { return VX(hya().fixedID(y.head(6), y.tail(6), VX::Zero(6), G, hya().zeroF())); };
    VX d = direction(s, 12);
    if (kind < 2)
    {
        MX J;
        if (kind) J = HyA::HyAInverseDynJacReverse().jacobian(x);
        else J = HyA::HyAInverseDynJacForward().jacobian(x);
        require_dir(J, d, directional(f, x, d, 1e-3), J.norm() * d.norm(), 1e-6, kind ? "hya_id_reverse" : "hya_id_forward", "HyA inverse dynamics Jacobian");
    }
    else
    {
        VX w = direction(s, 6), c = direction(s, 12);
        MX H = HyA::HyAInverseDynHessian().hessian(x, w);
        // c^T H d by nested central differences of w^T f
        auto g = [&](const VX& y) { VX r(1); r(0) = w.dot(directional(f, y, d, 1e-2)); return r; };
        VX ref = directional(g, x, c, 1e-2);
        PBT_REQUIRE(std::abs(c.dot(H * d) - ref(0)) < 1e-4 * (1 + H.norm()), "hya_hessian", "c^T H d = ", c.dot(H * d), " expected ", ref(0));
        require_close(H, H.transpose(), 1e-9, 1e-9, "hya_hessian_symmetric", "Hessian");
    }
}
// ------------------------------------------------------------------ pendulum with elastic actuator
FACET(pendulum_linearization, 2)
{
    ct::core::StateVector<3> x;
    ct::core::ControlVector<1> u;
    x << s.real(-7, 7), s.real(-10, 10), s.real(-7, 7);
    u << s.real(-100, 100);
    s.nontrivial();
    ct::models::InvertedPendulum::InvertedPendulumActDynLinearizedForward L;
    auto f = [&](const VX& y, const VX& v) {
        VX r(3), tau(1);
        tau << 180.9 * (y(2) - y(0));
        r << y(1), pend().fixedFD(y.head(1), y.segment(1, 1), tau, G, pend().zeroF()), v(0) / 50.0;
        return r;
    };
    MX A = L.getDerivativeState(x, u, s.real(-3, 3)), B = L.getDerivativeControl(x, u, s.real(-3, 3));
    for (int i = 0; i < 3; i++)
    {
        VX ref = directional([&](const VX& y) { return f(y, u); }, x, VX::Unit(3, i), 1e-3);
        require_close(A.col(i), ref, 1e-6, 1e-6, "pendulum_A", "pendulum state derivative column");
    }
    require_close(B, f(x, VX::Ones(1)) - f(x, VX::Zero(1)), 1e-9, 1e-9, "pendulum_B", "pendulum control derivative");
}
// ------------------------------------------------------------------ quadrotor
FACET(quadrotor, 5)
{
    ct::core::StateVector<12> x;
    ct::core::ControlVector<4> u;
    for (int i = 0; i < 12; i++) x(i) = s.real(-1, 1) * (i < 3 ? 100 : i < 6 ? (i == 4 ? 1.4 : 3.2) : i < 9 ? 20 : 8);
    u << s.real(-5, 20), s.real(-1, 1), s.real(-1, 1), s.real(-1, 1);
    if (s.b()) x.tail(6).setZero();
    s.nontrivial();
    Quadrotor q0;
    std::unique_ptr<Quadrotor> q(q0.clone());
    ct::core::StateVector<12> dx;
    q->computeControlledDynamics(x, s.real(-3, 3), u, dx);
    require_close(dx, quadOde(x, u), 1e-8, 1e-8, "quadrotor_ode", "quadrotor dynamics");
    QuadrotorLinear l0;
    std::unique_ptr<QuadrotorLinear> l(l0.clone());
    MX A = l->getDerivativeState(x, u, s.real(-3, 3)), B = l->getDerivativeControl(x, u, s.real(-3, 3));
    VX d = direction(s, 12), e = direction(s, 4);
    require_dir(A, d, directional([&](const VX& y) { return quadOde(y, u); }, x, d, 1e-4), A.norm() * d.norm(), 1e-5, "quadrotor_A", "quadrotor state derivative");
    require_dir(B, e, quadOde(x, e) - quadOde(x, VX::Zero(4)), B.norm() * e.norm(), 1e-7, "quadrotor_B", "quadrotor control derivative");
}
// ------------------------------------------------------------------ analytic inverse kinematics
FACET(ikfast, 8)
{
    bool abb = s.b();
    double q[6];
    for (int i = 0; i < 6; i++) q[i] = s.real(-3, 3);
    double t[3], R[9];
    if (abb) irb4600_ik::ComputeFk(q, t, R);
    else hya_ik::ComputeFk(q, t, R);
    const std::string rn = abb ? "irb4600" : "hya";
    s.note("q", Eigen::Map<Eigen::Matrix<double, 1, 6>>(q));
    if (!abb)
    {
        M4 T = hya().pose("ee", Eigen::Map<VX>(q, 6));
        for (int i = 0; i < 3; i++)
        {
            PBT_REQUIRE(std::abs(T(i, 3) - t[i]) < 1e-5, "ik_fk_" + rn, "ComputeFk position ", t[i], " expected ", T(i, 3));
            for (int j = 0; j < 3; j++) PBT_REQUIRE(std::abs(T(i, j) - R[3 * i + j]) < 1e-5, "ik_fk_" + rn, "ComputeFk rotation ", R[3 * i + j], " expected ", T(i, j));
        }
    }
    auto fk = [&](const double* p, double* tt, double* RR) { abb ? irb4600_ik::ComputeFk(p, tt, RR) : hya_ik::ComputeFk(p, tt, RR); };
    typedef Eigen::Matrix<double, 3, 3, Eigen::RowMajor> RM3;
    PBT_REQUIRE(mclose(Eigen::Map<RM3>(R) * Eigen::Map<RM3>(R).transpose(), M3(M3::Identity()), 1e-9, 1e-9) && Eigen::Map<RM3>(R).determinant() > 0, "ik_fk_rotation_" + rn, "ComputeFk does not return a rotation");
    // distance from singular configurations: there the analytic formulas divide by zero
    Eigen::Matrix<double, 6, 6> J;
    for (int j = 0; j < 6; j++)
    {
        double a[6], b[6], ta[3], tb[3], Ra[9], Rb[9];
        for (int i = 0; i < 6; i++) a[i] = b[i] = q[i];
        a[j] += 1e-5;
        b[j] -= 1e-5;
        fk(a, ta, Ra);
        fk(b, tb, Rb);
        M3 D = (Eigen::Map<RM3>(Ra) - Eigen::Map<RM3>(Rb)) / 2e-5 * Eigen::Map<RM3>(R).transpose();
        for (int i = 0; i < 3; i++) J(i, j) = (ta[i] - tb[i]) / 2e-5;
        J(3, j) = D(2, 1);
        J(4, j) = D(0, 2);
        J(5, j) = D(1, 0);
    }
    bool regular = J.jacobiSvd().singularValues()(5) > 0.03;
    // a pose beyond the arm's reach has no solution
    if (s.p(1, 8))
    {
        double far[3];
        double k = (abb ? 5.0 : 2.0) / std::max(1e-3, std::sqrt(t[0] * t[0] + t[1] * t[1] + t[2] * t[2]));
        for (int i = 0; i < 3; i++) far[i] = k * t[i];
        ikfast::IkSolutionList<double> none;
        bool okf = abb ? irb4600_ik::ComputeIk(far, R, nullptr, none) : hya_ik::ComputeIk(far, R, nullptr, none);
        PBT_REQUIRE(!okf && none.GetNumSolutions() == 0, "ik_unreachable_" + rn, "solutions for a pose beyond the reach of the arm");
    }
    ikfast::IkSolutionList<double> sols;
    bool ok = abb ? irb4600_ik::ComputeIk(t, R, nullptr, sols) : hya_ik::ComputeIk(t, R, nullptr, sols);
    if (regular) PBT_REQUIRE(ok && sols.GetNumSolutions() > 0, "ik_none_" + rn, "no solution for the pose of a configuration");
    if (regular) s.nontrivial();
    s.label(regular ? "ik_regular" : "ik_near_singular");
    double best = 1e9;
    for (size_t k = 0; k < sols.GetNumSolutions(); k++)
    {
        double p[6], t2[3], R2[9];
        sols.GetSolution(k).GetSolution(p, nullptr);
        fk(p, t2, R2);
        double err = 0, dist = 0;
        for (int i = 0; i < 3; i++) err = std::max(err, std::abs(t2[i] - t[i]));
        for (int i = 0; i < 9; i++) err = std::max(err, std::abs(R2[i] - R[i]));
        for (int i = 0; i < 6; i++) dist = std::max(dist, std::abs(std::remainder(p[i] - q[i], 2 * M_PI)));
        best = std::min(best, dist);
        PBT_REQUIRE(!regular || err < 1e-4, "ik_wrong_" + rn, "solution ", k, " does not reach the pose: error ", err);
    }
    if (regular) PBT_REQUIRE(best < 1e-3, "ik_missing_" + rn, "the configuration that produced the pose is not among the ", sols.GetNumSolutions(), " solutions (distance ", best, ")");
}
