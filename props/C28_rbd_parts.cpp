// C28: robot building blocks: joint states, point-to-point plans, actuators, joint PID, Jacobian frames, geometry
#include "gen.h"
#include <ct/core/core.h>
#include <ct/rbd/state/JointState.h>
#include <ct/rbd/state/JointAcceleration.h>
#include <ct/rbd/common/SingleDOFTrajectoryGenerator.h>
#include <ct/rbd/common/SimpleArmTrajectoryGenerator.h>
#include <ct/rbd/common/SpatialForceVector.h>
#include <ct/rbd/robot/actuator/ActuatorDynamics.h>
#include <ct/rbd/robot/actuator/SEADynamicsFirstOrder.h>
#include <ct/rbd/robot/actuator/SEADynamicsFirstOrder-impl.h>
#include <ct/rbd/robot/actuator/SecondOrderActuatorDynamics.h>
#include <ct/rbd/robot/actuator/SecondOrderActuatorDynamics-impl.h>
#include <ct/rbd/robot/control/JointPositionPIDController.h>
#include <ct/rbd/robot/control/JointPositionPIDController-impl.h>
#include <ct/rbd/robot/control/SelectionMatrix.h>
#include <ct/rbd/robot/control/SelectionMatrix-impl.h>
#include <ct/rbd/robot/jacobian/FrameJacobian.h>
#include <ct/models/HyA/HyAJointLimits.h>
#include <ct/models/InvertedPendulum/InvertedPendulumJointLimits.h>
using namespace pbt;
using namespace ct::rbd;
namespace core = ct::core;
typedef Eigen::MatrixXd MX;
typedef Eigen::VectorXd VX;
typedef Eigen::Vector3d V3;
typedef Eigen::Matrix3d M3;

namespace {
V3 vec3(Src& s, double m) { return V3(s.real(-m, m), s.real(-m, m), s.real(-m, m)); }
M3 rot(Src& s)
{
    V3 a = vec3(s, 1);
    double n = a.norm();
    if (n < 1e-3)
        a = V3(0, 0, 1), n = 1;
    a /= n;
    double th = s.real(-3.2, 3.2);
    // Rodrigues, written out
    M3 K;
    K << 0, -a(2), a(1), a(2), 0, -a(0), -a(1), a(0), 0;
    return M3::Identity() + std::sin(th) * K + (1 - std::cos(th)) * K * K;
}
VX vx(Src& s, int n, double m) { return gen::matX(s, n, 1, m); }

// ---------------------------------------------------------------- joint states
template <int N>
void jointState(Src& s)
{
    typedef JointState<N> JS;
    typedef typename JS::joint_state_vector_t V;
    JS z;
    PBT_REQUIRE(z.toImplementation() == V::Zero(), "default_zero", "a new joint state is not zero");
    V a = vx(s, 2 * N, 5), b = vx(s, 2 * N, 5);
    int i0 = s.i(0, 2 * N - 1);
    switch (s.i(0, 4))
    {
        case 0:
            b = a;
            s.label("equal");
            break;
        case 1:
            b = a;
            b(i0) += s.pick(std::vector<double>{1e-9, -1e-9, 1.0, -1.0});
            s.label("differ_in_one");
            break;
        case 2:
            for (int i = 0; i < 2 * N; i++)
                b(i) = a(i) + s.real(0.001, 2);
            s.label("all_larger");
            break;
        case 3:
            for (int i = 0; i < 2 * N; i++)
                b(i) = a(i) - s.real(0.001, 2);
            if (s.b())
                b(i0) = a(i0) + s.pick(std::vector<double>{0.0, 1.0});
            s.label("mostly_smaller");
            break;
        default: break;
    }
    double k = s.real(0.1, 4) * (s.b() ? 1 : -1);
    const JS A(a), B(b);
    JS Am(a);
    bool eq = true, lt = true, gt = true;
    for (int i = 0; i < 2 * N; i++)
    {
        eq = eq && a(i) == b(i);
        lt = lt && a(i) < b(i);
        gt = gt && a(i) > b(i);
    }
    PBT_REQUIRE((A == B) == eq && (A != B) == !eq, "equality", "a=", a.transpose(), " b=", b.transpose());
    PBT_REQUIRE((A < B) == lt && (A > B) == gt, "order", "a=", a.transpose(), " b=", b.transpose());
    V sum = (A + B).toImplementation(), dif = (A - B).toImplementation(), mul = (A * k).toImplementation(),
      quo = (A / k).toImplementation();
    for (int i = 0; i < 2 * N; i++)
    {
        PBT_REQUIRE(sum(i) == a(i) + b(i) && dif(i) == a(i) - b(i) && close(mul(i), a(i) * k, 1e-14, 1e-14) &&
                        close(quo(i), a(i) / k, 1e-14, 1e-14),
            "arithmetic", "component ", i);
    }
    for (int i = 0; i < N; i++)
    {
        PBT_REQUIRE(A.getPosition(i) == a(i) && A.getPositions()(i) == a(i) && Am.getPosition(i) == a(i) &&
                        Am.getPositions()(i) == a(i),
            "positions", "joint ", i);
        PBT_REQUIRE(A.getVelocity(i) == a(N + i) && A.getVelocities()(i) == a(N + i) && Am.getVelocity(i) == a(N + i) &&
                        Am.getVelocities()(i) == a(N + i),
            "velocities", "joint ", i);
    }
    // writing through the accessors touches exactly that entry
    int j = s.i(0, N - 1);
    double v = s.real(-9, 9);
    V e = a;
    switch (s.i(0, 3))
    {
        case 0: Am.getPosition(j) = v, e(j) = v; break;
        case 1: Am.getPositions()(j) = v, e(j) = v; break;
        case 2: Am.getVelocity(j) = v, e(N + j) = v; break;
        default: Am.getVelocities()(j) = v, e(N + j) = v; break;
    }
    PBT_REQUIRE(Am.toImplementation() == e, "write", "joint ", j);
    bool approx = (a - b).norm() <= 1e-3 * std::min(a.norm(), b.norm());
    JS Ac(a);
    PBT_REQUIRE(Ac.isApprox(B, 1e-3) == approx, "approx", "a=", a.transpose(), " b=", b.transpose());
    Ac.setZero();
    PBT_REQUIRE(Ac.toImplementation() == V::Zero(), "set_zero", "setZero");
    if (N > 1)
        s.nontrivial();
}
FACET(joint_state_1, 1) { jointState<1>(s); }
FACET(joint_state_3, 2) { jointState<3>(s); }
FACET(joint_state_6, 1) { jointState<6>(s); }

template <int N, class L>
void limits(Src& s, const L& lo, const L& up, const L& vl)
{
    typedef JointState<N> JS;
    typename JS::joint_state_vector_t a;
    double tol = s.b() ? 0.0 : s.logreal(1e-6, 0.3);
    bool pin = true, vin = true;
    for (int i = 0; i < N; i++)
    {
        // positions near the bounds, on the bounds and just inside/outside the tolerance
        double base = s.b() ? lo[i] : up[i];
        switch (s.i(0, 4))
        {
            case 0: a(i) = base; break;
            case 1: a(i) = base + s.pick(std::vector<double>{1, -1}) * tol * s.pick(std::vector<double>{0.5, 0.999, 1.001, 2}); break;
            case 2: a(i) = base + s.real(-0.5, 0.5); break;
            default: a(i) = s.real(lo[i], up[i]); break;
        }
        double below = lo[i] - a(i), above = a(i) - up[i];
        if (std::abs(below - tol) < 1e-12 || std::abs(above - tol) < 1e-12)
        {
            discard_unless(tol == 0);  // exact tie with a rounded tolerance: either answer
        }
        pin = pin && below <= tol && above <= tol;
        double v = s.b() ? vl[i] * s.pick(std::vector<double>{1, -1, 1.0001, -1.0001, 0.5}) : s.real(-1.5, 1.5) * vl[i];
        a(N + i) = v;
        vin = vin && std::fabs(v) <= vl[i];
    }
    JS A(a);
    PBT_REQUIRE(A.checkPositionLimits(lo, up, tol) == pin, "position_limits", "tol=", tol, " x=", a.transpose());
    if (tol == 0)
        PBT_REQUIRE(A.checkPositionLimits(lo, up) == pin, "position_limits", "x=", a.transpose());
    PBT_REQUIRE(A.checkVelocityLimits(vl) == vin, "velocity_limits", "x=", a.transpose());
    PBT_REQUIRE(A.toImplementation() == a, "check_pure", "a limit check changed the state");
    s.label(pin ? "pos_inside" : "pos_outside");
    s.label(vin ? "vel_inside" : "vel_outside");
    s.nontrivial();
}
FACET(limits_generated, 3)
{
    std::vector<double> lo(4), up(4), vl(4);
    for (int i = 0; i < 4; i++)
        lo[i] = s.real(-4, 4), up[i] = lo[i] + s.real(0, 6), vl[i] = s.real(0, 10);
    limits<4>(s, lo, up, vl);
}
FACET(limits_hya, 1)
{
    namespace H = ct::models::HyA;
    limits<6>(s, H::jointLowerLimit<>(), H::jointUpperLimit<>(), H::jointVelocityLimit<>());
    for (int i = 0; i < 6; i++)
        PBT_REQUIRE(H::jointLowerLimit<>()(i) < H::jointUpperLimit<>()(i) && H::jointVelocityLimit<>()(i) > 0,
            "hya_limits", "joint ", i);
}
FACET(limits_pendulum, 1)
{
    namespace H = ct::models::InvertedPendulum;
    limits<1>(s, H::jointLowerLimit<>(), H::jointUpperLimit<>(), H::jointVelocityLimit<>());
}
FACET(unique_position, 3)
{
    const int N = 4;
    JointState<N>::joint_state_vector_t a;
    std::vector<double> lo(N);
    double tol = s.b() ? 0.0 : s.logreal(1e-6, 0.5);
    bool shifted = false;
    for (int i = 0; i < N; i++)
    {
        lo[i] = s.pick(std::vector<double>{-M_PI, 0.0, s.real(-10, 10)});
        double k = s.i(-6, 6);
        double off = s.pick(std::vector<double>{s.real(0, 2 * M_PI), s.real(-0.3, 0.3), tol / 2, -tol / 2});
        a(i) = lo[i] + off + 2 * M_PI * k;
        a(N + i) = s.real(-5, 5);
    }
    JointState<N> A(a);
    if (tol == 0 && s.b())
        A.toUniquePosition(lo);
    else
        A.toUniquePosition(lo, tol);
    const double eps = 1e-12;
    for (int i = 0; i < N; i++)
    {
        double r = A.getPosition(i), k = (a(i) - r) / (2 * M_PI);
        PBT_REQUIRE(std::fabs(k - std::round(k)) < 1e-9, "unique_same_angle", "from ", a(i), " to ", r);
        PBT_REQUIRE(r >= lo[i] - tol - eps && r < lo[i] + 2 * M_PI + tol + eps, "unique_range", "from ", a(i), " to ", r,
            " lower ", lo[i], " tol ", tol);
        if (std::round(k) == 0)
            PBT_REQUIRE(r == a(i), "unique_untouched", "from ", a(i), " to ", r);
        // a value already in the (tolerance-widened) range is left alone
        if (a(i) >= lo[i] - tol + 1e-9 && a(i) < lo[i] + 2 * M_PI + tol - 1e-9)
            PBT_REQUIRE(r == a(i), "unique_minimal", "from ", a(i), " to ", r, " lower ", lo[i], " tol ", tol);
        PBT_REQUIRE(A.getVelocity(i) == a(N + i), "unique_velocity", "joint ", i);
        shifted = shifted || std::round(k) != 0;
    }
    if (shifted)
        s.nontrivial();
}
FACET(joint_acceleration, 1)
{
    Eigen::Matrix<double, 3, 1> a = vec3(s, 5), b = vec3(s, 5);
    JointAcceleration<3> z, A(a);
    PBT_REQUIRE(z.getAcceleration() == V3::Zero() && JointAcceleration<3>::Zero().getAcceleration() == V3::Zero(), "acc_zero", "zero");
    PBT_REQUIRE(A.getAcceleration() == a && A.getSize() == 3 && A(1) == a(1), "acc_get", "get");
    A(2) = 7;
    a(2) = 7;
    PBT_REQUIRE(A.getAcceleration() == a, "acc_set", "element");
    A.setAcceleration(b);
    PBT_REQUIRE(A.getAcceleration() == b, "acc_set", "vector");
    A.setZero();
    PBT_REQUIRE(A.getAcceleration() == V3::Zero(), "acc_zero", "setZero");
    Eigen::Matrix<double, 6, 1> f = vx(s, 6, 3), g = vx(s, 6, 3);
    SpatialForceVector<double> F(f);
    const SpatialForceVector<double> Fc(f);
    double k = s.real(0.5, 3);
    PBT_REQUIRE(V3(F.torque()) == f.head<3>() && V3(F.force()) == f.tail<3>() && V3(Fc.torque()) == f.head<3>() &&
                    V3(Fc.force()) == f.tail<3>(),
        "spatial_blocks", "blocks");
    Eigen::Matrix<double, 6, 1> fs = F + g, fd = F - g, fm = F * k, fq = F / k;
    PBT_REQUIRE(mclose(fs, f + g, 1e-14, 1e-14) && mclose(fd, f - g, 1e-14, 1e-14) && mclose(fm, f * k, 1e-14, 1e-14) &&
                    mclose(fq, f / k, 1e-14, 1e-14),
        "spatial_arithmetic", "arithmetic");
    PBT_REQUIRE((F == f) && (F == g) == (f == g) && (F != g) == (f != g), "spatial_equal", "comparison");
    F.force() = V3(1, 2, 3);
    f.tail<3>() = V3(1, 2, 3);
    PBT_REQUIRE(F.toImplementation() == f, "spatial_write", "force block");
    F.setZero();
    PBT_REQUIRE(F.toImplementation().isZero(0), "spatial_zero", "setZero");
    s.nontrivial();
}

// ---------------------------------------------------------------- point-to-point motions
struct Move
{
    double x0, xT, v, a;
};
Move genMove(Src& s)
{
    Move m;
    m.v = s.logreal(0.1, 20), m.a = s.logreal(0.1, 50);
    m.x0 = s.real(-5, 5);
    double crit = m.v * m.v / m.a;  // distance at which the velocity limit is just reached
    double d = s.pick(std::vector<double>{s.real(0, 8), crit * s.real(0, 0.999), crit * s.real(1.001, 6), 0.0, crit});
    m.xT = m.x0 + (s.b() ? d : -d);
    return m;
}
double minTime(const Move& m)
{
    double d = std::fabs(m.xT - m.x0);
    return d * m.a <= m.v * m.v ? 2 * std::sqrt(d / m.a) : d / m.v + m.v / m.a;
}
//! the time-optimal rest-to-rest motion
void ref(const Move& m, double t, double& x, double& v)
{
    double sg = m.xT >= m.x0 ? 1 : -1, d = std::fabs(m.xT - m.x0), T = minTime(m);
    double ta = std::min(m.v / m.a, std::sqrt(d / m.a)), vp = m.a * ta;
    double y, w;
    if (t >= T)
        y = d, w = 0;
    else if (t <= ta)
        y = 0.5 * m.a * t * t, w = m.a * t;
    else if (t <= T - ta)
        y = 0.5 * m.a * ta * ta + vp * (t - ta), w = vp;
    else
        y = d - 0.5 * m.a * (T - t) * (T - t), w = m.a * (T - t);
    x = m.x0 + sg * y, v = sg * w;
}
FACET(single_dof, 4)
{
    Move m = genMove(s);
    SingleDOFTrajectoryGenerator g;
    double T;
    if (s.b())
        g = SingleDOFTrajectoryGenerator(s.real(-3, 3), s.real(-3, 3), s.logreal(0.1, 9), s.logreal(0.1, 9));
    if (s.i(0, 3) == 0)
    {
        Move o = genMove(s);
        double x, v;
        g.setup(o.x0, o.xT, o.v, o.a);
        g.queryTrajectory(s.real(0, 3), x, v);
    }
    T = g.setup(m.x0, m.xT, m.v, m.a);
    const double Tr = minTime(m), tolx = 1e-9 * (1 + std::fabs(m.x0) + std::fabs(m.xT) + m.v);
    PBT_REQUIRE(close(T, Tr, 1e-9, 1e-9), "plan_time", "T=", T, " expected ", Tr);
    int n = s.i(1, 8);
    for (int q = 0; q < n; q++)
    {
        double ta = std::min(m.v / m.a, std::sqrt(std::fabs(m.xT - m.x0) / m.a));
        double t = s.pick(std::vector<double>{0.0, T, s.real(0, 1) * T, ta, T - ta, T / 2, T * s.real(1, 3), T + 1e-3});
        if (t < 0)
            t = 0;
        double x, v, rx, rv;
        g.queryTrajectory(t, x, v);
        ref(m, t, rx, rv);
        PBT_REQUIRE(close(x, rx, 1e-8, tolx * 100) && close(v, rv, 1e-6, 1e-6 * (1 + m.v)), "plan_state", "t=", t, " x=", x,
            " v=", v, " expected ", rx, " ", rv);
        PBT_REQUIRE(std::fabs(v) <= m.v * (1 + 1e-9) + 1e-9, "plan_velocity_limit", "v=", v);
        bool thrown = false;
        try
        {
            g.queryTrajectory(-s.logreal(1e-9, 1), x, v);
        } catch (const std::exception&)
        {
            thrown = true;
        }
        PBT_REQUIRE(thrown, "plan_negative_time", "negative time answered");
    }
    if (m.x0 != m.xT)
        s.nontrivial();
}
FACET(arm_trajectory, 2)
{
    const int N = 3;
    Eigen::Matrix<double, N, 1> V, A, x0, xT;
    SimpleArmTrajectoryGenerator<N>* g = nullptr;
    Move m[N];
    int rounds = s.i(1, 2);
    for (int i = 0; i < N; i++)
        V(i) = s.logreal(0.3, 10), A(i) = s.logreal(0.3, 20);
    std::unique_ptr<SimpleArmTrajectoryGenerator<N>> holder(g = new SimpleArmTrajectoryGenerator<N>(V, A));
    for (int r = 0; r < rounds; r++)
    {
        double T = 0;
        for (int i = 0; i < N; i++)
        {
            m[i].v = V(i), m[i].a = A(i), m[i].x0 = x0(i) = s.real(-2, 2);
            m[i].xT = xT(i) = s.i(0, 4) == 0 ? x0(i) : s.real(-2, 2);
            T = std::max(T, minTime(m[i]));
        }
        double dt = s.b() ? 0.02 : s.logreal(0.005, 0.5);
        discard_unless(T / dt < 2000);
        Quiet q;
        core::StateTrajectory<2 * N> tr = dt == 0.02 && s.b() ? g->generateTrajectory(x0, xT) : g->generateTrajectory(x0, xT, dt);
        PBT_REQUIRE(tr.size() >= 1 && std::fabs(tr.getTimeArray().back() - T) <= dt * (1 + 1e-9), "arm_duration", "last sample at ",
            tr.getTimeArray().back(), " plan lasts ", T, " sampling ", dt);
        for (size_t k = 0; k < tr.size(); k++)
        {
            double t = tr.getTimeFromIndex(k);
            PBT_REQUIRE(close(t, k * dt, 1e-12, 1e-12), "arm_sampling", "sample ", k, " at ", t);
            for (int i = 0; i < N; i++)
            {
                double x, v;
                ref(m[i], t, x, v);
                PBT_REQUIRE(close(tr[k](i), x, 1e-8, 1e-7) && close(tr[k](N + i), v, 1e-6, 1e-6 * (1 + m[i].v)), "arm_state",
                    "sample ", k, " joint ", i, " got ", tr[k](i), " ", tr[k](N + i), " expected ", x, " ", v);
            }
        }
    }
    s.nontrivial();
}

// ---------------------------------------------------------------- actuators
FACET(actuator_sea, 2)
{
    const int N = 3;
    double k = s.logreal(1, 500), r = s.logreal(0.5, 100);
    SEADynamicsFirstOrder<N> a(k, r);
    std::unique_ptr<SEADynamicsFirstOrder<N>> c(a.clone());
    SEADynamicsFirstOrder<N>& m = s.b() ? a : *c;
    JointState<N> q{JointState<N>::joint_state_vector_t(vx(s, 2 * N, 3))};
    core::StateVector<N> x, dx, x2;
    core::ControlVector<N> u, tau;
    x = vx(s, N, 3), u = vx(s, N, 10);
    m.computeActuatorDynamics(q, x, s.real(0, 5), u, dx);
    tau = m.computeControlOutput(q, x);
    for (int i = 0; i < N; i++)
    {
        PBT_REQUIRE(close(dx(i), u(i) / r, 1e-12, 1e-12), "sea_dynamics", "joint ", i);
        PBT_REQUIRE(close(tau(i), k * (x(i) - q.getPosition(i)), 1e-10, 1e-10), "sea_output", "joint ", i);
    }
    x2 = m.computeStateFromOutput(q, u);
    core::ControlVector<N> back = m.computeControlOutput(q, x2);
    PBT_REQUIRE(mclose(back, u, 1e-9, 1e-9 * k), "sea_inverse", "output of the state computed from ", u.transpose(), " is ",
        back.transpose());
    s.nontrivial();
}
FACET(actuator_second_order, 3)
{
    const int N = 3;
    std::vector<double> w(N), z(N), g(N, 1.0);
    int kind = s.i(0, 3);
    bool vec = kind >= 2, gain = kind % 2;
    for (int i = 0; i < N; i++)
    {
        w[i] = i && !vec ? w[0] : s.logreal(0.3, 30);
        z[i] = i && !vec ? z[0] : s.real(0, 2);
        if (gain)
            g[i] = i && !vec ? g[0] : s.logreal(0.1, 20);
    }
    typedef SecondOrderActuatorDynamics<N> Act;
    std::unique_ptr<Act> a;
    if (!vec)
        a.reset(gain ? new Act(w[0], z[0], g[0]) : new Act(w[0], z[0]));
    else
        a.reset(gain ? new Act(w, z, g) : new Act(w, z));
    if (s.b())
        a.reset(a->clone());
    JointState<N> q{JointState<N>::joint_state_vector_t(vx(s, 2 * N, 3))};
    core::StateVector<2 * N> x, dx, x2;
    core::ControlVector<N> u, tau;
    x = vx(s, 2 * N, 3), u = vx(s, N, 10);
    a->computeActuatorDynamics(q, x, s.real(0, 5), u, dx);
    tau = a->computeControlOutput(q, x);
    for (int i = 0; i < N; i++)
    {
        PBT_REQUIRE(dx(i) == x(N + i), "second_order_kinematics", "joint ", i);
        PBT_REQUIRE(close(dx(N + i), w[i] * w[i] * (g[i] * u(i) - x(i)) - 2 * z[i] * w[i] * x(N + i), 1e-10, 1e-9 * (1 + w[i] * w[i])),
            "second_order_dynamics", "joint ", i, " got ", dx(N + i), " w ", w[i], " zeta ", z[i], " g ", g[i]);
        PBT_REQUIRE(tau(i) == x(i), "second_order_output", "joint ", i);
    }
    x2 = a->computeStateFromOutput(q, u);
    PBT_REQUIRE(mclose(a->computeControlOutput(q, x2), u, 0, 0), "second_order_inverse", "output of the state from output");
    PBT_REQUIRE(x2.tail<N>().isZero(0), "second_order_rest", "the state from an output is at rest");
    if (!gain)
    {
        // unit amplification: commanding the output it already has keeps the actuator at rest
        a->computeActuatorDynamics(q, x2, 0.0, u, dx);
        PBT_REQUIRE(mclose(dx, VX::Zero(2 * N), 0, 1e-9 * (1 + w[0] * w[0] + w[1] * w[1] + w[2] * w[2])), "second_order_unit_gain",
            "derivative ", dx.transpose());
    }
    if (vec)
    {
        std::vector<double> bad(s.pick(std::vector<int>{0, N - 1, N + 1}), 1.0);
        int thrown = 0;
        try { Act b(bad, z); } catch (const std::exception&) { thrown++; }
        try { Act b(w, bad); } catch (const std::exception&) { thrown++; }
        try { Act b(w, z, bad); } catch (const std::exception&) { thrown++; }
        PBT_REQUIRE(thrown == 3, "second_order_sizes", "wrong sizes accepted");
        s.label("per_joint");
    }
    s.nontrivial();
}

// ---------------------------------------------------------------- joint PID
FACET(joint_pid, 3)
{
    const int N = 3;
    typedef core::PIDController<double> P;
    Eigen::Matrix<double, N, 1> qd = vec3(s, 3), vd = vec3(s, 2);
    std::vector<P::parameters_t> par(N);
    auto genP = [&]() {
        return P::parameters_t(s.real(0, 10), s.real(0, 5), s.real(0, 3), s.pick(std::vector<double>{0.01, 0.1}),
            s.b() ? s.real(0.01, 2) : 1e300, s.b() ? s.real(0.1, 20) : 1e300, s.b() ? -s.real(0.1, 20) : -1e300);
    };
    std::unique_ptr<JointPositionPIDController<N>> c;
    int kind = s.i(0, 2);
    if (kind == 0)
    {
        for (auto& p : par)
            p = genP();
        c.reset(new JointPositionPIDController<N>(qd, vd, par));
    }
    else if (kind == 1)
    {
        P::parameters_t p = genP();
        for (auto& q : par)
            q = p;
        c.reset(new JointPositionPIDController<N>(qd, vd, p));
    }
    else
    {
        qd.setZero(), vd.setZero();
        c.reset(new JointPositionPIDController<N>());
    }
    std::vector<P> m;
    for (int i = 0; i < N; i++)
        m.push_back(P(par[i], P::setpoint_t(qd(i), vd(i))));
    int n = s.i(1, 12), computed = 0;
    double t = s.real(0, 2);
    for (int k = 0; k < n; k++)
    {
        switch (s.i(0, 7))
        {
            case 0:
            {
                V3 p = vec3(s, 3);
                c->setDesiredPosition(p);
                for (int i = 0; i < N; i++)
                    m[i].setDesiredState(p(i));
                break;
            }
            case 1:
            {
                int j = s.i(0, N - 1);
                double p = s.real(-3, 3);
                c->setDesiredPosition(p, j);
                m[j].setDesiredState(p);
                break;
            }
            case 2:
            {
                if (kind == 2)  // other parameters at their defaults
                {
                    double kp = s.real(0, 10), ki = s.real(0, 5), kd = s.real(0, 3);
                    c->setAllPIDGains(kp, ki, kd);
                    for (auto& x : m)
                        x.changeParameters(P::parameters_t(kp, ki, kd));
                }
                break;
            }
            case 3:
                c->reset();
                for (auto& x : m)
                    x.reset();
                break;
            default:
            {
                core::StateVector<2 * N> x;
                x = vx(s, 2 * N, 3);
                core::ControlVector<N> u;
                u.setConstant(77);
                c->computeControl(x, t, u);
                for (int i = 0; i < N; i++)
                {
                    double e = m[i].computeControl(x(i), x(N + i), t);
                    PBT_REQUIRE(close(u(i), e, 1e-12, 1e-12), "joint_pid", "step ", k, " joint ", i, " got ", u(i), " expected ", e);
                }
                t += 0.01;
                computed++;
            }
        }
    }
    if (computed >= 2)
        s.nontrivial();
}

// ---------------------------------------------------------------- selection matrices
template <int U, int X>
void selection(Src& s, bool floating)
{
    SelectionMatrix<U, X> S(floating);
    if (s.b())
    {
        S.setZero();
        S.setIdentity(floating);
    }
    SelectionMatrix<U, X> S2(S);
    VX tau = vx(s, U, 5), full = VX::Zero(X);
    full.tail(U) = tau;  // the base is not actuated, every joint by its own control
    PBT_REQUIRE(mclose(MX(S2.transpose()) * tau, full, 0, 0), "selection", "floating=", floating, " S=\n", MX(S));
}
FACET(selection_matrix, 1)
{
    selection<6, 6>(s, false);
    selection<12, 18>(s, true);
    selection<12, 18>(s, false);
    selection<1, 1>(s, false);
    selection<2, 4>(s, false);
    selection<1, 7>(s, true);
    bool thrown = false;
    try
    {
        SelectionMatrix<2, 4> S(true);
    } catch (const std::exception&)
    {
        thrown = true;
    }
    PBT_REQUIRE(thrown, "selection_refuse", "floating base selection with fewer than 6 columns accepted");
    s.nontrivial();
}

// ---------------------------------------------------------------- Jacobians in the inertial frame
//! a point on a chain: b_r(q) is a smooth function of the joints, orientation of the end frame R_e(q)
template <int N>
struct Chain
{
    MX L, Q;   // r = r0 + L sin(Q q)
    V3 r0;
    V3 r(const VX& q) const { return r0 + L * (Q * q).array().sin().matrix(); }
    MX J(const VX& q) const { return L * (Q * q).array().cos().matrix().asDiagonal() * Q; }
    MX Jdot(const VX& q, const VX& qd) const
    {
        VX d = -((Q * q).array().sin() * (Q * qd).array()).matrix();
        return L * d.asDiagonal() * Q;
    }
};
FACET(frame_jacobian, 3)
{
    const int N = 4;
    typedef FrameJacobian<N> F;
    Chain<N> c;
    c.L = gen::matX(s, 3, N, 1), c.Q = gen::matX(s, N, N, 1), c.r0 = vec3(s, 1);
    Chain<N> rc = c;  // rotational part: any smooth matrix function of q will do
    rc.L = gen::matX(s, 3, N, 1), rc.Q = gen::matX(s, N, N, 1);
    VX q = vx(s, N, 2), qd = vx(s, N, 2);
    M3 R = rot(s);
    V3 w = vec3(s, 2), v = vec3(s, 2);  // base velocities in the base frame
    Eigen::Matrix<double, 6, N> J, dJ;
    J << rc.J(q), c.J(q);
    dJ << rc.Jdot(q, qd), c.Jdot(q, qd);
    Eigen::Matrix<double, N + 6, 1> gv;
    gv << w, v, qd;
    Eigen::Matrix<double, 6, N + 6> iJ, idJ;
    F::FromBaseJacobianToInertiaJacobian(R, c.r(q), J, iJ);
    F::FromBaseJacobianDevToInertiaJacobianDev(gv, R, c.r(q), J, dJ, idJ);
    // velocities composed from scratch
    V3 om = R * (w + rc.J(q) * qd), vel = R * (v + w.cross(c.r(q)) + c.J(q) * qd);
    Eigen::Matrix<double, 6, 1> got = iJ * gv;
    PBT_REQUIRE(mclose(got.head<3>(), om, 1e-11, 1e-11), "jacobian_rotation", "got ", got.head<3>().transpose(), " expected ",
        om.transpose());
    PBT_REQUIRE(mclose(got.tail<3>(), vel, 1e-11, 1e-11), "jacobian_translation", "got ", got.tail<3>().transpose(),
        " expected ", vel.transpose());
    // time derivative along the motion (R' = R [w]x, q' = qd): central difference of the inertial Jacobian
    auto at = [&](double h) {
        double th = w.norm() * h;
        M3 Rh = R;
        if (w.norm() > 1e-9)
            Rh = R * Eigen::AngleAxisd(th, w.normalized()).toRotationMatrix();
        VX qh = q + h * qd;
        Eigen::Matrix<double, 6, N> Jh;
        Jh << rc.J(qh), c.J(qh);
        Eigen::Matrix<double, 6, N + 6> r;
        F::FromBaseJacobianToInertiaJacobian(Rh, c.r(qh), Jh, r);
        return r;
    };
    const double h = 1e-5;
    MX num = (at(h) - at(-h)) / (2 * h);
    PBT_REQUIRE(mclose(MX(idJ), num, 1e-6, 1e-6 * (1 + std::pow(w.norm() + (c.Q * qd).norm() + (rc.Q * qd).norm(), 3))),
        "jacobian_derivative", "got\n", MX(idJ), "\nexpected\n", num);
    s.nontrivial();
}

// ---------------------------------------------------------------- geometry
FACET(ellipsoid, 2)
{
    V3 x0 = vec3(s, 3), ax(s.logreal(0.1, 5), s.logreal(0.1, 5), s.logreal(0.1, 5));
    M3 A = ax.asDiagonal(), S = rot(s);
    core::Ellipsoid e(x0, A, S);
    if (s.b())
    {
        // replace the orientation by a quaternion
        V3 a = vec3(s, 1);
        if (a.norm() < 1e-2)
            a = V3(1, 0, 0);
        Eigen::Quaterniond qu(Eigen::AngleAxisd(s.real(-3, 3), a.normalized()));
        e.setFromQuaterion(qu);
        S = qu.toRotationMatrix();
        PBT_REQUIRE(mclose(e.S(), S, 1e-12, 1e-12), "ellipsoid_orientation", "S");
    }
    if (s.b())
        e.x0() = x0 = vec3(s, 3);
    V3 d = vec3(s, 1);
    discard_unless(d.norm() > 0.05);
    d.normalize();
    // surface point along direction d in the body frame: |A y| = 1
    double rad = 1 / (A * d).norm(), f = s.pick(std::vector<double>{0, 0.5, 0.99, 1, 1.01, 2, s.real(0, 3)});
    V3 x = x0 + S * (d * rad * f);
    double r = e.insideEllipsoid(x);
    PBT_REQUIRE(close(r, f * f - 1, 1e-9, 1e-9), "ellipsoid_level", "scale ", f, " value ", r);
    s.nontrivial();
}
FACET(plane, 2)
{
    Eigen::Vector4d c;
    for (int i = 0; i < 4; i++)
        c(i) = s.logreal(0.1, 5) * (s.b() ? 1 : -1);
    core::Plane p(c), p2(c(0), c(1), c(2), c(3)), z;
    PBT_REQUIRE(z.getCoefficients() == Eigen::Vector4d::Zero(), "plane_default", "default plane");
    if (s.b())
    {
        c = Eigen::Vector4d(s.real(0.5, 3), -s.real(0.5, 3), s.real(0.5, 3), s.real(-3, 3));
        p.set(c(0), c(1), c(2), c(3));
        p2.getCoefficients() = c;
    }
    if (s.b())
    {
        c(3) = s.real(-2, 2);
        p.getCoefficient(3) = c(3);
        p2.getCoefficient(3) = c(3);
    }
    core::Plane& q = s.b() ? p : p2;
    PBT_REQUIRE(q.a() == c(0) && q.b() == c(1) && q.c() == c(2) && q.d() == c(3) && q.getCoefficients() == c, "plane_coefficients", "c");
    double u = s.real(-5, 5), v = s.real(-5, 5);
    V3 n = c.head<3>();
    PBT_REQUIRE(close(n.dot(V3(q.solveX(u, v), u, v)), c(3), 1e-9, 1e-9) && close(n.dot(V3(u, q.solveY(u, v), v)), c(3), 1e-9, 1e-9) &&
                    close(n.dot(V3(u, v, q.solveZ(u, v))), c(3), 1e-9, 1e-9),
        "plane_solve", "the solved points do not lie on the plane");
    int bad = 4 + s.i(0, 3), thrown = 0;
    try { q.getCoefficient(bad); } catch (const std::exception&) { thrown = 1; }
    PBT_REQUIRE(thrown, "plane_index", "index ", bad, " accepted");
    s.nontrivial();
}
FACET(plane_estimator, 2)
{
    // points on n.x = 1, optionally disturbed: least squares solution
    V3 n = vec3(s, 2);
    discard_unless(n.norm() > 0.3);
    int k = s.i(0, 12);
    core::PlaneEstimator est;
    core::PlaneEstimator::point_measurements_t pts;
    V3 u = n.unitOrthogonal(), w = n.cross(u).normalized();
    double noise = s.b() ? 0 : s.logreal(1e-4, 0.3);
    for (int i = 0; i < k; i++)
        pts.push_back(n / n.squaredNorm() + u * s.real(-3, 3) + w * s.real(-3, 3) + noise * vec3(s, 1));
    if (k < 3)
    {
        bool thrown = false;
        try { est.estimate(pts); } catch (const std::exception&) { thrown = true; }
        PBT_REQUIRE(thrown, "plane_few_points", k, " points accepted");
        return;
    }
    MX A(k, 3);
    for (int i = 0; i < k; i++)
        A.row(i) = pts[i].transpose();
    Eigen::JacobiSVD<MX> svd(A);
    discard_unless(svd.singularValues()(2) > 1e-2 * svd.singularValues()(0));
    core::Plane p = est.estimate(pts);
    V3 g = p.getCoefficients().head<3>() / p.d();
    // optimality: residual orthogonal to the columns
    VX res = A * g - VX::Ones(k);
    PBT_REQUIRE((A.transpose() * res).norm() <= 1e-8 * (1 + A.squaredNorm()), "plane_fit", "normal equations violated by ",
        (A.transpose() * res).norm());
    if (noise == 0)
        PBT_REQUIRE(mclose(g, n, 1e-7, 1e-7), "plane_exact", "got ", g.transpose(), " expected ", n.transpose());
    s.nontrivial();
}
}  // namespace
