// C04: symplectic integration
#include "symp.h"
using namespace pbt;
using namespace ct::core;
namespace {
typedef StateVector<4> X;
//! integrate n steps with either method; optionally with recording
template <class I>
Eigen::Vector4d run(Src& s, std::shared_ptr<SympSys> sys, const Eigen::Vector4d& x0, double t0, int n, double dt, bool log)
{
    I integ(sys);
    X x;
    x = x0;
    if (s.p(1, 4))
    {  // an earlier run with the same integrator does not matter
        X y;
        y = gen::vec<4>(s, 2);
        integ.integrate_n_steps(y, 0.0, 3, 0.05);
        s.label("reused");
    }
    if (!log)
    {
        integ.integrate_n_steps(x, t0, n, dt);
        return x;
    }
    StateVectorArray<4> xs;
    TimeArray ts;
    integ.integrate_n_steps(x, t0, n, dt, xs, ts);
    PBT_REQUIRE((int)xs.size() == n + 1 && (int)ts.size() == n + 1, "log", "recorded ", xs.size(), " of ", n);
    PBT_REQUIRE(xs[0] == x0 && xs[n] == x, "log", "end states");
    int k = s.i(0, n);
    X y;
    y = x0;
    I fresh(sys);
    fresh.integrate_n_steps(y, t0, k, dt);
    PBT_REQUIRE(mclose(xs[k], y, 1e-12, 1e-12) && close(ts[k], t0 + k * dt, 1e-9, 1e-9), "log", "sample ", k);
    s.label("logged");
    return x;
}
typedef IntegratorSymplecticEuler<2, 2, 1> IE;
typedef IntegratorSymplecticRk<2, 2, 1> IR;
}  // namespace

FACET(value, 5)
{
    SympPar p = genSymp(s);
    double u = 0;
    std::shared_ptr<Controller<4, 1>> c;
    if (s.b())
    {
        ControlVector<1> uu;
        uu(0) = u = s.real(-1, 1);
        c.reset(new ConstantController<4, 1>(uu));
    }
    auto sys = std::shared_ptr<SympSys>(new SympSys(p, c));
    Eigen::Vector4d x0 = gen::vec<4>(s, 1.0);
    int n = s.i(1, 30);
    double dt = s.logreal(1e-3, 0.1), t0 = s.real(-2, 2);
    s.note("n=", n, " dt=", dt, " u=", u);
    bool log = s.b();
    Eigen::Vector4d ref = x0;
    for (int i = 0; i < n; i++)
        ref = sympEuler(p, ref, u, dt);
    Eigen::Vector4d e = run<IE>(s, sys, x0, t0, n, dt, log);
    PBT_REQUIRE(mclose(e, ref, 1e-10, 1e-10), "euler", "got ", e.transpose(), " expected ", ref.transpose());
    Eigen::Vector4d r = run<IR>(s, sys, x0, t0, n, dt, s.b());
    Eigen::Vector4d ex = sympExact(p, x0, u, n * dt);
    double tol = 2.0 * n * std::pow(dt, 4) * (1 + ex.norm() + x0.norm()) + 1e-10;
    PBT_REQUIRE((r - ex).norm() <= tol, "rk", "error ", (r - ex).norm(), " bound ", tol);
    // the plain dynamics of the same system agree with its two halves
    X f;
    X xx;
    xx = x0;
    ControlVector<1> uu;
    uu(0) = u;
    sys->computeControlledDynamics(xx, t0, uu, f);
    PBT_REQUIRE(mclose(f, sympF(p, x0, u), 1e-12, 1e-12), "dynamics", "derivative");
    if (n > 1)
        s.nontrivial();
}
namespace {
//! position and velocity derivatives that both depend on the full state and on a feedback control
struct GeneralSys : public SymplecticSystem<2, 2, 1>
{
    Eigen::Matrix2d A11, A12, A21, A22;
    Eigen::Vector2d b1, b2;
    double g;
    GeneralSys(std::shared_ptr<Controller<4, 1>> c) : SymplecticSystem<2, 2, 1>(c) {}
    GeneralSys(const GeneralSys& o)
        : SymplecticSystem<2, 2, 1>(o), A11(o.A11), A12(o.A12), A21(o.A21), A22(o.A22), b1(o.b1), b2(o.b2), g(o.g)
    {
    }
    GeneralSys* clone() const override { return new GeneralSys(*this); }
    Eigen::Vector2d pd(const Eigen::Vector4d& x, const Eigen::Vector2d& v, double u) const
    {
        return A11 * x.head<2>() + A12 * v + b1 * u + Eigen::Vector2d(g * std::sin(x(1)), 0);
    }
    Eigen::Vector2d vd(const Eigen::Vector4d& x, const Eigen::Vector2d& p, double u) const
    {
        return A21 * p + A22 * x.tail<2>() + b2 * u + Eigen::Vector2d(0, g * std::cos(x(2)));
    }
    void computePdot(const StateVector<4>& x, const StateVector<2>& v, const ControlVector<1>& u, StateVector<2>& d) override
    {
        d = pd(x, v, u(0));
    }
    void computeVdot(const StateVector<4>& x, const StateVector<2>& p, const ControlVector<1>& u, StateVector<2>& d) override
    {
        d = vd(x, p, u(0));
    }
};
}  // namespace
FACET(eulerGeneral, 3)
{  // symplectic Euler: position first with the old velocity, then velocity with the new position; the controller sees that state
    Eigen::Matrix<double, 1, 4> K = gen::mat<1, 4>(s, 0.7);
    bool fb = s.b();
    std::shared_ptr<Controller<4, 1>> c;
    if (fb)
    {
        FeedbackMatrix<4, 1> KK;
        KK = K;
        StateVectorArray<4> xr(1, StateVector<4>::Zero());
        ControlVectorArray<1> ur(1, ControlVector<1>::Zero());
        FeedbackArray<4, 1> ks(1, KK);
        c.reset(new StateFeedbackController<4, 1>(xr, ur, ks, 0.1));
        s.label("feedback");
    }
    auto sys = std::shared_ptr<GeneralSys>(new GeneralSys(c));
    sys->A11 = gen::mat<2, 2>(s, 0.6), sys->A12 = gen::mat<2, 2>(s, 1), sys->A21 = gen::mat<2, 2>(s, 1), sys->A22 = gen::mat<2, 2>(s, 0.6);
    sys->b1 = gen::vec<2>(s, 0.6), sys->b2 = gen::vec<2>(s, 1), sys->g = s.real(0, 0.7);
    if (s.b())
        sys.reset(sys->clone());
    Eigen::Vector4d x0 = gen::vec<4>(s, 1), ref = x0;
    int n = s.i(1, 12);
    double dt = s.logreal(1e-3, 0.1);
    for (int i = 0; i < n; i++)
    {
        double u = fb ? (double)(K * ref) : 0;
        Eigen::Vector4d y = ref;
        y.head<2>() += dt * sys->pd(ref, ref.tail<2>(), u);
        u = fb ? (double)(K * y) : 0;
        y.tail<2>() += dt * sys->vd(y, y.head<2>(), u);
        ref = y;
    }
    s.note("n=", n, " dt=", dt, " feedback ", fb);
    IE integ(sys);
    X x;
    x = x0;
    StateVectorArray<4> xs;
    TimeArray ts;
    if (s.b())
        integ.integrate_n_steps(x, 0.0, n, dt, xs, ts);
    else
        integ.integrate_n_steps(x, 0.0, n, dt);
    PBT_REQUIRE(mclose(x, ref, 1e-10, 1e-10), "euler-general", "got ", x.transpose(), " expected ", ref.transpose());
    s.nontrivial();
}
FACET(structure, 3)
{  // the flow map preserves the symplectic two-form; energy stays within a band over long runs
    SympPar p = genSymp(s);
    auto sys = std::shared_ptr<SympSys>(new SympSys(p));
    Eigen::Vector4d x0 = gen::vec<4>(s, 0.8);
    double dt = s.logreal(5e-3, 0.1);
    int n = s.i(1, 20);
    bool rk = s.b();
    auto flow = [&](const Eigen::Vector4d& x) { return rk ? run<IR>(s, sys, x, 0, n, dt, false) : run<IE>(s, sys, x, 0, n, dt, false); };
    Eigen::Matrix4d J, W = Eigen::Matrix4d::Zero();
    double h = 1e-5;
    for (int i = 0; i < 4; i++)
    {
        Eigen::Vector4d d = Eigen::Vector4d::Unit(i) * h;
        J.col(i) = (flow(x0 + d) - flow(x0 - d)) / (2 * h);
    }
    // canonical momenta are v here (q' = m v): W = [[0,I],[-I,0]] in (q,v)
    W.topRightCorner<2, 2>().setIdentity();
    W.bottomLeftCorner<2, 2>() = -Eigen::Matrix2d::Identity();
    Eigen::Matrix4d R = J.transpose() * W * J;
    PBT_REQUIRE(mclose(R, W, 1e-6, 1e-6), "two-form", rk ? "rk" : "euler", " defect ", (R - W).norm());
    X x;
    x = x0;
    double E0 = sympE(p, x0, 0), worst = 0, vs = 1 + std::fabs(E0);
    IE ie(sys);
    IR ir(sys);
    for (int k = 0; k < 40; k++)
    {
        if (rk)
            ir.integrate_n_steps(x, 0, 25, dt);
        else
            ie.integrate_n_steps(x, 0, 25, dt);
        worst = std::max(worst, std::fabs(sympE(p, x, 0) - E0));
    }
    PBT_REQUIRE(worst < (rk ? 20 * std::pow(dt, 4) + 1e-8 : 8 * dt) * vs, "energy", rk ? "rk" : "euler", " drift ", worst, " dt ", dt);
    s.note("rk=", rk, " n=", n, " dt=", dt);
    s.nontrivial();
}
