// C30: the control simulator (two threads: system integration and controller updates)
#include "gen.h"
#include <ct/core/core.h>
#include <ct/core/simulation/ControlSimulator.h>
#include <chrono>
#include <mutex>
#include <thread>
using namespace pbt;
using namespace ct::core;
namespace {
typedef StateVector<2> X;
typedef ControlVector<1> U;
// x0' = c0 + c1 t + c2 t^2 + bu u,   x1' = a x1 + d x0 + g t
struct Coef
{
    double c0 = 0, c1 = 0, c2 = 0, bu = 0, a = 0, d = 0, g = 0;
};
class Sys : public ControlledSystem<2, 1>
{
public:
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
    typedef ControlledSystem<2, 1> Base;
    static const size_t STATE_DIM = 2, CONTROL_DIM = 1;
    typedef double SCALAR;
    Sys(const Coef& c, std::shared_ptr<Controller<2, 1>> ctrl) : Base(ctrl), c_(c) {}
    Sys(const Sys& o) : Base(o), c_(o.c_) {}
    Sys* clone() const override { return new Sys(*this); }
    void computeControlledDynamics(const X& x, const double& t, const U& u, X& dx) override
    {
        dx(0) = c_.c0 + c_.c1 * t + c_.c2 * t * t + c_.bu * u(0);
        dx(1) = c_.a * x(1) + c_.d * x(0) + c_.g * t;
    }
    Coef c_;
};
X rhs(const Coef& c, const X& x, double t, double u)
{
    X dx;
    dx(0) = c.c0 + c.c1 * t + c.c2 * t * t + c.bu * u;
    dx(1) = c.a * x(1) + c.d * x(0) + c.g * t;
    return dx;
}
X step(const Coef& c, X x, double t, double h, double u, bool rk4)
{
    X k1 = rhs(c, x, t, u);
    if (!rk4)
        return x + h * k1;
    X k2 = rhs(c, x + 0.5 * h * k1, t + 0.5 * h, u), k3 = rhs(c, x + 0.5 * h * k2, t + 0.5 * h, u), k4 = rhs(c, x + h * k3, t + h, u);
    return x + h / 6.0 * (k1 + 2.0 * k2 + 2.0 * k3 + k4);
}
struct Rec
{
    double t;
    X x;
    std::thread::id id;
};
class Sim : public ControlSimulator<Sys>
{
public:
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
    typedef ControlSimulator<Sys> Base;
    Sim(double sdt, double cdt, const X& x0, std::shared_ptr<Sys> sys) : Base(sdt, cdt, x0, sys) {}
    Sim(const Sim& o) : Base(o) {}
    ~Sim() override { this->finish(); }
    void finishSystemIteration(Time t) override
    {
        X x;
        this->state_mtx_.lock();
        x = this->x_;
        this->state_mtx_.unlock();
        std::lock_guard<std::mutex> l(m);
        sys.push_back({t, x, std::this_thread::get_id()});
        if (stopAfter > 0 && (int)sys.size() >= stopAfter)
            this->stop();
    }
    void prepareControllerIteration(Time t) override
    {
        std::lock_guard<std::mutex> l(m);
        ctrl.push_back({t, 'p'});
    }
    void finishControllerIteration(Time t) override
    {
        {
            std::lock_guard<std::mutex> l(m);
            ctrl.push_back({t, 'f'});
            if (ctrl.size() > 100000)
                ctrl.erase(ctrl.begin(), ctrl.begin() + 50000);
        }
        std::this_thread::sleep_for(std::chrono::microseconds(200));
    }
    std::shared_ptr<Sys> system() { return this->system_; }
    std::shared_ptr<Controller<2, 1>> controller() { return this->controller_; }
    std::mutex m;
    std::vector<Rec, Eigen::aligned_allocator<Rec>> sys;
    std::vector<std::pair<double, char>> ctrl;
    int stopAfter = 0;
};
struct Setup
{
    Coef c;
    double sdt, cdt, u;
    X x0;
    int n;      // full simulation steps per control period
    double rem; // remaining part of the period
};
Setup draw(Src& s)
{
    Setup p;
    p.c.c0 = s.real(-2, 2);
    p.c.c1 = s.b() ? s.real(-20, 20) : 0;
    p.c.c2 = s.b() ? s.real(-100, 100) : 0;
    p.c.bu = s.real(-2, 2);
    p.c.a = s.b() ? s.real(-20, 5) : 0;
    p.c.d = s.b() ? s.real(-5, 5) : 0;
    p.c.g = s.b() ? s.real(-20, 20) : 0;
    p.u = s.real(-3, 3);
    p.x0 << s.real(-2, 2), s.real(-2, 2);
    p.cdt = s.pick(std::vector<double>{0.002, 0.003, 0.005, 0.004});
    int k = s.i(1, 12);
    switch (s.i(0, 3))
    {
        case 0:  // divides the period
            p.sdt = p.cdt / k;
            s.label("divides");
            break;
        case 1:
            p.sdt = p.cdt / (k + s.real(0.02, 0.98));
            s.label("remainder");
            break;
        case 2:
            p.sdt = p.cdt;
            s.label("equal");
            break;
        default:
            p.sdt = s.pick(std::vector<double>{0.001, 0.0005, 0.0015, 0.0007});
            if (p.sdt > p.cdt)
                p.sdt = p.cdt;
            break;
    }
    // the period is covered by full steps plus, if needed, one shorter step; a period which is a whole multiple up to
    // rounding may be seen either way, the result is the same
    p.n = int(p.cdt / p.sdt + 1e-9);
    p.rem = p.cdt - p.n * p.sdt;
    if (p.rem < 1e-8 * p.sdt)
        p.rem = 0;
    // stay away from the resolution at which the remainder is dropped
    discard_unless(p.rem == 0 || p.rem > 1e-4 * p.sdt);
    return p;
}
void checkSystem(Src& s, Sim& sim, const Setup& p, bool rk4, double duration)
{
    std::lock_guard<std::mutex> l(sim.m);
    size_t N = sim.sys.size();
    PBT_REQUIRE(N <= std::ceil(duration / p.cdt * (1 + 1e-9)) + 1, "too-many-periods", N, " periods of ", p.cdt, " in ", duration);
    X x = p.x0;
    for (size_t k = 0; k < N; k++)
    {
        double t = k * p.cdt;
        for (int i = 0; i < p.n; i++)
            x = step(p.c, x, t + i * p.sdt, p.sdt, p.u, rk4);
        if (p.rem > 0)
            x = step(p.c, x, t + p.n * p.sdt, p.rem, p.u, rk4);
        PBT_REQUIRE(std::fabs(sim.sys[k].t - (k + 1) * p.cdt) < 1e-8 * (k + 2), "time", "period ", k, " reported time ", sim.sys[k].t, " expected ", (k + 1) * p.cdt);
        PBT_REQUIRE((sim.sys[k].x - x).norm() <= 1e-6 * (1 + x.norm()), "state", "period ", k, " state ", sim.sys[k].x.transpose(), " expected ",
            x.transpose(), " control dt ", p.cdt, " simulation dt ", p.sdt);
    }
    s.label(N >= 2 ? "several-periods" : "short");
    if (N >= 2)
        s.nontrivial();
}
void checkController(Sim& sim)
{
    std::lock_guard<std::mutex> l(sim.m);
    double last = 0;
    for (size_t i = 0; i < sim.ctrl.size(); i++)
    {
        PBT_REQUIRE(sim.ctrl[i].second == (i % 2 ? 'f' : 'p'), "controller-order", "call ", i, " was ", sim.ctrl[i].second);
        PBT_REQUIRE(sim.ctrl[i].first >= last, "controller-time", sim.ctrl[i].first, " after ", last);
        last = sim.ctrl[i].first;
    }
}
}  // namespace

FACET(run, 10)
{
    Quiet q;
    Setup p = draw(s);
    U u;
    u << p.u;
    std::shared_ptr<Controller<2, 1>> c(new ConstantController<2, 1>(u));
    std::shared_ptr<Sys> sys(new Sys(p.c, c));
    Sim sim(p.sdt, p.cdt, p.x0, sys);
    double duration = p.cdt * s.i(2, 5) - 0.5 * p.cdt;
    int mode = s.i(0, 2);
    int runs = s.i(1, 2);
    for (int r = 0; r < runs; r++)
    {
        // every run starts from the initial state again
        sim.sys.clear();
        sim.ctrl.clear();
        if (mode == 0)
            sim.simulate(duration);
        else
            sim.simulate(duration, mode == 1 ? IntegrationType::RK4CT : IntegrationType::EULERCT);
        sim.finish();
        size_t n1 = sim.sys.size(), n2 = sim.ctrl.size();
        checkSystem(s, sim, p, mode == 1, duration);
        checkController(sim);
        std::this_thread::sleep_for(std::chrono::microseconds(300));
        std::lock_guard<std::mutex> l(sim.m);
        PBT_REQUIRE(sim.sys.size() == n1 && sim.ctrl.size() == n2, "finished", "callbacks after finish()");
    }
}
// stop() ends both threads
FACET(stop, 1)
{
    Quiet q;
    Setup p = draw(s);
    U u;
    u << p.u;
    std::shared_ptr<Controller<2, 1>> c(new ConstantController<2, 1>(u));
    std::shared_ptr<Sys> sys(new Sys(p.c, c));
    Sim sim(p.sdt, p.cdt, p.x0, sys);
    bool self = s.b();
    if (self)
        sim.stopAfter = s.i(1, 4);
    auto t0 = std::chrono::steady_clock::now();
    const double duration = 20.0;
    sim.simulate(duration, IntegrationType::RK4CT);
    if (!self)
    {
        std::this_thread::sleep_for(std::chrono::milliseconds(s.i(0, 8)));
        sim.stop();
    }
    sim.finish();
    double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    PBT_REQUIRE(el < 0.9 * duration, "stop", "stopping took ", el, " s");
    if (self)
        PBT_REQUIRE((int)sim.sys.size() == sim.stopAfter, "stop-periods", sim.sys.size(), " periods, stopped in period ", sim.stopAfter);
    checkSystem(s, sim, p, true, duration);
    checkController(sim);
}
// copies are independent and simulate the same thing
FACET(copy, 3)
{
    Quiet q;
    Setup p = draw(s);
    U u;
    u << p.u;
    std::shared_ptr<ConstantController<2, 1>> c(new ConstantController<2, 1>(u));
    std::shared_ptr<Sys> sys(new Sys(p.c, c));
    Sim a(p.sdt, p.cdt, p.x0, sys);
    Sim b(a);
    // changing the original does not change the copy
    u << p.u + 1 + s.real(0, 2);
    c->setControl(u);
    sys->c_.c0 += 1;
    PBT_REQUIRE(b.system() && b.system() != sys, "copy-shares", "system");
    PBT_REQUIRE(b.controller() && b.controller() != c, "copy-shares", "controller");
    double duration = p.cdt * s.i(2, 4) - 0.5 * p.cdt;
    bool rk4 = s.b();
    b.simulate(duration, rk4 ? IntegrationType::RK4CT : IntegrationType::EULERCT);
    b.finish();
    checkSystem(s, b, p, rk4, duration);
    checkController(b);
}
// step sizes which make no sense are refused
FACET(refuse, 1)
{
    Quiet q;
    Coef c;
    U u0 = U::Zero();
    std::shared_ptr<Controller<2, 1>> ct(new ConstantController<2, 1>(u0));
    std::shared_ptr<Sys> sys(new Sys(c, ct));
    double sdt = s.pick(std::vector<double>{0.0, -0.01, 0.01, 0.005, 0.02}), cdt = s.pick(std::vector<double>{0.0, -0.01, 0.01, 0.005, 0.02});
    bool bad = sdt <= 0 || cdt <= 0 || sdt > cdt, thrown = false;
    X x0 = X::Zero();
    try
    {
        Sim a(sdt, cdt, x0, sys);
    } catch (const std::runtime_error&)
    {
        thrown = true;
    }
    PBT_REQUIRE(thrown == bad, "refuse", "simulation dt ", sdt, " control dt ", cdt, " thrown ", thrown);
    if (bad)
        s.nontrivial();
}
