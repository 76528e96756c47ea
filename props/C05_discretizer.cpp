// C05: discretisation of continuous-time systems
#include "symp.h"
using namespace pbt;
using namespace ct::core;
namespace {
typedef StateVector<4> X;
struct Par
{
    Eigen::Matrix4d A;
    Eigen::Vector4d b;
    double w;
};
Par genPar(Src& s)
{
    Par p;
    p.A = gen::mat<4, 4>(s, 0.7);
    p.b = gen::vec<4>(s, 1);
    p.w = s.real(-2, 2);
    return p;
}
Eigen::Vector4d F(const Par& p, const Eigen::Vector4d& x, double t, double u)
{
    Eigen::Vector4d d = p.A * x + p.b * u;
    d(0) += std::sin(p.w * t) * std::cos(x(1));
    d(3) += 0.3 * t * u;
    return d;
}
struct Sys : public ControlledSystem<4, 1>
{
    Par p;
    Sys(const Par& p) : p(p) {}
    Sys(const Sys& o) : ControlledSystem<4, 1>(o), p(o.p) {}
    Sys* clone() const override { return new Sys(*this); }
    void computeControlledDynamics(const X& x, const double& t, const ControlVector<1>& u, X& d) override { d = F(p, x, t, u(0)); }
};
struct Model
{
    bool symp;
    Par p;
    SympPar sp;
    IntegrationType ty;
    double dt;
    int K;
    Eigen::Vector4d f(const Eigen::Vector4d& x, double t, double u) const { return symp ? sympF(sp, x, u) : F(p, x, t, u); }
    Eigen::Vector4d rk(const Eigen::Vector4d& x, double t, double u, double h) const
    {
        Eigen::Vector4d k1 = f(x, t, u), k2 = f(x + h / 2 * k1, t + h / 2, u), k3 = f(x + h / 2 * k2, t + h / 2, u),
                        k4 = f(x + h * k3, t + h, u);
        return x + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4);
    }
    //! the state one sampling interval later; tol is set for methods compared against the exact solution
    Eigen::Vector4d next(Eigen::Vector4d x, int n, double u, double& tol) const
    {
        double h = dt / K;
        tol = 1e-10;
        if (ty == RK_SYM)
        {
            tol = 2.0 * K * std::pow(h, 4) * (2 + x.norm()) + 1e-10;
            return sympExact(sp, x, u, dt);
        }
        if (ty == ODE45)
        {
            tol = 1e-4 * (1 + x.norm());
            int N = 40 * K;
            for (int i = 0; i < N; i++)
                x = rk(x, n * dt + i * dt / N, u, dt / N);
            return x;
        }
        for (int k = 0; k < K; k++)
        {
            double t = n * dt + k * h;
            if (ty == EULER || ty == EULERCT)
                x += h * f(x, t, u);
            else if (ty == EULER_SYM)
                x = sympEuler(sp, x, u, h);
            else
                x = rk(x, t, u, h);
        }
        return x;
    }
};
typedef SystemDiscretizer<4, 1, 2, 2> SD;
IntegrationType genType(Src& s, bool symp)
{
    if (symp)
        return s.pick(std::vector<IntegrationType>{EULER_SYM, RK_SYM, RK4CT, EULER, RK4, EULERCT, ODE45});
    return s.pick(std::vector<IntegrationType>{RK4, EULER, RK4CT, EULERCT, ODE45});
}
void step(Src& s, SD& d, const Model& m, const char* who)
{
    X x, y;
    x = gen::vec<4>(s, 1.5);
    ControlVector<1> u;
    u(0) = s.real(-1, 1);
    int n = s.i(0, 30);
    double tol;
    Eigen::Vector4d ref = m.next(x, n, u(0), tol);
    d.propagateControlledDynamics(x, n, u, y);
    PBT_REQUIRE((y - ref).cwiseAbs().maxCoeff() <= tol * (1 + ref.cwiseAbs().maxCoeff()), "value", who, " type ", (int)m.ty, " K ", m.K, " n ", n, " got ",
        y.transpose(), " expected ", ref.transpose());
    if (m.ty == EULERCT || m.ty == RK4CT)
    {
        size_t cnt = (size_t)m.K * (m.ty == EULERCT ? 1 : 4);
        PBT_REQUIRE(d.getSubstates()->size() == cnt && d.getSubcontrols()->size() == cnt, "substeps", who, " ", d.getSubstates()->size());
        PBT_REQUIRE(mclose((*d.getSubstates())[0], x, 1e-13, 1e-13), "substeps", "first");
        for (auto& v : *d.getSubcontrols())
            PBT_REQUIRE(v == u, "substeps", "control");
    }
}
}  // namespace

FACET(history, 6)
{
    Model m;
    m.p = genPar(s);
    m.sp = genSymp(s);
    m.symp = s.b();
    m.ty = genType(s, m.symp);
    m.dt = s.logreal(1e-3, 0.2);
    m.K = s.i(1, 5);
    ControlVector<1> other;
    other(0) = 17.0;
    std::shared_ptr<Controller<4, 1>> own(new ConstantController<4, 1>(other));
    auto mk = [&]() -> std::shared_ptr<ControlledSystem<4, 1>> {
        std::shared_ptr<ControlledSystem<4, 1>> r;
        if (m.symp)
            r.reset(new SympSys(m.sp));
        else
            r.reset(new Sys(m.p));
        r->setController(own);
        return r;
    };
    auto sys = mk();
    std::unique_ptr<SD> d;
    if (s.b())
        d.reset(new SD(sys, m.dt, m.ty, m.K));
    else
    {
        d.reset(new SD(m.dt, m.ty, m.K));
        d->changeContinuousTimeSystem(sys);
    }
    int ops = s.i(1, 10);
    s.note("symp=", m.symp, " type=", (int)m.ty, " K=", m.K, " dt=", m.dt);
    for (int o = 0; o < ops; o++)
    {
        switch (s.i(0, 6))
        {
            case 0:
                m.dt = s.logreal(1e-3, 0.2);
                m.K = s.i(1, 5);
                d->setParameters(m.dt, m.K);
                s.note("params");
                break;
            case 1:
                m.ty = genType(s, m.symp);
                d->setIntegrationType(m.ty);
                s.note("type ", (int)m.ty);
                s.label("retyped");
                break;
            case 2:
            {  // another system of the same kind
                if (m.symp)
                    m.sp = genSymp(s);
                else
                    m.p = genPar(s);
                sys = mk();
                d->changeContinuousTimeSystem(sys);
                s.note("system");
                break;
            }
            case 3:
            {  // clones are equal and independent
                std::unique_ptr<SD> c(d->clone());
                Model m2 = m;
                step(s, *c, m2, "clone");
                m2.dt = 0.05;
                m2.K = 2;
                c->setParameters(m2.dt, m2.K);
                step(s, *c, m2, "clone");
                step(s, *d, m, "original after clone");
                if (s.b())
                    d.swap(c), m = m2;
                s.label("clone");
                s.note("clone");
                break;
            }
            default:
                break;
        }
        step(s, *d, m, "step");
        PBT_REQUIRE(sys->getController() == own, "side-effect", "the user's system lost its controller");
    }
    s.nontrivial();
}
FACET(closedLoop, 2)
{  // with a discrete-time controller the closed loop applies u = c(x,n)
    struct C : public DiscreteController<4, 1>
    {
        C* clone() const override { return new C(*this); }
        void computeControl(const X& x, const int n, ControlVector<1>& u) override { u(0) = 0.3 * x(0) - 0.1 * x(3) + 0.05 * n; }
    };
    Model m;
    m.symp = false;
    m.p = genPar(s);
    m.ty = genType(s, false);
    m.dt = s.logreal(1e-3, 0.2);
    m.K = s.i(1, 4);
    SD d(std::shared_ptr<ControlledSystem<4, 1>>(new Sys(m.p)), m.dt, m.ty, m.K);
    d.setController(std::shared_ptr<DiscreteController<4, 1>>(new C()));
    std::unique_ptr<SD> cl(d.clone());
    for (SD* y : {&d, cl.get()})
    {
        X x, nx;
        x = gen::vec<4>(s, 1);
        int n = s.i(0, 20);
        y->propagateDynamics(x, n, nx);
        double tol;
        Eigen::Vector4d ref = m.next(x, n, 0.3 * x(0) - 0.1 * x(3) + 0.05 * n, tol);
        PBT_REQUIRE((nx - ref).norm() <= tol * (1 + ref.norm()) * 2, "closed-loop", y == &d ? "original" : "clone");
    }
    s.nontrivial();
}
FACET(refuse, 1)
{  // symplectic stepping of a system that is not symplectic is refused
    SD d(std::shared_ptr<ControlledSystem<4, 1>>(new Sys(genPar(s))), 0.1, s.b() ? EULER_SYM : RK_SYM, s.i(1, 3));
    X x, y;
    x.setZero();
    ControlVector<1> u;
    u.setZero();
    bool threw = false;
    try
    {
        d.propagateControlledDynamics(x, 0, u, y);
    } catch (const std::exception&)
    {
        threw = true;
    }
    PBT_REQUIRE(threw, "refuse", "no exception");
}
