// C03: numerical integrators against reference solutions
#include <ct/core/core.h>
#include "gen.h"
using namespace pbt;
using namespace ct::core;

namespace {
typedef Eigen::Vector3d V;
typedef StateVector<3> X;
struct Par
{
    Eigen::Matrix3d A;
    V b, k;
    double w, ph, nl, kt;
};
Par genPar(Src& s)
{
    Par p;
    p.A = gen::mat<3, 3>(s, 0.8);
    p.b = gen::vec<3>(s, 1.0);
    p.b(0) = s.ureal(0.5, 1.0);
    p.k = gen::vec<3>(s, 0.5);
    p.w = s.ureal(1.0, 3.0);
    p.ph = s.ureal(0, 3);
    p.nl = s.real(-0.5, 0.5);
    p.kt = s.real(-0.5, 0.5);
    return p;
}
double ctrl(const Par& p, const V& x, double t) { return p.k.dot(x) + p.kt * t; }
V dyn(const Par& p, const V& x, double t, double u)
{
    V d = p.A * x + p.b * std::sin(p.w * t + p.ph);
    d(0) += p.nl * std::sin(x(1)) * x(2) / (1 + x(2) * x(2));
    d(1) += p.nl * std::cos(x(0) + t);
    d(2) += u;
    return d;
}
struct Sys : public ControlledSystem<3, 1>
{
    Par p;
    std::vector<double>* calls = nullptr;
    Sys(const Par& p, std::shared_ptr<Controller<3, 1>> c) : ControlledSystem<3, 1>(c), p(p) {}
    Sys* clone() const override { return new Sys(*this); }
    void computeControlledDynamics(const X& x, const double& t, const ControlVector<1>& u, X& d) override
    {
        if (calls)
            calls->push_back(t);
        d = dyn(p, x, t, u(0));
    }
};
struct Ctrl : public Controller<3, 1>
{
    Par p;
    Ctrl(const Par& p) : p(p) {}
    Ctrl* clone() const override { return new Ctrl(*this); }
    void computeControl(const X& x, const double& t, ControlVector<1>& u) override { u(0) = ctrl(p, x, t); }
};
V f(const Par& p, const V& x, double t) { return dyn(p, x, t, ctrl(p, x, t)); }
V rk4(const Par& p, const V& x, double t, double h)
{
    V k1 = f(p, x, t), k2 = f(p, x + h / 2 * k1, t + h / 2), k3 = f(p, x + h / 2 * k2, t + h / 2), k4 = f(p, x + h * k3, t + h);
    return x + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4);
}
V euler(const Par& p, const V& x, double t, double h) { return x + h * f(p, x, t); }
V midpoint(const Par& p, const V& x, double t, double h)
{
    V x1 = x + h / 2 * f(p, x, t);
    V x2 = x + h * f(p, x1, t + h / 2);
    return 0.5 * (x1 + x2 + h / 2 * f(p, x2, t + h));
}
//! accurate solution
V exact(const Par& p, V x, double t0, double t1)
{
    int n = std::max(1, (int)std::ceil(std::fabs(t1 - t0) / 2e-3));
    double h = (t1 - t0) / n;
    for (int i = 0; i < n; i++)
        x = rk4(p, x, t0 + i * h, h);
    return x;
}
V stepRef(IntegrationType ty, const Par& p, const V& x, double t, double h)
{
    switch (ty)
    {
        case EULER:
        case EULERCT:
            return euler(p, x, t, h);
        case RK4:
        case RK4CT:
            return rk4(p, x, t, h);
        default:
            return midpoint(p, x, t, h);
    }
}
std::shared_ptr<Sys> makeSys(const Par& p) { return std::shared_ptr<Sys>(new Sys(p, std::shared_ptr<Controller<3, 1>>(new Ctrl(p)))); }

struct Counter : public EventHandler<3>
{
    bool sub;
    std::vector<double> t;
    std::vector<V> x;
    int resets = 0, mod = 1, seen = 0;
    Counter(bool sub) : sub(sub) {}
    bool callOnSubsteps() override { return sub; }
    void reset() override
    {
        resets++;
        seen = 0;
        t.clear();
        x.clear();
    }
    bool checkEvent(const X& s, const double& tt) override { return ++seen % mod == 0; }
    void handleEvent(const X& s, const double& tt) override
    {
        t.push_back(tt);
        x.push_back(s);
    }
};
const std::vector<IntegrationType> FIXED = {EULERCT, RK4CT, EULER, RK4, MODIFIED_MIDPOINT};
const std::vector<IntegrationType> ADAPT = {ODE45, RK5VARIABLE, BULIRSCHSTOER};
bool isCT(IntegrationType t) { return t == EULERCT || t == RK4CT; }
}  // namespace

FACET(fixedStep, 6)
{  // n equal steps of the named method, from any start time; recorded samples are the intermediate states
    Par p = genPar(s);
    auto sys = makeSys(p);
    auto ty = s.pick(FIXED);
    X x0, x;
    x0 = gen::vec<3>(s, 2);
    x = x0;
    double t0 = s.real(-3, 3), dt = s.logreal(1e-3, 0.3);
    int n = s.i(1, 25);
    s.note("type=", (int)ty, " n=", n, " dt=", dt, " t0=", t0);
    std::vector<V> ref = {x0};
    for (int i = 0; i < n; i++)
        ref.push_back(stepRef(ty, p, ref.back(), t0 + i * dt, dt));
    auto ev = std::shared_ptr<Counter>(new Counter(false));
    auto evs = std::shared_ptr<Counter>(new Counter(true));
    Integrator<3>::EventHandlerPtrVector hs;
    hs.push_back(ev);
    hs.push_back(evs);
    Integrator<3> integ(sys, ty, hs);
    bool log = s.b();
    if (log)
    {
        StateVectorArray<3> xs;
        TimeArray ts;
        integ.integrate_n_steps(x, t0, n, dt, xs, ts);
        PBT_REQUIRE(xs.size() == ts.size(), "log", "sizes differ");
        int off = xs.size() == (size_t)n + 1 ? 0 : 1;
        PBT_REQUIRE((int)xs.size() == n + 1 - off && (off == 0 || isCT(ty)), "log", "recorded ", xs.size(), " samples of ", n, " steps");
        for (size_t i = 0; i < xs.size(); i++)
            PBT_REQUIRE(close(ts[i], t0 + (i + off) * dt, 1e-9, 1e-9) && mclose(xs[i], ref[i + off], 1e-10, 1e-10), "log", "sample ", i);
        s.label("logged");
    }
    else
        integ.integrate_n_steps(x, t0, n, dt);
    PBT_REQUIRE(mclose(x, ref.back(), 1e-10, 1e-10), "value", "type ", (int)ty, " got ", x.transpose(), " expected ", ref.back().transpose());
    // step observers see every step end with its time
    PBT_REQUIRE(ev->t.size() == (size_t)n + (isCT(ty) && ev->t.size() != (size_t)n + 1 ? 0 : 1), "observer", "called ", ev->t.size(), " times, n=", n);
    PBT_REQUIRE(close(ev->t.back(), t0 + n * dt, 1e-9, 1e-9) && mclose(ev->x.back(), ref.back(), 1e-10, 1e-10), "observer", "last");
    if (ty == EULERCT || ty == RK4CT)
        PBT_REQUIRE(evs->t.size() == (size_t)n * (ty == EULERCT ? 1 : 4), "observer", "substeps ", evs->t.size());
    if (n > 1)
        s.nontrivial();
}

FACET(accuracy, 4)
{  // every method converges to the true solution; higher-order and adaptive ones are accurate
    Par p = genPar(s);
    auto sys = makeSys(p);
    X x0, x;
    x0 = gen::vec<3>(s, 2);
    x = x0;
    double t0 = s.real(-2, 2), T = s.real(0.1, 2.0);
    int which = s.i(0, 4);
    s.note("which=", which, " T=", T);
    V ref = exact(p, x0, t0, t0 + T);
    double sc = 1 + ref.norm() + x0.norm();
    if (which == 0)
    {  // RK78 with fixed steps
        int n = 20;
        Integrator<3> integ(sys, RK78);
        integ.integrate_n_steps(x, t0, n, T / n);
        PBT_REQUIRE((x - ref).norm() < 1e-8 * sc, "accuracy", "RK78 err ", (x - ref).norm());
    }
    else if (which == 1)
    {  // constant stepping up to a final time
        auto ty = s.pick(std::vector<IntegrationType>{RK4, RK78, MODIFIED_MIDPOINT, EULER, ODE45, RK5VARIABLE, BULIRSCHSTOER});
        int n = 64;
        double dt = T / n * (1 - 1e-9);
        Integrator<3> integ(sys, ty);
        StateVectorArray<3> xs;
        TimeArray ts;
        if (s.b())
        {
            integ.integrate_const(x, t0, t0 + T, dt, xs, ts);
            PBT_REQUIRE(xs.size() == ts.size() && xs.size() == (size_t)n + 1, "log", "const: ", xs.size(), " samples");
            for (size_t i = 0; i < ts.size(); i++)
                PBT_REQUIRE(close(ts[i], t0 + i * dt, 1e-8, 1e-8), "log", "const time ", i);
            PBT_REQUIRE(mclose(xs.back(), x, 1e-12, 1e-12), "log", "const final state");
            int k = s.i(0, n);
            V rk = exact(p, x0, t0, ts[k]);
            double tol = ty == EULER ? 0.5 : (ty == MODIFIED_MIDPOINT ? 2e-2 : 1e-5);
            PBT_REQUIRE((xs[k] - rk).norm() < tol * sc, "accuracy", "const sample ", k, " err ", (xs[k] - rk).norm());
        }
        else
            integ.integrate_const(x, t0, t0 + T, dt);
        double tol = ty == EULER ? 0.5 : (ty == MODIFIED_MIDPOINT ? 2e-2 : 1e-5);
        PBT_REQUIRE((x - ref).norm() < tol * sc, "accuracy", "const type ", (int)ty, " err ", (x - ref).norm());
    }
    else if (which == 2)
    {  // adaptive stepping
        auto ty = s.pick(ADAPT);
        Integrator<3> integ(sys, ty);
        double dt0 = s.logreal(1e-3, 0.2);
        StateVectorArray<3> xs;
        TimeArray ts;
        if (s.b())
        {
            integ.integrate_adaptive(x, t0, t0 + T, xs, ts, dt0);
            PBT_REQUIRE(xs.size() == ts.size() && xs.size() >= 2, "log", "adaptive sizes ", xs.size());
            PBT_REQUIRE(close(ts.front(), t0, 1e-12, 1e-12) && close(ts.back(), t0 + T, 1e-9, 1e-9), "log", "adaptive ends ", ts.back());
            PBT_REQUIRE(mclose(xs.front(), x0, 1e-12, 1e-12) && mclose(xs.back(), x, 1e-12, 1e-12), "log", "adaptive end states");
            for (size_t i = 1; i < ts.size(); i++)
                PBT_REQUIRE(ts[i] > ts[i - 1], "log", "adaptive times not increasing");
            int k = s.i(0, (int)xs.size() - 1);
            V rk = exact(p, x0, t0, ts[k]);
            PBT_REQUIRE((xs[k] - rk).norm() < 1e-4 * sc, "accuracy", "adaptive sample err ", (xs[k] - rk).norm());
        }
        else
            integ.integrate_adaptive(x, t0, t0 + T, dt0);
        double tol = ty == BULIRSCHSTOER ? 1e-4 : 2e-6;
        PBT_REQUIRE((x - ref).norm() < tol * sc, "accuracy", "adaptive type ", (int)ty, " err ", (x - ref).norm());
    }
    else if (which == 3)
    {  // output at given times
        auto ty = s.pick(std::vector<IntegrationType>{ODE45, RK5VARIABLE, BULIRSCHSTOER, RK4, RK78});
        TimeArray ts;
        double t = t0;
        int n = s.i(2, 8);
        for (int i = 0; i < n; i++)
        {
            ts.push_back(t);
            t += s.ureal(0.02, 0.4);
        }
        StateVectorArray<3> xs;
        Integrator<3> integ(sys, ty);
        integ.integrate_times(x, ts, xs, 0.01);
        PBT_REQUIRE((int)xs.size() == n, "log", "times: ", xs.size(), " of ", n);
        for (int i = 0; i < n; i++)
        {
            V rk = exact(p, x0, t0, ts[i]);
            PBT_REQUIRE((xs[i] - rk).norm() < 1e-4 * (1 + rk.norm() + x0.norm()), "accuracy", "times type ", (int)ty, " sample ", i, " err ",
                (xs[i] - rk).norm());
        }
    }
    else
    {  // tolerances are obeyed
        auto ty = s.b() ? ODE45 : RK5VARIABLE;
        T = std::max(T, 1.0);
        ref = exact(p, x0, t0, t0 + T);
        Integrator<3> loose(sys, ty), tight(sys, ty);
        double tl = s.logreal(1e-4, 1e-3), tt = s.logreal(1e-12, 1e-10), tz = 1e-13;
        int mode = s.i(0, 2);  // which of the two tolerances makes the difference
        s.note("tolerance mode=", mode);
        loose.setApadativeErrorTolerances(mode == 2 ? tz : tl, mode == 1 ? tz : tl);
        tight.setApadativeErrorTolerances(mode == 2 ? tz : tt, mode == 1 ? tz : tt);
        StateVectorArray<3> xl, xt;
        TimeArray al, at;
        X a = x0, b = x0;
        loose.integrate_adaptive(a, t0, t0 + T, xl, al);
        tight.integrate_adaptive(b, t0, t0 + T, xt, at);
        PBT_REQUIRE(at.size() > al.size(), "tolerance", "tight tolerance took ", at.size(), " samples, loose ", al.size());
        PBT_REQUIRE((b - ref).norm() < 1e-7 * sc, "tolerance", "tight err ", (b - ref).norm());
        PBT_REQUIRE((a - ref).norm() < 1e-1 * sc, "tolerance", "loose err ", (a - ref).norm());
    }
    s.nontrivial();
}

FACET(reuse, 4)
{  // a reused or re-typed integrator behaves like a new one
    Par p = genPar(s);
    auto sys = makeSys(p);
    auto all = std::vector<IntegrationType>{EULERCT, RK4CT, EULER, RK4, MODIFIED_MIDPOINT, RK78, ODE45, RK5VARIABLE, BULIRSCHSTOER};
    auto ty = s.pick(all);
    Integrator<3> integ(sys, ty);
    int ops = s.i(2, 6);
    for (int o = 0; o < ops; o++)
    {
        if (s.p(1, 3))
        {
            ty = s.pick(all);
            integ.changeIntegrationType(ty);
        }
        Integrator<3> fresh(sys, ty);
        X a, b;
        a = gen::vec<3>(s, 2);
        b = a;
        double t0 = s.real(-3, 3), T = s.real(0.05, 1.0);
        int kind = isCT(ty) ? s.i(0, 1) : s.i(0, 5);
        StateVectorArray<3> xa, xb;
        TimeArray ta, tb;
        s.note((int)ty, "/", kind);
        switch (kind)
        {
            case 0:
                integ.integrate_n_steps(a, t0, 7, T / 7);
                fresh.integrate_n_steps(b, t0, 7, T / 7);
                break;
            case 1:
                integ.integrate_n_steps(a, t0, 7, T / 7, xa, ta);
                fresh.integrate_n_steps(b, t0, 7, T / 7, xb, tb);
                break;
            case 2:
                integ.integrate_const(a, t0, t0 + T, T / 5.5, xa, ta);
                fresh.integrate_const(b, t0, t0 + T, T / 5.5, xb, tb);
                break;
            case 3:
                integ.integrate_adaptive(a, t0, t0 + T, xa, ta);
                fresh.integrate_adaptive(b, t0, t0 + T, xb, tb);
                break;
            case 4:
                integ.integrate_adaptive(a, t0, t0 + T, 0.03);
                fresh.integrate_adaptive(b, t0, t0 + T, 0.03);
                break;
            case 5:
            {
                TimeArray at;
                for (int i = 0; i <= 4; i++)
                    at.push_back(t0 + i * T / 4);
                integ.integrate_times(a, at, xa, 0.02);
                fresh.integrate_times(b, at, xb, 0.02);
                PBT_REQUIRE(xa.size() == 5, "reuse", "integrate_times returned ", xa.size(), " samples of 5");
                ta = at;
                tb = at;
                break;
            }
        }
        PBT_REQUIRE(mclose(a, b, 1e-13, 1e-13), "reuse", "type ", (int)ty, " kind ", kind, " ", (a - b).norm());
        PBT_REQUIRE(xa.size() == xb.size() && ta.size() == tb.size(), "reuse", "sizes ", xa.size(), " ", xb.size());
        for (size_t i = 0; i < xa.size(); i++)
            PBT_REQUIRE(mclose(xa[i], xb[i], 1e-13, 1e-13) && close(ta[i], tb[i], 1e-13, 1e-13), "reuse", "sample ", i);
    }
    s.nontrivial();
}

FACET(handlers, 2)
{  // built-in event handlers
    Par p = genPar(s);
    auto sys = makeSys(p);
    auto ty = s.pick(FIXED);
    int n = s.i(1, 12);
    double dt = 0.01, t0 = s.real(-1, 1);
    X x;
    x = gen::vec<3>(s, 2);
    X x0 = x;
    int which = s.i(0, 4);
    if (which == 3)
    {  // any number of handlers, each served at every step (or substep) at which its own condition holds, in every run
        int m = s.i(1, 4);
        std::vector<std::shared_ptr<Counter>> cs;
        Integrator<3>::EventHandlerPtrVector hs;
        for (int i = 0; i < m; i++)
        {
            cs.push_back(std::shared_ptr<Counter>(new Counter(s.p(1, 3))));
            cs.back()->mod = s.i(1, 3);
            hs.push_back(cs.back());
        }
        auto es = std::shared_ptr<Counter>(new Counter(false)), eb = std::shared_ptr<Counter>(new Counter(true));
        Integrator<3> integ(sys, ty, hs), ps(sys, ty, es), pb(sys, ty, eb);
        int runs = s.i(1, 3);
        for (int r = 0; r < runs; r++)
        {
            int nn = s.i(1, 8);
            bool log = s.b();
            StateVectorArray<3> xs;
            TimeArray ts;
            X a = x0, b = x0, c = x0;
            if (log)
                integ.integrate_n_steps(a, t0, nn, dt, xs, ts);
            else
                integ.integrate_n_steps(a, t0, nn, dt);
            ps.integrate_n_steps(b, t0, nn, dt);
            pb.integrate_n_steps(c, t0, nn, dt);
            PBT_REQUIRE(!log || xs.size() == es->t.size(), "handlers", "run ", r, " logged ", xs.size(), " of ", es->t.size());
            for (int i = 0; i < m; i++)
            {
                auto& refc = cs[i]->sub ? eb : es;
                std::vector<double> want;
                for (size_t j = 0; j < refc->t.size(); j++)
                    if ((j + 1) % cs[i]->mod == 0)
                        want.push_back(refc->t[j]);
                PBT_REQUIRE(cs[i]->t.size() == want.size(), "handlers", "run ", r, " handler ", i, " of ", m, " served ", cs[i]->t.size(), " times instead of ", want.size());
                for (size_t j = 0; j < want.size(); j++)
                    PBT_REQUIRE(cs[i]->t[j] == want[j], "handlers", "run ", r, " handler ", i, " event ", j);
            }
        }
        s.label("several-handlers");
    }
    else if (which == 4)
    {  // the kill handler ends a run exactly after it was armed during that run; the next run starts disarmed and its log is its own
        struct Killer : public Counter
        {
            std::shared_ptr<KillIntegrationEventHandler<3>> k;
            size_t at = 0;
            bool disarm = false;
            Killer() : Counter(false) {}
            void handleEvent(const X& s, const double& tt) override
            {
                Counter::handleEvent(s, tt);
                if (at && t.size() == at)
                    k->setEvent();
                if (at && t.size() == at && disarm)
                    k->resetEvent();
            }
        };
        auto kl = std::shared_ptr<Killer>(new Killer);
        kl->k = std::shared_ptr<KillIntegrationEventHandler<3>>(new KillIntegrationEventHandler<3>);
        Integrator<3>::EventHandlerPtrVector hs;
        hs.push_back(kl);
        hs.push_back(kl->k);
        auto es = std::shared_ptr<Counter>(new Counter(false));
        Integrator<3> integ(sys, ty, hs), probe(sys, ty, es);
        X y = x0;
        StateVectorArray<3> rx;
        TimeArray rt;
        probe.integrate_n_steps(y, t0, n, dt, rx, rt);
        int runs = s.i(2, 4);
        for (int r = 0; r < runs; r++)
        {
            kl->at = s.b() ? s.i(1, n + 3) : 0;
            kl->disarm = s.p(1, 4);
            bool expect = kl->at && !kl->disarm && kl->at <= es->t.size(), threw = false;
            StateVectorArray<3> xs;
            TimeArray ts;
            x = x0;
            try
            {
                integ.integrate_n_steps(x, t0, n, dt, xs, ts);
            } catch (const std::exception&)
            {
                threw = true;
            }
            PBT_REQUIRE(threw == expect, "kill", "run ", r, " armed at ", kl->at, " of ", es->t.size(), " ended by the handler: ", threw);
            PBT_REQUIRE(kl->t.size() == (threw ? kl->at : es->t.size()), "kill", "run ", r, " steps observed ", kl->t.size());
            if (!threw)
            {
                PBT_REQUIRE(xs.size() == rx.size() && ts.size() == rt.size(), "kill", "run ", r, " recorded ", xs.size(), " samples instead of ", rx.size());
                for (size_t i = 0; i < xs.size(); i++)
                    PBT_REQUIRE(mclose(xs[i], rx[i], 1e-13, 1e-13) && ts[i] == rt[i], "kill", "run ", r, " sample ", i);
                PBT_REQUIRE(mclose(x, y, 1e-13, 1e-13), "kill", "run ", r, " final state");
            }
        }
        s.label("kill");
    }
    else if (which == 0)
    {  // the step limit stops exactly the integrations that observe more steps than allowed; every run starts from zero
        size_t maxn = s.i(1, 14);
        std::shared_ptr<MaxStepsEventHandler<3>> h(new MaxStepsEventHandler<3>(maxn));
        Integrator<3> integ(sys, ty, h);
        auto ev = std::shared_ptr<Counter>(new Counter(false));
        Integrator<3> probe(sys, ty, ev);
        X y = x0;
        probe.integrate_n_steps(y, t0, n, dt);
        bool expect = ev->t.size() > maxn;
        for (int r = 0; r < 2; r++)
        {
            bool threw = false;
            x = x0;
            try
            {
                integ.integrate_n_steps(x, t0, n, dt);
            } catch (const std::exception&)
            {
                threw = true;
            }
            PBT_REQUIRE(threw == expect, "max-steps", "run ", r, " steps ", ev->t.size(), " limit ", maxn, " threw ", threw);
        }
    }
    else if (which == 1)
    {  // substep recorder: states and the controls applied there
        std::shared_ptr<SubstepRecorder<3, 1>> rec(new SubstepRecorder<3, 1>(sys));
        auto evs = std::shared_ptr<Counter>(new Counter(true));
        Integrator<3>::EventHandlerPtrVector hs;
        hs.push_back(rec);
        hs.push_back(evs);
        Integrator<3> integ(sys, s.b() ? EULERCT : RK4CT, hs);
        integ.integrate_n_steps(x, t0, n, dt);
        if (s.b())
        {
            x = x0;
            integ.integrate_n_steps(x, t0, n, dt);
        }
        auto xs = rec->getSubstates();
        auto us = rec->getSubcontrols();
        PBT_REQUIRE(xs->size() == evs->t.size() && us->size() == xs->size(), "recorder", "sizes ", xs->size(), " ", us->size(), " ", evs->t.size());
        for (size_t i = 0; i < xs->size(); i++)
        {
            PBT_REQUIRE(mclose((*xs)[i], evs->x[i], 1e-13, 1e-13), "recorder", "state ", i);
            PBT_REQUIRE(close((*us)[i](0), ctrl(p, evs->x[i], evs->t[i]), 1e-12, 1e-12), "recorder", "control ", i);
        }
        rec->setEnable(false);
        x = x0;
        integ.integrate_n_steps(x, t0, n, dt);
        PBT_REQUIRE(rec->getSubstates()->size() == 0, "recorder", "disabled recorder recorded");
    }
    else
    {  // symplectic types are refused
        bool threw = false;
        try
        {
            Integrator<3> integ(sys, s.b() ? EULER_SYM : RK_SYM);
        } catch (const std::exception&)
        {
            threw = true;
        }
        PBT_REQUIRE(threw, "unknown-type", "type without stepper accepted");
    }
    s.nontrivial();
}
