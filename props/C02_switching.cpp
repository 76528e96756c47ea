// C02: mode schedules and switched systems
#include <ct/core/core.h>
#include "gen.h"
using namespace pbt;
using namespace ct::core;

namespace {
template <typename Time>
struct Sched
{
    Time t0;
    std::vector<Time> dur;
    std::vector<size_t> mode;
    std::vector<Time> start;  // size n+1, accumulated as documented
    size_t phase(Time t) const
    {
        size_t k = 0;
        for (size_t i = 0; i < mode.size(); i++)
            if (t >= start[i])
                k = i;
        return k;
    }
};
template <typename Time>
Sched<Time> genSched(Src& s, int nModes, std::function<Time()> dur, Time t0)
{
    Sched<Time> c;
    c.t0 = t0;
    int n = s.i(1, 7);
    c.start.push_back(t0);
    for (int i = 0; i < n; i++)
    {
        c.mode.push_back(s.i(0, nModes - 1));
        c.dur.push_back(dur());
        c.start.push_back(c.start.back() + c.dur.back());
    }
    return c;
}
template <typename Time>
PhaseSequence<size_t, Time> build(const Sched<Time>& c)
{
    PhaseSequence<size_t, Time> q(c.t0);
    for (size_t i = 0; i < c.mode.size(); i++)
        q.addPhase(c.mode[i], c.dur[i]);
    return q;
}
template <typename Time>
void checkSequence(Src& s, const Sched<Time>& c, const PhaseSequence<size_t, Time>& q, std::vector<Time> queries)
{
    size_t n = c.mode.size();
    PBT_REQUIRE(q.getNumPhases() == n && q.getNumSwitches() == n - 1, "count", "phases ", q.getNumPhases());
    PBT_REQUIRE(close(q.getTotalDuration(), c.start.back() - c.start.front(), 1e-12, 1e-12), "duration", q.getTotalDuration());
    PBT_REQUIRE(q.getFirstPhase() == c.mode.front() && q.getFinalPhase() == c.mode.back(), "ends", "first/final phase");
    for (size_t i = 0; i < n; i++)
    {
        PBT_REQUIRE(q.getPhaseFromIdx(i) == c.mode[i], "phase-idx", "i=", i);
        PBT_REQUIRE(close(q.getStartTimeFromIdx(i), c.start[i], 1e-12, 1e-12) && close(q.getEndTimeFromIdx(i), c.start[i + 1], 1e-12, 1e-12),
            "phase-times", "i=", i);
        if (i + 1 < n)
        {
            auto e = q.getSwitchEventFromIdx(i);
            PBT_REQUIRE(e.pre_phase == c.mode[i] && e.post_phase == c.mode[i + 1] && close(e.switch_time, c.start[i + 1], 1e-12, 1e-12),
                "switch", "i=", i);
        }
    }
    Sched<Time> ex = c;
    for (size_t i = 0; i < n; i++)
    {
        ex.start[i] = q.getStartTimeFromIdx(i);
        ex.start[i + 1] = q.getEndTimeFromIdx(i);
    }
    for (Time t : queries)
    {
        size_t k = ex.phase(t);
        PBT_REQUIRE(q.getIdxFromTime(t) == k, "phase-time", "t=", t, " idx ", q.getIdxFromTime(t), " expected ", k);
        PBT_REQUIRE(q.getPhaseFromTime(t) == c.mode[k], "phase-time", "t=", t);
        if (k + 1 < n)
        {
            auto e = q.getSwitchEventFromTime(t);
            PBT_REQUIRE(e.pre_phase == c.mode[k] && e.post_phase == c.mode[k + 1] && e.switch_time == ex.start[k + 1], "switch", "t=", t);
        }
    }
    if (n > 1)
        s.nontrivial();
    s.note("phases=", n);
}
std::vector<double> genTimes(Src& s, const Sched<double>& c)
{
    std::vector<double> v(c.start.begin(), c.start.end());
    for (size_t i = 0; i + 1 < c.start.size(); i++)
        v.push_back(c.start[i] + (c.start[i + 1] - c.start[i]) * s.real(0.01, 0.99));
    v.push_back(c.start.front() - s.logreal(1e-3, 100));
    v.push_back(c.start.back() + s.logreal(1e-3, 100));
    return v;
}
std::vector<int> genSteps(Src& s, const Sched<int>& c)
{
    std::vector<int> v;
    for (int k = c.start.front() - 2; k <= c.start.back() + 2; k++)
        v.push_back(k);
    return v;
}
double dyadic(Src& s) { return s.i(1, 40) / 8.0; }

// nonlinear time-varying subsystem with a parameter that can be changed later
struct Sub : public ControlledSystem<2, 1>
{
    double a;
    Sub(double a) : a(a) {}
    Sub(const Sub& o) : ControlledSystem<2, 1>(o), a(o.a) {}
    Sub* clone() const override { return new Sub(*this); }
    void computeControlledDynamics(const StateVector<2>& x, const double& t, const ControlVector<1>& u, StateVector<2>& d) override
    {
        d = ref(a, x, t, u);
    }
    static Eigen::Vector2d ref(double a, const Eigen::Vector2d& x, double t, const Eigen::Matrix<double, 1, 1>& u)
    {
        return Eigen::Vector2d(x(1) + a * t, std::sin(a * x(0)) + a * u(0));
    }
};
struct DSub : public DiscreteControlledSystem<2, 1>
{
    double a;
    DSub(double a) : a(a) {}
    DSub(const DSub& o) : DiscreteControlledSystem<2, 1>(o), a(o.a) {}
    DSub* clone() const override { return new DSub(*this); }
    void propagateControlledDynamics(const StateVector<2>& x, const int n, const ControlVector<1>& u, StateVector<2>& d) override
    {
        d = Sub::ref(a, x, n, u);
    }
};
template <class F>
struct TCtrl : public Controller<2, 1>
{
    TCtrl* clone() const override { return new TCtrl(*this); }
    void computeControl(const StateVector<2>& x, const double& t, ControlVector<1>& u) override { u(0) = F::f(x, t); }
};
struct CF
{
    static double f(const Eigen::Vector2d& x, double t) { return 0.7 * x(0) - 0.3 * x(1) + 0.1 * t; }
};
struct DCtrl : public DiscreteController<2, 1>
{
    DCtrl* clone() const override { return new DCtrl(*this); }
    void computeControl(const StateVector<2>& x, const int n, ControlVector<1>& u) override { u(0) = CF::f(x, n); }
};
}  // namespace

FACET(sequenceContinuous, 4)
{
    // durations that are not dyadic make the accumulated times inexact: both styles are generated
    bool exact = s.b();
    auto c = genSched<double>(s, 4, [&]() { return exact ? dyadic(s) : s.logreal(1e-3, 10); }, exact ? s.i(-16, 16) / 4.0 : s.real(-5, 5));
    auto q = build(c);
    auto times = genTimes(s, c);
    if (!exact)
    {  // query the switching instants as the schedule itself reports them
        for (size_t i = 0; i < c.start.size(); i++)
            times[i] = i + 1 < c.start.size() ? q.getStartTimeFromIdx(i) : q.getEndTimeFromIdx(i - 1);
    }
    checkSequence<double>(s, c, q, times);
}
FACET(sequenceDiscrete, 3)
{
    auto c = genSched<int>(s, 4, [&]() { return s.i(1, 9); }, s.i(-5, 5));
    auto q = build(c);
    checkSequence<int>(s, c, q, genSteps(s, c));
}
FACET(switchedControlled, 5)
{
    int nm = s.i(1, 4);
    std::vector<double> a;
    SwitchedControlledSystem<2, 1>::SwitchedSystems subs;
    std::vector<std::shared_ptr<Sub>> raw;
    for (int i = 0; i < nm; i++)
    {
        a.push_back(s.real(-2, 2) + 3 * i);
        raw.push_back(std::shared_ptr<Sub>(new Sub(a.back())));
        subs.push_back(raw.back());
    }
    auto c = genSched<double>(s, nm, [&]() { return dyadic(s); }, s.i(-8, 8) / 4.0);
    std::shared_ptr<Controller<2, 1>> ctrl(new TCtrl<CF>());
    bool withCtrl = s.b();
    std::unique_ptr<SwitchedControlledSystem<2, 1>> sys(withCtrl ? new SwitchedControlledSystem<2, 1>(subs, build(c), ctrl)
                                                                 : new SwitchedControlledSystem<2, 1>(subs, build(c)));
    std::vector<double> atClone = a;
    std::unique_ptr<SwitchedControlledSystem<2, 1>> cl(sys->clone());
    if (s.b())
    {  // a later change of a subsystem is seen by the switched system but not by its clone
        int k = s.i(0, nm - 1);
        raw[k]->a += 1.0;
        a[k] += 1.0;
        s.label("mutated");
    }
    for (double t : genTimes(s, c))
    {
        StateVector<2> x;
        x = gen::vec<2>(s, 3);
        ControlVector<1> u;
        u(0) = s.real(-3, 3);
        size_t m = c.mode[c.phase(t)];
        StateVector<2> d;
        sys->computeControlledDynamics(x, t, u, d);
        PBT_REQUIRE(mclose(d, Sub::ref(a[m], x, t, u), 1e-12, 1e-12), "mode", "t=", t, " mode ", m);
        cl->computeControlledDynamics(x, t, u, d);
        PBT_REQUIRE(mclose(d, Sub::ref(atClone[m], x, t, u), 1e-12, 1e-12), "clone", "t=", t, " mode ", m);
        if (withCtrl)
        {
            u(0) = CF::f(x, t);
            sys->computeDynamics(x, t, d);
            PBT_REQUIRE(mclose(d, Sub::ref(a[m], x, t, u), 1e-12, 1e-12), "closed-loop", "t=", t);
            cl->computeDynamics(x, t, d);
            PBT_REQUIRE(mclose(d, Sub::ref(atClone[m], x, t, u), 1e-12, 1e-12), "closed-loop", "clone t=", t);
        }
    }
    s.note("modes=", nm, " phases=", c.mode.size());
    if (c.mode.size() > 1 && nm > 1)
        s.nontrivial();
}
FACET(switchedDiscrete, 5)
{
    int nm = s.i(1, 4);
    std::vector<double> a;
    SwitchedDiscreteControlledSystem<2, 1>::SwitchedSystems subs;
    std::vector<std::shared_ptr<DSub>> raw;
    for (int i = 0; i < nm; i++)
    {
        a.push_back(s.real(-2, 2) + 3 * i);
        raw.emplace_back(new DSub(a.back()));
        subs.push_back(raw.back());
    }
    auto c = genSched<int>(s, nm, [&]() { return s.i(1, 6); }, s.i(-4, 4));
    std::shared_ptr<DiscreteController<2, 1>> ctrl(new DCtrl());
    SwitchedDiscreteControlledSystem<2, 1> sys(subs, build(c), ctrl);
    std::unique_ptr<SwitchedDiscreteControlledSystem<2, 1>> cl(sys.clone());
    std::vector<double> ac = a;
    if (s.b())
    {
        int k = s.i(0, nm - 1);
        raw[k]->a += 1.0;
        a[k] += 1.0;
        s.label("mutated");
    }
    for (int n : genSteps(s, c))
    {
        StateVector<2> x, d;
        x = gen::vec<2>(s, 3);
        ControlVector<1> u;
        u(0) = s.real(-3, 3);
        size_t m = c.mode[c.phase(n)];
        sys.propagateControlledDynamics(x, n, u, d);
        PBT_REQUIRE(mclose(d, Sub::ref(a[m], x, n, u), 1e-12, 1e-12), "mode", "n=", n, " mode ", m);
        cl->propagateControlledDynamics(x, n, u, d);
        PBT_REQUIRE(mclose(d, Sub::ref(ac[m], x, n, u), 1e-12, 1e-12), "clone", "n=", n, " mode ", m);
        u(0) = CF::f(x, n);
        sys.propagateDynamics(x, n, d);
        PBT_REQUIRE(mclose(d, Sub::ref(a[m], x, n, u), 1e-12, 1e-12), "closed-loop", "n=", n);
        cl->propagateDynamics(x, n, d);
        PBT_REQUIRE(mclose(d, Sub::ref(ac[m], x, n, u), 1e-12, 1e-12), "closed-loop", "clone n=", n);
    }
    if (c.mode.size() > 1 && nm > 1)
        s.nontrivial();
}
FACET(switchedLinear, 5)
{
    int nm = s.i(1, 4);
    std::vector<Eigen::Matrix2d> A;
    std::vector<Eigen::Vector2d> B;
    SwitchedLinearSystem<2, 1>::SwitchedLinearSystems subs;
    SwitchedDiscreteLinearSystem<2, 1>::SwitchedLinearSystems dsubs;
    std::vector<std::shared_ptr<LTISystem<2, 1>>> raw;
    std::vector<std::shared_ptr<DiscreteLTISystem<2, 1>>> draw;
    for (int i = 0; i < nm; i++)
    {
        A.push_back(gen::mat<2, 2>(s, 2) + Eigen::Matrix2d::Identity() * 5 * i);
        B.push_back(gen::mat<2, 1>(s, 2) + Eigen::Vector2d::Ones() * 5 * i);
        raw.emplace_back(new LTISystem<2, 1>(A.back(), B.back()));
        draw.emplace_back(new DiscreteLTISystem<2, 1>(A.back(), B.back()));
        subs.push_back(raw.back());
        dsubs.push_back(draw.back());
    }
    auto c = genSched<double>(s, nm, [&]() { return dyadic(s); }, s.i(-8, 8) / 4.0);
    auto cd = genSched<int>(s, nm, [&]() { return s.i(1, 6); }, s.i(-4, 4));
    SwitchedLinearSystem<2, 1> sys(subs, build(c));
    SwitchedDiscreteLinearSystem<2, 1> dsys(dsubs, build(cd));
    std::unique_ptr<SwitchedLinearSystem<2, 1>> cl(sys.clone());
    std::unique_ptr<SwitchedDiscreteLinearSystem<2, 1>> dcl(dsys.clone());
    auto Ac = A;
    auto Bc = B;
    if (s.b())
    {  // a later change of a subsystem is seen by the switched systems but not by their clones
        int k = s.i(0, nm - 1);
        A[k](0, 1) += 1.5;
        B[k](1) -= 1.5;
        raw[k]->A() = A[k], raw[k]->B() = B[k];
        draw[k]->A() = A[k], draw[k]->B() = B[k];
        s.label("mutated");
    }
    StateVector<2> x, d;
    ControlVector<1> u;
    for (double t : genTimes(s, c))
    {
        x = gen::vec<2>(s, 3);
        u(0) = s.real(-3, 3);
        size_t m = c.mode[c.phase(t)];
        for (auto* y : {&sys, cl.get()})
        {
            auto& A_ = y == &sys ? A : Ac;
            auto& B_ = y == &sys ? B : Bc;
            y->computeControlledDynamics(x, t, u, d);
            PBT_REQUIRE(mclose(d, A_[m] * x + B_[m] * u, 1e-12, 1e-12), "mode", "linear t=", t, " mode ", m);
            PBT_REQUIRE(mclose(y->getDerivativeState(x, u, t), A_[m], 0, 1e-13), "mode", "A t=", t);
            PBT_REQUIRE(mclose(y->getDerivativeControl(x, u, t), B_[m], 0, 1e-13), "mode", "B t=", t);
        }
    }
    for (int n : genSteps(s, cd))
    {
        x = gen::vec<2>(s, 3);
        u(0) = s.real(-3, 3);
        size_t m = cd.mode[cd.phase(n)];
        for (auto* y : {&dsys, dcl.get()})
        {
            auto& A_ = y == &dsys ? A : Ac;
            auto& B_ = y == &dsys ? B : Bc;
            y->propagateControlledDynamics(x, n, u, d);
            PBT_REQUIRE(mclose(d, A_[m] * x + B_[m] * u, 1e-12, 1e-12), "mode", "discrete linear n=", n, " mode ", m);
            StateMatrix<2> AA;
            StateControlMatrix<2, 1> BB;
            y->getAandB(x, u, x, n, 1, AA, BB);
            PBT_REQUIRE(mclose(AA, A_[m], 0, 1e-13) && mclose(BB, B_[m], 0, 1e-13), "mode", "getAandB n=", n);
            y->getAandB(x, u, n, AA, BB);
            PBT_REQUIRE(mclose(AA, A_[m], 0, 1e-13) && mclose(BB, B_[m], 0, 1e-13), "mode", "getAandB n=", n);
        }
    }
    if (c.mode.size() > 1 && nm > 1)
        s.nontrivial();
}
