// C09: controllers and the systems that carry them
#include "gen.h"
#include <ct/core/core.h>
using namespace pbt;
using namespace ct::core;
namespace {
typedef StateVector<3> X;
typedef ControlVector<2> U;
typedef FeedbackMatrix<3, 2> K;
X genX(Src& s)
{
    X x;
    x = gen::vec<3>(s, 3);
    return x;
}
U genU(Src& s)
{
    U u;
    u = gen::vec<2>(s, 3);
    return u;
}
K genK(Src& s)
{
    K k;
    k = gen::mat<2, 3>(s, 3);
    return k;
}
//! reference model of a sampled time-varying feedback law
struct Model
{
    std::vector<X, Eigen::aligned_allocator<X>> x;
    std::vector<U, Eigen::aligned_allocator<U>> u;
    std::vector<K, Eigen::aligned_allocator<K>> k;
    std::vector<double> tx, tu;
    InterpolationType type;
    template <class V>
    typename V::value_type at(const V& v, const std::vector<double>& t, double q) const
    {
        if (q <= t.front() || v.size() == 1)
            return v.front();
        if (q >= t[v.size() - 1])
            return v[v.size() - 1];
        int i = 0;
        while (t[i + 1] <= q)
            i++;
        if (type == ZOH)
            return v[i];
        double a = (q - t[i]) / (t[i + 1] - t[i]);
        typename V::value_type r;
        r = (1 - a) * v[i] + a * v[i + 1];
        return r;
    }
    U control(const X& xx, double q) const
    {
        U r;
        r = at(u, tu, q) + at(k, tu, q) * (xx - at(x, tx, q));
        return r;
    }
};
struct Sfc
{
    Model m;
    std::unique_ptr<StateFeedbackController<3, 2>> c;
};
void draw(Src& s, Model& m, int n, bool square)
{
    m.x.clear();
    m.u.clear();
    m.k.clear();
    for (int i = 0; i < n + (square ? 0 : 1); i++)
        m.x.push_back(genX(s));
    for (int i = 0; i < n; i++)
    {
        m.u.push_back(genU(s));
        m.k.push_back(genK(s));
    }
}
StateVectorArray<3> XA(const Model& m)
{
    StateVectorArray<3> a;
    for (auto& v : m.x)
        a.push_back(v);
    return a;
}
ControlVectorArray<2> UA(const Model& m)
{
    ControlVectorArray<2> a;
    for (auto& v : m.u)
        a.push_back(v);
    return a;
}
FeedbackArray<3, 2> KA(const Model& m)
{
    FeedbackArray<3, 2> a;
    for (auto& v : m.k)
        a.push_back(v);
    return a;
}
struct Plant : public ControlledSystem<3, 2>
{
    Eigen::Matrix3d A;
    Eigen::Matrix<double, 3, 2> B;
    Plant() {}
    Plant(std::shared_ptr<Controller<3, 2>> c) : ControlledSystem<3, 2>(c) {}
    Plant(const Plant& o) : ControlledSystem<3, 2>(o), A(o.A), B(o.B) {}
    Plant* clone() const override { return new Plant(*this); }
    void computeControlledDynamics(const X& x, const double& t, const U& u, X& d) override { d = A * x * (1 + t) + B * u; }
};
struct DPlant : public DiscreteControlledSystem<3, 2>
{
    Eigen::Matrix3d A;
    Eigen::Matrix<double, 3, 2> B;
    DPlant() {}
    DPlant(std::shared_ptr<DiscreteController<3, 2>> c) : DiscreteControlledSystem<3, 2>(c) {}
    DPlant(const DPlant& o) : DiscreteControlledSystem<3, 2>(o), A(o.A), B(o.B) {}
    DPlant* clone() const override { return new DPlant(*this); }
    void propagateControlledDynamics(const X& x, const int n, const U& u, X& d) override { d = A * x * (1 + n) + B * u; }
};
}  // namespace

FACET(stateFeedback, 6)
{
    Sfc a;
    a.m.type = s.b() ? LIN : ZOH;
    int n = s.i(1, 6);
    double dt = s.logreal(1e-2, 1), t0 = s.real(-3, 3);
    draw(s, a.m, n, s.b());
    for (size_t i = 0; i < a.m.x.size(); i++)
        a.m.tx.push_back(t0 + i * dt);
    for (size_t i = 0; i < a.m.u.size(); i++)
        a.m.tu.push_back(t0 + i * dt);
    a.c.reset(new StateFeedbackController<3, 2>(XA(a.m), UA(a.m), KA(a.m), dt, t0, a.m.type));
    std::unique_ptr<Sfc> other;
    int ops = s.i(1, 10);
    for (int k = 0; k < ops; k++)
    {
        switch (s.i(0, 3))
        {
            case 0:
                break;
            case 1:
            {  // keep a copy aside (or go on with the copy)
                other.reset(new Sfc);
                other->m = a.m;
                other->c.reset(a.c->clone());
                if (s.b())
                    std::swap(*other, a);
                s.label("clone");
                break;
            }
            case 2:
            {  // new plan on a new (possibly non-uniform) grid
                n = s.i(1, 6);
                draw(s, a.m, n, false);
                a.m.tx.clear();
                double t = s.real(-3, 3);
                for (int i = 0; i <= n; i++, t += s.logreal(1e-2, 1))
                    a.m.tx.push_back(t);
                a.m.tu.assign(a.m.tx.begin(), a.m.tx.end() - 1);
                TimeArray ta;
                for (double q : a.m.tx)
                    ta.push_back(q);
                a.c->update(XA(a.m), UA(a.m), KA(a.m), ta);
                s.label("update");
                break;
            }
            case 3:
            {  // inconsistent plans are refused and leave the old one in place
                Model b;
                draw(s, b, s.i(1, 4), false);
                TimeArray ta;
                int extra = s.pick(std::vector<int>{-1, 1, 2});
                for (int i = 0; i < (int)b.x.size() + extra; i++)
                    ta.push_back(0.1 * i);
                bool threw = false;
                try
                {
                    if (ta.size() > 0)
                        a.c->update(XA(b), UA(b), KA(b), ta);
                    else
                        threw = true;
                } catch (const std::exception&)
                {
                    threw = true;
                }
                PBT_REQUIRE(threw, "update-refused", "sizes ", b.x.size(), " times ", ta.size());
                break;
            }
        }
        for (int w = 0; w < 2; w++)
        {
            Sfc* z = w ? other.get() : &a;
            if (!z)
                continue;
            X x = genX(s);
            int node = s.i(0, (int)z->m.tx.size() - 1);
            double q = s.i(0, 2) == 0 ? z->m.tx.front() - s.real(0, 2) : s.b() ? z->m.tx[node] + s.real(0, 1) * dt : z->m.tx.back() + s.real(0, 2);
            if (z->m.type == ZOH)  // keep clear of the jumps
                for (double tn : z->m.tx)
                    if (std::fabs(q - tn) < 1e-9)
                        q = tn + 2e-9;
            U u, r = z->m.control(x, q);
            z->c->computeControl(x, q, u);
            PBT_REQUIRE(mclose(u, r, 1e-9, 1e-7), "time-control", "copy ", w, " t ", q, " got ", gen::str(u), " expected ", gen::str(r));
            int i = s.i(0, (int)z->m.u.size() - 1);
            static_cast<DiscreteController<3, 2>&>(*z->c).computeControl(x, i, u);
            U ri;
            ri = z->m.u[i] + z->m.k[i] * (x - z->m.x[i]);
            PBT_REQUIRE(mclose(u, ri, 1e-12, 1e-12), "index-control", "copy ", w, " n ", i);
            PBT_REQUIRE(z->c->x_ref().size() == z->m.x.size() && z->c->uff().size() == z->m.u.size() && z->c->K().size() == z->m.k.size() && z->c->time().size() == z->m.tx.size(),
                "sizes", "copy ", w);
            for (size_t j = 0; j < z->m.u.size(); j++)
                PBT_REQUIRE(z->c->uff()[j] == z->m.u[j] && z->c->K()[j] == z->m.k[j] && z->c->x_ref()[j] == z->m.x[j] && close(z->c->time()[j], z->m.tx[j], 1e-12, 1e-12),
                    "accessors", "copy ", w, " index ", j);
            if (z->m.u.size() > 1)
                s.nontrivial();
        }
        if (s.p(1, 5))
        {  // controls that the law would have applied along a state trajectory
            size_t L = a.m.u.size() + 1;
            StateVectorArray<3> xs;
            TimeArray ts;
            for (size_t i = 0; i < L; i++)
            {
                xs.push_back(genX(s));
                ts.push_back(5 + 0.3 * i);
            }
            StateTrajectory<3> xt(ts, xs, ZOH);
            ControlTrajectory<2> ut;
            ut.push_back(genU(s), 0.0, true);
            a.c->extractControlTrajectory(xt, ut);
            PBT_REQUIRE(ut.size() == L - 1, "extract-size", ut.size());
            for (size_t i = 0; i + 1 < L; i++)
            {
                U r;
                r = a.m.u[i] + a.m.k[i] * (xs[i] - a.m.x[i]);
                PBT_REQUIRE(mclose(ut[i], r, 1e-12, 1e-12) && close(ut.getTimeFromIndex(i), ts[i]), "extract", "index ", i);
            }
        }
    }
}
FACET(pid, 5)
{
    typedef PIDController<double> P;
    struct Ref
    {
        P::parameters_t p;
        P::setpoint_t sp;
        double prev = 0, I = 0;
        double run(double x, double dx, bool given)
        {
            double e = sp.stateDesired_ - x;
            I = std::min(std::max(I + p.k_i * e * p.dt, -p.Imax), p.Imax);
            double d = given ? dx : (x - prev) / p.dt;
            double u = p.k_p * e + I + p.k_d * (sp.stateDerivativeDesired_ - d);
            prev = x;
            return std::max(std::min(u, p.uMax), p.uMin);
        }
    };
    auto par = [&s]() {
        P::parameters_t p(s.real(-3, 3), s.real(-3, 3), s.real(-3, 3), s.logreal(1e-2, 1));
        if (s.b())
            p.Imax = s.logreal(0.05, 5);
        if (s.b())
        {
            p.uMax = s.real(0, 5);
            p.uMin = s.real(-5, 0);
        }
        return p;
    };
    Ref a, b;
    a.p = par();
    a.sp = P::setpoint_t(s.real(-2, 2), s.real(-2, 2));
    std::unique_ptr<P> c(new P(a.p, a.sp)), d;
    int ops = s.i(2, 14);
    bool sat = false;
    for (int k = 0; k < ops; k++)
    {
        switch (s.i(0, 7))
        {
            case 0:
                a.p = par();
                c->changeParameters(a.p);
                break;
            case 1:
                a.sp.stateDesired_ = s.real(-2, 2);
                c->setDesiredState(a.sp.stateDesired_);
                break;
            case 2:
                a.sp = P::setpoint_t(s.real(-2, 2), s.real(-2, 2));
                c->setDesiredState(a.sp.stateDesired_, a.sp.stateDerivativeDesired_);
                break;
            case 3:
                a.prev = s.real(-2, 2);
                c->setInitialState(a.prev);
                break;
            case 4:
                a.prev = a.I = 0;
                c->reset();
                break;
            case 5:
                d.reset(c->clone());
                b = a;
                break;
            default:
                for (int w = 0; w < 2; w++)
                {
                    Ref& r = w ? b : a;
                    P* p = w ? d.get() : c.get();
                    if (!p)
                        continue;
                    double x = s.real(-3, 3), dx = s.real(-3, 3);
                    bool given = s.b();
                    double t = 0.1 * k, e = r.run(x, dx, given);
                    double u = given ? p->computeControl(x, dx, t) : p->computeControl(x, t);
                    PBT_REQUIRE(close(u, e, 1e-10, 1e-9), "pid", "copy ", w, " derivative given ", given, " got ", u, " expected ", e);
                    if (std::fabs(r.I) == r.p.Imax)
                        sat = true;
                    s.nontrivial();
                }
        }
    }
    if (sat)
        s.label("windup-limited");
}
FACET(simple, 3)
{
    U u0 = genU(s);
    std::shared_ptr<ConstantController<3, 2>> c(new ConstantController<3, 2>(u0));
    std::shared_ptr<ConstantController<3, 2>> keep(c->clone());
    U u1 = genU(s), u;
    c->setControl(u1);
    X x = genX(s);
    c->computeControl(x, s.real(-3, 3), u);
    PBT_REQUIRE(u == u1 && c->getControl() == u1, "constant", gen::str(u));
    static_cast<DiscreteController<3, 2>&>(*c).computeControl(x, s.i(0, 9), u);
    PBT_REQUIRE(u == u1, "constant-discrete", gen::str(u));
    keep->computeControl(x, 0.0, u);
    PBT_REQUIRE(u == u0, "constant-clone", gen::str(u));
    PBT_REQUIRE(c->getDerivativeU0(x, 0.0).isIdentity(0), "constant-derivative", "");
    ConstantController<3, 2> z;
    z.computeControl(x, 1.0, u);
    PBT_REQUIRE(u.isZero(0), "constant-default", gen::str(u));
    // constant state feedback
    X xr = genX(s);
    K k = genK(s);
    ConstantStateFeedbackController<3, 2> f(u0, xr, k);
    std::unique_ptr<ConstantStateFeedbackController<3, 2>> g(f.clone());
    f.computeControl(x, 0.3, u);
    PBT_REQUIRE(mclose(u, u0 + k * (x - xr), 1e-12, 1e-12), "feedback", gen::str(u));
    X xr2 = genX(s);
    f.updateControlLaw(u1, xr2, s.b() ? k : K(-k));
    f.updateControlLaw(u1, xr2);
    f.computeControl(x, 0.3, u);
    PBT_REQUIRE(mclose(u, u1, 1e-12, 1e-12), "feedback-default-gain", gen::str(u));
    g->computeControl(x, 0.3, u);
    PBT_REQUIRE(mclose(u, u0 + k * (x - xr), 1e-12, 1e-12), "feedback-clone", gen::str(u));
    // step
    double gain = s.real(-3, 3), ts = s.real(-2, 2);
    StepInputController st(StepInputController::Parameters(gain, ts));
    std::unique_ptr<StepInputController> sc(st.clone());
    ControlVector<1> v;
    StateVector<1> y;
    y(0) = s.real(-1, 1);
    double t = s.b() ? ts : ts + s.real(-1, 1);
    (s.b() ? st : *sc).computeControl(y, t, v);
    PBT_REQUIRE(v(0) == (t >= ts ? gain : 0.0), "step", "t ", t, " step at ", ts, " got ", v(0));
    // sampled trajectories
    ControlVectorArray<2> ua;
    StateVectorArray<3> xa;
    int n = s.i(0, 4);
    for (int i = 0; i < n; i++)
    {
        ua.push_back(genU(s));
        xa.push_back(genX(s));
    }
    ConstantTrajectoryController<3, 2> tc(ua, xa);
    std::unique_ptr<ConstantTrajectoryController<3, 2>> tcc(tc.clone());
    tc.setControlVectorArray(ControlVectorArray<2>());
    PBT_REQUIRE(tcc->getControlVectorArray().size() == ua.size() && tcc->getStateVectorArray().size() == xa.size(), "trajectory-clone", n);
    for (int i = 0; i < n; i++)
        PBT_REQUIRE(tcc->getControlVectorArray()[i] == ua[i] && tcc->getStateVectorArray()[i] == xa[i], "trajectory-clone", i);
    s.nontrivial();
}
FACET(closedLoop, 5)
{  // systems evaluate their own controller at the given state and time, and copies own a copy of it
    U u0 = genU(s);
    X xr = genX(s);
    K k = genK(s);
    typedef ConstantStateFeedbackController<3, 2> F;
    auto c = std::shared_ptr<F>(new F(u0, xr, k));
    bool none = s.p(1, 5);
    Plant p = s.b() || none ? Plant() : Plant(std::shared_ptr<Controller<3, 2>>(c));
    p.A = gen::mat<3, 3>(s, 2);
    p.B = gen::mat<3, 2>(s, 2);
    if (!none && !p.getController())
        p.setController(c);
    StateMatrix<3> LA;
    LA = p.A;
    StateControlMatrix<3, 2> LB;
    LB = p.B;
    LTISystem<3, 2> lti(LA, LB);
    if (!none)
        lti.setController(c);
    std::unique_ptr<Plant> q(p.clone());
    std::unique_ptr<LTISystem<3, 2>> lq(lti.clone());
    U u1 = genU(s);
    bool changed = s.b() && !none;
    if (changed)
        c->updateControlLaw(u1, xr, K(-k));  // reaches the originals, not the copies
    X x = genX(s), d;
    double t = s.real(-2, 2);
    U ref, refC;
    refC = none ? Eigen::Vector2d(Eigen::Vector2d::Zero()) : Eigen::Vector2d(u0 + k * (x - xr));
    ref = changed ? Eigen::Vector2d(u1 - k * (x - xr)) : Eigen::Vector2d(refC);
    p.computeDynamics(x, t, d);
    PBT_REQUIRE(mclose(d, p.A * x * (1 + t) + p.B * ref, 1e-11, 1e-11), "closed-loop", "got ", gen::str(d));
    PBT_REQUIRE(mclose(p.getLastControlAction(), ref, 1e-12, 1e-12), "last-control", gen::str(p.getLastControlAction()));
    q->computeDynamics(x, t, d);
    PBT_REQUIRE(mclose(d, p.A * x * (1 + t) + p.B * refC, 1e-11, 1e-11), "closed-loop-copy", "got ", gen::str(d));
    lti.computeDynamics(x, t, d);
    PBT_REQUIRE(mclose(d, p.A * x + p.B * ref, 1e-11, 1e-11), "closed-loop-lti", "got ", gen::str(d));
    lq->computeDynamics(x, t, d);
    PBT_REQUIRE(mclose(d, p.A * x + p.B * refC, 1e-11, 1e-11), "closed-loop-lti-copy", "got ", gen::str(d));
    std::shared_ptr<Controller<3, 2>> h, hq, expected;
    if (!none)
        expected = c;
    p.getController(h);
    q->getController(hq);
    PBT_REQUIRE(h == expected && p.getController() == expected, "get-controller", "the system returns another controller");
    PBT_REQUIRE(none ? !hq : hq && hq != h, "get-controller-copy", "the copy's controller is ", hq == h ? "shared" : "missing");
    PBT_REQUIRE(q->getController() == hq, "get-controller-copy", "the two accessors differ");
    // a system can be given another controller at any time
    U u2 = genU(s);
    p.setController(std::shared_ptr<Controller<3, 2>>(new ConstantController<3, 2>(u2)));
    p.computeDynamics(x, t, d);
    PBT_REQUIRE(mclose(d, p.A * x * (1 + t) + p.B * u2, 1e-11, 1e-11), "closed-loop-replaced", "got ", gen::str(d));
    q->computeDynamics(x, t, d);
    PBT_REQUIRE(mclose(d, p.A * x * (1 + t) + p.B * refC, 1e-11, 1e-11), "closed-loop-copy-replaced", "got ", gen::str(d));
    s.nontrivial();
}
FACET(closedLoopDiscrete, 4)
{
    Model m;
    int n = s.i(1, 5);
    draw(s, m, n, false);
    typedef StateFeedbackController<3, 2> F;
    auto c = std::shared_ptr<F>(new F(XA(m), UA(m), KA(m), 0.1));
    bool none = s.p(1, 5);
    DPlant p = s.b() || none ? DPlant() : DPlant(std::shared_ptr<DiscreteController<3, 2>>(c));
    p.A = gen::mat<3, 3>(s, 2);
    p.B = gen::mat<3, 2>(s, 2);
    if (!none && !p.getController())
        p.setController(c);
    DiscreteLTISystem<3, 2> lti(p.A, p.B);
    if (!none)
        lti.setController(c);
    std::unique_ptr<DPlant> q(p.clone());
    std::unique_ptr<DiscreteLTISystem<3, 2>> lq(lti.clone());
    Model m2 = m;
    if (s.b())
    {
        draw(s, m2, n, false);
        TimeArray ta;
        for (int i = 0; i <= n; i++)
            ta.push_back(0.1 * i);
        c->update(XA(m2), UA(m2), KA(m2), ta);
    }
    int i = s.i(0, n - 1);
    X x = genX(s), d;
    U r1, r2;
    r1 = none ? Eigen::Vector2d(Eigen::Vector2d::Zero()) : Eigen::Vector2d(m2.u[i] + m2.k[i] * (x - m2.x[i]));
    r2 = none ? Eigen::Vector2d(Eigen::Vector2d::Zero()) : Eigen::Vector2d(m.u[i] + m.k[i] * (x - m.x[i]));
    p.propagateDynamics(x, i, d);
    PBT_REQUIRE(mclose(d, p.A * x * (1 + i) + p.B * r1, 1e-11, 1e-11), "discrete-closed-loop", "n ", i);
    q->propagateDynamics(x, i, d);
    PBT_REQUIRE(mclose(d, p.A * x * (1 + i) + p.B * r2, 1e-11, 1e-11), "discrete-closed-loop-copy", "n ", i);
    lti.propagateDynamics(x, i, d);
    PBT_REQUIRE(mclose(d, p.A * x + p.B * r1, 1e-11, 1e-11), "discrete-closed-loop-lti", "n ", i);
    lq->propagateDynamics(x, i, d);
    PBT_REQUIRE(mclose(d, p.A * x + p.B * r2, 1e-11, 1e-11), "discrete-closed-loop-lti-copy", "n ", i);
    std::shared_ptr<DiscreteController<3, 2>> h, hq, expected;
    if (!none)
        expected = c;
    p.getController(h);
    q->getController(hq);
    PBT_REQUIRE(h == expected && p.getController() == expected, "get-controller-discrete", "the system returns another controller");
    PBT_REQUIRE(none ? !hq : hq && hq != h, "get-controller-discrete-copy", "the copy's controller is ", hq == h ? "shared" : "missing");
    s.nontrivial();
}
