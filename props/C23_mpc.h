// C23: model predictive control: timing, warm start, state prediction (one PART per translation unit)
#include "nloc_common.h"
#include <chrono>

namespace {
template <class A>
void dropFront(A& a, int d)
{
    A r;
    for (size_t k = d; k < a.size(); k++)
        r.push_back(a[k]);
    a = r;
}
}  // namespace

#if PART == 1
namespace {
double refHorizon(const mpc_settings& m, double T0, double first, double stop, bool& reached)
{
    const double left = std::max(0.0, T0 - first - stop);
    reached = false;
    double T = T0;
    switch (m.mpc_mode)
    {
        case CONSTANT_RECEDING_HORIZON:
            return T0;
        case FIXED_FINAL_TIME:
            T = left;
            reached = T == 0.0;
            break;
        case FIXED_FINAL_TIME_WITH_MIN_TIME_HORIZON:
            T = left > m.minimumTimeHorizonMpc_ ? left : m.minimumTimeHorizonMpc_;
            reached = !(left > m.minimumTimeHorizonMpc_);
            break;
        case RECEDING_HORIZON_WITH_FIXED_FINAL_TIME:
            T = left < m.minimumTimeHorizonMpc_ ? left : m.minimumTimeHorizonMpc_;
            reached = T == 0.0;
            break;
    }
    return T;
}
// dyadic times: all sums are exact
double dy(Src& s, double lo, double hi) { return std::round(s.real(lo, hi) * 1024) / 1024; }
}  // namespace

FACET(horizon, 3)
{
    mpc_settings m;
    m.mpc_mode = (MPC_MODE)s.i(0, 3);
    m.minimumTimeHorizonMpc_ = dy(s, 1.0 / 64, 3);
    double T0 = dy(s, 0, 4);
    MpcTimeHorizon h(m, T0);
    const int n = s.i(1, 6);
    int shrunk = 0;
    for (int k = 0; k < n; k++)
    {
        if (s.p(1, 4))
        {
            m.mpc_mode = (MPC_MODE)s.i(0, 3);
            m.minimumTimeHorizonMpc_ = dy(s, 1.0 / 64, 3);
            h.updateSettings(m);
        }
        if (s.p(1, 4))
        {
            T0 = dy(s, 0, 4);
            h.updateInitialTimeHorizon(T0);
        }
        double first = dy(s, 0, 3), stop = dy(s, 0, 2);
        if (s.p(1, 4))
            stop = std::max(0.0, T0 - first);  // exactly on the final time
        if (s.p(1, 6))
            first = std::max(0.0, T0 - m.minimumTimeHorizonMpc_ - stop);
        s.note("mode ", (int)m.mpc_mode, " min ", m.minimumTimeHorizonMpc_, " T0 ", T0, " first ", first, " stop ", stop);
        bool reached;
        const double ref = refHorizon(m, T0, first, stop, reached);
        double T = -1;
        const bool r = h.computeNewTimeHorizon(first, stop, T);
        PBT_REQUIRE(T == ref, "horizon", "new horizon ", T, " expected ", ref);
        PBT_REQUIRE(r == reached, "reached", "final time reached: ", r, " expected ", reached, " horizon ", T);
        shrunk += ref != T0;
    }
    if (shrunk > 0)
        s.nontrivial();
}

FACET(timekeeper, 4)
{
    Quiet q;
    mpc_settings m;
    m.useExternalTiming_ = true;
    m.mpc_mode = (MPC_MODE)s.i(0, 3);
    m.minimumTimeHorizonMpc_ = dy(s, 1.0 / 64, 2);
    auto genDelay = [&]() {
        m.measureDelay_ = s.b();
        m.fixedDelayUs_ = s.b() ? 0 : s.i(1, 400000);
        m.additionalDelayUs_ = s.p(2, 3) ? 0 : s.i(1, 400000);
        m.delayMeasurementMultiplier_ = s.pick(std::vector<double>{0.0, 0.25, 0.5, 1.0});
    };
    genDelay();
    const double T0 = dy(s, 0.25, 4);
    auto strategy = std::make_shared<MpcTimeHorizon>(m, T0);
    MpcTimeKeeper tk(strategy, m);
    double T = 0, a = 0, b = 0;
    if (s.p(1, 3))
    {
        bool threw = false;
        try
        {
            tk.computeNewTimings(0.0, T0, T, a, b);
        } catch (const std::exception&)
        {
            threw = true;
        }
        PBT_REQUIRE(threw, "uninitialised", "timings are computed although the time keeper has not been initialised");
    }
    tk.initialize();
    double now = dy(s, -1, 5), tFirst = 0, tLast = 0, delay = 0, dmax = 0, dmin = std::numeric_limits<double>::max(), dsum = 0;
    bool first = true;
    const int n = s.i(1, 8);
    for (int k = 0; k < n; k++)
    {
        if (s.p(1, 6))
        {
            genDelay();
            tk.updateSettings(m);
        }
        if (s.p(1, 10))
        {
            tk.initialize();
            first = true;
            delay = dmax = dsum = 0;
            dmin = std::numeric_limits<double>::max();
        }
        now += dy(s, 0, 1.5);
        const double curT = s.p(1, 4) ? dy(s, 0, 0.3) : dy(s, 0.3, 3);
        double start = first ? 0 : now - tLast, since = first ? 0 : now - tFirst;
        double apply = 1e-6 * m.additionalDelayUs_ + (m.measureDelay_ ? m.delayMeasurementMultiplier_ * delay : 1e-6 * m.fixedDelayUs_);
        double stop = first ? start : start + apply;
        const double rawStart = start, rawStop = stop;
        start = std::min(start, curT), stop = std::min(stop, curT);
        s.note("t ", now, " curT ", curT, " measure ", m.measureDelay_, " start ", rawStart, "->", start, " stop ", rawStop, "->", stop);
        tk.computeNewTimings(now, curT, T, a, b);
        PBT_REQUIRE(a == start, "start", "forward integration starts at ", a, " expected ", start);
        PBT_REQUIRE(close(b, stop, 1e-12, 1e-12), "stop", "forward integration stops at ", b, " expected ", stop);
        PBT_REQUIRE(b <= curT, "stop-truncated", "forward integration beyond the horizon of the policy");
        bool reached, reachedB;
        const double ref = refHorizon(m, T0, since, b, reached);
        PBT_REQUIRE(close(T, ref, 1e-12, 1e-12), "horizon", "new horizon ", T, " expected ", ref);
        // the flag only where rounding cannot matter
        refHorizon(m, T0, since, b + 1e-9, reachedB);
        bool reachedC;
        refHorizon(m, T0, since, b - 1e-9, reachedC);
        if (reachedB == reachedC)
            PBT_REQUIRE(tk.finalPointReached() == reached, "reached", "final point reached: ", tk.finalPointReached(), " expected ", reached);
        PBT_REQUIRE(tk.timeSinceFirstSuccessfulSolve(now) == since, "since-first", "time since the first solve");
        // solve
        double t1 = now + dy(s, 0, 0.3), t2 = t1 + dy(s, 0, 0.7);
        tk.startDelayMeasurement(t1);
        const double prev = tk.timeSincePreviousSuccessfulSolve(t2);
        PBT_REQUIRE(prev == (first ? 0 : t2 - tLast), "since-last", "time since the last solve ", prev, " expected ", first ? 0 : t2 - tLast);
        tk.stopDelayMeasurement(t2);
        if (m.measureDelay_)
        {
            delay = t2 - t1;
            dmax = std::max(dmax, delay), dmin = std::min(dmin, delay), dsum += delay;
        }
        PBT_REQUIRE(!m.measureDelay_ || tk.getMeasuredDelay() == delay, "delay", "measured delay ", tk.getMeasuredDelay(), " expected ", delay);
        PBT_REQUIRE(m.measureDelay_ || dsum > 0 || tk.getMeasuredDelay() == 0, "delay-unmeasured", "a delay of ", tk.getMeasuredDelay(), " is reported although delays are not measured");
        if (dsum > 0 && m.measureDelay_)
            PBT_REQUIRE(tk.getMaxMeasuredDelay() == dmax && tk.getMinMeasuredDelay() == dmin && close(tk.getSummedDelay(), dsum, 1e-12, 0), "delay-statistics", "max ", tk.getMaxMeasuredDelay(), " min ",
                tk.getMinMeasuredDelay(), " sum ", tk.getSummedDelay(), " expected ", dmax, " ", dmin, " ", dsum);
        if (first)
            tFirst = t2;
        tLast = t2;
        first = false;
        now = t2;
    }
    if (n > 1)
        s.nontrivial();
}

FACET(warmstart, 4)
{
    Quiet q;
    const int N = 2, M = 1;
    typedef core::StateFeedbackController<N, M> P;
    const double dt = s.pick(std::vector<double>{1.0 / 64, 1.0 / 16, 1.0 / 8, 0.1, 0.007});
    const bool exact = dt != 0.1 && dt != 0.007;
    StateFeedbackPolicyHandler<N, M, double> hand(dt);
    int K = s.i(1, 12);
    Guess<N, M> g = genGuess<N, M>(s, K, 1, true);
    P pol(g.x, g.u, g.L, dt);
    const int n = s.i(1, 5);
    int moved = 0;
    auto compare = [&](const char* key) {
        PBT_REQUIRE(pol.uff().size() == g.u.size() && pol.K().size() == g.L.size() && pol.x_ref().size() == g.x.size(), key, "sizes u ", pol.uff().size(), " L ", pol.K().size(), " x ", pol.x_ref().size(), " expected ", g.u.size(), " ", g.L.size(), " ", g.x.size());
        for (size_t k = 0; k < g.x.size(); k++)
        {
            PBT_REQUIRE(pol.x_ref()[k] == g.x[k], key, "state ", k, ": ", pol.x_ref()[k].transpose(), " expected ", g.x[k].transpose());
            PBT_REQUIRE(close(pol.getReferenceStateTrajectory().getTimeArray()[k], k * dt, 0, 1e-9), key, "time of state ", k, ": ", pol.getReferenceStateTrajectory().getTimeArray()[k]);
        }
        for (size_t k = 0; k < g.u.size(); k++)
        {
            PBT_REQUIRE(pol.uff()[k] == g.u[k] && pol.K()[k] == g.L[k], key, "control ", k, ": ", pol.uff()[k].transpose(), " expected ", g.u[k].transpose());
            PBT_REQUIRE(close(pol.getFeedforwardTrajectory().getTimeArray()[k], k * dt, 0, 1e-9) && close(pol.getFeedbackTrajectory().getTimeArray()[k], k * dt, 0, 1e-9), key, "time of control ", k);
        }
    };
    auto erase = [&](int d) { dropFront(g.x, d), dropFront(g.u, d), dropFront(g.L, d); };
    for (int j = 0; j < n; j++)
    {
        int d = s.i(0, K + 2);
        double f = exact ? s.pick(std::vector<double>{0, 0.5, 0.25, 0.96875}) : s.real(0.1, 0.9);
        if (s.p(1, 4))
            d = 0, f = exact ? 0 : 0.5;
        const double delay = (d + f) * dt;
        const int shift = std::min(d, K - 1);
        moved += shift > 0;
        if (s.p(2, 3))
        {
            const int Kn = s.i(0, 14);
            const double T = (Kn + (exact && s.b() ? 0.25 : 0.0)) * dt;
            const int Kr = std::max(1, Kn);
            s.note("design delay ", delay, " T ", T, " dt ", dt, " K ", K);
            erase(shift);
            while ((int)g.u.size() > Kr)
                g.x.pop_back(), g.u.pop_back(), g.L.pop_back();
            while ((int)g.u.size() < Kr)
                g.x.push_back(core::StateVector<N>(g.x.back())), g.u.push_back(core::ControlVector<M>(g.u.back())), g.L.push_back(core::FeedbackMatrix<N, M>(g.L.back()));
            hand.designWarmStartingPolicy(delay, T, pol);
            compare("warm-start");
        }
        else
        {
            double eff = -1;
            s.note("truncate delay ", delay, " dt ", dt, " K ", K);
            erase(shift);
            hand.truncateSolutionFront(delay, pol, eff);
            PBT_REQUIRE(close(eff, shift * dt, 1e-12, 0), "effective", "truncated by ", eff, " expected ", shift * dt);
            compare("truncate");
        }
        K = g.u.size();
    }
    // the base class: the initial policy, no truncation
    PolicyHandler<P, N, M, double> base;
    base.setPolicy(pol);
    Guess<N, M> o = genGuess<N, M>(s, 3, 1, true);
    P other(o.x, o.u, o.L, dt);
    double eff = 17;
    base.truncateSolutionFront(2 * dt, other, eff);
    PBT_REQUIRE(eff == 0 && other.uff().size() == 3 && other.uff()[0] == o.u[0], "base-truncate", "the default handler reports a truncation of ", eff);
    base.designWarmStartingPolicy(dt, 3 * dt, other);
    PBT_REQUIRE(other.uff().size() == pol.uff().size() && other.uff()[0] == pol.uff()[0], "base-design", "cold start does not give the initial policy");
    if (moved > 0)
        s.nontrivial();
}
#endif

#if PART == 2
namespace {
struct RecHorizon : MpcTimeHorizon
{
    std::vector<double> ret;
    std::vector<std::array<double, 2>> args;
    size_t i = 0;
    bool flag = false;
    RecHorizon() : MpcTimeHorizon(mpc_settings(), 1.0) {}
    bool computeNewTimeHorizon(const double& a, const double& b, double& T) override
    {
        args.push_back({{a, b}});
        T = ret[i++ % ret.size()];
        return flag;
    }
};

template <int N, int M>
struct Ref
{
    Guess<N, M> g;
    std::vector<double> tx, tu;
    void fill(core::StateFeedbackController<N, M>& p)
    {
        g.x = p.x_ref(), g.u = p.uff(), g.L = p.K();
        tx.clear(), tu.clear();
        for (auto t : p.getReferenceStateTrajectory().getTimeArray())
            tx.push_back(t);
        for (auto t : p.getFeedforwardTrajectory().getTimeArray())
            tu.push_back(t);
    }
    static int idx(const std::vector<double>& t, double x)
    {
        int r = 0;
        for (size_t k = 0; k < t.size(); k++)
            if (t[k] <= x)
                r = k;
        return r;
    }
    void shift(int d, double dt)
    {
        dropFront(g.x, d), dropFront(g.u, d), dropFront(g.L, d);
        tx.erase(tx.begin(), tx.begin() + d), tu.erase(tu.begin(), tu.begin() + d);
        for (auto& t : tx)
            t -= d * dt;
        for (auto& t : tu)
            t -= d * dt;
    }
    void resize(int K, double dt)
    {
        while ((int)g.u.size() > K)
            g.x.pop_back(), g.u.pop_back(), g.L.pop_back(), tx.pop_back(), tu.pop_back();
        while ((int)g.u.size() < K)
        {
            g.x.push_back(core::StateVector<N>(g.x.back())), g.u.push_back(core::ControlVector<M>(g.u.back())), g.L.push_back(core::FeedbackMatrix<N, M>(g.L.back()));
            tx.push_back(tx.back() + dt), tu.push_back(tu.back() + dt);
        }
    }
    //! the feedback law, evaluated like a reader of the documentation would: hold the last node
    Eigen::Matrix<double, M, 1> control(const Eigen::Matrix<double, N, 1>& x, double t, bool linRef) const
    {
        const int i = idx(tu, t), j = idx(tx, t);
        Eigen::Matrix<double, N, 1> xr = g.x[j];
        if (linRef && j + 1 < (int)tx.size() && t > tx[j])
            xr += (t - tx[j]) / (tx[j + 1] - tx[j]) * (g.x[j + 1] - g.x[j]);
        return g.u[i] + g.L[i] * (x - xr);
    }
};
double dy(Src& s, double lo, double hi) { return std::round(s.real(lo, hi) * 1024) / 1024; }
}  // namespace

template <int N, int M>
static void mpcCase(Src& s)
{
    typedef NLOptConSolver<N, M> Sol;
    typedef Eigen::Matrix<double, N, 1> X;
    Quiet quiet;
    Prob<N, M> p = genProb<N, M>(s, false, s.b());
    NLOptConSettings set = genSettings(s, false);
    set.printSummary = false;
    set.dt = s.pick(std::vector<double>{1.0 / 64, 1.0 / 32, 1.0 / 16});
    if (set.K_sim > 1 && set.integrator != core::IntegrationType::RK4CT && set.integrator != core::IntegrationType::EULERCT)
        set.K_sim = 1;
    const double dt = set.dt;
    const int K0 = s.i(1, 8);
    double T0 = K0 * dt;
    mpc_settings m;
    m.useExternalTiming_ = true;
    m.coldStart_ = s.p(1, 4);
    auto genMpc = [&]() {
        m.mpc_mode = (MPC_MODE)s.i(0, 3);
        m.minimumTimeHorizonMpc_ = s.i(1, 10) * dt;
        m.stateForwardIntegration_ = s.p(3, 4);
        m.stateForwardIntegratorType_ = s.b() ? core::IntegrationType::RK4 : core::IntegrationType::EULER;
        m.stateForwardIntegration_dt_ = s.pick(std::vector<double>{1.0 / 256, 1.0 / 512, 1.0 / 1024});
        m.fixedDelayUs_ = m.stateForwardIntegration_ && s.p(2, 3) ? s.i(1, 2 * (int)(1e6 * dt)) : 0;
        m.additionalDelayUs_ = m.stateForwardIntegration_ && s.p(1, 3) ? s.i(1, (int)(1e6 * dt)) : 0;
        m.postTruncation_ = s.b();
        m.delayMeasurementMultiplier_ = 0.5;
        s.note("mode ", (int)m.mpc_mode, " min ", m.minimumTimeHorizonMpc_, " fwd ", m.stateForwardIntegration_, " int ", (int)m.stateForwardIntegratorType_, " h ", m.stateForwardIntegration_dt_, " delays ",
            m.fixedDelayUs_, " ", m.additionalDelayUs_, " post ", m.postTruncation_);
    };
    s.note("N ", N, " ", describe(set), " K ", K0, " cold ", m.coldStart_);
    genMpc();
    ContinuousOptConProblem<N, M> prob(T0, core::StateVector<N>(p.x0), std::make_shared<GSys<N, M>>(p), std::make_shared<GCost<N, M>>(p), std::make_shared<GLin<N, M>>(p));
    if (s.p(1, 8))
    {
        mpc_settings bad = m;
        bad.measureDelay_ = true;
        bool threw = false;
        try
        {
            MPC<Sol> x(prob, set, bad);
        } catch (const std::exception&)
        {
            threw = true;
        }
        PBT_REQUIRE(threw, "contradiction", "external timing together with delay measurement is accepted");
    }
    std::shared_ptr<RecHorizon> rec;
    auto genRec = [&]() {
        rec.reset(new RecHorizon);
        for (int k = 0; k < 3; k++)
            rec->ret.push_back(s.i(1, 9) * dt);
        rec->flag = s.b();
    };
    if (s.p(1, 6))
        genRec();
    MPC<Sol> mpc(prob, set, m, nullptr, rec);
    Sol shadow(prob, set);
    // long enough for every horizon that a cold start can meet
    Guess<N, M> g = genGuess<N, M>(s, 12, 0.5, s.b());
    g.x[0] = p.x0;
    core::StateFeedbackController<N, M> init(g.x, g.u, g.L, dt);
    mpc.setInitialGuess(init);
    Ref<N, M> cur, last, start0;
    cur.fill(init);
    last = cur, start0 = cur;
    bool first = true, reached = false;
    double now = dy(s, 0, 3), tFirst = 0, tLast = 0;
    const int n = s.i(2, 7);
    int predicted = 0, its = 0;
    for (int k = 0; k < n; k++)
    {
        if (k && s.p(1, 8))
        {
            genMpc();
            if (s.p(1, 6))
            {
                mpc_settings bad = m;
                bad.measureDelay_ = true;
                bool threw = false;
                try
                {
                    mpc.updateSettings(bad);
                } catch (const std::exception&)
                {
                    threw = true;
                }
                PBT_REQUIRE(threw, "contradiction", "external timing together with delay measurement is accepted by updateSettings");
            }
            mpc.updateSettings(m);
        }
        if (k && s.p(1, 10))
        {
            genRec();
            s.note("strategy replaced");
            mpc.setTimeHorizonStrategy(rec);
        }
        if (k && s.p(1, 10))
        {
            T0 = s.i(1, 9) * dt;
            s.note("reset to ", T0);
            mpc.resetMpc(T0);
            shadow.changeTimeHorizon(T0);
            first = true;
            reached = false;
            PBT_REQUIRE(!mpc.timeHorizonReached() && mpc.timeSinceFirstSuccessfulSolve(now) == 0, "reset", "resetMpc leaves old timings");
        }
        // prepare
        now += s.p(1, 6) ? dy(s, 0, 12 * dt) : dy(s, 0, 2 * dt);
        const double curT = shadow.getTimeHorizon();
        double tStart = first ? 0 : now - tLast, since = first ? 0 : now - tFirst, tStop = tStart;
        const bool delayed = !first && m.fixedDelayUs_ + m.additionalDelayUs_ > 0;
        if (!first)
            tStop += 1e-6 * (m.fixedDelayUs_ + m.additionalDelayUs_);
        const bool inexact = delayed && tStop < curT + 1e-6;
        tStart = std::min(tStart, curT), tStop = std::min(tStop, curT);
        double T = T0;
        const double raw = T0 - since - tStop, left = std::max(0.0, raw);
        reached = false;
        if (rec)
        {
            T = rec->ret[rec->i % rec->ret.size()];
            reached = rec->flag;
        }
        else if (m.mpc_mode == FIXED_FINAL_TIME)
            T = left, reached = T == 0;
        else if (m.mpc_mode == FIXED_FINAL_TIME_WITH_MIN_TIME_HORIZON)
            T = std::max(left, m.minimumTimeHorizonMpc_), reached = left <= m.minimumTimeHorizonMpc_;
        else if (m.mpc_mode == RECEDING_HORIZON_WITH_FIXED_FINAL_TIME)
            T = std::min(left, m.minimumTimeHorizonMpc_), reached = T == 0;
        if (inexact)
        {
            // only inputs on which rounding cannot matter
            auto amb = [](double v, double c) { double f = v - std::floor(v) - c; return std::abs(f) < 1e-6 || std::abs(f - 1) < 1e-6; };
            discard_unless(std::abs(tStop - curT) > 1e-6 && !amb(T / dt, 0.5) && !amb(tStop / dt, 0) && std::abs(raw) > 1e-6 && std::abs(raw - m.minimumTimeHorizonMpc_) > 1e-6);
            discard_unless(!amb((tStop - tStart) / m.stateForwardIntegration_dt_, 0.5));
        }
        s.note("prepare at ", now, " start ", tStart, " stop ", tStop, " T ", T);
        if (s.p(1, 3) && !first)
            PBT_REQUIRE(mpc.timeSinceFirstSuccessfulSolve(now) == since, "since-first", "time since the first solve ", mpc.timeSinceFirstSuccessfulSolve(now), " expected ", since);
        mpc.prepareIteration(now);
        if (rec)
        {
            PBT_REQUIRE(!rec->args.empty(), "strategy-unused", "the time horizon strategy is not asked");
            PBT_REQUIRE(rec->args.back()[0] == since && close(rec->args.back()[1], tStop, 0, 1e-9), "strategy-arguments", "strategy gets ", rec->args.back()[0], " ", rec->args.back()[1], " expected ", since, " ", tStop);
        }
        const int K = std::max(1, (int)std::lround(T / dt));
        PBT_REQUIRE(mpc.timeHorizonReached() == reached, "reached", "final time reached: ", mpc.timeHorizonReached(), " expected ", reached);
        PBT_REQUIRE(close(mpc.getSolver().getTimeHorizon(), K * dt, 0, 1e-9), "solver-horizon", "the solver plans over ", mpc.getSolver().getTimeHorizon(), " expected ", K * dt);
        if (m.coldStart_)
            cur = start0;
        else
        {
            cur.shift(std::min(Ref<N, M>::idx(cur.tu, tStop), (int)cur.g.u.size() - 1), dt);
            cur.resize(K, dt);
        }
        if ((int)cur.g.u.size() < K)
            return;
        shadow.changeTimeHorizon(T);
        shadow.setInitialGuess(typename Sol::Policy_t(cur.g.x, cur.g.u, cur.g.L, dt));
        shadow.prepareMPCIteration();
        // finish
        now += s.p(1, 3) ? 0 : s.p(1, 4) ? dy(s, 0, 6 * dt) : dy(s, 0, dt);
        X x = gen::vec<N>(s, 1);
        std::shared_ptr<core::Controller<N, M>> own;
        Eigen::Matrix<double, M, 1> uc = gen::vec<M>(s, 1);
        core::ControlVector<M> ucv(uc);
        if (s.p(1, 5))
            own.reset(new core::ConstantController<N, M>(ucv));
        X pred = x;
        if (!first && m.stateForwardIntegration_)
        {
            const double h = m.stateForwardIntegration_dt_;
            const int steps = (int)std::lround((tStop - tStart) / h);
            auto f = [&](const X& v, double t) { return X(p.f(v, own ? uc : last.control(v, t, false), t)); };
            for (int j = 0; j < steps; j++)
            {
                const double t = tStart + j * h;
                X k1 = f(pred, t);
                if (m.stateForwardIntegratorType_ == core::IntegrationType::EULER)
                {
                    pred += h * k1;
                    continue;
                }
                X k2 = f(pred + 0.5 * h * k1, t + 0.5 * h), k3 = f(pred + 0.5 * h * k2, t + 0.5 * h), k4 = f(pred + h * k3, t + h);
                pred += h / 6 * (k1 + 2 * k2 + 2 * k3 + k4);
            }
            predicted += steps > 0;
            if (s.p(1, 3) && steps > 0)
            {
                core::StateVector<N> y = x;
                mpc.doForwardIntegration(tStart, tStop, y, own);
                PBT_REQUIRE(mclose(y, pred, 1e-8, 1e-8), "prediction", "state prediction ", y.transpose(), " expected ", pred.transpose());
            }
        }
        s.note("finish at ", now, " own controller ", !!own);
        typename Sol::Policy_t pol;
        double ts = -1;
        const bool ok = mpc.finishIteration(core::StateVector<N>(x), now, pol, ts, own);
        shadow.changeInitialState(core::StateVector<N>(pred));
        const bool okRef = shadow.finishMPCIteration();
        PBT_REQUIRE(ok == okRef, "success", "success ", ok, " expected ", okRef);
        if (!ok)
            return;
        typename Sol::Policy_t sol = shadow.getSolution();
        cur.fill(sol);
        double tsRef = now + (tStop - tStart);
        if (m.postTruncation_ && !first && now - tLast > tStop)
        {
            const double over = now - tLast - tStop;
            discard_unless(!inexact || std::abs(over / dt - std::round(over / dt)) > 1e-6);
            if (!m.coldStart_)
            {
                const int d = std::min(Ref<N, M>::idx(cur.tu, over), (int)cur.g.u.size() - 1);
                cur.shift(d, dt);
                tsRef += d * dt;
            }
        }
        PBT_REQUIRE(close(ts, tsRef, 0, 1e-9), "policy-time", "time stamp of the policy ", ts, " expected ", tsRef, first ? " (first run)" : "");
        double sc = 1;
        for (auto& v : cur.g.x)
            sc = std::max(sc, v.norm());
        for (auto& v : cur.g.u)
            sc = std::max(sc, v.norm());
        for (auto& v : cur.g.L)
            sc = std::max(sc, v.norm());
        if (!(sc < 1e4))
            return;
        PBT_REQUIRE(pol.uff().size() == cur.g.u.size() && pol.x_ref().size() == cur.g.x.size() && pol.K().size() == cur.g.L.size(), "policy-size", "policy has ", pol.uff().size(), " controls, expected ", cur.g.u.size());
        for (size_t j = 0; j < cur.g.u.size(); j++)
            PBT_REQUIRE(mclose(pol.uff()[j], cur.g.u[j], 0, 1e-6 * sc) && mclose(pol.K()[j], cur.g.L[j], 0, 1e-6 * sc) && close(pol.getFeedforwardTrajectory().getTimeArray()[j], cur.tu[j], 0, 1e-9), "policy", "iteration ", its,
                " control ", j, ": ", pol.uff()[j].transpose(), " expected ", cur.g.u[j].transpose());
        for (size_t j = 0; j < cur.g.x.size(); j++)
            PBT_REQUIRE(mclose(pol.x_ref()[j], cur.g.x[j], 0, 1e-6 * sc) && close(pol.getReferenceStateTrajectory().getTimeArray()[j], cur.tx[j], 0, 1e-9), "policy", "iteration ", its, " state ", j, ": ",
                pol.x_ref()[j].transpose(), " expected ", cur.g.x[j].transpose());
        // go on from what was handed out: rounding must not accumulate in the comparison
        cur.fill(pol);
        last = cur;
        if (first)
            tFirst = now;
        tLast = now;
        first = false;
        its++;
    }
    s.label(m.coldStart_ ? "cold" : "warm");
    if (predicted > 0 || its > 2)
        s.nontrivial();
}
FACET(loop, 10)
{
    if (s.b())
        mpcCase<2, 1>(s);
    else
        mpcCase<4, 2>(s);
}

FACET(internalclock, 1)
{
    Quiet quiet;
    const int N = 2, M = 1;
    typedef NLOptConSolver<N, M> Sol;
    Prob<N, M> p = genProb<N, M>(s, false, s.b());
    NLOptConSettings set = genSettings(s, false);
    set.printSummary = false;
    set.K_sim = 1;
    set.dt = 0.03125;
    mpc_settings m;
    m.stateForwardIntegration_ = true;
    m.measureDelay_ = s.b();
    m.delayMeasurementMultiplier_ = s.pick(std::vector<double>{0.5, 1.0});
    m.fixedDelayUs_ = s.i(0, 3000);
    const int K = s.i(2, 5);
    ContinuousOptConProblem<N, M> prob(K * set.dt, core::StateVector<N>(p.x0), std::make_shared<GSys<N, M>>(p), std::make_shared<GCost<N, M>>(p), std::make_shared<GLin<N, M>>(p));
    MPC<Sol> mpc(prob, set, m);
    Guess<N, M> g = genGuess<N, M>(s, K, 0.3, false);
    g.x[0] = p.x0;
    mpc.setInitialGuess(core::StateFeedbackController<N, M>(g.x, g.u, g.L, set.dt));
    double prevWall = 0;
    for (int k = 0; k < 3; k++)
    {
        mpc.prepareIteration(0.0);
        const double xts = s.real(-5, 50);
        typename Sol::Policy_t pol;
        double ts = 0;
        auto a = std::chrono::steady_clock::now();
        const bool ok = mpc.finishIteration(core::StateVector<N>(gen::vec<N>(s, 0.5)), xts, pol, ts);
        const double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - a).count();
        if (!ok)
            return;
        double lo = 0, hi = 0;
        if (m.measureDelay_)
            hi = k == 0 ? wall : prevWall;
        else
            lo = 0, hi = k == 0 ? 0 : 1e-6 * m.fixedDelayUs_;
        PBT_REQUIRE(ts - xts >= lo - 1e-9 && ts - xts <= hi + 1e-4, "clock", "policy ", k, " measured ", m.measureDelay_, ": stamped ", ts - xts, " s after the state, at most ", hi, " expected");
        prevWall = wall;
    }
    s.nontrivial();
}
#endif
