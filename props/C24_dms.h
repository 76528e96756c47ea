// C24: the nonlinear program which direct multiple shooting hands to an NLP solver
#include "nloc_common.h"
#include <ct/optcon/dms/dms.h>
typedef Eigen::VectorXi VI;
typedef ct::optcon::tpl::Nlp<double> NlpD;

//! g = a x + b u + c sin(x_k + t) u_l, dense Jacobians
template <int N, int M>
class GCon : public ConstraintBase<N, M>
{
public:
    MX a, b;
    VX c, lo, up;
    int k, l;
    GCon(Src& s, bool input)
    {
        int r = s.i(1, 2);
        a = gen::matX(s, r, N, 1);
        b = gen::matX(s, r, M, input ? 1 : 0);
        c = VX(r), lo = VX(r), up = VX(r);
        for (int i = 0; i < r; i++)
            c(i) = s.real(-1, 1), lo(i) = s.real(-3, 1), up(i) = lo(i) + s.real(0, 3);
        if (!input)
            b.setZero();
        k = s.i(0, N - 1), l = s.i(0, M - 1);
        if (!input)
            c.setZero();
        this->lb_ = lo, this->ub_ = up;
    }
    GCon* clone() const override { return new GCon(*this); }
    size_t getConstraintSize() const override { return a.rows(); }
    VX val(const VX& x, const VX& u, double t) const { return a * x + b * u + c * (std::sin(x(k) + t) * u(l)); }
    VX evaluate(const core::StateVector<N>& x, const core::ControlVector<M>& u, const double t) override { return val(x, u, t); }
    MX jacobianState(const core::StateVector<N>& x, const core::ControlVector<M>& u, const double t) override
    {
        MX J = a;
        J.col(k) += c * (std::cos(x(k) + t) * u(l));
        return J;
    }
    MX jacobianInput(const core::StateVector<N>& x, const core::ControlVector<M>& u, const double t) override
    {
        MX J = b;
        J.col(l) += c * std::sin(x(k) + t);
        return J;
    }
};

//! one listed constraint of the reference: rows and bounds
struct RefCon
{
    std::function<VX(const VX&, const VX&, double)> val;
    VX lb, ub;
};
struct RefBox
{
    std::vector<RefCon> inter, term;
};

template <int N, int M>
struct RefDms
{
    typedef Eigen::Matrix<double, N, 1> X;
    typedef Eigen::Matrix<double, M, 1> U;
    Prob<N, M> p;
    int K;       // shots
    double T, h;
    bool lin, full, rk;
    std::vector<RefBox> boxes;
    X x0;

    double tn(int i) const { return i * (T / K); }
    int sub() const { return int(T / K / h + 0.5); }
    X xs(const VX& w, int i) const { return w.segment(i * (N + M), N); }
    U us(const VX& w, int i) const { return w.segment(i * (N + M) + N, M); }
    U u(const VX& w, int i, double t) const
    {
        if (!lin)
            return us(w, i);
        double a = (t - tn(i)) / (T / K);
        return (1 - a) * us(w, i) + a * us(w, i + 1);
    }
    X shot(const VX& w, int i, double& cost) const
    {
        X x = xs(w, i);
        cost = 0;
        for (int j = 0; j < sub(); j++)
        {
            double t = tn(i) + j * h;
            X k1 = p.f(x, u(w, i, t), t);
            double l1 = p.L(x, u(w, i, t), t);
            if (!rk)
            {
                x += h * k1, cost += h * l1;
                continue;
            }
            double tm = t + 0.5 * h, te = t + h;
            X x2 = x + 0.5 * h * k1;
            X k2 = p.f(x2, u(w, i, tm), tm);
            X x3 = x + 0.5 * h * k2;
            X k3 = p.f(x3, u(w, i, tm), tm);
            X x4 = x + h * k3;
            X k4 = p.f(x4, u(w, i, te), te);
            cost += h / 6 * (l1 + 2 * p.L(x2, u(w, i, tm), tm) + 2 * p.L(x3, u(w, i, tm), tm) + p.L(x4, u(w, i, te), te));
            x += h / 6 * (k1 + 2 * k2 + 2 * k3 + k4);
        }
        return x;
    }
    double cost(const VX& w) const
    {
        double J = p.F(xs(w, K), T), c;
        const double d = T / K;
        for (int i = 0; i < K; i++)
            if (full)
                shot(w, i, c), J += c;
            else if (lin)
                J += 0.5 * d * (p.L(xs(w, i), us(w, i), tn(i)) + p.L(xs(w, i + 1), us(w, i + 1), tn(i + 1)));
            else
                J += d * p.L(xs(w, i), us(w, i), tn(i));
        return J;
    }
    VX constraints(const VX& w) const
    {
        std::vector<double> g;
        auto add = [&](const VX& v) {
            for (int i = 0; i < v.size(); i++)
                g.push_back(v(i));
        };
        double c;
        add(xs(w, 0) - x0);
        for (int i = 0; i < K; i++)
            add(xs(w, i + 1) - shot(w, i, c));
        for (int i = 0; i <= K; i++)
            for (auto& b : boxes)
                for (auto& r : b.inter)
                    add(r.val(xs(w, i), us(w, i), tn(i)));
        for (auto& b : boxes)
            for (auto& r : b.term)
                add(r.val(xs(w, K), us(w, K), tn(K)));
        return Eigen::Map<VX>(g.data(), g.size());
    }
    void bounds(VX& lo, VX& up) const
    {
        std::vector<double> l((K + 1) * N, 0.0), u((K + 1) * N, 0.0);
        auto add = [&](const RefCon& r) {
            for (int i = 0; i < r.lb.size(); i++)
                l.push_back(r.lb(i)), u.push_back(r.ub(i));
        };
        for (int i = 0; i <= K; i++)
            for (auto& b : boxes)
                for (auto& r : b.inter)
                    add(r);
        for (auto& b : boxes)
            for (auto& r : b.term)
                add(r);
        lo = Eigen::Map<VX>(l.data(), l.size()), up = Eigen::Map<VX>(u.data(), u.size());
    }
};

template <int N, int M>
std::shared_ptr<ConstraintContainerAnalytical<N, M>> genBox(Src& s, int kind, RefBox& ref)
{
    typedef Eigen::Matrix<double, N, 1> X;
    typedef Eigen::Matrix<double, M, 1> U;
    auto cc = std::make_shared<ConstraintContainerAnalytical<N, M>>();
    auto sel = [](const VI& sp, const VX& v) {
        VX r(sp.sum());
        int k = 0;
        for (int i = 0; i < sp.size(); i++)
            if (sp(i))
                r(k++) = v(i);
        return r;
    };
    auto genSp = [&](int d) {
        VI sp(d);
        for (int i = 0; i < d; i++)
            sp(i) = s.i(0, 1);
        if (sp.sum() == 0)
            sp(s.i(0, d - 1)) = 1;
        return sp;
    };
    int n = kind == 2 ? s.i(1, 2) : 1;
    for (int j = 0; j < n; j++)
    {
        RefCon r;
        std::shared_ptr<ConstraintBase<N, M>> c;
        if (kind == 2)
        {
            auto g = std::make_shared<GCon<N, M>>(s, s.b());
            r.val = [g](const VX& x, const VX& u, double t) { return g->val(x, u, t); };
            r.lb = g->lo, r.ub = g->up;
            c = g;
        }
        else
        {
            VI sp = genSp(kind == 0 ? M : N);
            VX lo(sp.sum()), up(sp.sum());
            for (int i = 0; i < lo.size(); i++)
                lo(i) = s.real(-3, 1), up(i) = lo(i) + s.real(0, 3);
            r.lb = lo, r.ub = up;
            if (kind == 0)
            {
                c = std::make_shared<ControlInputConstraint<N, M>>(lo, up, sp);
                r.val = [sel, sp](const VX&, const VX& u, double) { return sel(sp, u); };
            }
            else
            {
                c = std::make_shared<StateConstraint<N, M>>(lo, up, sp);
                r.val = [sel, sp](const VX& x, const VX&, double) { return sel(sp, x); };
            }
        }
        int where = kind == 0 ? 0 : s.i(0, 2);
        if (where != 1)
            cc->addIntermediateConstraint(c, false), ref.inter.push_back(r);
        if (where != 0)
            cc->addTerminalConstraint(c, false), ref.term.push_back(r);
    }
    cc->initialize();
    return cc;
}

template <int N, int M>
void dmsHistory(Src& s)
{
    Quiet quiet;
    typedef Eigen::Matrix<double, N, 1> X;
    RefDms<N, M> r;
    r.p = genProb<N, M>(s, s.b(), s.b());
    r.p.A *= 0.5;
    r.K = s.i(1, 4);
    int sub = s.i(1, 4);
    r.h = s.real(0.02, 0.15);
    r.T = r.K * sub * r.h;
    r.lin = s.b(), r.full = s.b(), r.rk = s.b();
    r.x0 = gen::vec<N>(s, 2);
    DmsSettings set;
    set.N_ = r.K, set.T_ = r.T, set.dt_sim_ = r.h;
    set.nThreads_ = s.i(0, 9) == 0 ? 3 : 1;
    set.splineType_ = r.lin ? DmsSettings::PIECEWISE_LINEAR : DmsSettings::ZERO_ORDER_HOLD;
    set.costEvaluationType_ = r.full ? DmsSettings::FULL : DmsSettings::SIMPLE;
    set.integrationType_ = r.rk ? DmsSettings::RK4 : DmsSettings::EULER;
    typedef ContinuousOptConProblem<N, M> OC;
    std::vector<typename OC::DynamicsPtr_t> sys;
    std::vector<typename OC::LinearPtr_t> lin;
    std::vector<typename OC::CostFunctionPtr_t> cost;
    for (int i = 0; i < r.K; i++)
    {
        sys.push_back(typename OC::DynamicsPtr_t(new GSys<N, M>(r.p)));
        lin.push_back(typename OC::LinearPtr_t(new GLin<N, M>(r.p)));
        cost.push_back(typename OC::CostFunctionPtr_t(new GCost<N, M>(r.p)));
    }
    std::vector<typename OC::ConstraintPtr_t> con[3];
    for (int k = 0; k < 3; k++)
        if (s.i(0, 2) == 0)
        {
            RefBox b;
            con[k].push_back(genBox<N, M>(s, k, b));
            r.boxes.push_back(b);
        }
    DmsProblem<N, M> dms(set, sys, lin, cost, con[0], con[1], con[2], core::StateVector<N>(r.x0));
    s.label(std::string(r.full ? "full" : "simple") + (r.lin ? "-linear" : "-hold") + (r.rk ? "-rk4" : "-euler"));
    if (!r.boxes.empty())
        s.label("constrained");

    const int n = (r.K + 1) * (N + M);
    VX lo, up;
    r.bounds(lo, up);
    const int m = lo.size();
    PBT_REQUIRE(int(dms.getVarCount()) == n, "variable-count", dms.getVarCount(), n);
    PBT_REQUIRE(int(dms.getConstraintsCount()) == m, "constraint-count", dms.getConstraintsCount(), m);
    const int nz = dms.getNonZeroJacobianCount();
    PBT_REQUIRE(nz > 0 && nz < 100000, "nonzero-count", nz);
    VX w;
    bool fresh = false;
    int checks = 0, updates = 0;
    auto fd = [&](const std::function<VX(const VX&)>& f) {
        const double e = 1e-5;
        MX J(f(w).size(), n);
        for (int j = 0; j < n; j++)
        {
            VX a = w, b = w;
            a(j) += e, b(j) -= e;
            J.col(j) = (f(a) - f(b)) / (2 * e);
        }
        return J;
    };
    const int ops = s.i(3, 12);
    for (int o = 0; o < ops; o++)
    {
        int op = fresh ? s.i(0, 11) : 0;
        switch (op)
        {
            case 0:
            case 1:
            {
                w = gen::matX(s, n, 1, 1.5);
                NlpD::MapConstVecXs mw(w.data(), n);
                dms.extractOptimizationVars(mw, true);
                fresh = true;
                updates++;
                break;
            }
            case 2:
            {
                NlpD::MapConstVecXs mw(w.data(), n);
                dms.extractOptimizationVars(mw, false);
                break;
            }
            case 3:
            case 4:
            {
                double J = dms.evaluateCostFun(), R = r.cost(w);
                PBT_REQUIRE(close(J, R, 1e-9, 1e-9), "cost", J, R);
                checks++;
                break;
            }
            case 5:
            case 6:
            {
                VX g = VX::Constant(n, 77.0);
                NlpD::MapVecXs mg(g.data(), n);
                dms.evaluateCostGradient(n, mg);
                VX R = fd([&](const VX& v) { return VX(VX::Constant(1, r.cost(v))); }).transpose();
                PBT_REQUIRE(mclose(g, R, 1e-5, 1e-5 * (1 + R.cwiseAbs().maxCoeff())), "cost-gradient", g.transpose(), R.transpose());
                checks++;
                break;
            }
            case 7:
            {
                VX g = VX::Constant(m, 77.0);
                NlpD::MapVecXs mg(g.data(), m);
                dms.evaluateConstraints(mg);
                VX R = r.constraints(w);
                PBT_REQUIRE(mclose(g, R, 1e-9, 1e-9), "constraints", g.transpose(), R.transpose());
                checks++;
                break;
            }
            case 8:
            case 9:
            {
                VX v = VX::Constant(nz, 77.0);
                VI ir = VI::Constant(nz, -1), jc = VI::Constant(nz, -1);
                NlpD::MapVecXs mv(v.data(), nz);
                NlpD::MapVecXi mi(ir.data(), nz), mj(jc.data(), nz);
                const bool patternFirst = s.b();
                if (patternFirst)
                    dms.getSparsityPatternJacobian(nz, mi, mj);
                dms.evaluateConstraintJacobian(nz, mv);
                if (!patternFirst)
                    dms.getSparsityPatternJacobian(nz, mi, mj);
                MX J = MX::Zero(m, n);
                for (int k = 0; k < nz; k++)
                {
                    PBT_REQUIRE(ir(k) >= 0 && ir(k) < m && jc(k) >= 0 && jc(k) < n, "jacobian-pattern-range", ir(k), jc(k), m, n);
                    J(ir(k), jc(k)) += v(k);
                }
                MX R = fd([&](const VX& x) { return r.constraints(x); });
                PBT_REQUIRE(mclose(J, R, 1e-5, 1e-5 * (1 + R.cwiseAbs().maxCoeff())), "constraint-jacobian", J - R);
                checks++;
                break;
            }
            case 10:
            {
                int what = s.i(0, 3);
                if (what == 0)
                {
                    r.x0 = gen::vec<N>(s, 2);
                    dms.changeInitialState(core::StateVector<N>(r.x0));
                    s.label("initial-state-change");
                    fresh = false;
                }
                else if (what == 1)
                {
                    r.T = r.K * s.i(1, 4) * r.h;
                    dms.changeTimeHorizon(r.T);
                    PBT_REQUIRE(close(dms.getTimeHorizon(), r.T, 1e-12, 0), "time-horizon", dms.getTimeHorizon(), r.T);
                    s.label("time-horizon-change");
                    fresh = false;
                }
                else if (what == 2)
                {
                    VX l(m), u(m), vl(n), vu(n);
                    NlpD::MapVecXs ml(l.data(), m), mu(u.data(), m), mvl(vl.data(), n), mvu(vu.data(), n);
                    dms.getConstraintBounds(ml, mu, m);
                    r.bounds(lo, up);
                    PBT_REQUIRE(l == lo && u == up, "constraint-bounds", l.transpose(), lo.transpose(), u.transpose(), up.transpose());
                    dms.getVariableBounds(mvl, mvu, n);
                    PBT_REQUIRE(vl.maxCoeff() <= -1e19 && vu.minCoeff() >= 1e19, "variable-bounds", vl.transpose(), vu.transpose());
                    checks++;
                }
                else
                {
                    core::StateVectorArray<N> xg;
                    core::ControlVectorArray<M> ug;
                    VX ref(n), got(n);
                    for (int i = 0; i <= r.K; i++)
                    {
                        xg.push_back(gen::vec<N>(s, 2)), ug.push_back(gen::vec<M>(s, 2));
                        ref.segment(i * (N + M), N) = xg.back(), ref.segment(i * (N + M) + N, M) = ug.back();
                    }
                    dms.setInitialGuess(xg, ug);
                    NlpD::MapVecXs mg(got.data(), n);
                    dms.getInitialGuess(n, mg);
                    PBT_REQUIRE(got == ref, "initial-guess", got.transpose(), ref.transpose());
                    if (s.b())
                    {
                        bool threw = false;
                        if (s.b())
                            xg.push_back(xg.back());
                        else
                            ug.push_back(ug.back());
                        try
                        {
                            dms.setInitialGuess(xg, ug);
                        } catch (const std::exception&)
                        {
                            threw = true;
                        }
                        PBT_REQUIRE(threw, "initial-guess-size-accepted", xg.size(), ug.size());
                    }
                    checks++;
                }
                break;
            }
            default:
            {
                core::StateVectorArray<N> xs = dms.getStateSolution();
                core::ControlVectorArray<M> us = dms.getInputSolution();
                core::TimeArray ts = dms.getTimeSolution();
                PBT_REQUIRE(int(xs.size()) == r.K + 1 && int(us.size()) == r.K + 1 && int(ts.size()) == r.K + 1, "solution-size", xs.size(), us.size(), ts.size());
                for (int i = 0; i <= r.K; i++)
                {
                    PBT_REQUIRE(xs[i] == r.xs(w, i) && us[i] == r.us(w, i), "solution", i);
                    PBT_REQUIRE(close(ts[i], r.tn(i), 1e-12, 1e-12), "solution-time", i, ts[i], r.tn(i));
                }
            }
        }
    }
    if (checks >= 2 && updates >= 1)
        s.nontrivial();
}

#if PART == 1
FACET(transcription_n1, 3) { dmsHistory<1, 1>(s); }
#elif PART == 2
FACET(transcription_n2, 6) { dmsHistory<2, 1>(s); }
#elif PART == 3
FACET(transcription_n3, 5) { dmsHistory<3, 2>(s); }
#else

//! time grids and input splines
FACET(splines, 3)
{
    Quiet quiet;
    typedef core::ControlVector<2> V;
    const int K = s.i(1, 6);
    double T = s.real(0.2, 5);
    auto grid = std::make_shared<ct::optcon::tpl::TimeGrid<double>>(K, T);
    std::vector<double> t(K + 1);
    auto uniform = [&]() {
        for (int i = 0; i <= K; i++)
            t[i] = T * i / K;
    };
    uniform();
    std::shared_ptr<SplinerBase<V, double>> sp;
    const bool lin = s.b();
    if (lin)
        sp = std::make_shared<LinearSpliner<V, double>>(grid);
    else
        sp = std::make_shared<ZeroOrderHoldSpliner<V, double>>(grid);
    typename SplinerBase<V, double>::vector_array_t nodes;
    auto newNodes = [&]() {
        nodes.clear();
        for (int i = 0; i <= K; i++)
            nodes.push_back(gen::vec<2>(s, 3));
        sp->computeSpline(nodes);
    };
    newNodes();
    const int ops = s.i(1, 6);
    for (int o = 0; o < ops; o++)
    {
        int op = s.i(0, 4);
        if (op == 0)
            newNodes();
        else if (op == 1)
        {
            T = s.real(0.2, 5);
            grid->changeTimeHorizon(T);
            uniform();
        }
        else if (op == 2)
        {
            VX hs(K);
            t[0] = 0;
            for (int i = 0; i < K; i++)
                hs(i) = s.real(0.05, 1), t[i + 1] = t[i] + hs(i);
            grid->updateTimeGrid(hs);
        }
        const int i = s.i(0, K - 1);
        const double a = s.pick(std::vector<double>{0.0, 1.0, 0.5, s.real(0, 1), s.real(0, 1)});
        const double tt = t[i] + a * (t[i + 1] - t[i]);
        PBT_REQUIRE(close(grid->getShotStartTime(i), t[i], 1e-12, 1e-12) && close(grid->getShotEndTime(i), t[i + 1], 1e-12, 1e-12), "grid", i, grid->getShotStartTime(i), t[i]);
        PBT_REQUIRE(close(grid->getShotDuration(i), t[i + 1] - t[i], 1e-10, 1e-12), "grid-duration", i, grid->getShotDuration(i), t[i + 1] - t[i]);
        PBT_REQUIRE(close(grid->getOptimizedTimeHorizon(), t[K], 1e-12, 0), "grid-horizon", grid->getOptimizedTimeHorizon(), t[K]);
        V v = sp->evalSpline(tt, i);
        V ref = lin ? V((1 - a) * nodes[i] + a * nodes[i + 1]) : V(nodes[i]);
        PBT_REQUIRE(mclose(v, ref, 1e-9, 1e-9), "spline-value", v.transpose(), ref.transpose());
        V dt = sp->splineDerivative_t(tt, i);
        V dtr = lin ? V((nodes[i + 1] - nodes[i]) / (t[i + 1] - t[i])) : V(V::Zero());
        PBT_REQUIRE(mclose(dt, dtr, 1e-8, 1e-8), "spline-time-derivative", dt.transpose(), dtr.transpose());
        V dh = sp->splineDerivative_h_i(tt, i);
        V dhr = lin ? V(-a * (nodes[i + 1] - nodes[i]) / (t[i + 1] - t[i])) : V(V::Zero());
        PBT_REQUIRE(mclose(dh, dhr, 1e-8, 1e-8), "spline-duration-derivative", dh.transpose(), dhr.transpose());
        Eigen::Matrix2d q0 = sp->splineDerivative_q_i(tt, i), q1 = sp->splineDerivative_q_iplus1(tt, i);
        Eigen::Matrix2d I = Eigen::Matrix2d::Identity();
        PBT_REQUIRE(mclose(q0, Eigen::Matrix2d((lin ? 1 - a : 1.0) * I), 1e-9, 1e-9), "spline-node-derivative", q0);
        PBT_REQUIRE(mclose(q1, Eigen::Matrix2d((lin ? a : 0.0) * I), 1e-9, 1e-9), "spline-next-node-derivative", q1);
        if (lin)
            s.nontrivial();
    }
}

//! the vector of optimisation variables
FACET(variables, 2)
{
    Quiet quiet;
    const int N = 3, M = 2;
    DmsSettings set;
    set.N_ = s.i(1, 7);
    const int K = set.N_, n = (K + 1) * (N + M);
    OptVectorDms<N, M> w(n, set);
    PBT_REQUIRE(int(w.size()) == n, "size", w.size(), n);
    for (int i = 0; i <= K; i++)
        PBT_REQUIRE(int(w.getStateIndex(i)) == i * (N + M) && int(w.getControlIndex(i)) == i * (N + M) + N, "index", i);
    const int ops = s.i(1, 6);
    VX cur = VX::Zero(n), got(n);
    {
        NlpD::MapVecXs mg(got.data(), n);
        w.getInitialGuess(n, mg);
        PBT_REQUIRE(got == cur, "unset-guess", got.transpose());
    }
    size_t count = w.getUpdateCount();
    for (int o = 0; o < ops; o++)
    {
        int op = s.i(0, 3);
        if (op == 0)
        {
            core::StateVector<N> a(gen::vec<N>(s, 3)), b(gen::vec<N>(s, 3));
            core::ControlVector<M> u(gen::vec<M>(s, 3));
            w.setInitGuess(a, b, u);
            NlpD::MapVecXs mg(got.data(), n);
            w.getInitialGuess(n, mg);
            for (int i = 0; i <= K; i++)
            {
                core::StateVector<N> r = a + (b - a) * (double(i) / K);
                PBT_REQUIRE(mclose(VX(got.segment(i * (N + M), N)), VX(r), 1e-12, 1e-12), "interpolated-guess", i, got.segment(i * (N + M), N).transpose(), r.transpose());
                PBT_REQUIRE(VX(got.segment(i * (N + M) + N, M)) == VX(u), "input-guess", i);
            }
            s.nontrivial();
        }
        else if (op == 1)
        {
            cur = gen::matX(s, n, 1, 3);
            w.setOptimizationVars(cur);
            PBT_REQUIRE(w.getUpdateCount() != count, "update-count", count);
            count = w.getUpdateCount();
        }
        else if (op == 2)
        {
            core::StateVector<N> a(gen::vec<N>(s, 3));
            if (s.b())
                w.changeInitialState(a), cur.segment(0, N) = a;
            else
                w.changeDesiredState(a), cur.segment(K * (N + M), N) = a;
        }
        for (int i = 0; i <= K; i++)
            PBT_REQUIRE(w.getOptimizedState(i) == VX(cur.segment(i * (N + M), N)) && w.getOptimizedControl(i) == VX(cur.segment(i * (N + M) + N, M)), "variables", i);
        PBT_REQUIRE(int(w.getOptimizedStates().size()) == K + 1 && w.getOptimizedStates()[K] == VX(cur.segment(K * (N + M), N)), "states", K);
        PBT_REQUIRE(int(w.getOptimizedInputs().size()) == K + 1 && w.getOptimizedInputs()[K] == VX(cur.segment(K * (N + M) + N, M)), "inputs", K);
    }
}
#endif
