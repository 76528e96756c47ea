// C25: the NLP front end (user-defined programs, IPOPT interface) and the direct multiple shooting solver
#include "nloc_common.h"
#include <ct/optcon/dms/dms.h>
#include <ct/optcon/nlp/Nlp>
typedef Eigen::VectorXi VI;
typedef ct::optcon::tpl::Nlp<double> NlpD;
typedef ct::optcon::tpl::OptVector<double> Vars;

#if PART == 1
//! rows a_i x + 0.5 x' S_i x with sparse a_i and S_i (lower triangle listed in a scrambled order)
struct RefRows
{
    MX a;
    std::vector<MX> S;
    VX lo, up;
    VX val(const VX& x) const
    {
        VX g = a * x;
        for (int i = 0; i < g.size(); i++)
            g(i) += 0.5 * x.dot(S[i] * x);
        return g;
    }
    MX jac(const VX& x) const
    {
        MX J = a;
        for (int i = 0; i < J.rows(); i++)
            J.row(i) += (S[i] * x).transpose();
        return J;
    }
};
typedef std::vector<std::pair<int, int>> Pat;
template <class T>
void scramble(Src& s, std::vector<T>& v)
{
    for (size_t i = v.size(); i > 1; i--)
        std::swap(v[i - 1], v[s.i(0, int(i) - 1)]);
}
class Rows : public ct::optcon::tpl::DiscreteConstraintBase<double>
{
public:
    RefRows r;
    Pat jp, hp;
    std::shared_ptr<Vars> w;
    Rows(const RefRows& q, Src& s, std::shared_ptr<Vars> v) : r(q), w(v)
    {
        const int n = r.a.cols();
        for (int i = 0; i < r.a.rows(); i++)
            for (int j = 0; j < n; j++)
                if (r.a(i, j) != 0 || !r.S[i].row(j).isZero(0) || s.i(0, 5) == 0)
                    jp.push_back({i, j});
        if (jp.empty())
            jp.push_back({0, 0});
        scramble(s, jp);
        for (int i = 0; i < n; i++)
            for (int j = 0; j <= i; j++)
            {
                bool any = s.i(0, 5) == 0;
                for (auto& m : r.S)
                    any = any || m(i, j) != 0;
                if (any)
                    hp.push_back({i, j});
            }
        scramble(s, hp);
    }
    VX eval() override { return r.val(w->getOptimizationVars()); }
    VX evalSparseJacobian() override
    {
        MX J = r.jac(w->getOptimizationVars());
        VX v(jp.size());
        for (size_t k = 0; k < jp.size(); k++)
            v(k) = J(jp[k].first, jp[k].second);
        return v;
    }
    size_t getConstraintSize() override { return r.a.rows(); }
    size_t getNumNonZerosJacobian() override { return jp.size(); }
    void genSparsityPattern(VI& ir, VI& jc) override
    {
        for (size_t k = 0; k < jp.size(); k++)
            ir(k) = jp[k].first, jc(k) = jp[k].second;
    }
    void genSparsityPatternHessian(VI& ir, VI& jc) override
    {
        ir.resize(hp.size()), jc.resize(hp.size());
        for (size_t k = 0; k < hp.size(); k++)
            ir(k) = hp[k].first, jc(k) = hp[k].second;
    }
    void sparseHessianValues(const VX&, const VX& lambda, VX& h) override
    {
        h.resize(hp.size());
        for (size_t k = 0; k < hp.size(); k++)
        {
            h(k) = 0;
            for (int i = 0; i < lambda.size(); i++)
                h(k) += lambda(i) * r.S[i](hp[k].first, hp[k].second);
        }
    }
    VX getLowerBound() override { return r.lo; }
    VX getUpperBound() override { return r.up; }
};
class Cost : public ct::optcon::tpl::DiscreteCostEvaluatorBase<double>
{
public:
    MX H;
    VX c;
    double q;
    Pat hp;
    std::shared_ptr<Vars> w;
    double J(const VX& x) const { return 0.5 * x.dot(H * x) + c.dot(x) + 0.25 * q * x.array().pow(4).sum(); }
    VX g(const VX& x) const { return H * x + c + VX(q * x.array().pow(3)); }
    MX hess(const VX& x) const
    {
        MX r = H;
        r.diagonal().array() += 3 * q * x.array().square();
        return r;
    }
    double eval() override { return J(w->getOptimizationVars()); }
    void evalGradient(size_t, Eigen::Map<VX>& grad) override { grad = g(w->getOptimizationVars()); }
    void getSparsityPatternHessian(VI& ir, VI& jc) override
    {
        ir.resize(hp.size()), jc.resize(hp.size());
        for (size_t k = 0; k < hp.size(); k++)
            ir(k) = hp[k].first, jc(k) = hp[k].second;
    }
    void sparseHessianValues(const VX& x, const VX& om, VX& h) override
    {
        MX m = hess(x);
        h.resize(hp.size());
        for (size_t k = 0; k < hp.size(); k++)
            h(k) = om(0) * m(hp[k].first, hp[k].second);
    }
};
class Container : public ct::optcon::tpl::DiscreteConstraintContainerBase<double>
{
public:
    int prepared = 0, preparedJac = 0;
    void add(std::shared_ptr<Rows> r) { constraints_.push_back(r); }
    void prepareEvaluation() override { prepared++; }
    void prepareJacobianEvaluation() override { preparedJac++; }
};
class UserNlp : public NlpD
{
public:
    std::shared_ptr<Cost> cost;
    std::shared_ptr<Container> con;
    std::shared_ptr<Vars> w;
    std::vector<RefRows> blocks;
    VX lo, up, lb, ub, xs;
    int m = 0, n, updates = 0;
    UserNlp(Src& s)
    {
        n = s.i(1, 5);
        w = std::make_shared<Vars>(n);
        cost = std::make_shared<Cost>();
        con = std::make_shared<Container>();
        optVariables_ = w, costEvaluator_ = cost, constraints_ = con;
        MX b = gen::matX(s, n, n, 1);
        if (s.b())
            b = MX(b.diagonal().asDiagonal());
        cost->H = b * b.transpose() + 0.3 * MX::Identity(n, n);
        cost->c = gen::matX(s, n, 1, 3);
        cost->q = s.b() ? 0.0 : s.real(0, 1);
        cost->w = w;
        for (int i = 0; i < n; i++)
            for (int j = 0; j <= i; j++)
                if (cost->H(i, j) != 0)
                    cost->hp.push_back({i, j});
        scramble(s, cost->hp);
        xs = gen::matX(s, n, 1, 1.5);
        lo = VX(n), up = VX(n);
        for (int i = 0; i < n; i++)
        {
            lo(i) = s.b() ? xs(i) - s.real(0.05, 2) : std::numeric_limits<double>::lowest();
            up(i) = s.b() ? xs(i) + s.real(0.05, 2) : std::numeric_limits<double>::max();
        }
        w->setBounds(lo, up);
        int nb = s.i(0, 3), eq = 0;
        std::vector<double> l, u;
        for (int k = 0; k < nb; k++)
        {
            RefRows r;
            int rows = s.i(1, 2);
            r.a = gen::matX(s, rows, n, 1);
            r.lo = VX(rows), r.up = VX(rows);
            for (int i = 0; i < rows; i++)
            {
                r.S.push_back(MX::Zero(n, n));
                for (int j = 0; j < n; j++)
                    if (s.i(0, 2) == 0)
                        r.a(i, j) = 0;
                int kind = s.i(0, 2);
                if (kind == 0 && !(eq == 0 && n > 1))
                    kind = 1;
                if (kind == 2)
                {
                    VX d = gen::matX(s, n, 1, 1);
                    for (int j = 0; j < n; j++)
                        if (s.b())
                            d(j) = 0;
                    r.S[i] = d * d.transpose();
                    if (s.b())
                        r.S[i](0, 0) += s.real(0.1, 1);
                }
                if (kind == 0 && r.a.row(i).norm() < 0.2)
                    r.a(i, 0) += 1;
                double v = r.a.row(i).dot(xs) + 0.5 * xs.dot(r.S[i] * xs);
                if (kind == 0)
                    r.lo(i) = r.up(i) = v, eq++;
                else
                {
                    r.up(i) = v + s.real(0.05, 2);
                    r.lo(i) = kind == 1 && s.b() ? v - s.real(0.05, 2) : std::numeric_limits<double>::lowest();
                }
                l.push_back(r.lo(i)), u.push_back(r.up(i));
            }
            blocks.push_back(r);
            con->add(std::make_shared<Rows>(r, s, w));
        }
        m = l.size();
        lb = Eigen::Map<VX>(l.data(), m), ub = Eigen::Map<VX>(u.data(), m);
        w->resizeConstraintVars(m);
    }
    void updateProblem() override { updates++; }
    VX g(const VX& x) const
    {
        VX r(m);
        int k = 0;
        for (auto& b : blocks)
            r.segment(k, b.a.rows()) = b.val(x), k += b.a.rows();
        return r;
    }
    MX jac(const VX& x) const
    {
        MX r(m, n);
        int k = 0;
        for (auto& b : blocks)
            r.middleRows(k, b.a.rows()) = b.jac(x), k += b.a.rows();
        return r;
    }
    MX lagHess(const VX& x, double om, const VX& lam) const
    {
        MX r = om * cost->hess(x);
        int k = 0;
        for (auto& b : blocks)
            for (auto& S : b.S)
                r += lam(k++) * S;
        return r;
    }
};

//! the quantities handed to a solver, on arbitrary variables and multipliers
FACET(user_program, 4)
{
    Quiet quiet;
    auto nlp = std::make_shared<UserNlp>(s);
    const int n = nlp->n, m = nlp->m;
    PBT_REQUIRE(int(nlp->getVarCount()) == n && int(nlp->getConstraintsCount()) == m, "counts", nlp->getVarCount(), nlp->getConstraintsCount());
    const int nz = nlp->getNonZeroJacobianCount();
    const int nh = nlp->getNonZeroHessianCount();
    if (m > 0)
        s.label("constrained");
    VI hi(nh), hj(nh), ji(nz), jj(nz);
    NlpD::MapVecXi mhi(hi.data(), nh), mhj(hj.data(), nh), mji(ji.data(), nz), mjj(jj.data(), nz);
    nlp->getSparsityPatternHessian(nh, mhi, mhj);
    nlp->getSparsityPatternJacobian(nz, mji, mjj);
    std::set<std::pair<int, int>> seen;
    for (int k = 0; k < nh; k++)
    {
        PBT_REQUIRE(hi(k) >= hj(k) && hj(k) >= 0 && hi(k) < n, "hessian-pattern-range", hi(k), hj(k));
        PBT_REQUIRE(seen.insert({hi(k), hj(k)}).second, "hessian-pattern-duplicate", hi(k), hj(k));
    }
    VX w(n);
    const int reps = s.i(1, 4);
    bool have = false;
    for (int rep = 0; rep < reps; rep++)
    {
        VX x = gen::matX(s, n, 1, 2);
        const bool isNew = !have || s.i(0, 3) != 0;
        const int before = nlp->updates;
        NlpD::MapConstVecXs mx(x.data(), n);
        nlp->extractOptimizationVars(mx, isNew);
        PBT_REQUIRE(nlp->updates == before + (isNew ? 1 : 0), "update", nlp->updates, before, isNew);
        if (isNew)
            w = x;
        have = true;
        PBT_REQUIRE(close(nlp->evaluateCostFun(), nlp->cost->J(w), 1e-12, 1e-12), "cost", nlp->evaluateCostFun());
        VX g = VX::Constant(n, 9), c = VX::Constant(m, 9), jv = VX::Constant(nz, 9), hv = VX::Constant(nh, 9);
        NlpD::MapVecXs mg(g.data(), n), mc(c.data(), m), mj(jv.data(), nz), mh(hv.data(), nh);
        nlp->evaluateCostGradient(n, mg);
        PBT_REQUIRE(mclose(g, nlp->cost->g(w), 1e-12, 1e-12), "gradient", g.transpose());
        if (s.b())
        {
            int p = nlp->con->prepared;
            nlp->evaluateConstraints(mc);
            PBT_REQUIRE(nlp->con->prepared > p, "prepare-evaluation", p);
            PBT_REQUIRE(mclose(c, nlp->g(w), 1e-12, 1e-12), "constraints", c.transpose());
        }
        if (s.b())
        {
            int p = nlp->con->preparedJac;
            nlp->evaluateConstraintJacobian(nz, mj);
            PBT_REQUIRE(nlp->con->preparedJac > p, "prepare-jacobian", p);
            MX J = MX::Zero(m, n);
            for (int k = 0; k < nz; k++)
            {
                PBT_REQUIRE(ji(k) >= 0 && ji(k) < m && jj(k) >= 0 && jj(k) < n, "jacobian-pattern-range", ji(k), jj(k));
                J(ji(k), jj(k)) += jv(k);
            }
            PBT_REQUIRE(mclose(J, nlp->jac(w), 1e-12, 1e-12), "jacobian", J, nlp->jac(w));
        }
        VX lam = gen::matX(s, m, 1, 2);
        const double om = s.pick(std::vector<double>{0.0, 1.0, s.real(-2, 2)});
        NlpD::MapConstVecXs ml(lam.data(), m);
        nlp->evaluateHessian(nh, mh, om, ml);
        MX L = MX::Zero(n, n);
        for (int k = 0; k < nh; k++)
            L(hi(k), hj(k)) += hv(k);
        MX R = nlp->lagHess(w, om, lam).triangularView<Eigen::Lower>();
        PBT_REQUIRE(mclose(L, R, 1e-11, 1e-11), "lagrangian-hessian", L, R);
        if (m > 0)
            s.nontrivial();
    }
    VX l(m), u(m), vl(n), vu(n);
    NlpD::MapVecXs ml(l.data(), m), mu(u.data(), m), mvl(vl.data(), n), mvu(vu.data(), n);
    nlp->getConstraintBounds(ml, mu, m);
    nlp->getVariableBounds(mvl, mvu, n);
    PBT_REQUIRE(l == nlp->lb && u == nlp->ub && vl == nlp->lo && vu == nlp->up, "bounds", l.transpose(), u.transpose(), vl.transpose(), vu.transpose());
}

//! IPOPT on convex programs: the reported solution and multipliers certify optimality
FACET(ipopt_user_program, 2)
{
    Quiet quiet;
    auto nlp = std::make_shared<UserNlp>(s);
    const int n = nlp->n, m = nlp->m;
    NlpSolverSettings set;
    set.solverType_ = NlpSolverType::IPOPT;
    set.ipoptSettings_.printLevel_ = 0;
    set.ipoptSettings_.max_iter_ = 1000;
    bool exact = s.b(), warm = false;
    set.ipoptSettings_.hessian_approximation_ = exact ? "exact" : "limited-memory";
    VX x0 = gen::matX(s, n, 1, 2);
    nlp->w->setInitialGuess(x0);
    IpoptSolver solver(nlp, set);
    const int solves = s.i(1, 3);
    for (int k = 0; k < solves; k++)
    {
        if (k > 0)
        {
            if (s.p(3, 4))
                nlp->cost->c = gen::matX(s, n, 1, 3);
            if (s.b())
            {
                nlp->w->setInitialGuess(VX(gen::matX(s, n, 1, 2)));
            }
            if (s.p(1, 4))
            {
                exact = s.b();
                set.ipoptSettings_.hessian_approximation_ = exact ? "exact" : "limited-memory";
                s.note("configure ", exact ? "exact" : "limited-memory");
                solver.configure(set);
            }
            if (s.p(1, 3))
            {
                // warm start: from the last variables and multipliers, with a limited number of iterations
                const int it = s.i(0, 200);
                s.note("warm start, ", it, " iterations");
                solver.prepareWarmStart(it);
                warm = true;
            }
        }
        const bool ok = solver.solve();
        s.label(std::string(warm ? "warm-" : "") + (exact ? "exact" : "limited-memory") + (ok ? "-solved" : "-not-solved"));
        PBT_REQUIRE(ok || !exact || warm, "convex-program-not-solved", n, m);
        if (!ok)
            return;
        VX x = nlp->w->getOptimizationVars(), zl(n), zu(n), lam(m);
        NlpD::MapVecXs ml(lam.data(), m), mzl(zl.data(), n), mzu(zu.data(), n);
        nlp->getBoundMultipliers(n, mzl, mzu);
        nlp->getLambdaVars(m, ml);
        const double tol = 1e-5 * (1 + nlp->cost->c.cwiseAbs().maxCoeff() + lam.cwiseAbs().sum());
        VX g = nlp->g(x);
        VX st = nlp->cost->g(x) + nlp->jac(x).transpose() * lam - zl + zu;
        PBT_REQUIRE(st.cwiseAbs().maxCoeff() < tol, "stationarity", st.transpose(), x.transpose());
        for (int i = 0; i < m; i++)
        {
            PBT_REQUIRE(g(i) > nlp->lb(i) - 1e-5 && g(i) < nlp->ub(i) + 1e-5, "constraint-violated", i, g(i), nlp->lb(i), nlp->ub(i));
            if (nlp->lb(i) < nlp->ub(i))
            {
                if (lam(i) > tol)
                    PBT_REQUIRE((nlp->ub(i) - g(i)) * lam(i) < tol, "complementarity-upper", i, lam(i), g(i), nlp->ub(i));
                if (lam(i) < -tol)
                    PBT_REQUIRE((g(i) - nlp->lb(i)) * -lam(i) < tol, "complementarity-lower", i, lam(i), g(i), nlp->lb(i));
            }
        }
        for (int i = 0; i < n; i++)
        {
            PBT_REQUIRE(x(i) > nlp->lo(i) - 1e-5 && x(i) < nlp->up(i) + 1e-5, "bound-violated", i, x(i), nlp->lo(i), nlp->up(i));
            PBT_REQUIRE(zl(i) >= -1e-9 && zu(i) >= -1e-9, "multiplier-sign", i, zl(i), zu(i));
            if (zl(i) > tol)
                PBT_REQUIRE((x(i) - nlp->lo(i)) * zl(i) < tol, "complementarity-lower-bound", i, x(i), zl(i));
            if (zu(i) > tol)
                PBT_REQUIRE((nlp->up(i) - x(i)) * zu(i) < tol, "complementarity-upper-bound", i, x(i), zu(i));
        }
        s.nontrivial();
    }
}
#endif

#if PART == 2
template <int N, int M>
void dmsSolve(Src& s)
{
    Quiet quiet;
    typedef Eigen::Matrix<double, N, 1> X;
    typedef Eigen::Matrix<double, M, 1> U;
    const bool linear = s.i(0, 2) != 0;
    Prob<N, M> p = genProb<N, M>(s, linear, s.b());
    p.A *= 0.5;
    p.Q += 0.1 * Eigen::Matrix<double, N, N>::Identity();
    const int K = s.i(1, 5), sub = s.i(1, 3);
    const double h = s.real(0.03, 0.12);
    double T = K * sub * h;
    const bool lin = s.b(), full = s.b(), rk = s.b();
    X x0 = gen::vec<N>(s, 1.5);
    DmsSettings set;
    set.N_ = K, set.T_ = s.b() ? T : K * s.i(1, 3) * h, set.dt_sim_ = h;
    set.splineType_ = lin ? DmsSettings::PIECEWISE_LINEAR : DmsSettings::ZERO_ORDER_HOLD;
    set.costEvaluationType_ = full ? DmsSettings::FULL : DmsSettings::SIMPLE;
    set.integrationType_ = rk ? DmsSettings::RK4 : DmsSettings::EULER;
    set.solverSettings_.solverType_ = NlpSolverType::IPOPT;
    set.solverSettings_.ipoptSettings_.printLevel_ = 0;
    set.solverSettings_.ipoptSettings_.max_iter_ = 500;
    U lo = U::Constant(-1e3), up = U::Constant(1e3);
    const bool box = s.b();
    typedef ContinuousOptConProblem<N, M> OC;
    typename OC::DynamicsPtr_t sys(new GSys<N, M>(p));
    typename OC::LinearPtr_t ls(new GLin<N, M>(p));
    typename OC::CostFunctionPtr_t cf(new GCost<N, M>(p));
    OC prob(T, core::StateVector<N>(x0), sys, cf, ls);
    if (box)
    {
        for (int i = 0; i < M; i++)
            lo(i) = s.real(-1.5, 0.3), up(i) = lo(i) + s.real(0.2, 1.5);
        auto cc = std::make_shared<ConstraintContainerAnalytical<N, M>>();
        cc->addIntermediateConstraint(std::make_shared<ControlInputConstraint<N, M>>(core::ControlVector<M>(lo), core::ControlVector<M>(up)), false);
        cc->initialize();
        prob.setInputBoxConstraints(cc);
    }
    DmsSolver<N, M> solver(prob, set);
    s.label(std::string(linear ? "linear" : "nonlinear") + (box ? "-box" : ""));
    const int solves = s.i(1, 3);
    for (int k = 0; k < solves; k++)
    {
        if (k > 0)
        {
            if (s.b())
            {
                x0 = gen::vec<N>(s, 1.5);
                solver.changeInitialState(core::StateVector<N>(x0));
                s.label("initial-state-change");
            }
            if (s.b())
            {
                T = K * s.i(1, 3) * h;
                solver.changeTimeHorizon(T);
                s.label("horizon-change");
            }
        }
        if (k == 0 || s.b())
        {
            DmsPolicy<N, M> guess;
            for (int i = 0; i <= K; i++)
                guess.xSolution_.push_back(gen::vec<N>(s, 1)), guess.uSolution_.push_back(gen::vec<M>(s, 0.5));
            solver.setInitialGuess(guess);
        }
        PBT_REQUIRE(close(solver.getTimeHorizon(), T, 1e-12, 0), "horizon", solver.getTimeHorizon(), T);
        const bool ok = solver.solve();
        s.label(ok ? "solved" : "not-solved");
        PBT_REQUIRE(ok || !linear, "convex-program-not-solved", K, T);
        if (!ok)
            return;
        DmsPolicy<N, M> sol = solver.getSolution();
        PBT_REQUIRE(int(sol.xSolution_.size()) == K + 1 && int(sol.uSolution_.size()) == K + 1 && int(sol.tSolution_.size()) == K + 1, "solution-size", sol.xSolution_.size());
        core::StateTrajectory<N> xt = solver.getStateTrajectory();
        core::ControlTrajectory<M> ut = solver.getControlTrajectory();
        for (int i = 0; i <= K; i++)
        {
            PBT_REQUIRE(close(sol.tSolution_[i], i * T / K, 1e-12, 1e-12), "solution-time", i, sol.tSolution_[i]);
            PBT_REQUIRE(xt[i] == sol.xSolution_[i] && ut[i] == sol.uSolution_[i] && xt.getTimeFromIndex(i) == sol.tSolution_[i], "trajectory", i);
        }
        // simulate the shots from x0 with the inputs of the solution
        const int ns = int(T / K / h + 0.5);
        auto roll = [&](const std::vector<U>& us, std::vector<X>& xs) {
            double J = 0;
            X x = x0;
            xs.assign(1, x);
            const double d = T / K;
            for (int i = 0; i < K; i++)
            {
                auto u = [&](double t) -> U {
                    if (!lin)
                        return us[i];
                    double a = (t - i * d) / d;
                    return (1 - a) * us[i] + a * us[i + 1];
                };
                if (!full && !lin)
                    J += d * p.L(x, us[i], i * d);
                X xb = x;
                for (int j = 0; j < ns; j++)
                {
                    const double t = i * d + j * h, tm = t + 0.5 * h, te = t + h;
                    X k1 = p.f(x, u(t), t);
                    if (!rk)
                    {
                        if (full)
                            J += h * p.L(x, u(t), t);
                        x += h * k1;
                        continue;
                    }
                    X x2 = x + 0.5 * h * k1, k2 = p.f(x2, u(tm), tm);
                    X x3 = x + 0.5 * h * k2, k3 = p.f(x3, u(tm), tm);
                    X x4 = x + h * k3, k4 = p.f(x4, u(te), te);
                    if (full)
                        J += h / 6 * (p.L(x, u(t), t) + 2 * p.L(x2, u(tm), tm) + 2 * p.L(x3, u(tm), tm) + p.L(x4, u(te), te));
                    x += h / 6 * (k1 + 2 * k2 + 2 * k3 + k4);
                }
                if (!full && lin)
                    J += 0.5 * d * (p.L(xb, us[i], i * d) + p.L(x, us[i + 1], (i + 1) * d));
                xs.push_back(x);
            }
            return J + p.F(x, T);
        };
        std::vector<U> us;
        for (int i = 0; i <= K; i++)
        {
            us.push_back(sol.uSolution_[i]);
            for (int j = 0; j < M; j++)
                PBT_REQUIRE(us[i](j) > lo(j) - 1e-4 && us[i](j) < up(j) + 1e-4, "input-bound", i, us[i].transpose(), lo.transpose(), up.transpose());
        }
        std::vector<X> xs;
        roll(us, xs);
        for (int i = 0; i <= K; i++)
            PBT_REQUIRE(mclose(X(sol.xSolution_[i]), xs[i], 1e-4, 1e-4), "dynamics", i, sol.xSolution_[i].transpose(), xs[i].transpose());
        // first-order optimality in the inputs (a global certificate if the program is convex)
        std::vector<X> tmp;
        for (int i = 0; i <= K; i++)
            for (int j = 0; j < M; j++)
            {
                const double e = 1e-4;
                std::vector<U> a = us, b = us;
                a[i](j) += e, b[i](j) -= e;
                const double g = (roll(a, tmp) - roll(b, tmp)) / (2 * e);
                const double tol = 1e-3;
                if (us[i](j) > lo(j) + 1e-3)
                    PBT_REQUIRE(g < tol, "not-optimal", i, j, g, us[i](j));
                if (us[i](j) < up(j) - 1e-3)
                    PBT_REQUIRE(g > -tol, "not-optimal", i, j, g, us[i](j));
            }
        s.nontrivial();
    }
}
FACET(dms_solver_n1, 1) { dmsSolve<1, 1>(s); }
FACET(dms_solver_n2, 2) { dmsSolve<2, 2>(s); }
#endif
