// compiled once per PART (separate translation units keep the build short)
// C20: iterations of the nonlinear solver on nonlinear problems
#include "nloc_common.h"

namespace {
template <int N, int M>
struct Jac
{
    Eigen::Matrix<double, N, N> A;
    Eigen::Matrix<double, N, M> B;
};

//! exact derivative of refStep
template <int N, int M>
Jac<N, M> refStepJac(const Prob<N, M>& p, const Eigen::Matrix<double, N, 1>& x0, const Eigen::Matrix<double, M, 1>& u, int k, const NLOptConSettings& set)
{
    typedef Eigen::Matrix<double, N, 1> X;
    typedef Eigen::Matrix<double, N, N> XX;
    typedef Eigen::Matrix<double, N, M> XU;
    X x = x0;
    XX A = XX::Identity();
    XU B = XU::Zero();
    if (!set.useSensitivityIntegrator)
    {
        // the selected approximation of the linearisation over one step
        const double dt = set.dt, t = k * dt;
        typedef NLOptConSettings::APPROXIMATION Ap;
        Jac<N, M> r;
        XX F = dt * p.fx(x, u, t);
        XU G = dt * p.fu(x);
        if (set.discretization == Ap::FORWARD_EULER)
            r.A = A + F, r.B = G;
        else if (set.discretization == Ap::BACKWARD_EULER || set.discretization == Ap::TUSTIN)
        {
            const bool tustin = set.discretization == Ap::TUSTIN;
            XX back = tustin ? XX(0.5 * dt * p.fx(refStep<N, M>(p, x, u, k, set), u, t + dt)) : XX(dt * p.fx(x, u, t + dt));
            XX D = A - back;
            discard_unless(Eigen::JacobiSVD<XX>(D).singularValues()(N - 1) > 0.2);
            XX I = D.inverse();
            r.A = tustin ? XX(I * (A + 0.5 * F)) : I;
            r.B = I * G;
        }
        else
        {
            Eigen::Matrix<double, N + M, N + M> Z, E, T;
            Z.setZero();
            Z.template topLeftCorner<N, N>() = F;
            Z.template topRightCorner<N, M>() = G;
            E.setIdentity();
            T.setIdentity();
            for (int i = 1; i < 40; i++)
                T = (T * Z / i).eval(), E += T;
            r.A = E.template topLeftCorner<N, N>();
            r.B = E.template topRightCorner<N, M>();
        }
        return r;
    }
    const double h = set.dt / set.K_sim;
    const bool rk = set.integrator == core::IntegrationType::RK4 || set.integrator == core::IntegrationType::RK4CT;
    for (int j = 0; j < set.K_sim; j++)
    {
        const double t = k * set.dt + j * h;
        X k1 = p.f(x, u, t);
        XX F1 = p.fx(x, u, t);
        XX A1 = F1 * A;
        XU B1 = F1 * B + p.fu(x);
        if (!rk)
        {
            x += h * k1, A += h * A1, B += h * B1;
            continue;
        }
        X x2 = x + 0.5 * h * k1;
        XX F2 = p.fx(x2, u, t + 0.5 * h);
        XX A2 = F2 * (A + 0.5 * h * A1);
        XU B2 = F2 * (B + 0.5 * h * B1) + p.fu(x2);
        X k2 = p.f(x2, u, t + 0.5 * h);
        X x3 = x + 0.5 * h * k2;
        XX F3 = p.fx(x3, u, t + 0.5 * h);
        XX A3 = F3 * (A + 0.5 * h * A2);
        XU B3 = F3 * (B + 0.5 * h * B2) + p.fu(x3);
        X k3 = p.f(x3, u, t + 0.5 * h);
        X x4 = x + h * k3;
        XX F4 = p.fx(x4, u, t + h);
        XX A4 = F4 * (A + h * A3);
        XU B4 = F4 * (B + h * B3) + p.fu(x4);
        X k4 = p.f(x4, u, t + h);
        x += h / 6 * (k1 + 2 * k2 + 2 * k3 + k4);
        A += h / 6 * (A1 + 2 * A2 + 2 * A3 + A4);
        B += h / 6 * (B1 + 2 * B2 + 2 * B3 + B4);
    }
    Jac<N, M> r;
    r.A = A, r.B = B;
    return r;
}

//! reference implementation of the Gauss-Newton iterations
template <int N, int M>
struct Model
{
    typedef Eigen::Matrix<double, N, 1> X;
    typedef Eigen::Matrix<double, M, 1> U;
    typedef Eigen::Matrix<double, M, N> F;
    const Prob<N, M>& p;
    NLOptConSettings set;
    int K, Ks;
    std::vector<X> x, d;
    std::vector<U> u;
    std::vector<F> L;
    // step directions
    std::vector<X> dx, dxr;
    std::vector<U> du;

    Model(const Prob<N, M>& q, const NLOptConSettings& st, int k) : p(q), set(st), K(k), Ks(st.isSingleShooting() ? k : std::min(k, st.K_shot)) {}

    void rollout(std::vector<X>& xx, std::vector<U>& uu, const std::vector<X>& xr, std::vector<X>& dd) const
    {
        dd.assign(K, X::Zero());
        for (int k = 0; k < K; k += Ks)
        {
            X c = xx[k];
            int stop = std::min(K, k + Ks);
            for (int i = k; i < stop; i++)
            {
                xx[i] = c;
                if (set.closedLoopShooting())
                    uu[i] += L[i] * (c - xr[i]);
                c = refStep<N, M>(p, c, uu[i], i, set);
            }
            if (stop == K)
                xx[K] = c;
            else
                dd[stop - 1] = c - xx[stop];
        }
    }
    double cost(const std::vector<X>& xx, const std::vector<U>& uu) const
    {
        double J = p.F(xx[K], K * set.dt);
        for (int k = 0; k < K; k++)
            J += set.dt * p.L(xx[k], uu[k], k * set.dt);
        return J;
    }
    static double l1(const std::vector<X>& dd)
    {
        double r = 0;
        for (auto& v : dd)
            r += v.template lpNorm<1>();
        return r;
    }
    double merit(const std::vector<X>& xx, const std::vector<U>& uu, const std::vector<X>& dd) const { return cost(xx, uu) + set.meritFunctionRho * l1(dd); }

    void direction()
    {
        Lq l;
        l.N = N, l.M = M, l.K = K;
        for (int k = 0; k < K; k++)
        {
            Jac<N, M> j = refStepJac<N, M>(p, x[k], u[k], k, set);
            l.A.push_back(j.A), l.B.push_back(j.B), l.b.push_back(d[k]);
            X e = x[k] - p.ref(k * set.dt);
            U v = u[k] - p.ur;
            MX Q = p.Q;
            Q.diagonal().array() += 3 * p.quart * x[k].array().square();
            X q = p.Q * e + p.P.transpose() * v;
            q.array() += p.quart * x[k].array().pow(3);
            l.Q.push_back(set.dt * Q), l.R.push_back(set.dt * p.R), l.P.push_back(set.dt * p.P);
            l.q.push_back(set.dt * q), l.r.push_back(set.dt * (p.R * v + p.P * e));
        }
        l.Qf = p.Qf;
        l.qf = p.Qf * (x[K] - p.fin(K * set.dt));
        std::vector<VX> xs, us;
        MX L0;
        denseLq(l, 0, VX::Zero(N), xs, us, L0);
        dx.assign(K + 1, X::Zero()), dxr = dx, du.assign(K, U::Zero());
        typedef NLOptConSettings S;
        const auto alg = set.nlocp_algorithm;
        const bool feedback = set.closedLoopShooting();
        L.assign(K, F::Zero());
        for (int k = 0; k < K; k++)
        {
            du[k] = us[k];
            if (feedback)
            {
                std::vector<VX> xk, uk;
                MX Lk;
                denseLq(l, k, VX::Zero(N), xk, uk, Lk);
                L[k] = Lk;
                if (alg == S::ILQR || alg == S::MS_ILQR)
                    du[k] = uk[0];
            }
        }
        if (alg != S::ILQR)
            for (int k = 0; k <= K; k++)
                dx[k] = xs[k];
        if (alg == S::SS_CL || alg == S::GNMS_M_CL)
            dxr = dx;
    }
    void candidate(double alpha, std::vector<X>& xx, std::vector<U>& uu, std::vector<X>& dd) const
    {
        xx = x, uu = u;
        std::vector<X> xr = x;
        for (int k = 0; k <= K; k++)
            xx[k] += alpha * dx[k], xr[k] += alpha * dxr[k];
        for (int k = 0; k < K; k++)
            uu[k] += alpha * du[k];
        rollout(xx, uu, xr, dd);
    }
    bool sane(const std::vector<X>& xx, const std::vector<U>& uu) const
    {
        for (auto& v : xx)
            if (!(v.norm() < 50))
                return false;
        for (auto& v : uu)
            if (!(v.norm() < 50))
                return false;
        return true;
    }
};

template <int N, int M>
struct Solver
{
    typedef NLOptConSolver<N, M, N / 2, N / 2, double, true> T;
};
template <int N, int M>
ContinuousOptConProblem<N, M> makeProblem(const Prob<N, M>& p, double tf, bool analytic)
{
    std::shared_ptr<core::LinearSystem<N, M>> lin;
    if (analytic)
        lin.reset(new GLin<N, M>(p));
    return ContinuousOptConProblem<N, M>(tf, p.x0, std::shared_ptr<core::ControlledSystem<N, M>>(new GSys<N, M>(p)), std::shared_ptr<CostFunctionQuadratic<N, M>>(new GCost<N, M>(p)), lin);
}
}  // namespace

//! every iteration is the Gauss-Newton step of the algorithm, and what is reported describes the returned iterate
template <int N, int M>
static void iterateCase(Src& s)
{
    typedef typename Solver<N, M>::T Sol;
    typedef Model<N, M> Mod;
    typedef typename Mod::X X;
    typedef typename Mod::U U;
    Quiet quiet;
    Prob<N, M> p = genProb<N, M>(s, false, s.b());
    NLOptConSettings set = genSettings(s, true);
    if (s.p(1, 4))
    {
        typedef NLOptConSettings::APPROXIMATION Ap;
        set.useSensitivityIntegrator = false;
        set.discretization = s.pick(std::vector<Ap>{Ap::FORWARD_EULER, Ap::BACKWARD_EULER, Ap::TUSTIN, Ap::MATRIX_EXPONENTIAL});
        s.label("approximate-linearisation");
    }
    const int K = s.i(1, 9);
    const bool analytic = s.p(4, 5);
    if (set.K_sim > 1 && set.integrator != core::IntegrationType::RK4CT && set.integrator != core::IntegrationType::EULERCT)
        set.K_sim = 1;
    s.note(describe(set), " lsit ", set.lineSearchSettings.maxIterations, " n_alpha ", set.lineSearchSettings.n_alpha, " K ", K, " analytic ", analytic);
    auto prob = makeProblem<N, M>(p, K * set.dt, analytic);
    Sol sol(prob, set);
    Guess<N, M> g = genGuess<N, M>(s, K, 1.0, s.b());
    g.x[0] = p.x0;
    sol.setInitialGuess(typename Sol::Policy_t(g.x, g.u, g.L, set.dt));
    Mod m(p, set, K);
    for (int k = 0; k <= K; k++)
        m.x.push_back(g.x[k]);
    for (int k = 0; k < K; k++)
        m.u.push_back(g.u[k]), m.L.push_back(g.L[k]);
    {
        std::vector<X> xr = m.x;
        m.rollout(m.x, m.u, xr, m.d);
    }
    discard_unless(m.sane(m.x, m.u));
    const auto type = set.lineSearchSettings.type;
    const int its = s.i(1, analytic ? 6 : 2);
    const double base = analytic ? 1e-7 : 2e-4;
    for (int it = 0; it < its; it++)
    {
        const double merit0 = m.merit(m.x, m.u, m.d);
        m.direction();
        bool found = sol.runIteration();
        const auto& sum = sol.getBackend()->getSummary();
        PBT_REQUIRE((int)sum.stepSizes.size() == it + 1 && (int)sum.totalCosts.size() == it + 1 && sum.iterations.back() == (size_t)it, "summary-length", sum.stepSizes.size(), " entries after iteration ", it);
        const double alpha = sum.stepSizes.back();
        const double tol = base * std::pow(4.0, it);
        std::vector<X> xx, dd;
        std::vector<U> uu;
        bool ambiguous = false;
        double want = 0;
        if (type == LineSearchSettings::TYPE::NONE)
            want = 1;
        else
        {
            double a = set.lineSearchSettings.alpha_0;
            bool onGrid = alpha == 0;
            for (int i = 0; i < (int)set.lineSearchSettings.maxIterations; i++, a *= set.lineSearchSettings.n_alpha)
            {
                if (std::abs(a - alpha) < 1e-9)
                    onGrid = true;
                m.candidate(a, xx, uu, dd);
                if (!m.sane(xx, uu))
                {
                    ambiguous = true;
                    continue;
                }
                double mm = m.merit(xx, uu, dd);
                if (std::abs(mm - merit0) <= tol * 100 * (1 + std::abs(merit0)))
                    ambiguous = true;
                if (want == 0 && mm < merit0)
                    want = a;
            }
            PBT_REQUIRE(onGrid, "step-grid", "step size ", alpha, " is not one of the line search's");
            if (type == LineSearchSettings::TYPE::ARMIJO)
                want = alpha;  // which one is taken is only constrained by the decrease below
        }
        if (!ambiguous)
            PBT_REQUIRE(close(alpha, want, 1e-9, 1e-12), "step-size", "iteration ", it, ": step size ", alpha, ", the first that lowers the merit is ", want);
        // follow the solver's step
        std::vector<X> xo = m.x;
        std::vector<U> uo = m.u;
        if (alpha != 0)
        {
            m.candidate(alpha, xx, uu, dd);
            if (!m.sane(xx, uu))
            {
                s.label("diverged");
                return;
            }
            m.x = xx, m.u = uu, m.d = dd;
        }
        double sc = 1;
        for (auto& v : m.x)
            sc = std::max(sc, v.norm());
        for (auto& v : m.u)
            sc = std::max(sc, v.norm());
        const auto& pol = sol.getSolution();
        PBT_REQUIRE((int)pol.x_ref().size() == K + 1 && (int)pol.uff().size() == K && (int)pol.K().size() == K, "sizes", "policy lengths");
        core::StateVectorArray<N> xs = pol.x_ref();
        core::ControlVectorArray<M> us = pol.uff();
        PBT_REQUIRE((xs[0] - p.x0).norm() <= 1e-12, "initial-state", "the trajectory does not start at the initial state");
        for (int k = 0; k <= K; k++)
            PBT_REQUIRE((xs[k] - m.x[k]).norm() <= tol * sc, "state", "iteration ", it, " step ", k, " got ", gen::str(xs[k]), " expected ", gen::str(m.x[k]), " alpha ", alpha);
        for (int k = 0; k < K; k++)
        {
            PBT_REQUIRE((us[k] - m.u[k]).norm() <= tol * sc, "control", "iteration ", it, " step ", k, " got ", gen::str(us[k]), " expected ", gen::str(m.u[k]), " alpha ", alpha);
            PBT_REQUIRE(mclose(MX(pol.K()[k]), MX(m.L[k]), tol, tol * 10), "feedback", "iteration ", it, " step ", k, " got ", gen::str(pol.K()[k]), " expected ", gen::str(m.L[k]));
        }
        // self-consistency of what is returned: dynamics, cost, defects
        double d1 = 0, d2 = 0;
        for (int k = 0; k < K; k++)
        {
            X e = refStep<N, M>(p, xs[k], us[k], k, set) - xs[k + 1];
            if ((k + 1) % m.Ks == 0 && k + 1 < K)
                d1 += e.template lpNorm<1>(), d2 += e.norm();
            else
                PBT_REQUIRE(e.norm() <= 1e-9 * sc, "dynamics", "iteration ", it, ": the states are not a rollout of the controls at step ", k, ", off by ", e.norm());
        }
        double J = totalCost<N, M>(p, xs, us, set.dt);
        PBT_REQUIRE(close(sol.getCost(), J, 1e-9, 1e-9), "cost", "reported ", sol.getCost(), " cost of the returned trajectories ", J);
        PBT_REQUIRE(close(sum.totalCosts.back(), J, 1e-9, 1e-9) && close(sum.intermediateCosts.back() + sum.finalCosts.back(), J, 1e-9, 1e-9) && close(sum.finalCosts.back(), p.F(xs[K], K * set.dt), 1e-9, 1e-9), "cost-summary", sum.totalCosts.back(), " expected ", J);
        PBT_REQUIRE(close(sum.defect_l1_norms.back(), d1, 1e-8, 1e-9) && close(sum.defect_l2_norms.back(), d2, 1e-8, 1e-9), "defects", "iteration ", it, " reported ", sum.defect_l1_norms.back(), " and ", sum.defect_l2_norms.back(), ", actual ", d1, " and ", d2, " alpha ", alpha);
        double merit1 = J + set.meritFunctionRho * d1;
        PBT_REQUIRE(close(sum.merits.back(), merit1, 1e-8, 1e-8), "merit", sum.merits.back(), " expected ", merit1);
        double lx = 0, lu = 0;
        for (int k = 0; k <= K; k++)
            lx += (m.x[k] - xo[k]).norm();
        for (int k = 0; k < K; k++)
            lu += (m.u[k] - uo[k]).norm();
        PBT_REQUIRE(close(sum.lx_norms.back(), lx, tol, tol * 10 * sc * K) && close(sum.lu_norms.back(), lu, tol, tol * 10 * sc * K), "update-norms", "reported ", sum.lx_norms.back(), " ", sum.lu_norms.back(), " actual ", lx, " ", lu);
        if (type != LineSearchSettings::TYPE::NONE)
        {
            PBT_REQUIRE(merit1 <= merit0 + 10 * tol * (1 + std::abs(merit0)), "descent", "iteration ", it, ": merit rose from ", merit0, " to ", merit1, " with step size ", alpha);
            if (alpha == 0)
                PBT_REQUIRE(!found, "verdict", "no step was taken, but an improvement is reported");
        }
        if (alpha != 0)
        {
            const bool ls = type != LineSearchSettings::TYPE::NONE;
            const double a0 = ls ? merit0 : m.cost(xo, uo), a1 = ls ? merit1 : J;
            const double rel = std::abs((a0 - a1) / a0);
            if (std::abs(a0) > 1e-2)  // otherwise the relative change is not determined
                if (rel > 2 * set.min_cost_improvement + 100 * tol || d1 > 2 * set.maxDefectSum + 100 * tol)
                    PBT_REQUIRE(found, "verdict", "iteration ", it, " reported no improvement: relative change ", rel, " defects ", d1);
        }
        if (alpha != 1 && alpha != 0)
            s.label("shortened-step");
        if (alpha == 0)
            s.label("no-step");
        if (it > 0 || alpha != 1)
            s.nontrivial();
        if (ambiguous)
            s.label("near-tie");
    }
    if (!m.set.isSingleShooting() && m.Ks < K)
        s.label("defects");
}

//! where the iterations come to rest, the first-order optimality conditions hold
template <int N, int M>
static void stationaryCase(Src& s)
{
    typedef typename Solver<N, M>::T Sol;
    typedef Eigen::Matrix<double, N, 1> X;
    typedef Eigen::Matrix<double, M, 1> U;
    Quiet quiet;
    Prob<N, M> p = genProb<N, M>(s, false, s.b());
    NLOptConSettings set = genSettings(s, true);
    if (set.K_sim > 1 && set.integrator != core::IntegrationType::RK4CT && set.integrator != core::IntegrationType::EULERCT)
        set.K_sim = 1;
    set.min_cost_improvement = 1e-14;
    set.maxDefectSum = 1e-10;
    set.max_iterations = 60;
    if (set.meritFunctionRho == 0 && !set.isSingleShooting())
        set.lineSearchSettings.type = LineSearchSettings::TYPE::NONE;
    const int K = s.i(1, 12);
    s.note(describe(set), " K ", K);
    auto prob = makeProblem<N, M>(p, K * set.dt, true);
    Sol sol(prob, set);
    Guess<N, M> g = genGuess<N, M>(s, K, 0.5, s.b());
    g.x[0] = p.x0;
    sol.setInitialGuess(typename Sol::Policy_t(g.x, g.u, g.L, set.dt));
    sol.solve();
    const auto& sum = sol.getBackend()->getSummary();
    PBT_REQUIRE((int)sum.totalCosts.size() <= set.max_iterations, "max-iterations", sum.totalCosts.size(), " iterations");
    const auto pol = sol.getSolution();
    double sc = 1;
    for (int k = 0; k < K; k++)
        sc = std::max({sc, pol.x_ref()[k].norm(), pol.uff()[k].norm()});
    int last = (int)sum.stepSizes.size() - 1;
    while (last > 0 && sum.stepSizes[last] == 0)
        last--;
    discard_unless(sc < 20 && sum.stepSizes[last] == 1.0 && sum.lx_norms[last] + sum.lu_norms[last] < 1e-6);
    double def = 0;
    for (int k = 0; k < K; k++)
        def += (refStep<N, M>(p, pol.x_ref()[k], pol.uff()[k], k, set) - pol.x_ref()[k + 1]).norm();
    PBT_REQUIRE(def <= 1e-5 * sc, "feasible", "defects ", def, " at rest");
    X lam = p.Qf * (pol.x_ref()[K] - p.fin(K * set.dt));
    for (int k = K - 1; k >= 0; k--)
    {
        X x = pol.x_ref()[k];
        U u = pol.uff()[k];
        Jac<N, M> j = refStepJac<N, M>(p, x, u, k, set);
        X e = x - p.ref(k * set.dt);
        U v = u - p.ur;
        U gu = set.dt * (p.R * v + p.P * e) + j.B.transpose() * lam;
        PBT_REQUIRE(gu.norm() <= 1e-5 * sc * (1 + lam.norm()), "stationary", "step ", k, " of ", K, ": gradient of the total cost w.r.t. the control ", gen::str(gu));
        X q = p.Q * e + p.P.transpose() * v;
        q.array() += p.quart * x.array().pow(3);
        lam = (set.dt * q + j.A.transpose() * lam).eval();
    }
    s.nontrivial();
}

#if PART == 1
FACET(iterates_2_1, 4) { iterateCase<2, 1>(s); }
FACET(stationary_2_1, 1) { stationaryCase<2, 1>(s); }
#elif PART == 2
FACET(iterates_3_2, 4) { iterateCase<3, 2>(s); }
FACET(stationary_3_2, 1) { stationaryCase<3, 2>(s); }
#endif
