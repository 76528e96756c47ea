// compiled once per PART (separate translation units keep the build short)
// C19: the nonlinear solver reaches the optimum of linear-quadratic problems in one iteration
#include "nloc_common.h"

template <int N, int M, bool CONT>
struct MakeProblem;
template <int N, int M>
struct MakeProblem<N, M, true>
{
    typedef ContinuousOptConProblem<N, M> P;
    static P make(const Prob<N, M>& p, double tf, double, bool analytic)
    {
        std::shared_ptr<core::LinearSystem<N, M>> lin;
        if (analytic)
            lin.reset(new GLin<N, M>(p));
        return P(tf, p.x0, std::shared_ptr<core::ControlledSystem<N, M>>(new GSys<N, M>(p)), std::shared_ptr<CostFunctionQuadratic<N, M>>(new GCost<N, M>(p)), lin);
    }
};
template <int N, int M>
struct MakeProblem<N, M, false>
{
    typedef DiscreteOptConProblem<N, M> P;
    static P make(const Prob<N, M>& p, double tf, double dt, bool analytic)
    {
        std::shared_ptr<core::DiscreteLinearSystem<N, M>> lin;
        if (analytic)
            lin.reset(new DLin<N, M>(p, dt));
        return P((int)tf, p.x0, std::shared_ptr<core::DiscreteControlledSystem<N, M>>(new DSys<N, M>(p, dt)), std::shared_ptr<CostFunctionQuadratic<N, M>>(new GCost<N, M>(p)), lin);
    }
};

template <int N, int M, bool CONT>
static void lqCase(Src& s)
{
    typedef NLOptConSolver<N, M, N / 2, N / 2, double, CONT> Solver;
    typedef Eigen::Matrix<double, N, 1> X;
    typedef Eigen::Matrix<double, M, 1> U;
    Quiet quiet;
    Prob<N, M> p = genProb<N, M>(s, true, s.b());
    NLOptConSettings set = genSettings(s, false);
    const bool single = set.isSingleShooting();
    if (single && s.b())
        set.lineSearchSettings.type = LineSearchSettings::TYPE::SIMPLE;  // ARMIJO may ask for more than the full step can give
    int K = s.i(1, 10);
    const bool analytic = s.p(2, 3);
    double tf = K * set.dt + s.real(-0.3, 0.3) * set.dt;
    s.note(describe(set), " K ", K, " tf ", tf, " analytic ", analytic);
    auto prob = MakeProblem<N, M, CONT>::make(p, CONT ? tf : (double)K, set.dt, analytic);
    Solver sol(prob, set);
    PBT_REQUIRE(sol.getBackend()->getNumSteps() == K, "stages", sol.getBackend()->getNumSteps(), " expected ", K);
    Guess<N, M> g = genGuess<N, M>(s, K, 1.0, s.b());
    g.x[0] = p.x0;
    typename Solver::Policy_t pol(g.x, g.u, g.L, set.dt);
    sol.setInitialGuess(pol);
    auto step = [&](const X& x, const U& u, int k) -> X {
        if (CONT)
            return refStep<N, M>(p, x, u, k, set);
        return x + set.dt * p.f(x, u, k * set.dt);
    };
    Lq l = toLq<N, M>(p, K, set.dt, step);
    // how the iterations are run: in one go, in two phases, or as real-time iterations;
    // in the latter two a new initial state may arrive between the phases
    const int mode = s.i(0, 2);
    const int its = s.i(1, 3);
    const int newStateAt = mode && s.b() ? s.i(0, its - 1) : -1;
    X x0 = p.x0, x1 = newStateAt >= 0 ? X(gen::vec<N>(s, 1)) : p.x0;
    s.note(" mode ", mode, " iterations ", its, " new state at ", newStateAt);
    for (int i = 0; i < its; i++)
    {
        if (mode == 0)
            sol.runIteration();
        else if (mode == 1)
            sol.prepareIteration();
        else
            sol.prepareMPCIteration();
        if (i == newStateAt)
            sol.changeInitialState(x0 = x1);
        if (mode == 1)
            sol.finishIteration();
        else if (mode == 2)
            sol.finishMPCIteration();
    }
    std::vector<VX> xs, us;
    MX L0;
    denseLq(l, 0, x0, xs, us, L0);
    double sc = 1;
    for (auto& x : xs)
        sc = std::max(sc, x.norm());
    for (auto& u : us)
        sc = std::max(sc, u.norm());
    // numerically differentiated linearisations are good to about 1e-7
    const double tol = (analytic ? 1e-7 : 1e-4) * sc;
    const auto& pol2 = sol.getSolution();
    PBT_REQUIRE((int)pol2.x_ref().size() == K + 1 && (int)pol2.uff().size() == K && (int)pol2.K().size() == K, "sizes", "policy lengths");
    auto xt = sol.getStateTrajectory();
    auto ut = sol.getControlTrajectory();
    PBT_REQUIRE((int)xt.size() == K + 1 && (int)ut.size() == K, "sizes", "trajectory lengths");
    core::StateVectorArray<N> xa;
    core::ControlVectorArray<M> ua;
    for (int k = 0; k <= K; k++)
    {
        xa.push_back(xt[k]);
        PBT_REQUIRE(close(xt.getTimeArray()[k], k * set.dt, 1e-9, 1e-12), "times", "state time ", k);
        PBT_REQUIRE((xt[k] - xs[k]).norm() <= tol, "lq-state", "step ", k, " of ", K, " after ", its, " iterations: got ", gen::str(xt[k]), " expected ", gen::str(xs[k]));
        PBT_REQUIRE((pol2.x_ref()[k] - xt[k]).norm() <= 1e-12, "policy-state", "step ", k);
    }
    const bool feedbackAlg = set.closedLoopShooting();
    for (int k = 0; k < K; k++)
    {
        ua.push_back(ut[k]);
        PBT_REQUIRE(close(ut.getTimeArray()[k], k * set.dt, 1e-9, 1e-12), "times", "control time ", k);
        PBT_REQUIRE((ut[k] - us[k]).norm() <= tol, "lq-control", "step ", k, " of ", K, " after ", its, " iterations: got ", gen::str(ut[k]), " expected ", gen::str(us[k]));
        PBT_REQUIRE((pol2.uff()[k] - ut[k]).norm() <= 1e-12, "policy-control", "step ", k);
        if (feedbackAlg)
        {
            std::vector<VX> xk, uk;
            denseLq(l, k, p.x0, xk, uk, L0);
            PBT_REQUIRE(mclose(MX(pol2.K()[k]), L0, analytic ? 1e-7 : 1e-4, analytic ? 1e-7 : 1e-4), "lq-feedback", "step ", k, " got ", gen::str(pol2.K()[k]), " expected ", gen::str(L0));
        }
        else
            PBT_REQUIRE(pol2.K()[k].norm() == 0, "open-loop-feedback", "an open-loop algorithm returned feedback");
    }
    double J = totalCost<N, M>(p, xa, ua, set.dt);
    if (mode != 2 || single)
        PBT_REQUIRE(close(sol.getCost(), J, 1e-9, 1e-9), "cost", "reported ", sol.getCost(), " cost of the returned trajectories ", J);
    PBT_REQUIRE(close(sol.getTimeHorizon(), K * set.dt, 1e-9, 1e-12), "horizon", sol.getTimeHorizon());
    // the affine model reported back is the discretised system
    core::StateMatrixArray<N> Aa;
    core::StateControlMatrixArray<N, M> Ba;
    core::StateVectorArray<N> ba;
    sol.getBackend()->retrieveLastAffineModel(Aa, Ba, ba);
    for (int k = 0; k < K; k++)
        PBT_REQUIRE(mclose(MX(Aa[k]), l.A[k], analytic ? 1e-8 : 1e-5, analytic ? 1e-8 : 1e-5) && mclose(MX(Ba[k]), l.B[k], analytic ? 1e-8 : 1e-5, analytic ? 1e-8 : 1e-5), "affine-model", "step ", k);
    if (K > 1)
        s.nontrivial();
    s.label(single ? "single-shooting" : "multiple-shooting");
}

#if PART == 1
FACET(continuous_2_1, 3) { lqCase<2, 1, true>(s); }
#elif PART == 2
FACET(discrete_2_1, 1) { lqCase<2, 1, false>(s); }
#elif PART == 3
FACET(continuous_3_2, 2) { lqCase<3, 2, true>(s); }
#endif
