// C22: a solver that has been reconfigured behaves like one built for the new problem (one PART per translation unit)
#include "nloc_common.h"

namespace {
template <int N, int M, bool CONT>
struct Kind;
template <int N, int M>
struct Kind<N, M, true>
{
    typedef NLOptConSolver<N, M, N / 2, N / 2, double, true> Sol;
    typedef ContinuousOptConProblem<N, M> Problem;
    static std::shared_ptr<core::ControlledSystem<N, M>> sys(const Prob<N, M>& p, double) { return std::make_shared<GSys<N, M>>(p); }
    static std::shared_ptr<core::LinearSystem<N, M>> lin(const Prob<N, M>& p, double) { return std::make_shared<GLin<N, M>>(p); }
    static double horizon(double T, int) { return T; }
};
template <int N, int M>
struct Kind<N, M, false>
{
    typedef NLOptConSolver<N, M, N / 2, N / 2, double, false> Sol;
    typedef DiscreteOptConProblem<N, M> Problem;
    static std::shared_ptr<core::DiscreteControlledSystem<N, M>> sys(const Prob<N, M>& p, double h) { return std::make_shared<DSys<N, M>>(p, h); }
    static std::shared_ptr<core::DiscreteLinearSystem<N, M>> lin(const Prob<N, M>& p, double h) { return std::make_shared<DLin<N, M>>(p, h); }
    static double horizon(double, int K) { return K; }
};

void restrictSteps(NLOptConSettings& set)
{
    if (set.K_sim > 1 && set.integrator != core::IntegrationType::RK4CT && set.integrator != core::IntegrationType::EULERCT)
        set.K_sim = 1;
}
}  // namespace

template <int N, int M, bool CONT>
static void historyCase(Src& s)
{
    typedef Kind<N, M, CONT> K_t;
    typedef typename K_t::Sol Sol;
    typedef typename K_t::Problem Problem;
    Quiet quiet;
    Prob<N, M> dynP = genProb<N, M>(s, false, s.b()), costP = dynP;
    const double h = 0.05;  // step of the discrete-time map, independent of the solver's dt
    auto genSet = [&]() {
        NLOptConSettings set = genSettings(s, true);
        set.useSensitivityIntegrator = s.b();
        set.timeVaryingDiscretization = s.p(1, 2);
        set.discretization = s.pick(std::vector<NLOptConSettings::APPROXIMATION>{NLOptConSettings::APPROXIMATION::FORWARD_EULER, NLOptConSettings::APPROXIMATION::BACKWARD_EULER, NLOptConSettings::APPROXIMATION::TUSTIN, NLOptConSettings::APPROXIMATION::MATRIX_EXPONENTIAL});
        set.printSummary = false;
        set.lineSearchSettings.debugPrint = false;
        restrictSteps(set);
        return set;
    };
    NLOptConSettings set = genSet();
    set.nThreads = s.p(1, 5) ? 2 : 1;
    auto integrator = set.integrator;
    int threads = set.nThreads;
    bool analytic = s.p(2, 3);
    int K = s.i(1, 7);
    core::StateVector<N> x0 = dynP.x0;
    s.note("start: ", describe(set), " tv ", set.timeVaryingDiscretization, " K ", K);
    auto problem = [&]() {
        return Problem(K_t::horizon(K * set.dt, K), x0, K_t::sys(dynP, h), std::make_shared<GCost<N, M>>(costP), analytic ? K_t::lin(dynP, h) : nullptr);
    };
    std::shared_ptr<Sol> sol(new Sol(problem(), set));
    int checks = 0, changes = 0;
    int warmK = -1;  // number of stages of the policy the solver currently holds, -1 if it has never iterated
    const int ops = s.i(2, 9);
    for (int op = 0; op < ops; op++)
    {
        const int what = op + 1 == ops ? 0 : s.i(0, 11);
        auto text = [&](const char* w) { s.note(w); };
        if (what == 3 || what == 7 || what == 10 || what == 11)
            warmK = -1;
        switch (what)
        {
            default:
            {
                // check point: same guess, same iterations as a solver built for the current problem
                const bool warm = warmK == K && !set.closedLoopShooting() && s.p(1, 3);
                if (warm)
                {
                    x0 = gen::vec<N>(s, 1);
                    s.note("changeInitialState, keeping the current policy as the guess");
                    changes++;
                }
                Sol fresh(problem(), set);
                Guess<N, M> g = genGuess<N, M>(s, K, 0.7, s.b());
                g.x[0] = x0;
                const int extra = s.p(1, 4) ? s.i(1, 2) : 0;
                auto gl = g;
                for (int e = 0; e < extra; e++)
                    gl.x.push_back(core::StateVector<N>(gen::vec<N>(s, 1))), gl.u.push_back(core::ControlVector<M>(gen::vec<M>(s, 1))), gl.L.push_back(core::FeedbackMatrix<N, M>(Eigen::Matrix<double, M, N>::Ones()));
                if (K > 1 && s.p(1, 8))
                {
                    auto gs = g;
                    const int w = s.i(0, 2);
                    if (w == 0)
                        gs.x.pop_back();
                    else if (w == 1)
                        gs.u.pop_back();
                    else
                        gs.L.pop_back();
                    bool threw = false;
                    try
                    {
                        sol->setInitialGuess(typename Sol::Policy_t(gs.x, gs.u, gs.L, set.dt));
                    } catch (const std::exception&)
                    {
                        threw = true;
                    }
                    PBT_REQUIRE(threw, "short-guess", "an initial guess that is too short is accepted");
                }
                if (warm)
                {
                    // a new initial state alone: everything known about the old trajectory's cost and defects is void
                    const auto& p = sol->getSolution();
                    g.x = p.x_ref(), g.u = p.uff(), g.L = p.K();
                    g.x[0] = x0;
                    sol->changeInitialState(x0);
                }
                else
                    sol->setInitialGuess(typename Sol::Policy_t(gl.x, gl.u, gl.L, set.dt));
                fresh.setInitialGuess(typename Sol::Policy_t(g.x, g.u, g.L, set.dt));
                const int mode = s.i(0, 2);
                const int its = s.i(1, 2);
                s.note("iterate mode ", mode, " x", its);
                for (int it = 0; it < its; it++)
                {
                    bool a, b;
                    if (mode == 0)
                        a = sol->runIteration(), b = fresh.runIteration();
                    else if (mode == 1)
                        sol->prepareIteration(), a = sol->finishIteration(), fresh.prepareIteration(), b = fresh.finishIteration();
                    else
                        sol->prepareMPCIteration(), a = sol->finishMPCIteration(), fresh.prepareMPCIteration(), b = fresh.finishMPCIteration();
                    const auto &pa = sol->getSolution(), &pb = fresh.getSolution();
                    double sc = 1;
                    for (auto& v : pb.x_ref())
                        sc = std::max(sc, v.norm());
                    for (auto& v : pb.uff())
                        sc = std::max(sc, v.norm());
                    if (!(sc < 100))
                    {
                        s.label("diverged");
                        return;
                    }
                    const double tol = 1e-9 * sc;
                    PBT_REQUIRE(a == b, "verdict", "after ", changes, " changes: iteration ", it, " reports ", a, ", a new solver ", b);
                    PBT_REQUIRE((int)pa.x_ref().size() == K + 1 && (int)pa.uff().size() == K && (int)pa.K().size() == K, "sizes", "policy has ", pa.uff().size(), " stages, expected ", K);
                    PBT_REQUIRE((pa.x_ref()[0] - x0).norm() <= 1e-12, "initial-state", "the trajectory starts at ", gen::str(pa.x_ref()[0]), ", the initial state is ", gen::str(x0));
                    for (int k = 0; k <= K; k++)
                        PBT_REQUIRE((pa.x_ref()[k] - pb.x_ref()[k]).norm() <= tol, "state", "after ", changes, " changes: iteration ", it, " state ", k, " is ", gen::str(pa.x_ref()[k]), ", with a new solver ", gen::str(pb.x_ref()[k]));
                    for (int k = 0; k < K; k++)
                    {
                        PBT_REQUIRE((pa.uff()[k] - pb.uff()[k]).norm() <= tol, "control", "after ", changes, " changes: iteration ", it, " control ", k, " is ", gen::str(pa.uff()[k]), ", with a new solver ", gen::str(pb.uff()[k]));
                        PBT_REQUIRE(mclose(MX(pa.K()[k]), MX(pb.K()[k]), 1e-8, 1e-8), "feedback", "after ", changes, " changes: iteration ", it, " feedback ", k, " is ", gen::str(pa.K()[k]), ", with a new solver ", gen::str(pb.K()[k]));
                    }
                    PBT_REQUIRE(close(sol->getCost(), fresh.getCost(), 1e-9, 1e-9), "cost", "cost ", sol->getCost(), ", with a new solver ", fresh.getCost());
                    const auto &ma = sol->getBackend()->getSummary(), &mb = fresh.getBackend()->getSummary();
                    PBT_REQUIRE(close(ma.stepSizes.back(), mb.stepSizes.back(), 1e-12, 1e-12) && close(ma.merits.back(), mb.merits.back(), 1e-9, 1e-9) && close(ma.defect_l1_norms.back(), mb.defect_l1_norms.back(), 1e-9, 1e-9) && ma.iterations.back() == mb.iterations.back(),
                        "summary", "step ", ma.stepSizes.back(), " merit ", ma.merits.back(), " defects ", ma.defect_l1_norms.back(), " iteration ", ma.iterations.back(), "; with a new solver ", mb.stepSizes.back(), " ", mb.merits.back(), " ", mb.defect_l1_norms.back(), " ", mb.iterations.back());
                }
                // time grid
                const auto t = sol->getTimeArray();
                PBT_REQUIRE((int)t.size() == K + 1, "time-size", t.size());
                for (int k = 0; k <= K; k++)
                    PBT_REQUIRE(close(t[k], k * set.dt, 1e-12, 1e-12), "time", "time ", k, " is ", t[k], ", expected ", k * set.dt);
                PBT_REQUIRE(sol->getStateTrajectory().size() == (size_t)K + 1 && close(sol->getStateTrajectory().getTimeArray().back(), K * set.dt, 1e-12, 1e-12) && sol->getControlTrajectory().size() == (size_t)K, "trajectory", "trajectory lengths or time stamps");
                PBT_REQUIRE(close(sol->getTimeHorizon(), fresh.getTimeHorizon(), 1e-12, 1e-12), "horizon", sol->getTimeHorizon(), " instead of ", fresh.getTimeHorizon());
                PBT_REQUIRE(sol->getBackend()->getNumSteps() == K, "stages", sol->getBackend()->getNumSteps(), " instead of ", K);
                if (changes)
                    checks++;
                if (warm)
                    s.label("warm-initial-state");
                warmK = K;
                break;
            }
            case 1:
            case 2:
            {
                NLOptConSettings n = genSet();
                n.integrator = integrator;
                n.nThreads = threads;
                restrictSteps(n);
                const bool keepDt = s.p(1, 2);
                if (keepDt)
                    n.dt = set.dt;
                s.note("configure: ", describe(n), " tv ", n.timeVaryingDiscretization);
                sol->configure(n);
                set = n;
                if (!keepDt)
                {
                    warmK = -1;
                    if (s.b())
                        K = s.i(1, 7);
                    s.note("changeTimeHorizon to ", K, " stages");
                    sol->changeTimeHorizon(K * set.dt);
                }
                changes++;
                break;
            }
            case 3:
                K = s.i(1, 9);
                s.note("changeTimeHorizon to ", K, " stages");
                sol->changeTimeHorizon(K * set.dt);
                changes++;
                break;
            case 4:
                x0 = gen::vec<N>(s, 1);
                text("changeInitialState");
                sol->changeInitialState(x0);
                changes++;
                break;
            case 5:
                costP = genProb<N, M>(s, false, s.b());
                text("changeCostFunction");
                sol->changeCostFunction(std::make_shared<GCost<N, M>>(costP));
                changes++;
                break;
            case 6:
            {
                dynP = genProb<N, M>(s, false, s.b());
                text("changeNonlinearSystem, changeLinearSystem");
                analytic = true;
                if (s.b())
                    sol->changeNonlinearSystem(K_t::sys(dynP, h)), sol->changeLinearSystem(K_t::lin(dynP, h));
                else
                    sol->changeLinearSystem(K_t::lin(dynP, h)), sol->changeNonlinearSystem(K_t::sys(dynP, h));
                changes++;
                break;
            }
            case 7:
            {
                dynP = genProb<N, M>(s, false, s.b());
                costP = genProb<N, M>(s, false, s.b());
                x0 = costP.x0;
                K = s.i(1, 9);
                text("setProblem");
                analytic = s.p(2, 3);
                sol->setProblem(problem());
                changes++;
                break;
            }
            case 8:
            {
                // refused changes leave the solver as it is
                const int r = s.i(0, 5);
                bool threw = false;
                NLOptConSettings n = set;
                try
                {
                    if (r == 0)
                        n.nThreads = threads + 1, sol->configure(n);
                    else if (r == 1)
                        n.dt = -0.1, sol->configure(n);
                    else if (r == 2)
                        sol->changeTimeHorizon(-1.0);
                    else if (r == 3)
                        sol->changeCostFunction(nullptr);
                    else if (r == 4)
                        sol->changeNonlinearSystem(nullptr);
                    else
                        sol->changeLinearSystem(nullptr);
                } catch (const std::exception&)
                {
                    threw = true;
                }
                s.note("refused change ", r);
                PBT_REQUIRE(threw, "refused", "invalid change ", r, " is accepted");
                changes++;
                break;
            }
            case 9:
            {
                NLOptConSettings n = set;
                if (!CONT)
                    break;
                n.integrator = integrator == core::IntegrationType::RK4CT ? core::IntegrationType::EULERCT : core::IntegrationType::RK4CT;
                n.dt = set.dt * 2;
                bool threw = false;
                try
                {
                    sol->configure(n);
                } catch (const std::exception&)
                {
                    threw = true;
                }
                s.note("configure with another integrator");
                PBT_REQUIRE(threw, "refused", "another integrator is accepted");
                changes++;
                break;
            }
            case 10:
            {
                // abandon an iteration half way
                Guess<N, M> g = genGuess<N, M>(s, K, 0.5, s.b());
                g.x[0] = x0;
                sol->setInitialGuess(typename Sol::Policy_t(g.x, g.u, g.L, set.dt));
                s.note("abandoned preparation");
                if (s.b())
                    sol->prepareIteration();
                else
                    sol->prepareMPCIteration();
                changes++;
                break;
            }
            case 11:
            {
                // initialize() takes any settings
                set = genSet();
                set.nThreads = threads = s.p(1, 5) ? 2 : 1;
                integrator = set.integrator;
                analytic = s.p(2, 3);
                s.note("initialize: ", describe(set));
                sol->initialize(problem(), set);
                changes++;
                break;
            }
        }
    }
    if (checks)
        s.nontrivial();
    s.label(threads > 1 ? "multi-threaded" : "single-threaded");
}

#if PART == 1
FACET(history_continuous, 3) { historyCase<2, 1, true>(s); }
#elif PART == 2
FACET(history_discrete, 1) { historyCase<2, 1, false>(s); }
#endif
