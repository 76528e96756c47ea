// C21: the multi-threaded backend computes what the single-threaded one computes, under every schedule, and always comes back
#include "nloc_common.h"
#include <atomic>
#include <chrono>
#include <thread>

namespace {
// schedule perturbation: every evaluation of the dynamics and of the cost may be delayed
std::atomic<uint64_t> planSeed(1);
std::atomic<int> planKind(0);
std::atomic<unsigned> threadCount(0);
uint64_t mix(uint64_t z)
{
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
void perturb()
{
    thread_local unsigned me = threadCount++;
    thread_local uint64_t n = 0;
    const uint64_t r = mix(planSeed.load(std::memory_order_relaxed) * 1000003 + me * 7919 + n++);
    switch (planKind.load(std::memory_order_relaxed))
    {
        case 0:
            break;
        case 1:  // yields
            if (r % 4 == 0)
                std::this_thread::yield();
            break;
        case 2:  // rare long delays
            if (r % 40 == 0)
                std::this_thread::sleep_for(std::chrono::microseconds(r / 64 % 300));
            break;
        case 3:  // some threads are slow
            if (mix(me + planSeed.load(std::memory_order_relaxed)) % 2 && r % 6 == 0)
                std::this_thread::sleep_for(std::chrono::microseconds(r / 64 % 150));
            break;
        case 4:  // phases: everybody alternates between fast and slow
            if ((n / 8 + me) % 3 == 0 && r % 3 == 0)
                std::this_thread::sleep_for(std::chrono::microseconds(r / 64 % 80));
            break;
    }
}
void newPlan(Src& s)
{
    planSeed = (uint64_t)s.i(1, 1000000);
    planKind = s.i(0, 4);
}
struct HookGuard
{
    HookGuard() { Hook::fn() = perturb; }
    ~HookGuard() { Hook::fn() = nullptr; }
};
}  // namespace

template <int N, int M>
static void mpCase(Src& s)
{
    typedef NLOptConSolver<N, M, N / 2, N / 2, double, true> Sol;
    typedef Eigen::Matrix<double, N, 1> X;
    Quiet quiet;
    Prob<N, M> p = genProb<N, M>(s, s.p(1, 6), s.b());
    NLOptConSettings set = genSettings(s, true);
    if (s.b() && set.lineSearchSettings.type == LineSearchSettings::TYPE::NONE)
        set.lineSearchSettings.type = LineSearchSettings::TYPE::SIMPLE;
    set.min_cost_improvement = 1e-10;
    NLOptConSettings setMp = set;
    setMp.nThreads = s.i(2, 6);
    int K = s.i(1, 12);
    s.note(describe(setMp), " lsit ", set.lineSearchSettings.maxIterations, " n_alpha ", set.lineSearchSettings.n_alpha, " K ", K);
    auto make = [&](const NLOptConSettings& st) {
        ContinuousOptConProblem<N, M> prob(K * set.dt, p.x0, std::shared_ptr<core::ControlledSystem<N, M>>(new GSys<N, M>(p)), std::shared_ptr<CostFunctionQuadratic<N, M>>(new GCost<N, M>(p)),
            std::shared_ptr<core::LinearSystem<N, M>>(new GLin<N, M>(p)));
        return std::shared_ptr<Sol>(new Sol(prob, st));
    };
    newPlan(s);
    std::shared_ptr<Sol> st = make(set), mp;
    {
        HookGuard h;
        mp = make(setMp);
    }
    const double alpha0 = s.pick(std::vector<double>{1.0, 1.0, 4.0, 12.0});
    if (alpha0 != 1.0)
    {
        // long first steps: several step sizes are acceptable, or none
        set.lineSearchSettings.alpha_0 = setMp.lineSearchSettings.alpha_0 = alpha0;
        st->configure(set), mp->configure(setMp);
        s.note(" alpha_0 ", alpha0);
    }
    auto guess = [&](double scale) {
        Guess<N, M> g = genGuess<N, M>(s, K, scale, s.b());
        g.x[0] = p.x0;
        typename Sol::Policy_t pol(g.x, g.u, g.L, set.dt);
        st->setInitialGuess(pol), mp->setInitialGuess(pol);
    };
    const int nops = s.i(0, 10);
    bool alive = false;
    int compared = 0;
    for (int op = 0; op < nops; op++)
    {
        if (!alive || s.p(1, 6))
        {
            if (s.p(1, 3))
            {
                K = s.i(1, 12);
                st->changeTimeHorizon(K * set.dt), mp->changeTimeHorizon(K * set.dt);
                s.note(" K=", K);
            }
            guess(s.b() ? 0.5 : 1.5);
            alive = true;
            s.note(" guess");
        }
        newPlan(s);
        int what = s.i(0, 5);
        bool fa, fb;
        const auto& sumA0 = st->getBackend()->getSummary();
        const double before = sumA0.merits.empty() ? 0 : sumA0.merits.back();
        if (what == 0)
        {
            X x0 = gen::vec<N>(s, 1);
            p.x0 = x0;
            st->changeInitialState(x0), mp->changeInitialState(x0);
            s.note(" x0");
        }
        {
            if (what <= 1)
                st->prepareMPCIteration(), fa = st->finishMPCIteration();
            else if (what == 2)
                st->prepareIteration(), fa = st->finishIteration();
            else
                fa = st->runIteration();
            HookGuard h;
            if (what <= 1)
                mp->prepareMPCIteration(), fb = mp->finishMPCIteration();
            else if (what == 2)
                mp->prepareIteration(), fb = mp->finishIteration();
            else
                fb = mp->runIteration();
        }
        s.note(what <= 1 ? " rti" : what == 2 ? " two-phase" : " run");
        const auto& a = st->getSolution();
        const auto& b = mp->getSolution();
        const auto& sa = st->getBackend()->getSummary();
        const auto& sb = mp->getBackend()->getSummary();
        double sc = 1;
        bool sane = true;
        for (int k = 0; k < K; k++)
            sc = std::max({sc, a.x_ref()[k].norm(), a.uff()[k].norm()});
        sane = sc < 100 && std::isfinite(sa.merits.back()) && sa.merits.back() < 1e6;
        if (!sane)
        {
            alive = false;  // diverged: rounding is amplified, start over
            continue;
        }
        // a step that hardly changes the merit is a matter of rounding
        if (std::abs(sa.merits.back() - before) < 1e-8 * (1 + std::abs(before)) || std::abs(sb.merits.back() - before) < 1e-8 * (1 + std::abs(before)))
        {
            alive = false;
            s.label("converged");
            continue;
        }
        compared++;
        PBT_REQUIRE(sa.stepSizes.size() == sb.stepSizes.size(), "summary", "summary lengths");
        PBT_REQUIRE(close(sa.stepSizes.back(), sb.stepSizes.back(), 1e-9, 1e-12), "step-size", "operation ", op, ": step size ", sb.stepSizes.back(), " single-threaded ", sa.stepSizes.back());
        for (int k = 0; k <= K; k++)
            PBT_REQUIRE((a.x_ref()[k] - b.x_ref()[k]).norm() <= 1e-7 * sc, "state", "operation ", op, " step ", k, " of ", K, " got ", gen::str(b.x_ref()[k]), " single-threaded ", gen::str(a.x_ref()[k]));
        for (int k = 0; k < K; k++)
        {
            PBT_REQUIRE((a.uff()[k] - b.uff()[k]).norm() <= 1e-7 * sc, "control", "operation ", op, " step ", k, " got ", gen::str(b.uff()[k]), " single-threaded ", gen::str(a.uff()[k]));
            PBT_REQUIRE(mclose(MX(a.K()[k]), MX(b.K()[k]), 1e-6, 1e-6), "feedback", "operation ", op, " step ", k);
        }
        PBT_REQUIRE(close(st->getCost(), mp->getCost(), 1e-7, 1e-7), "cost", "operation ", op, " got ", mp->getCost(), " single-threaded ", st->getCost());
        PBT_REQUIRE(close(sa.defect_l1_norms.back(), sb.defect_l1_norms.back(), 1e-6, 1e-7), "defects", "operation ", op, " got ", sb.defect_l1_norms.back(), " single-threaded ", sa.defect_l1_norms.back());
        PBT_REQUIRE(close(sa.merits.back(), sb.merits.back(), 1e-7, 1e-7), "merit", "operation ", op);
        PBT_REQUIRE(fa == fb, "verdict", "operation ", op, " got ", fb, " single-threaded ", fa);
        if (sa.stepSizes.back() != alpha0 && sa.stepSizes.back() != 0)
            s.label("shortened-step");
        if (!fa && sa.stepSizes.back() == 0)
            alive = false;
    }
    s.label("threads-" + std::to_string(setMp.nThreads));
    if (compared)
        s.nontrivial();
    HookGuard h;
    mp.reset();  // shuts the workers down
}
FACET(threads_2_1, 1) { mpCase<2, 1>(s); }
