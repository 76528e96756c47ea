// C17: the linear-quadratic subproblem and its Riccati solver
#include "gen.h"
#include <ct/optcon/optcon.h>
using namespace pbt;
using namespace ct::optcon;
namespace core = ct::core;
typedef Eigen::MatrixXd MX;
typedef Eigen::VectorXd VX;
namespace {

struct Lq
{
    int N, M, K;
    std::vector<MX> A, B, Q, R, P;
    std::vector<VX> b, q, r;
    VX qf;
    MX Qf;
};

Lq genLq(Src& s, int N, int M, int K, bool convex)
{
    Lq l;
    l.N = N, l.M = M, l.K = K;
    for (int k = 0; k < K; k++)
    {
        l.A.push_back(gen::matX(s, N, N, 1.1));
        MX B = gen::matX(s, N, M, 1.2);
        if (M > 1 && s.p(1, 5))
            B.col(M - 1) = B.col(0);
        l.B.push_back(B);
        l.b.push_back(gen::matX(s, N, 1, 1));
        l.q.push_back(gen::matX(s, N, 1, 2));
        l.r.push_back(gen::matX(s, M, 1, 2));
        MX a = gen::matX(s, N + M, N + M, 1);
        MX J = a * a.transpose();
        if (!convex)
            J -= s.real(0, 1.5) * MX::Identity(N + M, N + M);
        else
            J.bottomRightCorner(M, M) += s.logreal(0.05, 5) * MX::Identity(M, M);
        if (s.p(1, 4))
        {
            J.bottomLeftCorner(M, N).setZero();
            J.topRightCorner(N, M).setZero();
        }
        J = (0.5 * (J + J.transpose())).eval();
        l.Q.push_back(J.topLeftCorner(N, N));
        l.R.push_back(J.bottomRightCorner(M, M));
        l.P.push_back(J.bottomLeftCorner(M, N));
    }
    MX a = gen::matX(s, N, N, 1.5);
    l.Qf = a * a.transpose();
    l.Qf = (0.5 * (l.Qf + l.Qf.transpose())).eval();
    l.qf = gen::matX(s, N, 1, 2);
    return l;
}

template <int N, int M>
void fill(LQOCProblem<N, M>& p, const Lq& l)
{
    p.setZero();
    for (int k = 0; k < l.K; k++)
    {
        p.A_[k] = l.A[k], p.B_[k] = l.B[k], p.b_[k] = l.b[k];
        p.Q_[k] = l.Q[k], p.R_[k] = l.R[k], p.P_[k] = l.P[k];
        p.qv_[k] = l.q[k], p.rv_[k] = l.r[k];
    }
    p.Q_[l.K] = l.Qf;
    p.qv_[l.K] = l.qf;
}

//! minimise over the tail of the horizon by eliminating the states: returns the optimal first control as an affine map of x_k
//! (dense least squares, no recursion)
void dense(const Lq& l, int k0, double eps, const VX& x0, std::vector<VX>& xs, std::vector<VX>& us, MX& L0)
{
    int K = l.K - k0, N = l.N, M = l.M;
    // x_j = Phi_j x0 + Gam_j U + c_j
    MX Phi = MX::Identity(N, N), Gam = MX::Zero(N, K * M);
    VX c = VX::Zero(N);
    MX H = MX::Zero(K * M, K * M), Hx = MX::Zero(K * M, N);
    VX g = VX::Zero(K * M);
    std::vector<MX> Phis(1, Phi), Gams(1, Gam);
    std::vector<VX> cs(1, c);
    for (int j = 0; j < K; j++)
    {
        const int k = k0 + j;
        MX E = MX::Zero(M, K * M);
        E.middleCols(j * M, M).setIdentity();
        const MX R = l.R[k] + eps * MX::Identity(M, M);
        H += Gam.transpose() * l.Q[k] * Gam + E.transpose() * R * E + E.transpose() * l.P[k] * Gam + Gam.transpose() * l.P[k].transpose() * E;
        Hx += Gam.transpose() * l.Q[k] * Phi + E.transpose() * l.P[k] * Phi;
        g += Gam.transpose() * (l.Q[k] * c + l.q[k]) + E.transpose() * (l.P[k] * c + l.r[k]);
        Gam = (l.A[k] * Gam + l.B[k] * E).eval();
        Phi = (l.A[k] * Phi).eval();
        c = (l.A[k] * c + l.b[k]).eval();
        Phis.push_back(Phi), Gams.push_back(Gam), cs.push_back(c);
    }
    H += Gam.transpose() * l.Qf * Gam;
    Hx += Gam.transpose() * l.Qf * Phi;
    g += Gam.transpose() * (l.Qf * c + l.qf);
    Eigen::LDLT<MX> f(0.5 * (H + H.transpose()));
    VX U = -f.solve(g + Hx * x0);
    MX Ux = -f.solve(Hx);
    L0 = Ux.topRows(M);
    xs.clear(), us.clear();
    for (int j = 0; j <= K; j++)
        xs.push_back(Phis[j] * x0 + Gams[j] * U + cs[j]);
    for (int j = 0; j < K; j++)
        us.push_back(U.segment(j * M, M));
}

template <int N, int M>
void solveAndCompare(Src& s, GNRiccatiSolver<N, M>& sol, std::shared_ptr<LQOCProblem<N, M>> p, const Lq& l, const NLOptConSettings& set)
{
    if (s.b())
    {
        for (int k = l.K - 1; k >= 0; k--)
            sol.solveSingleStage(k);
        s.label("single-stage");
    }
    else
        sol.solve();
    sol.computeStatesAndControls();
    sol.computeFeedbackMatrices();
    sol.compute_lv();
    const double eps = set.fixedHessianCorrection && set.epsilon > 1e-10 ? set.epsilon : 0.0;
    std::vector<VX> xs, us;
    MX L;
    VX x0 = VX::Zero(N);
    dense(l, 0, eps, x0, xs, us, L);
    double sx = 1;
    for (auto& x : xs)
        sx = std::max(sx, x.norm());
    for (auto& u : us)
        sx = std::max(sx, u.norm());
    const double tol = 1e-7;
    PBT_REQUIRE((int)sol.getSolutionState().size() == l.K + 1 && (int)sol.getSolutionControl().size() == l.K &&
                    (int)sol.getSolutionFeedback().size() == l.K && (int)sol.get_lv().size() == l.K,
        "sizes", "stages ", l.K);
    for (int k = 0; k <= l.K; k++)
        PBT_REQUIRE((sol.getSolutionState()[k] - xs[k]).norm() <= tol * sx, "optimal-state", "stage ", k, " of ", l.K, " got ", gen::str(sol.getSolutionState()[k]), " expected ", gen::str(xs[k]));
    for (int k = 0; k < l.K; k++)
        PBT_REQUIRE((sol.getSolutionControl()[k] - us[k]).norm() <= tol * sx, "optimal-control", "stage ", k, " of ", l.K, " got ", gen::str(sol.getSolutionControl()[k]), " expected ", gen::str(us[k]));
    // the feedback law is optimal from any state, not only along the solution
    for (int k = 0; k < l.K; k++)
    {
        std::vector<VX> xk, uk;
        VX x = gen::matX(s, N, 1, 2);
        dense(l, k, eps, x, xk, uk, L);
        PBT_REQUIRE(mclose(MX(sol.getSolutionFeedback()[k]), L, tol, tol), "feedback", "stage ", k, " got ", gen::str(sol.getSolutionFeedback()[k]), " expected ", gen::str(L));
        VX u = sol.get_lv()[k] + sol.getSolutionFeedback()[k] * x;
        PBT_REQUIRE((u - uk[0]).norm() <= tol * (sx + uk[0].norm()), "feedforward", "stage ", k, " got ", gen::str(u), " expected ", gen::str(uk[0]));
    }
    if (set.recordSmallestEigenvalue)
    {
        // value function by the textbook recursion
        MX S = l.Qf;
        double lam = 1e300;
        for (int k = l.K - 1; k >= 0; k--)
        {
            MX H = l.R[k] + l.B[k].transpose() * S * l.B[k] + eps * MX::Identity(M, M);
            MX G = l.P[k] + l.B[k].transpose() * S * l.A[k];
            lam = std::min(lam, Eigen::SelfAdjointEigenSolver<MX>(0.5 * (H + H.transpose())).eigenvalues()(0));
            S = (l.Q[k] + l.A[k].transpose() * S * l.A[k] - G.transpose() * H.ldlt().solve(G)).eval();
            S = (0.5 * (S + S.transpose())).eval();
        }
        double e = sol.getSmallestEigenvalue();
        PBT_REQUIRE(close(e, lam, 1e-6, 1e-7), "smallest-eigenvalue", "got ", e, " expected ", lam);
        s.label("eigenvalue");
    }
    if (l.K > 1)
        s.nontrivial();
}

template <int N, int M>
void convexCase(Src& s)
{
    Quiet q;
    std::shared_ptr<GNRiccatiSolver<N, M>> sol;
    std::shared_ptr<LQOCProblem<N, M>> p(new LQOCProblem<N, M>(s.i(1, 3)));
    int how = s.i(0, 2);
    int K = s.i(1, 8);
    if (how == 0)
        sol.reset(new GNRiccatiSolver<N, M>());
    else if (how == 1)
        sol.reset(new GNRiccatiSolver<N, M>(s.i(1, 8)));
    else
    {
        p->changeNumStages(K);
        p->setZero();
        sol.reset(new GNRiccatiSolver<N, M>(p));
    }
    int rounds = s.i(1, 3);
    for (int r = 0; r < rounds; r++)
    {
        NLOptConSettings set;
        set.fixedHessianCorrection = s.b();
        set.epsilon = s.pick(std::vector<double>{0.0, 1e-9, 1e-6, 1e-3});
        set.recordSmallestEigenvalue = s.b();
        sol->configure(set);
        s.note("round ", r, " how ", how, " K ", K, " fixed ", set.fixedHessianCorrection, " eps ", set.epsilon);
        if (r > 0)
            K = s.i(1, 8);
        Lq l = genLq(s, N, M, K, true);
        bool fresh = s.b();
        if (r > 0 && fresh)
            p.reset(new LQOCProblem<N, M>(K));
        p->changeNumStages(K);
        fill(*p, l);
        if (!(how == 2 && r == 0))
            sol->setProblem(p);
        PBT_REQUIRE(p->getNumberOfStages() == K, "stages", p->getNumberOfStages());
        PBT_REQUIRE(!p->isConstrained(), "unconstrained", "a problem without constraints calls itself constrained");
        // epsilon as lower bound on eigenvalues does not act: R >= 0.05
        solveAndCompare<N, M>(s, *sol, p, l, set);
    }
}

//! indefinite stage Hessians: eigenvalues are raised to epsilon; compared with a plain recursion
template <int N, int M>
void clampCase(Src& s)
{
    Quiet q;
    int K = s.i(1, 5);
    Lq l = genLq(s, N, M, K, false);
    std::shared_ptr<LQOCProblem<N, M>> p(new LQOCProblem<N, M>(K));
    fill(*p, l);
    NLOptConSettings set;
    set.fixedHessianCorrection = false;
    set.epsilon = s.logreal(0.05, 1);
    set.recordSmallestEigenvalue = s.b();
    GNRiccatiSolver<N, M> sol;
    sol.configure(set);
    sol.setProblem(p);
    sol.solve();
    MX S = l.Qf;
    VX sv = l.qf;
    double lamMin = 1e300;
    bool clamped = false;
    for (int k = K - 1; k >= 0; k--)
    {
        MX H = l.R[k] + l.B[k].transpose() * S * l.B[k];
        MX G = l.P[k] + l.B[k].transpose() * S * l.A[k];
        VX g = l.r[k] + l.B[k].transpose() * (sv + S * l.b[k]);
        Eigen::SelfAdjointEigenSolver<MX> e(0.5 * (H + H.transpose()));
        VX lam = e.eigenvalues();
        lamMin = std::min(lamMin, lam(0));
        // the projected Hessian is a continuous function of H, so this is well conditioned by epsilon
        MX Hi = MX::Zero(M, M);
        for (int i = 0; i < M; i++)
        {
            clamped |= lam(i) < set.epsilon;
            Hi += std::max(lam(i), set.epsilon) * e.eigenvectors().col(i) * e.eigenvectors().col(i).transpose();
        }
        MX L = -Hi.ldlt().solve(G);
        VX lv = -Hi.ldlt().solve(g);
        discard_unless(S.norm() < 1e4);
        double tol = 1e-6;
        PBT_REQUIRE(mclose(MX(sol.getSolutionFeedback()[k]), L, tol, tol), "clamped-feedback", "stage ", k, " got ", gen::str(sol.getSolutionFeedback()[k]), " expected ", gen::str(L));
        PBT_REQUIRE(mclose(MX(sol.get_lv()[k]), MX(lv), tol, tol), "clamped-feedforward", "stage ", k, " got ", gen::str(sol.get_lv()[k]), " expected ", gen::str(lv));
        VX svn = l.q[k] + l.A[k].transpose() * (sv + S * l.b[k]) + G.transpose() * lv;
        S = (l.Q[k] + l.A[k].transpose() * S * l.A[k] - L.transpose() * Hi * L).eval();
        S = (0.5 * (S + S.transpose())).eval();
        sv = svn;
    }
    if (set.recordSmallestEigenvalue)
        PBT_REQUIRE(close(sol.getSmallestEigenvalue(), lamMin, 1e-6, 1e-6), "smallest-eigenvalue", sol.getSmallestEigenvalue(), " expected ", lamMin);
    if (clamped)
        s.nontrivial();
}
}  // namespace

FACET(convex_3_2, 3) { convexCase<3, 2>(s); }
FACET(convex_2_3, 2) { convexCase<2, 3>(s); }
FACET(convex_1_1, 1) { convexCase<1, 1>(s); }
FACET(convex_2_1, 2) { convexCase<2, 1>(s); }
FACET(clamp_3_2, 1) { clampCase<3, 2>(s); }

//! box and general constraints are stored relative to the nominal trajectory, at their stage, and refused by the Riccati solver
FACET(constraints, 2)
{
    Quiet q;
    const int N = 3, M = 2;
    int K = s.i(1, 5);
    LQOCProblem<N, M> p(K);
    p.setZero();
    core::StateVectorArray<N> xn;
    core::ControlVectorArray<M> un;
    for (int k = 0; k <= K; k++)
        xn.push_back(core::StateVector<N>(gen::vec<N>(s, 1)));
    for (int k = 0; k < K; k++)
        un.push_back(core::ControlVector<M>(gen::vec<M>(s, 1)));
    auto subset = [&](int n) {
        std::vector<int> v;
        for (int i = 0; i < n; i++)
            if (s.b())
                v.push_back(i);
        if (v.empty())
            v.push_back(s.i(0, n - 1));
        Eigen::VectorXi sp(v.size());
        for (size_t i = 0; i < v.size(); i++)
            sp(i) = v[i];
        return sp;
    };
    struct Box
    {
        Eigen::VectorXi sp;
        VX lb, ub;
    };
    std::vector<Box> ub(K), xb(K + 1);
    bool general = false;
    int ops = s.i(1, 5);
    for (int o = 0; o < ops; o++)
    {
        int kind = s.i(0, 5);
        Box b;
        b.sp = subset(kind == 0 || kind == 1 ? M : N);
        int n = b.sp.size();
        b.lb = gen::matX(s, n, 1, 1);
        b.ub = b.lb + gen::matX(s, n, 1, 0.5).cwiseAbs();
        int idx = s.i(0, K - 1);
        switch (kind)
        {
            case 0:
                p.setInputBoxConstraint(idx, n, b.lb, b.ub, b.sp, un[idx]);
                ub[idx] = b;
                break;
            case 1:
                p.setInputBoxConstraints(n, b.lb, b.ub, b.sp, un);
                for (auto& x : ub)
                    x = b;
                break;
            case 2:
                p.setIntermediateStateBoxConstraint(idx, n, b.lb, b.ub, b.sp, xn[idx]);
                xb[idx] = b;
                break;
            case 3:
                p.setIntermediateStateBoxConstraints(n, b.lb, b.ub, b.sp, xn);
                for (int k = 0; k < K; k++)
                    xb[k] = b;
                break;
            case 4:
                p.setTerminalBoxConstraints(n, b.lb, b.ub, b.sp, xn[K]);
                xb[K] = b;
                break;
            case 5:
            {
                int m = s.i(1, 3);
                VX lo = gen::matX(s, m, 1, 1), hi = lo.array() + 1;
                MX C = gen::matX(s, m, N, 1), D = gen::matX(s, m, M, 1);
                p.setGeneralConstraints(lo, hi, C, D);
                general = true;
                for (int k = 0; k <= K; k++)
                    PBT_REQUIRE(p.ng_[k] == m && p.d_lb_[k] == lo && p.d_ub_[k] == hi && p.C_[k] == C && p.D_[k] == D, "general", "stage ", k);
                break;
            }
        }
    }
    bool anyU = false, anyX = false;
    for (int k = 0; k < K; k++)
    {
        anyU |= ub[k].sp.size() > 0;
        PBT_REQUIRE(p.nbu_[k] == ub[k].sp.size(), "input-box-count", "stage ", k, ": ", p.nbu_[k], " expected ", ub[k].sp.size());
        for (int i = 0; i < ub[k].sp.size(); i++)
            PBT_REQUIRE(p.u_I_[k](i) == ub[k].sp(i) && close(p.u_lb_[k](i), ub[k].lb(i) - un[k](ub[k].sp(i)), 1e-12, 1e-12) &&
                            close(p.u_ub_[k](i), ub[k].ub(i) - un[k](ub[k].sp(i)), 1e-12, 1e-12),
                "input-box", "stage ", k, " entry ", i);
    }
    for (int k = 0; k <= K; k++)
    {
        anyX |= xb[k].sp.size() > 0;
        PBT_REQUIRE(p.nbx_[k] == xb[k].sp.size(), "state-box-count", "stage ", k, ": ", p.nbx_[k], " expected ", xb[k].sp.size());
        for (int i = 0; i < xb[k].sp.size(); i++)
            PBT_REQUIRE(p.x_I_[k](i) == xb[k].sp(i) && close(p.x_lb_[k](i), xb[k].lb(i) - xn[k](xb[k].sp(i)), 1e-12, 1e-12) &&
                            close(p.x_ub_[k](i), xb[k].ub(i) - xn[k](xb[k].sp(i)), 1e-12, 1e-12),
                "state-box", "stage ", k, " entry ", i);
    }
    PBT_REQUIRE(p.isInputBoxConstrained() == anyU && p.isStateBoxConstrained() == anyX && p.isGeneralConstrained() == general && p.isConstrained(), "flags", anyU, anyX, general);
    auto sp = std::make_shared<LQOCProblem<N, M>>(p);
    GNRiccatiSolver<N, M> sol;
    NLOptConSettings set;
    sol.configure(set);
    bool threw = false;
    try
    {
        sol.setProblem(sp);
    }
    catch (const std::exception&)
    {
        threw = true;
    }
    PBT_REQUIRE(threw, "constrained-refused", "the Riccati solver accepted a constrained problem");
    // inconsistent configurations
    Box b;
    b.sp = subset(N);
    int n = b.sp.size();
    b.lb = VX::Zero(n), b.ub = VX::Ones(n);
    int bad = s.i(0, 4);
    Eigen::VectorXi spBad = b.sp;
    spBad(n - 1) = N;
    VX longer = VX::Ones(n + 1);
    threw = false;
    try
    {
        switch (bad)
        {
            case 0:
                p.setIntermediateStateBoxConstraint(0, n, b.lb, longer, b.sp, xn[0]);
                break;
            case 1:
                p.setIntermediateStateBoxConstraint(0, n, b.lb, b.ub, spBad, xn[0]);
                break;
            case 2:
                p.setIntermediateStateBoxConstraint(K, n, b.lb, b.ub, b.sp, xn[0]);
                break;
            case 3:
                p.setTerminalBoxConstraints(n + 1, b.lb, b.ub, b.sp, xn[K]);
                break;
            case 4:
                p.setInputBoxConstraint(K, 1, VX::Zero(1), VX::Ones(1), Eigen::VectorXi::Zero(1), un[0]);
                break;
        }
    }
    catch (const std::exception&)
    {
        threw = true;
    }
    PBT_REQUIRE(threw, "inconsistent-refused", "case ", bad);
    // removing the constraints again
    p.setZero();
    PBT_REQUIRE(!p.isConstrained(), "set-zero", "constrained after setZero");
    s.nontrivial();
}

//! building the problem from a linear system and a quadratic cost
FACET(from_lti, 1)
{
    Quiet q;
    const int N = 3, M = 2;
    int K = s.i(1, 6);
    double dt = s.logreal(0.01, 1);
    MX A = gen::matX(s, N, N, 1.1), B = gen::matX(s, N, M, 1), Q, R, Qf;
    MX a = gen::matX(s, N, N, 1);
    Q = a * a.transpose();
    a = gen::matX(s, M, M, 1);
    R = a * a.transpose() + 0.1 * MX::Identity(M, M);
    a = gen::matX(s, N, N, 1);
    Qf = a * a.transpose();
    VX xd = gen::matX(s, N, 1, 1), ud = gen::matX(s, M, 1, 1), xf = gen::matX(s, N, 1, 1), off = gen::matX(s, N, 1, 1);
    core::DiscreteLTISystem<N, M> sys(A, B);
    CostFunctionQuadraticSimple<N, M> cost(Q, R, xd, ud, xf, Qf);
    std::shared_ptr<LQOCProblem<N, M>> p(new LQOCProblem<N, M>(K));
    p->setFromTimeInvariantLinearQuadraticProblem(sys, cost, off, dt);
    Lq l;
    l.N = N, l.M = M, l.K = K;
    for (int k = 0; k < K; k++)
    {
        l.A.push_back(A), l.B.push_back(B), l.b.push_back(off);
        l.Q.push_back(dt * Q), l.R.push_back(dt * R), l.P.push_back(MX::Zero(M, N));
        l.q.push_back(-dt * Q * xd), l.r.push_back(-dt * R * ud);
    }
    l.Qf = Qf;
    l.qf = -Qf * xf;
    for (int k = 0; k < K; k++)
    {
        PBT_REQUIRE(mclose(p->A_[k], A, 1e-12, 1e-12) && mclose(p->B_[k], B, 1e-12, 1e-12) && mclose(p->b_[k], off, 1e-12, 1e-12), "lti-dynamics", "stage ", k);
        PBT_REQUIRE(mclose(p->Q_[k], l.Q[k], 1e-10, 1e-12) && mclose(p->R_[k], l.R[k], 1e-10, 1e-12) && p->P_[k].norm() < 1e-12, "lti-hessian", "stage ", k);
        PBT_REQUIRE(mclose(p->qv_[k], l.q[k], 1e-10, 1e-12) && mclose(p->rv_[k], l.r[k], 1e-10, 1e-12), "lti-gradient", "stage ", k);
    }
    PBT_REQUIRE(mclose(p->Q_[K], Qf, 1e-10, 1e-12) && mclose(p->qv_[K], l.qf, 1e-10, 1e-12), "lti-terminal", "");
    NLOptConSettings set;
    set.fixedHessianCorrection = false;
    set.epsilon = 1e-8;
    set.recordSmallestEigenvalue = false;
    GNRiccatiSolver<N, M> sol;
    sol.configure(set);
    sol.setProblem(p);
    solveAndCompare<N, M>(s, sol, p, l, set);
}
