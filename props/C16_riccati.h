// compiled once per PART (separate translation units keep the build short)
// C16: Riccati equations, infinite-horizon and finite-horizon LQR
#include "gen.h"
#include <Eigen/Eigenvalues>
#include <ct/optcon/optcon.h>
using namespace pbt;
using namespace ct::optcon;
namespace core = ct::core;
typedef Eigen::MatrixXd MX;
typedef Eigen::VectorXd VX;
namespace {
double specRad(const MX& A)
{
    return Eigen::EigenSolver<MX>(A, false).eigenvalues().cwiseAbs().maxCoeff();
}
double specAbs(const MX& A)
{
    return Eigen::EigenSolver<MX>(A, false).eigenvalues().real().maxCoeff();
}
MX spdX(Src& s, int n, double m, double lo)
{
    MX a = gen::matX(s, n, n, std::sqrt(m));
    MX r = a * a.transpose();
    return 0.5 * (r + r.transpose()) + lo * MX::Identity(n, n);
}
//! control weight: general, diagonal, or a multiple of the identity
MX genR(Src& s, int m, int& kind)
{
    kind = s.i(0, 2);
    if (kind == 0)
        return s.logreal(0.1, 10) * MX::Identity(m, m);
    if (kind == 1)
    {
        MX R = MX::Zero(m, m);
        for (int i = 0; i < m; i++)
            R(i, i) = s.logreal(0.1, 10);
        return R;
    }
    return spdX(s, m, 1, 0.2);
}
MX genB(Src& s, int n, int m)
{
    MX B = gen::matX(s, n, m, 1.5);
    if (m > 1 && s.p(1, 4))
        for (int j = 1; j < m; j++)  // all inputs act along one direction
            B.col(j) = B.col(0) * s.real(-1, 1);
    return B;
}
}  // namespace

template <size_t N, size_t M>
static void careCase(Src& s)
{
    Quiet q;
    typedef Eigen::Matrix<double, N, N> SM;
    typedef Eigen::Matrix<double, N, M> BM;
    typedef Eigen::Matrix<double, M, M> RM;
    int kind;
    SM A = gen::matX(s, N, N, 1.5), Q = spdX(s, N, 1, s.b() ? 0.1 : 1.0);
    BM B = genB(s, N, M);
    RM R = genR(s, M, kind);
    bool diag = kind < 2 && s.b(), iterative = s.b();
    // the reference: stable invariant subspace of the Hamiltonian, complex eigenvectors
    MX H(2 * N, 2 * N);
    H << A, -B * R.inverse() * B.transpose(), -Q, -A.transpose();
    Eigen::ComplexEigenSolver<MX> es(H);
    Eigen::MatrixXcd U(2 * N, N);
    int k = 0;
    for (int i = 0; i < 2 * (int)N; i++)
    {
        discard_unless(std::fabs(es.eigenvalues()(i).real()) > 0.05);
        if (es.eigenvalues()(i).real() < 0 && k < (int)N)
            U.col(k++) = es.eigenvectors().col(i);
    }
    discard_unless(k == (int)N);
    Eigen::JacobiSVD<Eigen::MatrixXcd> svd(U.topRows(N));
    discard_unless(svd.singularValues()(N - 1) > 1e-3);
    MX ref = (U.bottomRows(N) * U.topRows(N).inverse()).real();
    SM P;
    RM Rinv;
    CARE<N, M> care;
    if (s.p(1, 3))
    {  // an earlier problem does not matter
        SM P0;
        RM Ri0;
        care.solve(SM::Identity(), RM::Identity(), -SM::Identity(), B, P0, false, Ri0, false);
        s.label("reused");
    }
    bool ok = care.solve(Q, R, A, B, P, diag, Rinv, iterative);
    s.note(N, "x", M, " diag ", diag, " iterative ", iterative, " A ", gen::str(A), " B ", gen::str(B), " Q ", gen::str(Q), " R ", gen::str(R));
    PBT_REQUIRE(ok, "care-success", "solver reports failure");
    double scale = 1 + ref.norm();
    PBT_REQUIRE(mclose(P, ref, 1e-5, 1e-6), "care-value", "got ", gen::str(P), " expected ", gen::str(ref));
    MX res = A.transpose() * P + P * A - P * B * R.inverse() * B.transpose() * P + Q;
    double rs = Q.norm() + 2 * A.norm() * P.norm() + P.norm() * P.norm() * (B * R.inverse() * B.transpose()).norm();
    PBT_REQUIRE(res.norm() <= 1e-6 * rs, "care-residual", res.norm(), " scale ", rs);
    PBT_REQUIRE((P - P.transpose()).norm() <= 1e-6 * scale, "care-symmetry", gen::str(P));
    PBT_REQUIRE(Eigen::SelfAdjointEigenSolver<MX>(0.5 * (P + P.transpose())).eigenvalues()(0) > -1e-7 * scale, "care-psd", gen::str(P));
    PBT_REQUIRE(mclose(MX(Rinv * R), MX(RM::Identity()), 1e-9, 1e-9), "care-rinv", gen::str(Rinv));
    SM P2 = care.computeSteadyStateRiccatiMatrix(Q, R, A, B, diag, iterative);
    PBT_REQUIRE(mclose(P2, ref, 1e-5, 1e-6), "care-value", "computeSteadyStateRiccatiMatrix ", gen::str(P2));
    LQR<N, M> lqr;
    Eigen::Matrix<double, M, N> K;
    PBT_REQUIRE(lqr.compute(Q, R, A, B, K, diag, iterative), "lqr-success", "LQR reports failure");
    MX Kref = R.inverse() * B.transpose() * ref;
    PBT_REQUIRE(mclose(K, Kref, 1e-5, 1e-6), "lqr-gain", gen::str(K), " expected ", gen::str(Kref));
    PBT_REQUIRE(specAbs(A - B * K) < 0, "lqr-stable", specAbs(A - B * K));
    // optimality: x'Px is the cost of the closed loop under u=-Kx (Lyapunov), and any other stabilising gain costs more
    s.nontrivial();
}
#if PART == 1
FACET(care_3_2, 2) { careCase<3, 2>(s); }
#endif
#if PART == 2
FACET(care_2_3, 1) { careCase<2, 3>(s); }
FACET(care_1_1, 1) { careCase<1, 1>(s); }
#endif

//! one exact dynamic-programming step by completing the square in the joint quadratic form
static void exactStep(const MX& Q, const MX& R, const MX& A, const MX& B, MX& P, MX& K)
{
    MX H = R + B.transpose() * P * B;
    K = -H.ldlt().solve(B.transpose() * P * A);
    MX Acl = A + B * K;
    P = (Q + K.transpose() * R * K + Acl.transpose() * P * Acl).eval();  // cost of the optimal step (Joseph form)
    P = (0.5 * (P + P.transpose())).eval();
}

template <size_t N, size_t M>
static void stepCase(Src& s)
{
    typedef Eigen::Matrix<double, N, N> SM;
    typedef Eigen::Matrix<double, N, M> BM;
    typedef Eigen::Matrix<double, M, M> RM;
    typedef Eigen::Matrix<double, M, N> KM;
    Quiet qq;
    int kind;
    DynamicRiccatiEquation<N, M> e;
    SM P = spdX(s, N, 2, 0);
    MX Pn = P, Pr = P;
    SM Pa = P, Pb = P;
    int steps = s.i(1, 6);
    s.note(N, "x", M, " steps ", steps, " P ", gen::str(P));
    for (int i = 0; i < steps; i++)
    {
        SM A = gen::matX(s, N, N, 1.2), Q = spdX(s, N, 1, 0);
        BM B = genB(s, N, M);
        RM R = genR(s, M, kind);
        KM K;
        MX Kr;
        s.note("A ", gen::str(A), " B ", gen::str(B), " Q ", gen::str(Q), " R ", gen::str(R));
        exactStep(Q, R, A, B, Pr, Kr);
        e.iterateNaive(Q, R, A, B, Pa, K);
        PBT_REQUIRE(mclose(K, Kr, 1e-8, 1e-9), "naive-gain", gen::str(K), " expected ", gen::str(Kr));
        PBT_REQUIRE(mclose(Pa, Pr, 1e-8, 1e-9), "naive-value", gen::str(Pa), " expected ", gen::str(Pr));
        e.iterateRobust(Q, R, A, B, Pb, K);
        // the robust step regularises R by 1e-5, here at least 0.1
        PBT_REQUIRE(mclose(K, Kr, 2e-3, 1e-3), "robust-gain", gen::str(K), " expected ", gen::str(Kr));
        PBT_REQUIRE(mclose(Pb, Pr, 2e-3, 1e-3), "robust-value", gen::str(Pb), " expected ", gen::str(Pr));
    }
    s.nontrivial();
}
#if PART == 3
FACET(step_3_2, 2) { stepCase<3, 2>(s); }
FACET(step_2_3, 2) { stepCase<2, 3>(s); }
FACET(step_2_4, 1) { stepCase<2, 4>(s); }
FACET(step_1_1, 1) { stepCase<1, 1>(s); }
#endif

template <size_t N, size_t M>
static void dareCase(Src& s)
{
    typedef Eigen::Matrix<double, N, N> SM;
    typedef Eigen::Matrix<double, N, M> BM;
    typedef Eigen::Matrix<double, M, M> RM;
    typedef Eigen::Matrix<double, M, N> KM;
    Quiet qq;
    int kind;
    SM A = gen::matX(s, N, N, 0.9), Q = spdX(s, N, 1, 0.1);
    BM B = genB(s, N, M);
    RM R = genR(s, M, kind);
    MX Pr = Q, Kr;
    double diff = 1;
    int it = 0;
    for (; it < 20000 && diff > 1e-13; it++)
    {
        MX old = Pr;
        exactStep(Q, R, A, B, Pr, Kr);
        diff = (Pr - old).cwiseAbs().maxCoeff() / (1 + Pr.norm());
    }
    discard_unless(diff <= 1e-13 && Pr.norm() < 1e3);
    double rho = specRad(A + B * Kr);
    DARE<N, M> dare;
    KM K;
    SM P;
    s.note(N, "x", M, " A ", gen::str(A), " B ", gen::str(B), " Q ", gen::str(Q), " R ", gen::str(R), " rho ", rho, " its ", it);
    bool init = s.b();
    if (init)
        P = dare.computeSteadyStateRiccatiMatrix(Q, R, A, B, SM(spdX(s, N, 4, 0)), K, s.b(), 1e-9, 5000);
    else
        P = dare.computeSteadyStateRiccatiMatrix(Q, R, A, B, K, s.b(), 1e-9, 5000);
    double amp = 1 / (1 - rho * rho);
    double tol = 5e-4 * (1 + amp);
    discard_unless(tol < 0.05);
    PBT_REQUIRE(mclose(P, Pr, tol, tol), "dare-value", gen::str(P), " expected ", gen::str(Pr));
    PBT_REQUIRE(mclose(K, Kr, tol, tol), "dare-gain", gen::str(K), " expected ", gen::str(Kr));
    PBT_REQUIRE(specRad(A + B * K) < 1, "dare-stable", specRad(A + B * K));
    s.nontrivial();
}
#if PART == 3
FACET(dare_3_2, 2) { dareCase<3, 2>(s); }
FACET(dare_2_3, 1) { dareCase<2, 3>(s); }
FACET(dare_1_1, 1) { dareCase<1, 1>(s); }
#endif

//! too few iterations: no silent wrong answer
#if PART == 3
FACET(dare_refuse, 1)
{
    Quiet qq;
    typedef Eigen::Matrix2d SM;
    SM A = gen::mat<2, 2>(s, 0.5);
    A(0, 0) = s.ureal(1.2, 1.6), A(0, 1) = 0;  // unstable mode that B cannot reach: no convergence
    Eigen::Matrix<double, 2, 1> B(0, s.ureal(0.3, 1));
    SM Q = gen::spd<2>(s, 1, 0.5);
    Eigen::Matrix<double, 1, 1> R;
    R(0, 0) = s.logreal(0.1, 3);
    Eigen::Matrix<double, 1, 2> K;
    DARE<2, 1> d;
    bool threw = false;
    SM P;
    try
    {
        P = d.computeSteadyStateRiccatiMatrix(Q, R, A, B, K, false, 1e-6, s.i(3, 60));
    }
    catch (const std::exception&)
    {
        threw = true;
    }
    PBT_REQUIRE(threw, "dare-diverged", "returned ", gen::str(P), " for an uncontrollable unstable system");
    s.nontrivial();
}
#endif

//! finite-horizon LQR against the dense least-squares solution of the stacked problem
template <size_t N, size_t M>
static void fhCase(Src& s)
{
    Quiet qq;
    typedef core::StateVectorArray<N> XA;
    typedef core::ControlVectorArray<M> UA;
    int T = s.i(1, 7), kind;
    double dt = s.logreal(0.02, 0.5);
    MX Q = spdX(s, N, 1, 0.05), Qf = spdX(s, N, 2, 0), R = genR(s, M, kind);
    XA xs;
    UA us;
    core::StateMatrixArray<N> As;
    core::StateControlMatrixArray<N, M> Bs;
    for (int i = 0; i <= T; i++)
        xs.push_back(core::StateVector<N>(gen::vec<N>(s, 1)));
    for (int i = 0; i < T; i++)
        us.push_back(core::ControlVector<M>(gen::vec<M>(s, 1)));
    auto cost = std::make_shared<CostFunctionAnalytical<N, M>>();
    core::StateVector<N> x0 = core::StateVector<N>::Zero();
    core::ControlVector<M> u0 = core::ControlVector<M>::Zero();
    Eigen::Matrix<double, N, N> Qh = 0.5 * Q, Qfh = 0.5 * Qf;
    Eigen::Matrix<double, M, M> Rh = 0.5 * R;  // terms are x'Qx
    cost->addIntermediateTerm(std::shared_ptr<TermBase<N, M>>(new TermQuadratic<N, M>(Qh, Rh, x0, u0)));
    cost->addFinalTerm(std::shared_ptr<TermBase<N, M>>(new TermQuadratic<N, M>(Qfh, Eigen::Matrix<double, M, M>::Zero(), x0, u0)));
    cost->initialize();
    core::FeedbackArray<N, M> K;
    FHDTLQR<N, M> lqr(cost);
    std::vector<MX> A(T), B(T);
    bool viaSystem = s.b();
    s.note(N, "x", M, " T ", T, " dt ", dt, " via system ", viaSystem);
    struct TV : public core::LinearSystem<N, M>
    {
        typename core::LinearSystem<N, M>::state_matrix_t A0, A1, a;
        typename core::LinearSystem<N, M>::state_control_matrix_t B0, B1, b;
        TV* clone() const override { return new TV(*this); }
        const typename core::LinearSystem<N, M>::state_matrix_t& getDerivativeState(const core::StateVector<N>& x,
            const core::ControlVector<M>& u, const double t) override
        {
            a = A0 + (t + 0.3 * x(0)) * A1;
            return a;
        }
        const typename core::LinearSystem<N, M>::state_control_matrix_t& getDerivativeControl(const core::StateVector<N>& x,
            const core::ControlVector<M>& u, const double t) override
        {
            b = B0 + (t + 0.2 * u(0)) * B1;
            return b;
        }
    };
    if (viaSystem)
    {
        auto sys = std::make_shared<TV>();
        sys->A0 = gen::mat<N, N>(s, 1), sys->A1 = gen::mat<N, N>(s, 1);
        sys->B0 = gen::mat<N, M>(s, 1), sys->B1 = gen::mat<N, M>(s, 1);
        for (int i = 0; i < T; i++)
        {
            A[i] = MX::Identity(N, N) + dt * (sys->A0 + (i * dt + 0.3 * xs[i](0)) * sys->A1);
            B[i] = dt * (sys->B0 + (i * dt + 0.2 * us[i](0)) * sys->B1);
        }
        lqr.designController(xs, us, sys, dt, K, false);
    }
    else
    {
        for (int i = 0; i < T; i++)
        {
            A[i] = gen::matX(s, N, N, 1.2), B[i] = genB(s, N, M);
            core::StateMatrix<N> a;
            a = A[i];
            core::StateControlMatrix<N, M> b;
            b = B[i];
            As.push_back(a), Bs.push_back(b);
        }
        lqr.designController(xs, us, As, Bs, dt, K, false);
    }
    PBT_REQUIRE((int)K.size() == T, "fh-size", K.size());
    // from every stage k: minimise the remaining cost over the stacked controls, one column per initial unit state
    for (int k = 0; k < T; k++)
    {
        int L = T - k, m = M, n = N;
        MX Phi = MX::Zero(n * (L + 1), n), G = MX::Zero(n * (L + 1), m * L);
        Phi.topRows(n).setIdentity();
        for (int i = 0; i < L; i++)
        {
            Phi.block((i + 1) * n, 0, n, n) = A[k + i] * Phi.block(i * n, 0, n, n);
            G.block((i + 1) * n, 0, n, m * L) = A[k + i] * G.block(i * n, 0, n, m * L);
            G.block((i + 1) * n, i * m, n, m) += B[k + i];
        }
        MX QQ = MX::Zero(n * (L + 1), n * (L + 1)), RR = MX::Zero(m * L, m * L);
        for (int i = 0; i < L; i++)
        {
            QQ.block(i * n, i * n, n, n) = Q * dt;
            RR.block(i * m, i * m, m, m) = R * dt;
        }
        QQ.block(L * n, L * n, n, n) = Qf;
        MX U = -(RR + G.transpose() * QQ * G).ldlt().solve(G.transpose() * QQ * Phi);
        MX K0 = U.topRows(m);
        // regularisation by 1e-5 against R*dt
        double rmin = Eigen::SelfAdjointEigenSolver<MX>(R).eigenvalues()(0) * dt;
        double tol = 1e-6 + 40 * 1e-5 / rmin;
        if (tol > 0.2)
            continue;
        PBT_REQUIRE(mclose(K[k], K0, tol, tol * 0.5), "fh-gain", "stage ", k, " ", gen::str(K[k]), " expected ", gen::str(K0), " tol ", tol);
        s.nontrivial();
    }
}
#if PART == 4
FACET(fh_3_2, 3) { fhCase<3, 2>(s); }
#endif
#if PART == 5
FACET(fh_2_3, 2) { fhCase<2, 3>(s); }
#endif

#if PART == 5
FACET(fh_refuse, 1)
{
    Quiet qq;
    s.nontrivial();
    auto cost = std::make_shared<CostFunctionAnalytical<2, 1>>();
    core::StateVector<2> x0 = core::StateVector<2>::Zero();
    core::ControlVector<1> u0 = core::ControlVector<1>::Zero();
    typedef TermQuadratic<2, 1> TQ;
    Eigen::Matrix<double, 1, 1> r;
    r(0) = 1;
    cost->addIntermediateTerm(std::shared_ptr<TermBase<2, 1>>(new TQ(Eigen::Matrix2d::Identity(), r, x0, u0)));
    cost->addFinalTerm(std::shared_ptr<TermBase<2, 1>>(new TQ(Eigen::Matrix2d::Identity(), r, x0, u0)));
    cost->initialize();
    FHDTLQR<2, 1> lqr(cost);
    int T = s.i(2, 6);
    int d[4] = {0, 0, 0, 0};
    int which = s.i(0, 4);
    if (which < 4)
        d[which] = s.b() ? 1 : -1;
    if (which == 0)
        which = 0;
    core::StateVectorArray<2> xs(T + 1, x0);
    core::ControlVectorArray<1> us(T + d[1], u0);
    core::StateMatrixArray<2> A(T + d[2], core::StateMatrix<2>::Identity());
    core::StateControlMatrixArray<2, 1> B(T + d[3], core::StateControlMatrix<2, 1>::Ones());
    core::FeedbackArray<2, 1> K;
    bool threw = false;
    try
    {
        lqr.designController(xs, us, A, B, 0.1, K, s.b());
    }
    catch (const std::exception&)
    {
        threw = true;
    }
    bool bad = d[1] || d[2] || d[3];
    PBT_REQUIRE(threw == bad, "fh-refuse", "control ", d[1], " A ", d[2], " B ", d[3], " threw ", threw);
}
#endif
