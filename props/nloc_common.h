// generated optimal control problems and reference computations shared by the NLOC harnesses
#pragma once
#include "gen.h"
#include <ct/optcon/optcon.h>
using namespace pbt;
using namespace ct::optcon;
namespace core = ct::core;
typedef Eigen::MatrixXd MX;
typedef Eigen::VectorXd VX;

template <int N, int M>
struct Prob
{
    Eigen::Matrix<double, N, N> A, A1, G, Bil;
    Eigen::Matrix<double, N, M> B;
    Eigen::Matrix<double, N, 1> c, e, nl;
    double w, w2;
    Eigen::Matrix<double, N, N> Q, Qf;
    Eigen::Matrix<double, M, M> R;
    Eigen::Matrix<double, M, N> P;
    Eigen::Matrix<double, N, 1> xr0, xr1, xf, xf1, x0;
    Eigen::Matrix<double, M, 1> ur;
    double quart;
    typedef Eigen::Matrix<double, N, 1> X;
    typedef Eigen::Matrix<double, M, 1> U;
    X f(const X& x, const U& u, double t) const
    {
        X r = A * x + std::cos(w * t) * (A1 * x) + B * u + c + std::sin(w2 * t) * e + u(0) * (Bil * x);
        for (int i = 0; i < N; i++)
            r(i) += nl(i) * std::sin(G.row(i).dot(x));
        return r;
    }
    Eigen::Matrix<double, N, N> fx(const X& x, const U& u, double t) const
    {
        Eigen::Matrix<double, N, N> J = A + std::cos(w * t) * A1 + u(0) * Bil;
        for (int i = 0; i < N; i++)
            J.row(i) += nl(i) * std::cos(G.row(i).dot(x)) * G.row(i);
        return J;
    }
    Eigen::Matrix<double, N, M> fu(const X& x) const
    {
        Eigen::Matrix<double, N, M> J = B;
        J.col(0) += Bil * x;
        return J;
    }
    X ref(double t) const { return xr0 + std::sin(w2 * t) * xr1; }
    double L(const X& x, const U& u, double t) const
    {
        X d = x - ref(t);
        U v = u - ur;
        return 0.5 * d.dot(Q * d) + 0.5 * v.dot(R * v) + v.dot(P * d) + 0.25 * quart * x.array().pow(4).sum();
    }
    X fin(double t) const { return xf + std::sin(w2 * t) * xf1; }  // terminal cost may depend on the final time
    double F(const X& x, double t) const { return 0.5 * (x - fin(t)).dot(Qf * (x - fin(t))); }
};

template <int N, int M>
Prob<N, M> genProb(Src& s, bool linear, bool timeVarying)
{
    Prob<N, M> p;
    p.A = gen::mat<N, N>(s, 1);
    p.A1.setZero();
    p.w = s.real(0.5, 4), p.w2 = s.real(0.5, 4);
    p.e.setZero();
    p.xr1.setZero();
    p.xf1.setZero();
    if (timeVarying)
    {
        p.A1 = gen::mat<N, N>(s, 0.7);
        p.e = gen::vec<N>(s, 1);
        p.xr1 = gen::vec<N>(s, 1);
        p.xf1 = gen::vec<N>(s, 1);
    }
    p.B = gen::mat<N, M>(s, 1);
    p.c = gen::vec<N>(s, 0.5);
    p.nl.setZero();
    p.G.setZero();
    p.Bil.setZero();
    p.quart = 0;
    if (!linear)
    {
        p.nl = gen::vec<N>(s, 0.8);
        p.G = gen::mat<N, N>(s, 1);
        p.Bil = gen::mat<N, N>(s, 0.2);
        p.quart = s.b() ? s.real(0, 0.5) : 0.0;
    }
    MX a = gen::matX(s, N + M, N + M, 1);
    MX J = a * a.transpose();
    if (s.b())
        J.bottomLeftCorner(M, N).setZero(), J.topRightCorner(N, M).setZero();
    J = (0.5 * (J + J.transpose())).eval();
    p.Q = J.topLeftCorner(N, N);
    p.R = J.bottomRightCorner(M, M) + s.logreal(0.3, 3) * MX::Identity(M, M);
    p.P = J.bottomLeftCorner(M, N);
    MX b = gen::matX(s, N, N, 1.5);
    p.Qf = b * b.transpose();
    p.Qf = (0.5 * (p.Qf + p.Qf.transpose())).eval();
    p.xr0 = gen::vec<N>(s, 1), p.xf = gen::vec<N>(s, 1), p.x0 = gen::vec<N>(s, 1);
    p.ur = gen::vec<M>(s, 0.5);
    return p;
}

//! called with every evaluation of the dynamics and of the cost (schedule perturbation)
struct Hook
{
    static void (*&fn())()
    {
        static void (*f)() = nullptr;
        return f;
    }
    static void call()
    {
        if (fn())
            fn()();
    }
};

template <int N, int M>
class GSys : public core::ControlledSystem<N, M>
{
public:
    Prob<N, M> p;
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
    GSys(const Prob<N, M>& q) : p(q) {}
    GSys* clone() const override { return new GSys(*this); }
    void computeControlledDynamics(const core::StateVector<N>& x, const double& t, const core::ControlVector<M>& u, core::StateVector<N>& d) override
    {
        Hook::call();
        d = p.f(x, u, t);
    }
};
template <int N, int M>
class GLin : public core::LinearSystem<N, M>
{
public:
    Prob<N, M> p;
    core::StateMatrix<N> A_;
    core::StateControlMatrix<N, M> B_;
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
    GLin(const Prob<N, M>& q) : p(q) {}
    GLin* clone() const override { return new GLin(*this); }
    const core::StateMatrix<N>& getDerivativeState(const core::StateVector<N>& x, const core::ControlVector<M>& u, const double t = 0.0) override
    {
        Hook::call();
        A_ = p.fx(x, u, t);
        return A_;
    }
    const core::StateControlMatrix<N, M>& getDerivativeControl(const core::StateVector<N>& x, const core::ControlVector<M>& u, const double t = 0.0) override
    {
        B_ = p.fu(x);
        return B_;
    }
};
//! the discrete-time map x + h f(x,u,n h)
template <int N, int M>
class DSys : public core::DiscreteControlledSystem<N, M>
{
public:
    Prob<N, M> p;
    double h;
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
    DSys(const Prob<N, M>& q, double hh) : p(q), h(hh) {}
    DSys* clone() const override { return new DSys(*this); }
    void propagateControlledDynamics(const core::StateVector<N>& x, const int n, const core::ControlVector<M>& u, core::StateVector<N>& xn) override
    {
        Hook::call();
        xn = x + h * p.f(x, u, n * h);
    }
};
template <int N, int M>
class DLin : public core::DiscreteLinearSystem<N, M>
{
public:
    Prob<N, M> p;
    double h;
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
    DLin(const Prob<N, M>& q, double hh) : p(q), h(hh) {}
    DLin* clone() const override { return new DLin(*this); }
    void getAandB(const core::StateVector<N>& x, const core::ControlVector<M>& u, const core::StateVector<N>&, const int n, size_t, core::StateMatrix<N>& A, core::StateControlMatrix<N, M>& B) override
    {
        A = Eigen::Matrix<double, N, N>::Identity() + h * p.fx(x, u, n * h);
        B = h * p.fu(x);
    }
};
template <int N, int M>
class GCost : public CostFunctionQuadratic<N, M>
{
public:
    typedef Eigen::Matrix<double, N, 1> X;
    typedef Eigen::Matrix<double, M, 1> U;
    Prob<N, M> p;
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
    GCost(const Prob<N, M>& q) : p(q) {}
    GCost(const GCost& o) : CostFunctionQuadratic<N, M>(o), p(o.p) {}
    GCost* clone() const override { return new GCost(*this); }
    double tt() const { return this->t_; }
    double evaluateIntermediate() override
    {
        Hook::call();
        return p.L(this->x_, this->u_, this->t_);
    }
    double evaluateTerminal() override { return p.F(this->x_, this->t_); }
    core::StateVector<N> stateDerivativeIntermediate() override
    {
        X d = this->x_ - p.ref(this->t_);
        U v = this->u_ - p.ur;
        X r = p.Q * d + p.P.transpose() * v;
        r.array() += p.quart * this->x_.array().pow(3);
        return r;
    }
    core::StateVector<N> stateDerivativeTerminal() override { return p.Qf * (this->x_ - p.fin(this->t_)); }
    typename CostFunctionQuadratic<N, M>::state_matrix_t stateSecondDerivativeIntermediate() override
    {
        Eigen::Matrix<double, N, N> H = p.Q;
        H.diagonal().array() += 3 * p.quart * this->x_.array().square();
        return H;
    }
    typename CostFunctionQuadratic<N, M>::state_matrix_t stateSecondDerivativeTerminal() override { return p.Qf; }
    core::ControlVector<M> controlDerivativeIntermediate() override
    {
        X d = this->x_ - p.ref(this->t_);
        U v = this->u_ - p.ur;
        return p.R * v + p.P * d;
    }
    typename CostFunctionQuadratic<N, M>::control_matrix_t controlSecondDerivativeIntermediate() override { return p.R; }
    typename CostFunctionQuadratic<N, M>::control_state_matrix_t stateControlDerivativeIntermediate() override { return p.P; }
};

//! one step of the discretised dynamics: integrator, substeps, control held constant
template <int N, int M>
Eigen::Matrix<double, N, 1> refStep(const Prob<N, M>& p, const Eigen::Matrix<double, N, 1>& x0, const Eigen::Matrix<double, M, 1>& u, int k, const NLOptConSettings& set)
{
    Eigen::Matrix<double, N, 1> x = x0;
    const double h = set.dt / set.K_sim;
    const bool rk = set.integrator == core::IntegrationType::RK4 || set.integrator == core::IntegrationType::RK4CT;
    for (int j = 0; j < set.K_sim; j++)
    {
        const double t = k * set.dt + j * h;
        Eigen::Matrix<double, N, 1> k1 = p.f(x, u, t);
        if (!rk)
        {
            x += h * k1;
            continue;
        }
        Eigen::Matrix<double, N, 1> k2 = p.f(x + 0.5 * h * k1, u, t + 0.5 * h);
        Eigen::Matrix<double, N, 1> k3 = p.f(x + 0.5 * h * k2, u, t + 0.5 * h);
        Eigen::Matrix<double, N, 1> k4 = p.f(x + h * k3, u, t + h);
        x += h / 6 * (k1 + 2 * k2 + 2 * k3 + k4);
    }
    return x;
}

//! linear-quadratic problem with all stages, and its dense solution
struct Lq
{
    int N, M, K;
    std::vector<MX> A, B, Q, R, P;
    std::vector<VX> b, q, r;
    VX qf;
    MX Qf;
};

inline void denseLq(const Lq& l, int k0, const VX& x0, std::vector<VX>& xs, std::vector<VX>& us, MX& L0)
{
    int K = l.K - k0, N = l.N, M = l.M;
    MX Phi = MX::Identity(N, N), Gam = MX::Zero(N, K * M);
    VX c = VX::Zero(N);
    MX H = MX::Zero(K * M, K * M), Hx = MX::Zero(K * M, N);
    VX g = VX::Zero(K * M);
    std::vector<MX> Phis(1, Phi), Gams(1, Gam);
    std::vector<VX> cs(1, c);
    for (int j = 0; j < K; j++)
    {
        const int k = k0 + j;
        MX E = MX::Zero(M, K * M);
        E.middleCols(j * M, M).setIdentity();
        H += Gam.transpose() * l.Q[k] * Gam + E.transpose() * l.R[k] * E + E.transpose() * l.P[k] * Gam + Gam.transpose() * l.P[k].transpose() * E;
        Hx += Gam.transpose() * l.Q[k] * Phi + E.transpose() * l.P[k] * Phi;
        g += Gam.transpose() * (l.Q[k] * c + l.q[k]) + E.transpose() * (l.P[k] * c + l.r[k]);
        Gam = (l.A[k] * Gam + l.B[k] * E).eval();
        Phi = (l.A[k] * Phi).eval();
        c = (l.A[k] * c + l.b[k]).eval();
        Phis.push_back(Phi), Gams.push_back(Gam), cs.push_back(c);
    }
    H += Gam.transpose() * l.Qf * Gam;
    Hx += Gam.transpose() * l.Qf * Phi;
    g += Gam.transpose() * (l.Qf * c + l.qf);
    Eigen::LDLT<MX> f(0.5 * (H + H.transpose()));
    VX U = -f.solve(g + Hx * x0);
    L0 = (-f.solve(Hx)).topRows(M);
    xs.clear(), us.clear();
    for (int j = 0; j <= K; j++)
        xs.push_back(Phis[j] * x0 + Gams[j] * U + cs[j]);
    for (int j = 0; j < K; j++)
        us.push_back(U.segment(j * M, M));
}

//! the discretised problem as linear-quadratic problem in absolute coordinates (linear dynamics, no quartic cost)
template <int N, int M, class STEP>
Lq toLq(const Prob<N, M>& p, int K, double dt, STEP step)
{
    typedef Eigen::Matrix<double, N, 1> X;
    typedef Eigen::Matrix<double, M, 1> U;
    Lq l;
    l.N = N, l.M = M, l.K = K;
    for (int k = 0; k < K; k++)
    {
        X c = step(X(X::Zero()), U(U::Zero()), k);
        MX A(N, N), B(N, M);
        for (int i = 0; i < N; i++)
            A.col(i) = step(X(X::Unit(i)), U(U::Zero()), k) - c;
        for (int i = 0; i < M; i++)
            B.col(i) = step(X(X::Zero()), U(U::Unit(i)), k) - c;
        l.A.push_back(A), l.B.push_back(B), l.b.push_back(c);
        l.Q.push_back(dt * p.Q), l.R.push_back(dt * p.R), l.P.push_back(dt * p.P);
        X r = p.ref(k * dt);
        l.q.push_back(-dt * (p.Q * r + p.P.transpose() * p.ur));
        l.r.push_back(-dt * (p.R * p.ur + p.P * r));
    }
    l.Qf = p.Qf;
    l.qf = -p.Qf * p.fin(K * dt);
    return l;
}

template <int N, int M>
double totalCost(const Prob<N, M>& p, const core::StateVectorArray<N>& x, const core::ControlVectorArray<M>& u, double dt)
{
    double J = 0;
    for (size_t k = 0; k < u.size(); k++)
        J += dt * p.L(x[k], u[k], k * dt);
    return J + p.F(x[u.size()], u.size() * dt);
}

inline NLOptConSettings genSettings(Src& s, bool allowLineSearch)
{
    NLOptConSettings set;
    set.nThreads = 1;
    set.nThreadsEigen = 1;
    set.printSummary = s.p(1, 8);
    set.debugPrint = false;
    set.logToMatlab = false;
    set.nlocp_algorithm = (NLOptConSettings::NLOCP_ALGORITHM)s.i(0, (int)NLOptConSettings::NLOCP_ALGORITHM::NUM_TYPES - 1);
    set.dt = s.logreal(0.01, 0.2);
    set.K_sim = s.i(1, 3);
    set.K_shot = set.nlocp_algorithm == NLOptConSettings::NLOCP_ALGORITHM::ILQR ? 1 : s.i(1, 5);
    set.integrator = s.pick(std::vector<core::IntegrationType>{core::IntegrationType::EULERCT, core::IntegrationType::EULER, core::IntegrationType::RK4CT, core::IntegrationType::RK4});
    set.useSensitivityIntegrator = true;
    set.timeVaryingDiscretization = true;
    set.discretization = NLOptConSettings::APPROXIMATION::FORWARD_EULER;
    const bool euler = set.integrator == core::IntegrationType::EULERCT || set.integrator == core::IntegrationType::EULER;
    if (euler && set.K_sim == 1 && s.b())
        set.useSensitivityIntegrator = false;
    set.fixedHessianCorrection = s.b();
    set.epsilon = s.b() ? 0.0 : 1e-11;
    set.recordSmallestEigenvalue = s.p(1, 4);
    set.max_iterations = s.i(1, 12);
    set.min_cost_improvement = s.pick(std::vector<double>{1e-10, 1e-6});
    set.maxDefectSum = 1e-5;
    set.meritFunctionRho = 0;
    set.lineSearchSettings.type = LineSearchSettings::TYPE::NONE;
    if (allowLineSearch)
    {
        set.lineSearchSettings.type = s.pick(std::vector<LineSearchSettings::TYPE>{LineSearchSettings::TYPE::NONE, LineSearchSettings::TYPE::SIMPLE, LineSearchSettings::TYPE::ARMIJO});
        set.lineSearchSettings.maxIterations = s.i(2, 12);
        set.lineSearchSettings.n_alpha = s.pick(std::vector<double>{0.5, 0.8, 0.3});
        set.lineSearchSettings.alpha_0 = 1.0;
        set.lineSearchSettings.debugPrint = s.p(1, 16);
        set.meritFunctionRho = s.pick(std::vector<double>{0.0, 1.0, 100.0});
    }
    return set;
}

inline std::string describe(const NLOptConSettings& s)
{
    std::ostringstream o;
    o << "alg " << (int)s.nlocp_algorithm << " dt " << s.dt << " K_sim " << s.K_sim << " K_shot " << s.K_shot << " int " << (int)s.integrator << " sens "
      << s.useSensitivityIntegrator << " disc " << (int)s.discretization << " ls " << (int)s.lineSearchSettings.type << " rho " << s.meritFunctionRho << " fixed " << s.fixedHessianCorrection
      << " eps " << s.epsilon << " threads " << s.nThreads << " maxit " << s.max_iterations;
    return o.str();
}

template <int N, int M>
struct Guess
{
    core::StateVectorArray<N> x;
    core::ControlVectorArray<M> u;
    core::FeedbackArray<N, M> L;
};
template <int N, int M>
Guess<N, M> genGuess(Src& s, int K, double scale, bool feedback)
{
    Guess<N, M> g;
    for (int k = 0; k <= K; k++)
        g.x.push_back(core::StateVector<N>(gen::vec<N>(s, scale)));
    for (int k = 0; k < K; k++)
    {
        g.u.push_back(core::ControlVector<M>(gen::vec<M>(s, scale)));
        Eigen::Matrix<double, M, N> l = Eigen::Matrix<double, M, N>::Zero();
        if (feedback)
            l = gen::mat<M, N>(s, 0.3);
        g.L.push_back(core::FeedbackMatrix<N, M>(l));
    }
    return g;
}
