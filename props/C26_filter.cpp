// C26: state estimation: extended, unscented and steady-state Kalman filter, models they run on
#include "gen.h"
#include <Eigen/Eigenvalues>
#include <ct/optcon/optcon.h>
using namespace pbt;
using namespace ct::optcon;
namespace core = ct::core;
typedef Eigen::MatrixXd MX;
typedef Eigen::VectorXd VX;

namespace {
//! x+ = A x + B u + c cos(w t) + nl sin(G x), explicit dependence on dt and t
template <int N, int M>
struct Dyn
{
    MX A, A1, B, G, V;
    VX c, nl;
    double w;
    VX f(const VX& x, const VX& u, double dt, double t) const
    {
        VX r = A * x + dt * (A1 * x) + B * u + std::cos(w * t) * c;
        for (int i = 0; i < N; i++)
            r(i) += nl(i) * std::sin(G.row(i).dot(x));
        return r;
    }
    MX fx(const VX& x, double dt) const
    {
        MX J = A + dt * A1;
        for (int i = 0; i < N; i++)
            J.row(i) += nl(i) * std::cos(G.row(i).dot(x)) * G.row(i);
        return J;
    }
    MX noise(double dt, double t) const { return V * (1 + 0.1 * dt) + 0.05 * std::sin(t) * MX::Identity(N, N); }
};
template <int N, int M>
Dyn<N, M> genDyn(Src& s, bool linear)
{
    Dyn<N, M> d;
    d.A = gen::matX(s, N, N, 0.9), d.A1 = gen::matX(s, N, N, 0.5), d.B = gen::matX(s, N, M, 1);
    d.G = gen::matX(s, N, N, 1);
    d.V = gen::matX(s, N, N, 0.6);
    d.c = gen::matX(s, N, 1, 1);
    d.nl = linear ? VX(VX::Zero(N)) : VX(gen::matX(s, N, 1, 0.5));
    d.w = s.real(0, 3);
    return d;
}
template <int N, int M>
class SysModel : public SystemModelBase<N, M>
{
public:
    typedef SystemModelBase<N, M> B;
    Dyn<N, M> d;
    bool cov;  // the noise matrix is a covariance
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
    SysModel(const Dyn<N, M>& x, bool c = false) : d(x), cov(c) {}
    typename B::state_vector_t computeDynamics(const typename B::state_vector_t& x, const typename B::control_vector_t& u, const double dt, double t) override { return typename B::state_vector_t(d.f(x, u, dt, t)); }
    typename B::state_matrix_t computeDerivativeState(const typename B::state_vector_t& x, const typename B::control_vector_t&, const double dt, double) override { return typename B::state_matrix_t(d.fx(x, dt)); }
    typename B::state_matrix_t computeDerivativeNoise(const typename B::state_vector_t&, const typename B::control_vector_t&, const double dt, double t) override
    {
        return typename B::state_matrix_t(cov ? MX(d.V * d.V.transpose()) : d.noise(dt, t));
    }
};
//! y = C x + d sin(w t) + nl sin(g x)
template <int Y, int N>
struct Meas
{
    MX C, G, W;
    VX d, nl;
    double w;
    VX h(const VX& x, double t) const
    {
        VX r = C * x + std::sin(w * t) * d;
        for (int i = 0; i < Y; i++)
            r(i) += nl(i) * std::sin(G.row(i).dot(x));
        return r;
    }
    MX hx(const VX& x) const
    {
        MX J = C;
        for (int i = 0; i < Y; i++)
            J.row(i) += nl(i) * std::cos(G.row(i).dot(x)) * G.row(i);
        return J;
    }
    MX noise(double t) const { return W + 0.1 * std::cos(t) * MX::Identity(Y, Y); }
};
template <int Y, int N>
Meas<Y, N> genMeas(Src& s, bool linear)
{
    Meas<Y, N> m;
    m.C = gen::matX(s, Y, N, 1), m.G = gen::matX(s, Y, N, 1);
    m.W = gen::matX(s, Y, Y, 0.5);
    m.W.diagonal().array() += 1;
    m.d = gen::matX(s, Y, 1, 1);
    m.nl = linear ? VX(VX::Zero(Y)) : VX(gen::matX(s, Y, 1, 0.5));
    m.w = s.real(0, 3);
    return m;
}
template <int Y, int N>
class MeasModel : public LinearMeasurementModel<Y, N>
{
public:
    typedef LinearMeasurementModel<Y, N> B;
    Meas<Y, N> m;
    bool cov;
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
    MeasModel(const Meas<Y, N>& x, bool c = false) : m(x), cov(c) {}
    typename B::output_vector_t computeMeasurement(const typename B::state_vector_t& x, const double& t = 0) override { return typename B::output_vector_t(m.h(x, t)); }
    typename B::output_state_matrix_t computeDerivativeState(const typename B::state_vector_t& x, const double&) override { return typename B::output_state_matrix_t(m.hx(x)); }
    typename B::output_matrix_t computeDerivativeNoise(const typename B::state_vector_t&, const double& t) override { return typename B::output_matrix_t(cov ? MX(m.W * m.W.transpose()) : m.noise(t)); }
};
MX spdX(Src& s, int n, double m, double lo)
{
    MX a = gen::matX(s, n, n, std::sqrt(m));
    MX r = a * a.transpose();
    return 0.5 * (r + r.transpose()) + lo * MX::Identity(n, n);
}
double minEig(const MX& P) { return Eigen::SelfAdjointEigenSolver<MX>(0.5 * (P + P.transpose())).eigenvalues().minCoeff(); }
}  // namespace

//! extended Kalman filter over random histories; oracle: Gaussian conditioning around the current estimate
template <int N, int M, int Y>
static void ekfCase(Src& s)
{
    typedef ExtendedKalmanFilter<N, M, Y> F;
    Dyn<N, M> d = genDyn<N, M>(s, s.p(1, 4));
    Meas<Y, N> m = genMeas<Y, N>(s, s.p(1, 4));
    std::shared_ptr<SystemModelBase<N, M>> f(new SysModel<N, M>(d));
    std::shared_ptr<LinearMeasurementModel<Y, N>> h(new MeasModel<Y, N>(m));
    MX Q = spdX(s, N, 1, 0), R = spdX(s, Y, 1, 0.1), P = s.p(1, 6) ? MX(MX::Zero(N, N)) : spdX(s, N, 2, 0);
    VX x = gen::matX(s, N, 1, 2);
    F ekf(f, h, typename F::state_matrix_t(Q), typename F::output_matrix_t(R), typename F::state_vector_t(x), typename F::state_matrix_t(P));
    const int n = s.i(1, 12);
    int updates = 0, predicts = 0;
    for (int k = 0; k < n; k++)
    {
        double t = s.real(-2, 4), dt = s.logreal(1e-3, 1);
        switch (s.i(0, 9))
        {
            case 0:
                Q = spdX(s, N, 1, 0);
                ekf.setQ(typename F::state_matrix_t(Q));
                break;
            case 1:
                R = spdX(s, Y, 1, 0.1);
                ekf.setR(typename F::output_matrix_t(R));
                break;
            case 2:
                if (s.b())
                {
                    x = gen::matX(s, N, 1, 2);
                    ekf.setEstimate(typename F::state_vector_t(x));
                }
                else if (s.b())
                {
                    d = genDyn<N, M>(s, s.b());
                    ekf.setSystemModel(std::shared_ptr<SystemModelBase<N, M>>(new SysModel<N, M>(d)));
                }
                else
                {
                    m = genMeas<Y, N>(s, s.b());
                    ekf.setMeasurementModel(std::shared_ptr<LinearMeasurementModel<Y, N>>(new MeasModel<Y, N>(m)));
                }
                break;
            case 3:
            case 4:
            case 5:
            {
                VX u = gen::matX(s, M, 1, 1);
                core::StateVector<N> r = ekf.predict(core::ControlVector<M>(u), dt, t);
                MX A = d.fx(x, dt), G = d.noise(dt, t);
                P = (A * P * A.transpose() + dt * G * Q * G.transpose()).eval();
                x = d.f(x, u, dt, t);
                PBT_REQUIRE(mclose(MX(r), MX(x), 1e-9, 1e-9), "predict", "got ", gen::str(r), " expected ", gen::str(x));
                predicts++;
                break;
            }
            default:
            {
                VX y = gen::matX(s, Y, 1, 2);
                core::StateVector<N> r = ekf.update(core::OutputVector<Y>(y), dt, t);
                MX H = m.hx(x), D = m.noise(t);
                MX W = D * R * D.transpose();
                // joint covariance of (x, y), conditioned on y
                MX J(N + Y, N + Y);
                J << P, P * H.transpose(), H * P, H * P * H.transpose() + W;
                MX S = J.bottomRightCorner(Y, Y);
                Eigen::FullPivLU<MX> lu(S);
                discard_unless(Eigen::SelfAdjointEigenSolver<MX>(0.5 * (S + S.transpose())).eigenvalues().minCoeff() > 1e-3);
                x += J.topRightCorner(N, Y) * lu.solve(y - m.h(x, t));
                P = (P - J.topRightCorner(N, Y) * lu.solve(MX(J.bottomLeftCorner(Y, N)))).eval();
                PBT_REQUIRE(mclose(MX(r), MX(x), 1e-8, 1e-8), "update", "t ", t, " got ", gen::str(r), " expected ", gen::str(x));
                updates++;
                break;
            }
        }
        MX got = ekf.getCovarianceMatrix();
        PBT_REQUIRE(mclose(MX(ekf.getEstimate()), MX(x), 1e-8, 1e-8), "estimate", "got ", gen::str(ekf.getEstimate()), " expected ", gen::str(x));
        PBT_REQUIRE(mclose(got, P, 1e-8, 1e-8), "covariance", "got ", gen::str(got), " expected ", gen::str(P));
        PBT_REQUIRE(mclose(got, MX(got.transpose()), 1e-9, 1e-9) && minEig(got) > -1e-8 * (1 + got.norm()), "psd", "covariance ", gen::str(got), " is not symmetric positive semi-definite");
        discard_unless(P.norm() < 1e4 && x.norm() < 1e4);
    }
    if (updates && predicts)
        s.nontrivial();
}

//! linear models: the extended filter's estimate is the maximum-a-posteriori estimate over the whole history
template <int N, int M, int Y>
static void batchCase(Src& s)
{
    typedef ExtendedKalmanFilter<N, M, Y> F;
    Dyn<N, M> d = genDyn<N, M>(s, true);
    Meas<Y, N> m = genMeas<Y, N>(s, true);
    MX Q = spdX(s, N, 1, 0.1), R = spdX(s, Y, 1, 0.1), P0 = spdX(s, N, 1, 0.1);
    VX x0 = gen::matX(s, N, 1, 2);
    F ekf(std::shared_ptr<SystemModelBase<N, M>>(new SysModel<N, M>(d)), std::shared_ptr<LinearMeasurementModel<Y, N>>(new MeasModel<Y, N>(m)), typename F::state_matrix_t(Q), typename F::output_matrix_t(R), typename F::state_vector_t(x0),
        typename F::state_matrix_t(P0));
    const int K = s.i(1, 6);
    const double dt = s.logreal(0.02, 1);
    const int n = N * (K + 1);
    MX H = MX::Zero(n, n);
    VX g = VX::Zero(n);
    auto add = [&](const MX& J, const VX& r, const MX& W) {  // residual J z + r with covariance W
        Eigen::LDLT<MX> f(W);
        H += J.transpose() * f.solve(J);
        g += J.transpose() * f.solve(r);
    };
    MX J = MX::Zero(N, n);
    J.leftCols(N).setIdentity();
    add(J, -x0, P0);
    for (int k = 0; k < K; k++)
    {
        const double t = k * dt;
        VX u = gen::matX(s, M, 1, 1), y = gen::matX(s, Y, 1, 2);
        MX G = d.noise(dt, t), D = m.noise(t + dt);
        MX W = dt * G * Q * G.transpose();
        discard_unless(minEig(W) > 1e-4);
        MX Wy = D * R * D.transpose();
        discard_unless(minEig(Wy) > 1e-3);
        J = MX::Zero(N, n);
        J.middleCols(k * N, N) = -d.fx(x0, dt);
        J.middleCols((k + 1) * N, N).setIdentity();
        add(J, -d.f(VX::Zero(N), u, dt, t), W);
        MX Jy = MX::Zero(Y, n);
        Jy.middleCols((k + 1) * N, N) = m.C;
        add(Jy, m.h(VX::Zero(N), t + dt) - y, Wy);
        ekf.predict(core::ControlVector<M>(u), dt, t);
        ekf.update(core::OutputVector<Y>(y), dt, t + dt);
    }
    MX S = H.ldlt().solve(MX::Identity(n, n));
    VX z = -S * g;
    PBT_REQUIRE(mclose(MX(ekf.getEstimate()), MX(z.tail(N)), 1e-6, 1e-6), "map", K, " steps: got ", gen::str(ekf.getEstimate()), " expected ", gen::str(VX(z.tail(N))));
    PBT_REQUIRE(mclose(MX(ekf.getCovarianceMatrix()), MX(S.bottomRightCorner(N, N)), 1e-6, 1e-6), "map-covariance", "got ", gen::str(ekf.getCovarianceMatrix()), " expected ", gen::str(MX(S.bottomRightCorner(N, N))));
    if (K > 1)
        s.nontrivial();
}

//! unscented filter: sigma-point formulas; for linear models without process noise it is the Kalman filter
template <int N, int M, int Y>
static void ukfCase(Src& s)
{
    typedef UnscentedKalmanFilter<N, M, Y> F;
    const bool linear = s.p(1, 3);
    Dyn<N, M> d = genDyn<N, M>(s, linear);
    if (s.p(1, 3))
        d.V.setZero();
    Meas<Y, N> m = genMeas<Y, N>(s, linear);
    const double alpha = s.pick(std::vector<double>{1, 0.5, 0.1, 1e-2}), beta = s.real(0, 3), kappa = s.p(1, 2) ? 0.0 : s.real(0, 2);
    MX P = spdX(s, N, 1, 0.2);
    VX x = gen::matX(s, N, 1, 2);
    std::shared_ptr<SystemModelBase<N, M>> f(new SysModel<N, M>(d, true));
    std::shared_ptr<LinearMeasurementModel<Y, N>> h(new MeasModel<Y, N>(m, true));
    std::shared_ptr<F> pukf;
    if (s.b())
        pukf.reset(new F(f, h, core::StateVector<N>(x), alpha, beta, kappa, core::StateMatrix<N>(P)));
    else
    {
        UnscentedKalmanFilterSettings<N> set;
        set.x0 = x, set.alpha = alpha, set.beta = beta, set.kappa = kappa, set.P0 = P;
        pukf.reset(new F(f, h, set));
    }
    F& ukf = *pukf;
    s.note("alpha ", alpha, " beta ", beta, " kappa ", kappa, " linear ", linear);
    const double a2 = alpha * alpha, sc = a2 * (N + kappa), lambda = sc - N;
    VX wm(2 * N + 1), wc;
    wm.setConstant(1 / (2 * sc));
    wm(0) = lambda / sc;
    wc = wm;
    wc(0) += 1 - a2 + beta;
    const double tol = 1e-9 / a2;
    MX pts(N, 2 * N + 1);
    const int n = s.i(1, 5);
    bool haveKf = linear && d.V.isZero();
    VX xk = x;
    MX Pk = P;
    for (int k = 0; k < n; k++)
    {
        double t = s.real(-2, 4), dt = s.logreal(1e-3, 1);
        VX u = gen::matX(s, M, 1, 1);
        discard_unless(minEig(P) > 1e-3);
        MX L = Eigen::LLT<MX>(P).matrixL();
        pts.col(0) = x;
        for (int i = 0; i < N; i++)
            pts.col(1 + i) = x + std::sqrt(sc) * L.col(i), pts.col(1 + N + i) = x - std::sqrt(sc) * L.col(i);
        for (int i = 0; i <= 2 * N; i++)
            pts.col(i) = d.f(pts.col(i), u, dt, t);
        core::StateVector<N> r = ukf.predict(core::ControlVector<M>(u), dt, t);
        x = pts * wm;
        MX dx = pts.colwise() - x;
        P = dx * wc.asDiagonal() * dx.transpose() + d.V * d.V.transpose();
        PBT_REQUIRE(mclose(MX(r), MX(x), tol, tol), "predict", "step ", k, " got ", gen::str(r), " expected ", gen::str(x));
        if (linear)
            PBT_REQUIRE(haveKf ? mclose(MX(r), MX(d.f(xk, u, dt, t)), tol * 10, tol * 10) : true, "predict-linear", "step ", k, " got ", gen::str(r));
        if (haveKf)
        {
            MX A = d.fx(xk, dt);
            xk = d.f(xk, u, dt, t);
            Pk = (A * Pk * A.transpose()).eval();
        }
        int ups = s.i(0, 1);
        for (int j = 0; j < ups; j++)
        {
            double ty = s.real(-2, 4);
            VX y = gen::matX(s, Y, 1, 2);
            MX ys(Y, 2 * N + 1);
            for (int i = 0; i <= 2 * N; i++)
                ys.col(i) = m.h(pts.col(i), ty);
            VX ym = ys * wm;
            MX dy = ys.colwise() - ym;
            MX W = m.W * m.W.transpose();
            MX Pyy = dy * wc.asDiagonal() * dy.transpose() + W;
            discard_unless(minEig(Pyy) > 1e-2);
            MX Pxy = (pts.colwise() - x) * wc.asDiagonal() * dy.transpose();
            MX K = Pyy.fullPivLu().solve(Pxy.transpose()).transpose();
            core::StateVector<N> ru = ukf.update(core::OutputVector<Y>(y), dt, ty);
            x += K * (y - ym);
            P -= (K * Pyy * K.transpose()).eval();
            PBT_REQUIRE(mclose(MX(ru), MX(x), tol * 100, tol * 100), "update", "step ", k, " got ", gen::str(ru), " expected ", gen::str(x));
            if (haveKf)
            {
                MX C = m.C, S = C * Pk * C.transpose() + W;
                MX G = Pk * C.transpose() * S.inverse();
                xk += G * (y - m.h(xk, ty));
                Pk = (Pk - G * C * Pk).eval();
                PBT_REQUIRE(mclose(MX(ru), MX(xk), tol * 1000, tol * 1000), "linear", "step ", k, ": got ", gen::str(ru), ", the Kalman filter gives ", gen::str(xk));
                s.label("kalman");
            }
            if (k > 0)
                s.nontrivial();
        }
        P = (0.5 * (P + P.transpose())).eval();
        discard_unless(P.norm() < 100 && x.norm() < 100);
    }
}

//! steady-state filter: fixed gain, the limit of the Kalman filter's
template <int N, int M, int Y>
static void steadyCase(Src& s)
{
    Quiet q;
    typedef SteadyStateKalmanFilter<N, M, Y> F;
    Dyn<N, M> d = genDyn<N, M>(s, true);
    d.A1.setZero();
    double rho = Eigen::EigenSolver<MX>(d.A, false).eigenvalues().cwiseAbs().maxCoeff();
    d.A *= std::min(1.0, 0.95 / rho);
    Meas<Y, N> m = genMeas<Y, N>(s, true);
    MX Q = spdX(s, N, 1, 0.1), R = spdX(s, Y, 1, 0.2);
    VX x = gen::matX(s, N, 1, 2);
    F kf(std::shared_ptr<SystemModelBase<N, M>>(new SysModel<N, M>(d)), std::shared_ptr<LinearMeasurementModel<Y, N>>(new MeasModel<Y, N>(m)), core::StateMatrix<N>(Q), core::OutputMatrix<Y>(R), core::StateVector<N>(x), 5000);
    if (s.b())
        kf.setMaxDAREIterations(4000);
    MX P = Q, G;
    for (int i = 0; i < 5000; i++)
    {
        MX S = m.C * P * m.C.transpose() + R;
        G = P * m.C.transpose() * S.inverse();
        MX Pn = d.A * (P - G * m.C * P) * d.A.transpose() + Q;
        double e = (Pn - P).norm();
        P = 0.5 * (Pn + Pn.transpose());
        if (e < 1e-12)
            break;
    }
    const int n = s.i(1, 6);
    for (int k = 0; k < n; k++)
    {
        double t = s.real(-2, 4), dt = s.logreal(1e-2, 1);
        VX u = gen::matX(s, M, 1, 1), y = gen::matX(s, Y, 1, 2);
        core::StateVector<N> r = kf.predict(core::ControlVector<M>(u), dt, t);
        x = d.f(x, u, dt, t);
        PBT_REQUIRE(mclose(MX(r), MX(x), 1e-3, 1e-3), "predict", "step ", k, " got ", gen::str(r), " expected ", gen::str(x));
        x = r;
        core::StateVector<N> ru = kf.update(core::OutputVector<Y>(y), dt, t);
        VX innov = y - m.h(x, t);
        x += G * innov;
        PBT_REQUIRE(mclose(MX(ru), MX(x), 1e-3, 1e-3), "update", "step ", k, " got ", gen::str(ru), " expected ", gen::str(x), " gain ", gen::str(G));
        x = ru;
    }
    s.nontrivial();
}

//! the models: continuous-time system model, input-disturbed system, LTI measurement
namespace {
template <int N, int M>
struct Ode
{
    Eigen::Matrix<double, N, N> A, A1, G;
    Eigen::Matrix<double, N, M> B;
    Eigen::Matrix<double, N, 1> nl, c;
    double w;
    typedef Eigen::Matrix<double, N, 1> X;
    typedef Eigen::Matrix<double, M, 1> U;
    X f(const X& x, const U& u, double t) const
    {
        X r = A * x + std::cos(w * t) * (A1 * x) + B * u + std::sin(w * t) * c;
        for (int i = 0; i < N; i++)
            r(i) += nl(i) * std::sin(G.row(i).dot(x));
        return r;
    }
    Eigen::Matrix<double, N, N> fx(const X& x, double t) const
    {
        Eigen::Matrix<double, N, N> J = A + std::cos(w * t) * A1;
        for (int i = 0; i < N; i++)
            J.row(i) += nl(i) * std::cos(G.row(i).dot(x)) * G.row(i);
        return J;
    }
};
template <int N, int M>
Ode<N, M> genOde(Src& s)
{
    Ode<N, M> o;
    o.A = gen::mat<N, N>(s, 1), o.A1 = gen::mat<N, N>(s, 1), o.G = gen::mat<N, N>(s, 1), o.B = gen::mat<N, M>(s, 1);
    o.nl = gen::vec<N>(s, 1), o.c = gen::vec<N>(s, 1);
    o.w = s.real(0.5, 5);
    return o;
}
template <int N, int M>
class OdeSys : public core::ControlledSystem<N, M>
{
public:
    Ode<N, M> o;
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
    OdeSys(const Ode<N, M>& x) : o(x) {}
    OdeSys* clone() const override { return new OdeSys(*this); }
    void computeControlledDynamics(const core::StateVector<N>& x, const double& t, const core::ControlVector<M>& u, core::StateVector<N>& d) override { d = o.f(x, u, t); }
};
template <int N, int M>
class OdeLin : public core::LinearSystem<N, M>
{
public:
    Ode<N, M> o;
    core::StateMatrix<N> A_;
    core::StateControlMatrix<N, M> B_;
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
    OdeLin(const Ode<N, M>& x) : o(x) {}
    OdeLin* clone() const override { return new OdeLin(*this); }
    const core::StateMatrix<N>& getDerivativeState(const core::StateVector<N>& x, const core::ControlVector<M>&, const double t = 0.0) override
    {
        A_ = o.fx(x, t);
        return A_;
    }
    const core::StateControlMatrix<N, M>& getDerivativeControl(const core::StateVector<N>&, const core::ControlVector<M>&, const double = 0.0) override
    {
        B_ = o.B;
        return B_;
    }
};
template <int N, int M>
class Law : public core::Controller<N, M>
{
public:
    Eigen::Matrix<double, M, N> K;
    Eigen::Matrix<double, M, 1> k, k0 = Eigen::Matrix<double, M, 1>::Zero();
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
    Law* clone() const override { return new Law(*this); }
    void computeControl(const core::StateVector<N>& x, const double& t, core::ControlVector<M>& u) override { u = k0 + K * x + std::cos(t) * k; }
};
template <int N, int M>
std::shared_ptr<Law<N, M>> genLaw(Src& s)
{
    std::shared_ptr<Law<N, M>> l(new Law<N, M>());
    l->K = gen::mat<M, N>(s, 1), l->k = gen::vec<M>(s, 1);
    return l;
}
}  // namespace

template <int N, int M>
static void ctModelCase(Src& s)
{
    typedef CTSystemModel<N, M> Mod;
    Ode<N, M> o = genOde<N, M>(s);
    std::shared_ptr<OdeSys<N, M>> sys(new OdeSys<N, M>(o));
    if (s.b())
        sys->setController(genLaw<N, M>(s));
    const bool rk = s.b();
    Eigen::Matrix<double, N, N> V = gen::mat<N, N>(s, 1);
    std::shared_ptr<core::LinearSystem<N, M>> lin(new OdeLin<N, M>(o));
    typedef core::SensitivityApproximationSettings::APPROXIMATION AP;
    const AP ap = AP::FORWARD_EULER;
    std::shared_ptr<typename Mod::SensitivityApprox_t> sens(new typename Mod::SensitivityApprox_t(s.logreal(1e-3, 1), lin, ap));
    Mod mod(sys, sens, core::StateMatrix<N>(V), rk ? core::IntegrationType::RK4CT : core::IntegrationType::EULERCT);
    const int n = s.i(1, 4);
    for (int k = 0; k < n; k++)
    {
        const double dt = s.pick(std::vector<double>{0.1, 0.01, 0.05, 0.3, s.logreal(1e-3, 0.5)});
        const int step = s.i(0, 60);
        const double t = s.b() ? step * dt : s.real(0, 3);
        const bool grid = t == step * dt;
        Eigen::Matrix<double, N, 1> x = gen::vec<N>(s, 2);
        Eigen::Matrix<double, M, 1> u = gen::vec<M>(s, 2);
        Eigen::Matrix<double, N, 1> e;
        if (!rk)
            e = x + dt * o.f(x, u, t);
        else
        {
            Eigen::Matrix<double, N, 1> k1 = o.f(x, u, t), k2 = o.f(x + dt / 2 * k1, u, t + dt / 2), k3 = o.f(x + dt / 2 * k2, u, t + dt / 2), k4 = o.f(x + dt * k3, u, t + dt);
            e = x + dt / 6 * (k1 + 2 * k2 + 2 * k3 + k4);
        }
        core::StateVector<N> got = mod.computeDynamics(core::StateVector<N>(x), core::ControlVector<M>(u), dt, t);
        PBT_REQUIRE(mclose(MX(got), MX(e), 1e-9, 1e-9), "dynamics", "t ", t, " dt ", dt, " got ", gen::str(got), " expected ", gen::str(e));
        core::StateMatrix<N> A = mod.computeDerivativeState(core::StateVector<N>(x), core::ControlVector<M>(u), dt, t);
        MX I = MX::Identity(N, N);
        if (grid)
        {
            MX want = ap == AP::FORWARD_EULER ? MX(I + dt * o.fx(x, t)) : MX((I - dt * MX(o.fx(x, t))).inverse());
            if (ap == AP::FORWARD_EULER || (I - dt * MX(o.fx(x, t))).fullPivLu().rcond() > 1e-2)
                PBT_REQUIRE(mclose(MX(A), want, 1e-8, 1e-8), "derivative", "t ", t, " = ", step, " * ", dt, ": got ", gen::str(A), " expected ", gen::str(want));
            if (step > 0)
                s.nontrivial();
        }
        core::StateMatrix<N> Vg = mod.computeDerivativeNoise(core::StateVector<N>(x), core::ControlVector<M>(u), dt, t);
        PBT_REQUIRE(mclose(MX(Vg), MX(V), 1e-15, 0), "noise", "noise derivative");
    }
}

template <int N, int M>
static void disturbedCase(Src& s)
{
    Quiet q;
    typedef InputDisturbedSystem<N, M> D;
    Ode<N, M> o = genOde<N, M>(s);
    std::shared_ptr<OdeSys<N, M>> sys(new OdeSys<N, M>(o));
    std::shared_ptr<Law<N, M>> law;
    if (s.b())
    {
        law = genLaw<N, M>(s);
        sys->setController(law);
    }
    struct Inst
    {
        std::shared_ptr<D> d;
        std::shared_ptr<Law<N, M>> law;  // what it should be
    };
    std::vector<Inst> v(1);
    v[0].d.reset(new D(sys));
    if (law)
        v[0].law.reset(new Law<N, M>(*law));
    const int n = s.i(1, 10);
    for (int k = 0; k < n; k++)
    {
        int i = s.i(0, (int)v.size() - 1);
        switch (s.i(0, 5))
        {
            case 5:  // a controller for the augmented state (as a system model for estimation installs)
            {
                core::ControlVector<M> c;
                c = gen::vec<M>(s, 1);
                std::shared_ptr<core::ControlledSystem<N + M, M>> b = v[i].d;
                b->setController(std::shared_ptr<core::Controller<N + M, M>>(new core::ConstantController<N + M, M>(c)));
                v[i].law.reset(new Law<N, M>());
                v[i].law->K.setZero(), v[i].law->k.setZero(), v[i].law->k0 = c;
                break;
            }
            case 0:
                if (v.size() < 4)
                {
                    Inst c;
                    c.d.reset(v[i].d->clone());
                    if (v[i].law)
                        c.law.reset(new Law<N, M>(*v[i].law));
                    v.push_back(c);
                    s.label("clone");
                }
                break;
            case 1:
            {
                std::shared_ptr<Law<N, M>> l = genLaw<N, M>(s);
                v[i].d->setController(l);
                v[i].law.reset(new Law<N, M>(*l));
                break;
            }
            default:
            {
                Eigen::Matrix<double, N + M, 1> x = gen::vec<N + M>(s, 1.5);
                double t = s.real(-1, 4);
                core::ControlVector<M> u;
                u = gen::vec<M>(s, 1);
                Eigen::Matrix<double, N + M, 1> e;
                core::StateVector<N + M> xs(x), got;
                got.setConstant(99);
                const Eigen::Matrix<double, N, 1> xh = x.template head<N>();
                const Eigen::Matrix<double, M, 1> w = x.template tail<M>();
                e << o.f(xh, u + w, t), Eigen::Matrix<double, M, 1>::Zero();
                v[i].d->computeControlledDynamics(xs, t, u, got);
                PBT_REQUIRE(mclose(MX(got), MX(e), 1e-10, 1e-10), "dynamics", "got ", gen::str(got), " expected ", gen::str(e));
                if (v[i].law)
                {
                    core::ControlVector<M> ul;
                    v[i].law->computeControl(core::StateVector<N>(xh), t, ul);
                    e << o.f(xh, ul + w, t), Eigen::Matrix<double, M, 1>::Zero();
                    v[i].d->computeDynamics(xs, t, got);
                    PBT_REQUIRE(mclose(MX(got), MX(e), 1e-10, 1e-10), "closed-loop", "instance ", i, " got ", gen::str(got), " expected ", gen::str(e));
                    s.nontrivial();
                }
            }
        }
    }
}

FACET(lti_measurement, 1)
{
    Eigen::Matrix<double, 2, 3> C = gen::mat<2, 3>(s, 2);
    Eigen::Matrix<double, 2, 2> W = gen::mat<2, 2>(s, 2);
    LTIMeasurementModel<2, 3> m{core::OutputStateMatrix<2, 3>(C), core::OutputMatrix<2>(W)};
    Eigen::Matrix<double, 3, 1> x = gen::vec<3>(s, 2);
    double t = s.real(-1, 1);
    PBT_REQUIRE(mclose(MX(m.computeMeasurement(core::StateVector<3>(x), t)), MX(C * x), 1e-13, 1e-13), "measurement", "C x");
    PBT_REQUIRE(mclose(MX(m.computeDerivativeState(core::StateVector<3>(x), t)), MX(C), 1e-15, 0), "derivative", "C");
    PBT_REQUIRE(mclose(MX(m.computeDerivativeNoise(core::StateVector<3>(x), t)), MX(W), 1e-15, 0), "noise", "dHdw");
    s.nontrivial();
}
FACET(ekf_2_1_1, 3) { ekfCase<2, 1, 1>(s); }
FACET(ekf_3_2_2, 3) { ekfCase<3, 2, 2>(s); }
FACET(ekf_2_1_3, 2) { ekfCase<2, 1, 3>(s); }
FACET(batch_2_1_1, 2) { batchCase<2, 1, 1>(s); }
FACET(batch_3_1_2, 2) { batchCase<3, 1, 2>(s); }
FACET(ukf_2_1_2, 2) { ukfCase<2, 1, 2>(s); }
FACET(ukf_3_2_1, 3) { ukfCase<3, 2, 1>(s); }
FACET(steady_2_1_1, 1) { steadyCase<2, 1, 1>(s); }
FACET(steady_3_1_2, 1) { steadyCase<3, 1, 2>(s); }
FACET(ct_model_2_1, 2) { ctModelCase<2, 1>(s); }
FACET(ct_model_3_2, 2) { ctModelCase<3, 2>(s); }
FACET(disturbed_2_1, 2) { disturbedCase<2, 1>(s); }
FACET(disturbed_3_2, 2) { disturbedCase<3, 2>(s); }
