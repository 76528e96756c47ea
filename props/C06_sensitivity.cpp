// C06: discrete-time linearisations A = dx+/dx, B = dx+/du
#include "symp.h"
#include <unsupported/Eigen/MatrixFunctions>
using namespace pbt;
using namespace ct::core;
namespace {
typedef StateVector<4> X;
typedef Eigen::Matrix<double, 4, 5> M45;
typedef SensitivityApproximationSettings::APPROXIMATION AP;
struct Par
{
    Eigen::Matrix4d A;
    Eigen::Vector4d b;
    double w, nl, bt;
};
Par genPar(Src& s)
{
    Par p;
    p.A = gen::mat<4, 4>(s, 0.8);
    p.b = gen::vec<4>(s, 1);
    p.w = s.real(-2, 2);
    p.nl = s.real(-1, 1);
    p.bt = s.real(-1, 1);
    return p;
}
Eigen::Vector4d F(const Par& p, const Eigen::Vector4d& x, double t, double u)
{
    Eigen::Vector4d d = p.A * x * (1 + 0.5 * std::sin(p.w * t)) + p.b * u;
    d(0) += p.nl * std::sin(x(1)) * u;
    d(2) += p.bt * t * u + p.nl * std::cos(x(3));
    return d;
}
struct Sys : public ControlledSystem<4, 1>
{
    Par p;
    Sys(const Par& p) : p(p) {}
    Sys(const Sys& o) : ControlledSystem<4, 1>(o), p(o.p) {}
    Sys* clone() const override { return new Sys(*this); }
    void computeControlledDynamics(const X& x, const double& t, const ControlVector<1>& u, X& d) override { d = F(p, x, t, u(0)); }
};
struct Lin : public LinearSystem<4, 1>
{  // analytic derivatives
    Par p;
    StateMatrix<4> A_;
    StateControlMatrix<4, 1> B_;
    Lin(const Par& p) : p(p) {}
    Lin(const Lin& o) : LinearSystem<4, 1>(o), p(o.p) {}
    Lin* clone() const override { return new Lin(*this); }
    const StateMatrix<4>& getDerivativeState(const X& x, const ControlVector<1>& u, const double t) override
    {
        A_ = p.A * (1 + 0.5 * std::sin(p.w * t));
        A_(0, 1) += p.nl * std::cos(x(1)) * u(0);
        A_(2, 3) -= p.nl * std::sin(x(3));
        return A_;
    }
    const StateControlMatrix<4, 1>& getDerivativeControl(const X& x, const ControlVector<1>& u, const double t) override
    {
        B_ = p.b;
        B_(0) += p.nl * std::sin(x(1));
        B_(2) += p.bt * t;
        return B_;
    }
};
// a symplectic-type system with all derivative blocks non-zero, so that A11 and A22 matter
struct GPar
{
    Eigen::Matrix2d A11, A12, A21, A22;
    Eigen::Vector2d b1, b2;
    double nl;
};
struct GSym : public SymplecticSystem<2, 2, 1>
{
    GPar p;
    GSym(const GPar& p) : p(p) {}
    GSym(const GSym& o) : SymplecticSystem<2, 2, 1>(o), p(o.p) {}
    GSym* clone() const override { return new GSym(*this); }
    void computePdot(const X& x, const StateVector<2>& v, const ControlVector<1>& u, StateVector<2>& d) override
    {
        Eigen::Vector2d q = x.head<2>();
        d = p.A11 * q + p.A12 * v + p.b1 * u(0);
    }
    void computeVdot(const X& x, const StateVector<2>& q, const ControlVector<1>& u, StateVector<2>& d) override
    {
        Eigen::Vector2d v = x.tail<2>();
        d = p.A21 * q + p.A22 * v + p.b2 * u(0);
        d(0) += p.nl * std::sin(q(0)) * u(0);
        d(1) += p.nl * std::sin(v(0));
    }
};
struct GLin : public LinearSystem<4, 1>
{
    GPar p;
    StateMatrix<4> A_;
    StateControlMatrix<4, 1> B_;
    GLin(const GPar& p) : p(p) {}
    GLin* clone() const override { return new GLin(*this); }
    const StateMatrix<4>& getDerivativeState(const X& x, const ControlVector<1>& u, const double t) override
    {
        A_ << p.A11, p.A12, p.A21, p.A22;
        A_(2, 0) += p.nl * std::cos(x(0)) * u(0);
        A_(3, 2) += p.nl * std::cos(x(2));
        return A_;
    }
    const StateControlMatrix<4, 1>& getDerivativeControl(const X& x, const ControlVector<1>& u, const double t) override
    {
        B_ << p.b1, p.b2;
        B_(2) += p.nl * std::sin(x(0));
        return B_;
    }
};
//! central differences of the one-interval map of a discretizer
template <class D>
M45 numDer(D& d, const X& x, int n, const ControlVector<1>& u)
{
    M45 J;
    double h = 1e-5;
    for (int i = 0; i < 5; i++)
    {
        X xp = x, xm = x, a, b;
        ControlVector<1> up = u, um = u;
        if (i < 4)
            xp(i) += h, xm(i) -= h;
        else
            up(0) += h, um(0) -= h;
        d.propagateControlledDynamics(xp, n, up, a);
        d.propagateControlledDynamics(xm, n, um, b);
        J.col(i) = (a - b) / (2 * h);
    }
    return J;
}
typedef SystemDiscretizer<4, 1, 2, 2> SD;
typedef SensitivityIntegrator<4, 1, 2, 2> SI;
typedef SensitivityApproximation<4, 1, 2, 2> SA;

void integrated(Src& s, std::shared_ptr<ControlledSystem<4, 1>> sys, std::shared_ptr<LinearSystem<4, 1>> lin, IntegrationType ty)
{
    double dt = s.logreal(1e-3, 0.2);
    int K = s.i(1, 5);
    SD d(sys, dt, ty, K);
    std::shared_ptr<Controller<4, 1>> cc(new ConstantController<4, 1>());
    bool frozen = ty != EULER_SYM && s.p(1, 4);  // linearised once, at the start of each interval
    SI si(dt / K, lin, cc, ty, !frozen);
    if (s.p(1, 4))
    {  // re-configured instance
        si.setTimeDiscretization(0.77);
        si.setStepper(s.b() ? EULERCT : RK4CT);
        si.setStepper(ty);
        si.setTimeDiscretization(dt / K);
    }
    int N = s.i(1, 6);
    std::vector<SI::Sensitivity::StateVectorArrayPtr, Eigen::aligned_allocator<SI::Sensitivity::StateVectorArrayPtr>> xs(N);
    std::vector<SI::Sensitivity::ControlVectorArrayPtr, Eigen::aligned_allocator<SI::Sensitivity::ControlVectorArrayPtr>> us(N);
    std::vector<X, Eigen::aligned_allocator<X>> xv(N + 1);
    std::vector<ControlVector<1>> uv(N);
    xv[0] = gen::vec<4>(s, 1);
    for (int n = 0; n < N; n++)
    {
        uv[n](0) = s.real(-1, 1);
        d.propagateControlledDynamics(xv[n], n, uv[n], xv[n + 1]);
        xs[n] = d.getSubstates();
        us[n] = d.getSubcontrols();
    }
    si.setSubstepTrajectoryReference(&xs, &us);
    int order = s.i(0, N - 1);
    for (int k = 0; k < N; k++)
    {
        int n = (k + order) % N;
        StateMatrix<4> A;
        StateControlMatrix<4, 1> B;
        si.getAandB(xv[n], uv[n], xv[n + 1], n, K, A, B);
        M45 J = numDer(d, xv[n], n, uv[n]), AB;
        AB << A, B;
        if (frozen)
        {  // the sensitivity of the system linearised at the first point of the interval
            Eigen::Matrix4d A0 = lin->getDerivativeState(xv[n], uv[n], n * dt);
            Eigen::Vector4d B0 = lin->getDerivativeControl(xv[n], uv[n], n * dt);
            auto f = [&](const M45& m) {
                M45 r = A0 * m;
                r.col(4) += B0;
                return r;
            };
            double h = dt / K;
            M45 R;
            R << Eigen::Matrix4d::Identity(), Eigen::Vector4d::Zero();
            for (int i = 0; i < K; i++)
            {
                M45 k1 = f(R), k2 = f(R + h / 2 * k1), k3 = f(R + h / 2 * k2), k4 = f(R + h * k3);
                R = ty == EULER || ty == EULERCT ? M45(R + h * k1) : M45(R + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4));
            }
            PBT_REQUIRE(mclose(AB, R, 1e-9, 1e-10), "frozen", "type ", (int)ty, " K ", K, " n ", n, " got ", gen::str(AB), " expected ", gen::str(R));
            s.label("frozen");
            continue;
        }
        PBT_REQUIRE(mclose(AB, J, 2e-6, 2e-7), "derivative", "type ", (int)ty, " K ", K, " n ", n, " got ", gen::str(AB), " expected ", gen::str(J));
    }
    s.note("type=", (int)ty, " K=", K, " N=", N, " dt=", dt);
    s.label("type" + std::to_string((int)ty));
    if (N > 1 || K > 1)
        s.nontrivial();
}
}  // namespace

FACET(integrator, 5)
{
    Par p = genPar(s);
    auto ty = s.pick(std::vector<IntegrationType>{EULERCT, RK4CT, EULER, RK4});
    integrated(s, std::shared_ptr<Sys>(new Sys(p)), std::shared_ptr<Lin>(new Lin(p)), ty);
}
FACET(integratorSymplectic, 3)
{
    GPar p;
    p.A11 = gen::mat<2, 2>(s, 0.8);
    p.A12 = gen::mat<2, 2>(s, 0.8);
    p.A21 = gen::mat<2, 2>(s, 0.8);
    p.A22 = gen::mat<2, 2>(s, 0.8);
    p.b1 = gen::vec<2>(s, 1);
    p.b2 = gen::vec<2>(s, 1);
    p.nl = s.real(-1, 1);
    integrated(s, std::shared_ptr<GSym>(new GSym(p)), std::shared_ptr<GLin>(new GLin(p)), EULER_SYM);
}
FACET(approxLTI, 4)
{  // closed forms for linear time-invariant systems
    StateMatrix<4> A;
    StateControlMatrix<4, 1> B;
    A = gen::mat<4, 4>(s, 1.5);
    B = gen::mat<4, 1>(s, 1.5);
    if (s.b())
        A.row(s.i(0, 3)).setZero();  // integrators: singular A
    double dt = s.logreal(1e-3, 0.12);
    auto sys = std::shared_ptr<LTISystem<4, 1>>(new LTISystem<4, 1>(A, B));
    auto ap = s.pick(std::vector<AP>{AP::FORWARD_EULER, AP::BACKWARD_EULER, AP::SYMPLECTIC_EULER, AP::TUSTIN, AP::MATRIX_EXPONENTIAL});
    std::unique_ptr<SA> sa;
    switch (s.i(0, 2))
    {
        case 0:
            sa.reset(new SA(dt, sys, ap));
            break;
        case 1:
            sa.reset(new SA(0.5));
            sa->setLinearSystem(sys);
            sa->setApproximation(ap);
            sa->setTimeDiscretization(dt);
            break;
        case 2:
        {
            SA tmp(SensitivityApproximationSettings(0.3, AP::TUSTIN), sys);
            tmp.updateSettings(SensitivityApproximationSettings(dt, ap));
            sa.reset(tmp.clone());
            break;
        }
    }
    PBT_REQUIRE(sa->getApproximation() == ap, "settings", "approximation");
    X x, xn;
    x = gen::vec<4>(s, 1);
    xn = gen::vec<4>(s, 1);
    ControlVector<1> u;
    u(0) = s.real(-1, 1);
    StateMatrix<4> Ad;
    StateControlMatrix<4, 1> Bd;
    sa->getAandB(x, u, xn, s.i(0, 20), 1, Ad, Bd);
    Eigen::Matrix4d I = Eigen::Matrix4d::Identity(), Ar;
    Eigen::Vector4d Br;
    // exact zero-order-hold pair
    Eigen::Matrix<double, 5, 5> Z = Eigen::Matrix<double, 5, 5>::Zero();
    Z.topLeftCorner<4, 4>() = A * dt;
    Z.topRightCorner<4, 1>() = B * dt;
    Eigen::Matrix<double, 5, 5> E = Eigen::Matrix<double, 5, 5>::Identity(), T = E;
    for (int k = 1; k < 40; k++)
    {
        T = T * Z / k;
        E += T;
    }
    Eigen::Matrix4d Ae = E.topLeftCorner<4, 4>();
    Eigen::Vector4d Be = E.topRightCorner<4, 1>();
    switch (ap)
    {
        case AP::FORWARD_EULER:
            Ar = I + dt * A;
            Br = dt * B;
            break;
        case AP::BACKWARD_EULER:
            Ar = (I - dt * A).inverse();
            Br = Ar * dt * B;
            break;
        case AP::TUSTIN:
            Ar = (I - 0.5 * dt * A).inverse() * (I + 0.5 * dt * A);
            Br = (I - 0.5 * dt * A).inverse() * dt * B;
            break;
        case AP::MATRIX_EXPONENTIAL:
            Ar = Ae;
            Br = Be;
            break;
        default:
        {  // positions with the old velocities, then velocities with the new positions
            for (int i = 0; i < 5; i++)
            {
                Eigen::Vector4d y = i < 4 ? Eigen::Vector4d(Eigen::Vector4d::Unit(i)) : Eigen::Vector4d(Eigen::Vector4d::Zero());
                double uu = i == 4;
                Eigen::Vector4d d1 = A * y + B * uu;
                Eigen::Vector4d z = y;
                z.head<2>() += dt * d1.head<2>();
                Eigen::Vector4d d2 = A * z + B * uu;
                z.tail<2>() += dt * d2.tail<2>();
                if (i < 4)
                    Ar.col(i) = z;
                else
                    Br = z;
            }
        }
    }
    PBT_REQUIRE(mclose(Ad, Ar, 1e-8, 1e-9) && mclose(Bd, Br, 1e-8, 1e-9), "closed-form", "approximation ", (int)ap, " dt ", dt, " A ", gen::str(Ad),
        " expected ", gen::str(Ar), " B ", gen::str(Bd), " expected ", gen::str(Br));
    // and all of them approximate the exact pair to second order in dt
    double c = 6 * std::pow(dt * (A.norm() + B.norm() + 1), 2);
    PBT_REQUIRE((Ad - Ae).norm() <= c && (Bd - Be).norm() <= c, "order", "approximation ", (int)ap);
    s.nontrivial();
}
FACET(approxNonlinear, 3)
{  // first-order consistency along a time-varying nonlinear trajectory
    Par p = genPar(s);
    auto lin = std::shared_ptr<Lin>(new Lin(p));
    double dt = s.logreal(1e-4, 0.02);
    auto ap = s.pick(std::vector<AP>{AP::FORWARD_EULER, AP::BACKWARD_EULER, AP::SYMPLECTIC_EULER, AP::TUSTIN, AP::MATRIX_EXPONENTIAL});
    SA sa(dt, lin, ap);
    SD d(std::shared_ptr<Sys>(new Sys(p)), dt, RK4, 4);
    X x, xn;
    x = gen::vec<4>(s, 1);
    ControlVector<1> u;
    u(0) = s.real(-1, 1);
    int n = s.i(0, 200);
    d.propagateControlledDynamics(x, n, u, xn);
    StateMatrix<4> A;
    StateControlMatrix<4, 1> B;
    sa.getAandB(x, u, xn, n, 1, A, B);
    M45 J = numDer(d, x, n, u), AB;
    AB << A, B;
    double L = p.A.norm() * 1.5 + p.b.norm() + 3 + std::fabs(n * dt);
    PBT_REQUIRE((AB - J).norm() <= 4 * dt * dt * L * L + 1e-8, "order", "approximation ", (int)ap, " error ", (AB - J).norm(), " dt ", dt, " bound ", 4 * dt * dt * L * L);
    if (ap == AP::FORWARD_EULER)
    {
        Eigen::Matrix4d Ar = Eigen::Matrix4d::Identity() + dt * lin->getDerivativeState(x, u, n * dt);
        Eigen::Vector4d Br = dt * lin->getDerivativeControl(x, u, n * dt);
        PBT_REQUIRE(mclose(A, Ar, 1e-12, 1e-12) && mclose(B, Br, 1e-12, 1e-12), "closed-form", "forward Euler, n=", n);
    }
    s.note("ap=", (int)ap, " dt=", dt, " n=", n);
    s.nontrivial();
}
FACET(refuse, 1)
{
    int k = s.i(0, 1);
    bool threw = false;
    try
    {
        if (k == 0)
        {
            SA sa(0.1);
            StateMatrix<4> A;
            StateControlMatrix<4, 1> B;
            X x;
            ControlVector<1> u;
            sa.getAandB(x, u, x, 0, 1, A, B);
        }
        else
        {
            SI si(0.1, std::shared_ptr<Lin>(new Lin(genPar(s))), std::shared_ptr<Controller<4, 1>>(new ConstantController<4, 1>()),
                s.pick(std::vector<IntegrationType>{ODE45, RK78, RK_SYM, BULIRSCHSTOER}));
        }
    } catch (const std::exception&)
    {
        threw = true;
    }
    PBT_REQUIRE(threw, "refuse", "case ", k);
}
