// C08: linear time-invariant systems and the damped oscillator
#include "gen.h"
#include <ct/core/core.h>
using namespace pbt;
using namespace ct::core;
namespace {
template <int N>
Eigen::Matrix<double, N, N> perm(Src& s)
{
    Eigen::PermutationMatrix<N> P;
    P.setIdentity();
    for (int i = N - 1; i > 0; i--)
        P.applyTranspositionOnTheRight(i, s.i(0, i));
    Eigen::Matrix<double, N, N> m = P;
    return m;
}
template <int N, int M>
struct Data
{
    Eigen::Matrix<double, N, N> A, C;
    Eigen::Matrix<double, N, M> B, D;
    int ctrb = -1, obs = -1;  // known answers
};
template <int N, int M>
Data<N, M> gen1(Src& s)
{
    Data<N, M> d;
    d.A = gen::mat<N, N>(s, 1.5);
    d.B = gen::mat<N, M>(s, 1.5);
    d.C = gen::mat<N, N>(s, 1.5);
    d.D = gen::mat<N, M>(s, 1.5);
    int k = s.i(0, 4);
    auto P = perm<N>(s);
    auto dyadic = [&s](int lo, int hi) { return 0.25 * s.i(lo, hi); };
    if (k == 1)
    {  // companion form: controllable
        d.A.setZero();
        for (int i = 0; i + 1 < N; i++)
            d.A(i, i + 1) = 1;
        for (int i = 0; i < N; i++)
            d.A(N - 1, i) = dyadic(-4, 4);
        d.B.setZero();
        d.B(N - 1, s.i(0, M - 1)) = s.b() ? 1 : -2;
        d.ctrb = 1;
    }
    else if (k == 2)
    {  // an autonomous subsystem of size r that neither the input nor the rest drives
        int r = s.i(1, N);
        d.A.bottomLeftCorner(r, N - r).setZero();
        d.B.bottomRows(r).setZero();
        d.ctrb = 0;
    }
    else if (k == 3)
    {  // dual companion form, measured at one place
        d.A.setZero();
        for (int i = 0; i + 1 < N; i++)
            d.A(i + 1, i) = 1;
        for (int i = 0; i < N; i++)
            d.A(i, N - 1) = dyadic(-4, 4);
        d.C.setZero();
        d.C(s.i(0, N - 1), N - 1) = s.b() ? 1 : -2;
        d.obs = 1;
    }
    else if (k == 4)
    {  // r states that neither the output nor the rest sees
        int r = s.i(1, N);
        d.A.topRightCorner(N - r, r).setZero();
        d.C.rightCols(r).setZero();
        d.obs = 0;
    }
    d.A = (P * d.A * P.transpose()).eval();
    d.B = (P * d.B).eval();
    d.C = (d.C * P.transpose()).eval();
    return d;
}
template <class M>
int clearRank(const M& m, int full)
{
    Eigen::JacobiSVD<Eigen::MatrixXd> svd(m);
    auto sv = svd.singularValues();
    double r = sv(full - 1) / std::max(1e-300, sv(0));
    return r > 1e-6 ? 1 : -1;  // only full rank is decided from numbers
}
template <int N, int M, class SYS>
void rankChecks(Src& s, SYS& sys, const Data<N, M>& d)
{
    Eigen::Matrix<double, N, N * M> CO;
    Eigen::Matrix<double, N * N, N> O;
    Eigen::MatrixXd COr(N, N * M), Or(N * N, N);
    Eigen::Matrix<double, N, N> Ak = Eigen::Matrix<double, N, N>::Identity();
    for (int i = 0; i < N; i++)
    {
        COr.middleCols(i * M, M) = Ak * d.B;
        Or.middleRows(i * N, N) = d.C * Ak;
        Ak = (Ak * d.A).eval();
    }
    sys.computeControllabilityMatrix(CO);
    sys.computeObservabilityMatrix(O);
    PBT_REQUIRE(mclose(CO, COr, 1e-10, 1e-12), "controllability-matrix", "got ", gen::str(CO), " expected ", gen::str(COr));
    PBT_REQUIRE(mclose(O, Or, 1e-10, 1e-12), "observability-matrix", "got ", gen::str(O), " expected ", gen::str(Or));
    int c = d.ctrb >= 0 ? d.ctrb : clearRank(COr, N), o = d.obs >= 0 ? d.obs : clearRank(Or, N);
    if (c >= 0)
        PBT_REQUIRE(sys.isControllable() == (c == 1), "controllable", "expected ", c, " A ", gen::str(d.A), " B ", gen::str(d.B));
    if (o >= 0)
        PBT_REQUIRE(sys.isObservable() == (o == 1), "observable", "expected ", o, " A ", gen::str(d.A), " C ", gen::str(d.C));
    s.label(c == 0 ? "uncontrollable" : c == 1 ? "controllable" : "controllability-undecided");
    s.label(o == 0 ? "unobservable" : o == 1 ? "observable" : "observability-undecided");
    if (c >= 0 || o >= 0)
        s.nontrivial();
}
template <int N, int M>
void lti(Src& s)
{
    Data<N, M> d = gen1<N, M>(s);
    StateMatrix<N> A;
    A = d.A;
    StateControlMatrix<N, M> B;
    B = d.B;
    StateMatrix<N> C;
    C = d.C;
    StateControlMatrix<N, M> D;
    D = d.D;
    std::unique_ptr<LTISystem<N, M>> sys(new LTISystem<N, M>(A, B, C, D));
    if (s.b())
    {  // a clone carries everything and is independent
        std::unique_ptr<LTISystem<N, M>> c(sys->clone());
        sys->A().setConstant(7);
        sys->B().setConstant(7);
        sys->C().setConstant(7);
        sys->D().setConstant(7);
        sys = std::move(c);
    }
    if (s.p(1, 4))
    {  // change through the accessors
        d = gen1<N, M>(s);
        sys->A() = d.A;
        sys->B() = d.B;
        sys->C() = d.C;
        sys->D() = d.D;
    }
    StateVector<N> x, dx, y;
    ControlVector<M> u;
    x = gen::vec<N>(s, 5);
    u = gen::vec<M>(s, 5);
    double t = s.real(-5, 5);
    sys->computeControlledDynamics(x, t, u, dx);
    sys->computeOutput(x, t, u, y);
    PBT_REQUIRE(mclose(dx, d.A * x + d.B * u, 1e-12, 1e-12), "dynamics", gen::str(dx));
    PBT_REQUIRE(mclose(y, d.C * x + d.D * u, 1e-12, 1e-12), "output", gen::str(y), " expected ", gen::str(d.C * x + d.D * u));
    PBT_REQUIRE(sys->getDerivativeState(x, u, t) == d.A && sys->getDerivativeControl(x, u, t) == d.B, "derivatives", "LTI");
    StateMatrix<N> A2;
    StateControlMatrix<N, M> B2;
    sys->getDerivatives(A2, B2, x, u, t);
    PBT_REQUIRE(A2 == d.A && B2 == d.B, "derivatives", "LTI getDerivatives");
    rankChecks<N, M>(s, *sys, d);
}
template <int N, int M>
void dlti(Src& s)
{
    Data<N, M> d = gen1<N, M>(s);
    bool gram = s.b();
    if (gram)
        d.A *= s.pick(std::vector<double>{0.25, 0.5}) / std::max(0.5, d.A.norm());
    typedef DiscreteLTISystem<N, M> S;
    std::unique_ptr<S> sys(new S(d.A, d.B, d.C, d.D));
    if (s.b())
    {
        std::unique_ptr<S> c(sys->clone());
        sys->A().setConstant(7);
        sys->B().setConstant(7);
        sys->C().setConstant(7);
        sys->D().setConstant(7);
        sys = std::move(c);
    }
    StateVector<N> x, xn;
    ControlVector<M> u;
    x = gen::vec<N>(s, 5);
    u = gen::vec<M>(s, 5);
    int n = s.i(0, 9);
    Eigen::Matrix<double, N, 1> y;
    Eigen::Matrix<double, M, 1> ue = u;
    Eigen::Matrix<double, N, 1> xe = x;
    if (s.b())
        static_cast<DiscreteControlledSystem<N, M>&>(*sys).propagateControlledDynamics(x, n, u, xn);
    else
    {
        Eigen::Matrix<double, N, 1> z;
        sys->propagateControlledDynamics(xe, n, ue, z);
        xn = z;
    }
    sys->computeOutput(xe, n, ue, y);
    PBT_REQUIRE(mclose(xn, d.A * x + d.B * u, 1e-12, 1e-12), "discrete-dynamics", gen::str(xn));
    PBT_REQUIRE(mclose(y, d.C * x + d.D * u, 1e-12, 1e-12), "discrete-output", gen::str(y));
    if (!gram)
        rankChecks<N, M>(s, *sys, d);
    else
    {
        Eigen::Matrix<double, N, N> W = sys->computeControllabilityGramian(), V = sys->computeObservabilityGramian();
        Eigen::Matrix<double, N, N> E1 = d.A * W * d.A.transpose() - W + d.B * d.B.transpose(), E2 = d.A.transpose() * V * d.A - V + d.C.transpose() * d.C;
        PBT_REQUIRE(E1.cwiseAbs().maxCoeff() < 1e-8, "controllability-gramian", "Lyapunov residual ", gen::str(E1));
        PBT_REQUIRE(E2.cwiseAbs().maxCoeff() < 1e-8, "observability-gramian", "Lyapunov residual ", gen::str(E2));
        s.label("gramian");
        s.nontrivial();
    }
    int iters = s.i(1, 6);
    {  // a bounded number of terms, and none dropped
        Eigen::Matrix<double, N, N> W = sys->computeControllabilityGramian(iters, 0.0), V = sys->computeObservabilityGramian(iters, 0.0), Wr, Vr, Ak;
        Wr.setZero();
        Vr.setZero();
        Ak.setIdentity();
        for (int i = 0; i < iters; i++)
        {
            Wr += Ak * d.B * d.B.transpose() * Ak.transpose();
            Vr += Ak.transpose() * d.C.transpose() * d.C * Ak;
            Ak = (Ak * d.A).eval();
        }
        PBT_REQUIRE(mclose(W, Wr, 1e-10, 1e-12) && mclose(V, Vr, 1e-10, 1e-12), "truncated-gramian", "terms ", iters);
    }
}
//! a linear time-varying system only through its derivative functions
struct LTV : public LinearSystem<3, 2>
{
    Eigen::Matrix3d A0, A1;
    Eigen::Matrix<double, 3, 2> B0, B1;
    StateMatrix<3> A_;
    StateControlMatrix<3, 2> B_;
    LTV* clone() const override { return new LTV(*this); }
    const StateMatrix<3>& getDerivativeState(const StateVector<3>& x, const ControlVector<2>& u, const double t) override
    {
        A_ = A0 + t * A1;
        return A_;
    }
    const StateControlMatrix<3, 2>& getDerivativeControl(const StateVector<3>& x, const ControlVector<2>& u, const double t) override
    {
        B_ = B0 + t * B1;
        return B_;
    }
};
struct DLTV : public DiscreteLinearSystem<3, 2>
{
    Eigen::Matrix3d A0, A1;
    Eigen::Matrix<double, 3, 2> B0, B1;
    DLTV* clone() const override { return new DLTV(*this); }
    void getAandB(const StateVector<3>& x, const ControlVector<2>& u, const StateVector<3>& xn, const int n, size_t K, StateMatrix<3>& A, StateControlMatrix<3, 2>& B) override
    {
        A = A0 + n * A1;
        B = B0 + n * B1;
    }
    using DiscreteLinearSystem<3, 2>::getAandB;
};
}  // namespace

FACET(continuousLTI, 4)
{
    switch (s.i(0, 3))
    {
        case 0:
            return lti<1, 1>(s);
        case 1:
            return lti<2, 1>(s);
        case 2:
            return lti<3, 2>(s);
        default:
            return lti<4, 3>(s);
    }
}
FACET(discreteLTI, 4)
{
    switch (s.i(0, 3))
    {
        case 0:
            return dlti<1, 1>(s);
        case 1:
            return dlti<2, 1>(s);
        case 2:
            return dlti<3, 2>(s);
        default:
            return dlti<4, 3>(s);
    }
}
FACET(timeVarying, 2)
{
    LTV l;
    l.A0 = gen::mat<3, 3>(s, 2);
    l.A1 = gen::mat<3, 3>(s, 2);
    l.B0 = gen::mat<3, 2>(s, 2);
    l.B1 = gen::mat<3, 2>(s, 2);
    StateVector<3> x, d;
    ControlVector<2> u;
    x = gen::vec<3>(s, 3);
    u = gen::vec<2>(s, 3);
    double t = s.real(-3, 3);
    l.computeControlledDynamics(x, t, u, d);
    PBT_REQUIRE(mclose(d, (l.A0 + t * l.A1) * x + (l.B0 + t * l.B1) * u, 1e-12, 1e-12), "ltv-dynamics", gen::str(d));
    DLTV e;
    e.A0 = l.A0;
    e.A1 = l.A1;
    e.B0 = l.B0;
    e.B1 = l.B1;
    int n = s.i(0, 20);
    e.propagateControlledDynamics(x, n, u, d);
    PBT_REQUIRE(mclose(d, (l.A0 + n * l.A1) * x + (l.B0 + n * l.B1) * u, 1e-12, 1e-12), "discrete-ltv-dynamics", gen::str(d));
    StateMatrix<3> A;
    StateControlMatrix<3, 2> B;
    e.getAandB(x, u, n, A, B);
    PBT_REQUIRE(mclose(A, l.A0 + n * l.A1, 1e-13, 0) && mclose(B, l.B0 + n * l.B1, 1e-13, 0), "discrete-ltv-matrices", "n ", n);
    s.nontrivial();
}
FACET(oscillator, 3)
{  // x'' = g w^2 u - 2 zeta w x' - w^2 x, with w = sqrt(k/m), zeta = d/(2 sqrt(m k)) in mechanical terms
    Quiet q;
    double w = s.logreal(0.1, 20), z = s.real(-0.5, 3), g = s.real(-2, 2);
    std::unique_ptr<SecondOrderSystem> o;
    int kind = s.i(0, 3);
    double a1 = -w * w, a2 = -2 * z * w, b = g * w * w;
    if (kind == 0)
        o.reset(new SecondOrderSystem(w, z, g));
    else if (kind == 1)
    {
        o.reset(new SecondOrderSystem(s.logreal(0.1, 20), s.real(0, 2)));
        o->setDynamics(w, z, g);
    }
    else if (kind == 2)
    {
        double k = s.logreal(0.1, 50), m = s.logreal(0.1, 50), d = s.real(-1, 20);
        o.reset(new SecondOrderSystem(k, m, d, g));
        a1 = -k / m;
        a2 = -d / m;
        b = g * k / m;
        z = d;
    }
    else
    {
        o.reset(new SecondOrderSystem(w));
        a2 = -2 * w;
        b = w * w;
        z = g = 1;
    }
    if (s.b())
        o.reset(o->clone());
    StateVector<2> x, d;
    ControlVector<1> u;
    x = gen::vec<2>(s, 5);
    u = gen::vec<1>(s, 5);
    o->computeControlledDynamics(x, s.real(-3, 3), u, d);
    PBT_REQUIRE(close(d(0), x(1), 0, 1e-15), "oscillator-velocity", d(0));
    PBT_REQUIRE(close(d(1), b * u(0) + a2 * x(1) + a1 * x(0), 1e-10, 1e-10 * (std::fabs(a1) + std::fabs(a2) + std::fabs(b))), "oscillator-acceleration", "constructor kind ", kind, " got ", d(1), " expected ",
        b * u(0) + a2 * x(1) + a1 * x(0));
    PBT_REQUIRE(o->checkParameters() == (z >= 0 && g > 0), "oscillator-parameters", "zeta ", z, " gain ", g);
    s.nontrivial();
    s.label("kind" + std::to_string(kind));
}
