// C07: Jacobians and Hessians of user functions and system dynamics, and the linear solvers used for differentiation
#include "gen.h"
#include <ct/core/core.h>
using namespace pbt;
using namespace ct::core;
namespace {
//! y_j = sum_i a_ji sin(b_ji x_i) + c_j x_{p_j} x_{q_j} + d_j exp(0.3 x_{r_j}) + e_j
struct Fn
{
    int n, m;
    Eigen::MatrixXd a, b;
    Eigen::VectorXd c, d, e;
    std::vector<int> p, q, r;
    template <class V, class O>
    void eval(const V& x, O& y) const
    {
        using std::sin;
        using std::exp;
        for (int j = 0; j < m; j++)
        {
            y(j) = e(j);
            for (int i = 0; i < n; i++)
                y(j) += a(j, i) * sin(b(j, i) * x(i));
            y(j) += c(j) * x(p[j]) * x(q[j]) + d(j) * exp(0.3 * x(r[j]));
        }
    }
    Eigen::MatrixXd jac(const Eigen::VectorXd& x) const
    {
        Eigen::MatrixXd J = Eigen::MatrixXd::Zero(m, n);
        for (int j = 0; j < m; j++)
        {
            for (int i = 0; i < n; i++)
                J(j, i) += a(j, i) * b(j, i) * std::cos(b(j, i) * x(i));
            J(j, p[j]) += c(j) * x(q[j]);
            J(j, q[j]) += c(j) * x(p[j]);
            J(j, r[j]) += 0.3 * d(j) * std::exp(0.3 * x(r[j]));
        }
        return J;
    }
    Eigen::MatrixXd hes(const Eigen::VectorXd& x, const Eigen::VectorXd& l) const
    {
        Eigen::MatrixXd H = Eigen::MatrixXd::Zero(n, n);
        for (int j = 0; j < m; j++)
        {
            for (int i = 0; i < n; i++)
                H(i, i) -= l(j) * a(j, i) * b(j, i) * b(j, i) * std::sin(b(j, i) * x(i));
            H(p[j], q[j]) += l(j) * c(j);
            H(q[j], p[j]) += l(j) * c(j);
            H(r[j], r[j]) += l(j) * 0.09 * d(j) * std::exp(0.3 * x(r[j]));
        }
        return H;
    }
};
Fn genFn(Src& s, int n, int m)
{
    Fn f;
    f.n = n;
    f.m = m;
    f.a = gen::matX(s, m, n, 2);
    f.b = gen::matX(s, m, n, 2);
    f.c = gen::matX(s, m, 1, 1);
    f.d = gen::matX(s, m, 1, 1);
    f.e = gen::matX(s, m, 1, 3);
    for (int j = 0; j < m; j++)
    {
        f.p.push_back(s.i(0, n - 1));
        f.q.push_back(s.i(0, n - 1));
        f.r.push_back(s.i(0, n - 1));
    }
    return f;
}
Eigen::VectorXd genX(Src& s, int n)
{
    double mag = s.pick(std::vector<double>{1, 3, 8});
    return gen::matX(s, n, 1, mag);
}
//! error bound of a difference quotient with step 1.5e-8*max(1,|x|): curvature (one-sided) and cancellation
double tol(const Fn& f, const Eigen::VectorXd& x)
{
    double F = f.a.cwiseAbs().sum() * 4 + f.c.cwiseAbs().sum() * (1 + x.squaredNorm()) + f.d.cwiseAbs().sum() * std::exp(0.3 * x.cwiseAbs().maxCoeff()) + f.e.cwiseAbs().sum();
    return 1e-7 * (1 + F) * (1 + x.cwiseAbs().maxCoeff());
}
template <int N, int M>
void numdiff(Src& s, int n, int m)
{
    typedef DerivativesNumDiff<N, M> D;
    Fn f = genFn(s, n, m);
    typename D::Function fun = [f](const typename D::IN_TYPE& x) {
        typename D::OUT_TYPE y(f.m);
        f.eval(x, y);
        return y;
    };
    bool two = s.b();
    std::unique_ptr<D> d(new D(fun, two));
    if (s.p(1, 3))
    {
        std::unique_ptr<D> c(d->clone());
        d = std::move(c);
    }
    int calls = s.i(1, 3);
    for (int k = 0; k < calls; k++)
    {
        Eigen::VectorXd x = genX(s, n), y(m);
        f.eval(x, y);
        PBT_REQUIRE(mclose(d->forwardZero(x), y, 1e-12, 1e-12), "numdiff-value", "n ", n, " m ", m);
        Eigen::MatrixXd J = d->jacobian(x), R = f.jac(x);
        PBT_REQUIRE(J.rows() == m && J.cols() == n, "numdiff-size", "jacobian is ", J.rows(), "x", J.cols(), " expected ", m, "x", n);
        PBT_REQUIRE((J - R).cwiseAbs().maxCoeff() <= tol(f, x), "numdiff-jacobian", "two-sided ", two, " got ", gen::str(J), " expected ", gen::str(R), " tol ", tol(f, x));
    }
    if (n > 1 && m > 1)
        s.nontrivial();
    s.label(N < 0 ? "dynamic" : "fixed");
}
template <int N, int M>
void cppad(Src& s, int n, int m)
{
    typedef DerivativesCppad<N, M> D;
    Fn f = genFn(s, n, m);
    auto wrap = [](const Fn& g) {
        return typename D::FUN_TYPE_AD([g](const typename D::IN_TYPE_AD& x) {
            typename D::OUT_TYPE_AD y(g.m);
            g.eval(x, y);
            return y;
        });
    };
    typename D::FUN_TYPE_AD fun = wrap(f);
    std::unique_ptr<D> d(new D(fun, n, m));
    std::unique_ptr<D> kept;
    Fn keptFn;
    int ops = s.i(1, 5);
    for (int k = 0; k < ops; k++)
    {
        switch (s.i(0, 3))
        {
            case 1:
            {  // keep an independent copy
                kept.reset(d->clone());
                keptFn = f;
                break;
            }
            case 2:
            {
                int n2 = N < 0 ? s.i(1, 4) : n, m2 = M < 0 ? s.i(1, 4) : m;
                f = genFn(s, n2, m2);
                n = n2;
                m = m2;
                fun = wrap(f);
                d->update(fun, n, m);
                break;
            }
            default:
                break;
        }
        for (int w = 0; w < 2; w++)
        {
            D* dd = w ? kept.get() : d.get();
            if (!dd)
                continue;
            const Fn& g = w ? keptFn : f;
            Eigen::VectorXd x = genX(s, g.n), y(g.m), l = gen::matX(s, g.m, 1, 2);
            g.eval(x, y);
            PBT_REQUIRE(mclose(dd->forwardZero(x), y, 1e-10, 1e-10), "ad-value", "copy ", w);
            PBT_REQUIRE(mclose(dd->jacobian(x), g.jac(x), 1e-10, 1e-10), "ad-jacobian", "copy ", w, " got ", gen::str(dd->jacobian(x)), " expected ", gen::str(g.jac(x)));
            PBT_REQUIRE(mclose(dd->hessian(x, l), g.hes(x, l), 1e-10, 1e-10), "ad-hessian", "copy ", w, " got ", gen::str(dd->hessian(x, l)), " expected ", gen::str(g.hes(x, l)));
            // the "sparse" variants list the same entries row by row
            Eigen::VectorXd sj = dd->sparseJacobianValues(x), sh = dd->sparseHessianValues(x, l), sj2, sh2;
            Eigen::VectorXi ir, jc;
            dd->sparseJacobian(x, sj2, ir, jc);
            dd->sparseHessian(x, l, sh2, ir, jc);
            PBT_REQUIRE(sj.size() == g.m * g.n && sj2.size() == sj.size() && sh.size() == g.n * g.n && sh2.size() == sh.size(), "ad-sparse-size", "copy ", w);
            Eigen::MatrixXd J = g.jac(x), H = g.hes(x, l);
            for (int i = 0; i < g.m; i++)
                for (int j = 0; j < g.n; j++)
                    PBT_REQUIRE(close(sj(i * g.n + j), J(i, j), 1e-10, 1e-10) && sj2(i * g.n + j) == sj(i * g.n + j), "ad-sparse-jacobian", i, " ", j);
            for (int i = 0; i < g.n; i++)
                for (int j = 0; j < g.n; j++)
                    PBT_REQUIRE(close(sh(i * g.n + j), H(i, j), 1e-10, 1e-10) && sh2(i * g.n + j) == sh(i * g.n + j), "ad-sparse-hessian", i, " ", j);
        }
    }
    if (n > 1 && m > 1)
        s.nontrivial();
}
// ---------------------------------------------------------------- systems
//! dynamics from two generated functions: drift on (x,u,t) with n+k+1 inputs
template <int NX, int NU>
struct Sys : public ControlledSystem<NX, NU>
{
    Fn f;
    Sys(const Fn& f, SYSTEM_TYPE ty) : ControlledSystem<NX, NU>(ty), f(f) {}
    Sys(const Sys& o) : ControlledSystem<NX, NU>(o), f(o.f) {}
    Sys* clone() const override { return new Sys(*this); }
    void computeControlledDynamics(const StateVector<NX>& x, const double& t, const ControlVector<NU>& u, StateVector<NX>& d) override
    {
        Eigen::VectorXd z(NX + NU + 1), y(f.m);
        z << x, u, t;
        f.eval(z, y);
        if (this->getType() == SECOND_ORDER)
            d << x.template tail<NX / 2>(), y;
        else
            d = y;
    }
};
template <int NX, int NU>
struct DSys : public DiscreteControlledSystem<NX, NU>
{
    Fn f;
    DSys(const Fn& f) : f(f) {}
    DSys(const DSys& o) : DiscreteControlledSystem<NX, NU>(o), f(o.f) {}
    DSys* clone() const override { return new DSys(*this); }
    void propagateControlledDynamics(const StateVector<NX>& x, const int n, const ControlVector<NU>& u, StateVector<NX>& d) override
    {
        Eigen::VectorXd z(NX + NU + 1), y(f.m);
        z << x, u, 0.1 * n;
        f.eval(z, y);
        d = y;
    }
};
template <int NX, int NU>
void sysLin(Src& s)
{
    bool so = NX % 2 == 0 && s.b();
    int ny = so ? NX / 2 : NX;
    Fn f = genFn(s, NX + NU + 1, ny);
    auto sys = std::shared_ptr<Sys<NX, NU>>(new Sys<NX, NU>(f, so ? SECOND_ORDER : GENERAL));
    typedef SystemLinearizer<NX, NU> L;
    std::unique_ptr<L> lin(new L(sys, s.b()));
    int calls = s.i(1, 4);
    for (int k = 0; k < calls; k++)
    {
        if (s.p(1, 3))
        {
            std::unique_ptr<L> c(lin->clone());
            if (s.b())
            {  // the original goes out of scope, the clone must not depend on it
                sys->f = genFn(s, NX + NU + 1, ny);
                lin = std::move(c);
                sys.reset(new Sys<NX, NU>(f, so ? SECOND_ORDER : GENERAL));
                s.label("clone-survives");
            }
        }
        StateVector<NX> x;
        ControlVector<NU> u;
        Eigen::VectorXd z = genX(s, NX + NU + 1);
        x = z.head(NX);
        u = z.segment(NX, NU);
        double t = z(NX + NU);
        Eigen::MatrixXd J = f.jac(z), A(NX, NX), B(NX, NU);
        if (so)
        {
            A.setZero();
            B.setZero();
            A.topRightCorner(NX / 2, NX / 2).setIdentity();
            A.bottomRows(NX / 2) = J.leftCols(NX);
            B.bottomRows(NX / 2) = J.middleCols(NX, NU);
        }
        else
        {
            A = J.leftCols(NX);
            B = J.middleCols(NX, NU);
        }
        double to = tol(f, z);
        StateMatrix<NX> Ag;
        StateControlMatrix<NX, NU> Bg;
        if (s.b())
            lin->getDerivatives(Ag, Bg, x, u, t);
        else
        {
            Bg = lin->getDerivativeControl(x, u, t);
            Ag = lin->getDerivativeState(x, u, t);
        }
        PBT_REQUIRE((Ag - A).cwiseAbs().maxCoeff() <= to, "state-jacobian", "second order ", so, " got ", gen::str(Ag), " expected ", gen::str(A));
        PBT_REQUIRE((Bg - B).cwiseAbs().maxCoeff() <= to, "control-jacobian", "second order ", so, " got ", gen::str(Bg), " expected ", gen::str(B));
        if (so)
            PBT_REQUIRE(Ag.topRows(NX / 2) == A.topRows(NX / 2) && Bg.topRows(NX / 2).isZero(0), "second-order-structure", gen::str(Ag));
    }
    s.nontrivial();
    s.label(so ? "second-order" : "general");
}
template <int NX, int NU>
void dsysLin(Src& s)
{
    Fn f = genFn(s, NX + NU + 1, NX);
    typedef DiscreteSystemLinearizer<NX, NU> L;
    auto sys = std::shared_ptr<DSys<NX, NU>>(new DSys<NX, NU>(f));
    std::unique_ptr<L> lin(new L(sys, s.b()));
    if (s.p(1, 3))
    {
        std::unique_ptr<L> c(lin->clone());
        sys->f = genFn(s, NX + NU + 1, NX);
        lin = std::move(c);
    }
    int calls = s.i(1, 3);
    for (int k = 0; k < calls; k++)
    {
        StateVector<NX> x, xn;
        ControlVector<NU> u;
        Eigen::VectorXd z = genX(s, NX + NU + 1);
        int n = s.i(0, 30);
        z(NX + NU) = 0.1 * n;
        x = z.head(NX);
        u = z.segment(NX, NU);
        xn.setZero();
        Eigen::MatrixXd J = f.jac(z);
        double to = tol(f, z);
        StateMatrix<NX> A;
        StateControlMatrix<NX, NU> B;
        if (s.b())
            lin->getAandB(x, u, xn, n, 1, A, B);
        else
        {
            A = lin->getDerivativeState(x, u, n);
            B = lin->getDerivativeControl(x, u, n);
        }
        PBT_REQUIRE((A - J.leftCols(NX)).cwiseAbs().maxCoeff() <= to, "discrete-state-jacobian", "got ", gen::str(A), " expected ", gen::str(J.leftCols(NX)));
        PBT_REQUIRE((B - J.middleCols(NX, NU)).cwiseAbs().maxCoeff() <= to, "discrete-control-jacobian", "got ", gen::str(B));
    }
    s.nontrivial();
}
}  // namespace

FACET(numdiffFixed, 3) { s.b() ? numdiff<3, 2>(s, 3, 2) : numdiff<4, 1>(s, 4, 1); }
FACET(numdiffDynamic, 3)
{
    int n = s.i(1, 5), m = s.i(1, 5);
    numdiff<-1, -1>(s, n, m);
}
FACET(autodiff, 4)
{
    Quiet q;
    switch (s.i(0, 2))
    {
        case 0:
            return cppad<3, 2>(s, 3, 2);
        case 1:
            return cppad<2, 4>(s, 2, 4);
        default:
        {
            int n = s.i(1, 5), m = s.i(1, 5);
            return cppad<-1, -1>(s, n, m);
        }
    }
}
FACET(systemLinearizer, 4)
{
    switch (s.i(0, 3))
    {
        case 0:
            return sysLin<2, 1>(s);
        case 1:
            return sysLin<3, 2>(s);
        case 2:
            return sysLin<4, 3>(s);
        default:
            return sysLin<6, 2>(s);
    }
}
FACET(discreteLinearizer, 3) { s.b() ? dsysLin<2, 1>(s) : dsysLin<3, 2>(s); }
FACET(solvers, 3)
{  // pivot-free solvers on well-conditioned matrices
    int n = s.i(1, 8), m = s.i(1, 4);
    Eigen::MatrixXd R = gen::matX(s, n, n, 1), A, B = gen::matX(s, n, m, 5);
    bool sym = s.b();
    A = sym ? Eigen::MatrixXd(R * R.transpose() + s.logreal(0.05, 2) * Eigen::MatrixXd::Identity(n, n)) : Eigen::MatrixXd(R + (n + 1) * Eigen::MatrixXd::Identity(n, n));
    double sc = s.logreal(1e-3, 1e3);
    A *= sc;
    Eigen::MatrixXd X = (sym && s.b()) ? LDLTsolve<double>(A, B) : LUsolve<double>(A, B);
    PBT_REQUIRE(X.rows() == n && X.cols() == m, "solve-size", X.rows(), "x", X.cols());
    PBT_REQUIRE(mclose(A * X, B, 1e-9, 1e-9), "solve", "symmetric ", sym, " n ", n, " residual ", gen::str(A * X - B));
    if (n > 2)
        s.nontrivial();
}
