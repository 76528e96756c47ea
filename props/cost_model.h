// independent model of cost terms and cost functions (values in long double, derivatives by central differences)
#pragma once
#include "gen.h"
#include "tmpfile.h"
#include <ct/core/core.h>
#include <ct/optcon/costfunction/costfun.hpp>
#include <ct/optcon/costfunction/costfun-impl.hpp>
using namespace pbt;
using namespace ct::core;
using namespace ct::optcon;
typedef long double LD;
enum Kind
{
    LINEAR,
    QUADRATIC,
    MIXED,
    QUADMULT,
    SMOOTHABS,
    TRACKING,
    BARRIER
};
inline const char* kindName(int k)
{
    static const char* n[] = {"linear", "quadratic", "mixed", "quadratic-multiplicative", "smooth-abs", "tracking", "barrier"};
    return n[k];
}
//! a user activation: smooth factor inside a window
struct Act
{
    bool on = false;
    double a = 1, b = 0, lo = -1e9, hi = 1e9;
    bool active(double t) const { return !on || (t >= lo && t < hi); }
    LD value(double t) const { return on ? (LD)a + (LD)b * t : 1.0L; }
};
struct UserActivation : public ct::core::tpl::ActivationBase<double>
{
    Act m;
    UserActivation(const Act& a) : m(a) {}
    bool isActive(const double t) override { return m.active(t); }
    double computeActivation(const double t) override { return (double)m.value(t); }
};
inline std::string num(double v)
{
    std::ostringstream os;
    os << std::setprecision(17) << v;
    return os.str();
}
template <int N, int M>
struct TermModel
{
    typedef Eigen::Matrix<double, N, 1> X;
    typedef Eigen::Matrix<double, M, 1> U;
    int kind = 0;
    X a = X::Zero(), xr = X::Zero(), lo = X::Zero(), hi = X::Zero(), al = X::Zero();
    U b = U::Zero(), ur = U::Zero();
    double c = 0, alpha = 0.2;
    Eigen::Matrix<double, N, N> Q = Eigen::Matrix<double, N, N>::Zero();
    Eigen::Matrix<double, M, M> R = Eigen::Matrix<double, M, M>::Zero();
    Eigen::Matrix<double, M, N> P = Eigen::Matrix<double, M, N>::Zero();
    std::vector<double> tx, tu;  // reference trajectories
    std::vector<X, Eigen::aligned_allocator<X>> rx;
    std::vector<U, Eigen::aligned_allocator<U>> ru;
    bool zohX = false, zohU = false, trackU = false;
    Act act;
    std::string name;
    template <class V>
    static V interp(const std::vector<double>& ts, const std::vector<V, Eigen::aligned_allocator<V>>& d, bool zoh, double t)
    {
        if (t <= ts.front())
            return d.front();
        if (t >= ts.back())
            return d.back();
        size_t i = 0;
        while (i + 1 < ts.size() && ts[i + 1] <= t)
            i++;
        if (zoh)
            return d[i];
        double w = (t - ts[i]) / (ts[i + 1] - ts[i]);
        return d[i] * (1 - w) + d[i + 1] * w;
    }
    typedef Eigen::Matrix<LD, N, 1> XL;
    typedef Eigen::Matrix<LD, M, 1> UL;
    LD value(const XL& x, const UL& u, double t) const
    {
        XL dx = x - xr.template cast<LD>();
        UL du = u - ur.template cast<LD>();
        LD q = 0, r = 0, y = 0;
        if (kind == TRACKING)
        {
            dx = x - interp<X>(tx, rx, zohX, t).template cast<LD>();
            du = trackU ? UL(u - interp<U>(tu, ru, zohU, t).template cast<LD>()) : u;
        }
        for (int i = 0; i < N; i++)
            for (int j = 0; j < N; j++)
                q += dx(i) * Q(i, j) * dx(j);
        for (int i = 0; i < M; i++)
            for (int j = 0; j < M; j++)
                r += du(i) * R(i, j) * du(j);
        switch (kind)
        {
            case LINEAR:
                for (int i = 0; i < N; i++)
                    y += a(i) * x(i);
                for (int i = 0; i < M; i++)
                    y += b(i) * u(i);
                return y + c;
            case QUADRATIC:
            case TRACKING:
                return q + r;
            case MIXED:
                for (int i = 0; i < M; i++)
                    for (int j = 0; j < N; j++)
                        y += du(i) * P(i, j) * dx(j);
                return y;
            case QUADMULT:
                return q * r;
            case SMOOTHABS:
                for (int i = 0; i < N; i++)
                    y += a(i) * sqrtl(dx(i) * dx(i) + (LD)alpha * alpha);
                for (int i = 0; i < M; i++)
                    y += b(i) * sqrtl(du(i) * du(i) + (LD)alpha * alpha);
                return y;
            default:
                for (int i = 0; i < N; i++)
                    y += expl(al(i) * (x(i) - hi(i))) + expl(al(i) * (lo(i) - x(i)));
                return y;
        }
    }
    //! everything random, asymmetric weights included
    static TermModel draw(Src& s, int kind, bool activation)
    {
        TermModel m;
        m.kind = kind;
        m.a = gen::vec<N>(s, 2);
        m.b = gen::vec<M>(s, 2);
        m.c = s.real(-3, 3);
        m.xr = gen::vec<N>(s, 2);
        m.ur = gen::vec<M>(s, 2);
        m.alpha = s.real(0.25, 1.5);
        m.Q = gen::mat<N, N>(s, 2);
        m.R = gen::mat<M, M>(s, 2);
        m.P = gen::mat<M, N>(s, 2);
        if (kind == BARRIER)
            for (int i = 0; i < N; i++)
            {
                m.lo(i) = s.real(-3, 0);
                m.hi(i) = s.real(0, 3);
                m.al(i) = s.real(0.125, 1.5);
            }
        if (kind == TRACKING)
        {
            m.zohX = s.b();
            m.zohU = s.b();
            m.trackU = s.b();
            int n = s.i(1, 5), k = s.i(1, 5);
            double t = s.real(-2, 1);
            for (int i = 0; i < n; i++, t += s.real(0.125, 1.5))
                m.tx.push_back(t), m.rx.push_back(gen::vec<N>(s, 2));
            t = s.real(-2, 1);
            for (int i = 0; i < k; i++, t += s.real(0.125, 1.5))
                m.tu.push_back(t), m.ru.push_back(gen::vec<M>(s, 2));
        }
        if (activation && s.p(1, 2))
        {
            m.act.on = true;
            m.act.a = s.real(-2, 3);
            m.act.b = s.real(-1, 1);
            if (s.b())
            {
                m.act.lo = s.real(-3, 1);
                m.act.hi = m.act.lo + s.real(0, 4);
            }
        }
        return m;
    }
    typedef std::shared_ptr<TermBase<N, M>> Ptr;
    //! builds the library's term in one of the ways the API offers
    Ptr make(Src& s) const
    {
        Ptr p;
        StateVector<N> X0 = xr;
        ControlVector<M> U0 = ur;
        switch (kind)
        {
            case LINEAR:
                p.reset(new TermLinear<N, M>(StateVector<N>(a), ControlVector<M>(b), c));
                break;
            case QUADRATIC:
                if (s.b())
                    p.reset(new TermQuadratic<N, M>(Q, R, X0, U0));
                else
                {
                    auto q = new TermQuadratic<N, M>();
                    p.reset(q);
                    q->setWeights(Q, R);
                    q->setStateAndControlReference(X0, U0);
                }
                break;
            case MIXED:
                if (s.b())
                    p.reset(new TermMixed<N, M>(P, X0, U0));
                else
                {
                    auto q = new TermMixed<N, M>();
                    p.reset(q);
                    q->setWeights(P);
                    q->setStateAndControlReference(X0, U0);
                }
                break;
            case QUADMULT:
                if (s.b())
                    p.reset(new TermQuadMult<N, M>(Q, R, X0, U0));
                else
                {
                    auto q = new TermQuadMult<N, M>();
                    p.reset(q);
                    q->setWeights(Q, R);
                    q->setStateAndControlReference(X0, U0);
                }
                break;
            case SMOOTHABS:
                p.reset(new TermSmoothAbs<N, M>(StateVector<N>(a), X0, ControlVector<M>(b), U0, alpha));
                break;
            case TRACKING:
            {
                auto ix = zohX ? InterpolationType::ZOH : InterpolationType::LIN, iu = zohU ? InterpolationType::ZOH : InterpolationType::LIN;
                auto q = new TermQuadTracking<N, M>(Q, R, ix, iu, trackU);
                p.reset(q);
                StateTrajectory<N> xt(ix);
                ControlTrajectory<M> ut(iu);
                for (size_t i = 0; i < tx.size(); i++)
                    xt.push_back(rx[i], tx[i], true);
                for (size_t i = 0; i < tu.size(); i++)
                    ut.push_back(ru[i], tu[i], true);
                q->setStateAndControlReference(xt, ut);
                break;
            }
            default:
                p.reset(new TermStateBarrier<N, M>(hi, lo, al));
        }
        p->setName(name);
        if (act.on)
            p->setTimeActivation(std::make_shared<UserActivation>(act));
        return p;
    }
};
template <int N, int M>
struct CostModel
{
    typedef TermModel<N, M> T;
    std::vector<T, Eigen::aligned_allocator<T>> inter, fin;
    Eigen::Matrix<double, N, 1> x = Eigen::Matrix<double, N, 1>::Zero();
    Eigen::Matrix<double, M, 1> u = Eigen::Matrix<double, M, 1>::Zero();
    double t = 0, shift = 0;
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
    typedef Eigen::Matrix<LD, N + M, 1> Z;
    LD value(bool terminal, const Z& z) const
    {
        typename T::XL X = z.template head<N>();
        typename T::UL U = z.template tail<M>();
        LD y = 0;
        if (terminal)
            for (auto& m : fin)
                y += m.value(X, U, t);
        else
            for (auto& m : inter)
                if (m.act.active(t))
                    y += m.act.value(t) * m.value(X, U, t);
        return y;
    }
    Z point() const
    {
        Z z;
        z << x.template cast<LD>(), u.template cast<LD>();
        return z;
    }
    Eigen::Matrix<double, N + M, 1> grad(bool terminal) const
    {
        Eigen::Matrix<double, N + M, 1> g;
        const LD h = 1e-5L;
        for (int i = 0; i < N + M; i++)
        {
            Z p = point(), q = p;
            p(i) += h;
            q(i) -= h;
            g(i) = (double)((value(terminal, p) - value(terminal, q)) / (2 * h));
        }
        return g;
    }
    Eigen::Matrix<double, N + M, N + M> hess(bool terminal) const
    {
        Eigen::Matrix<double, N + M, N + M> H;
        const LD h = 1e-4L;
        for (int i = 0; i < N + M; i++)
            for (int j = 0; j <= i; j++)
            {
                Z a = point(), b = a, c = a, d = a;
                a(i) += h, a(j) += h;
                b(i) += h, b(j) -= h;
                c(i) -= h, c(j) += h;
                d(i) -= h, d(j) -= h;
                H(i, j) = H(j, i) = (double)((value(terminal, a) - value(terminal, b) - value(terminal, c) + value(terminal, d)) / (4 * h * h));
            }
        return H;
    }
    double scale(bool terminal) const
    {
        double y = 1;
        for (auto& m : terminal ? fin : inter)
            y += std::fabs((double)m.act.value(t)) * (1 + std::fabs((double)m.value(x.template cast<LD>(), u.template cast<LD>(), t)));
        return y;
    }
    bool hasBarrier() const
    {
        for (auto& m : inter)
            if (m.kind == BARRIER)
                return true;
        for (auto& m : fin)
            if (m.kind == BARRIER)
                return true;
        return false;
    }
};
//! compares everything the cost function reports with the model
template <int N, int M>
void compareCost(CostFunctionQuadratic<N, M>& c, const CostModel<N, M>& m, const std::string& who, bool terminalControl = true)
{
    double s0 = m.scale(false), s1 = m.scale(true);
    double v = c.evaluateIntermediate(), w = c.evaluateTerminal();
    double V = (double)m.value(false, m.point()), W = (double)m.value(true, m.point());
    PBT_REQUIRE(close(v, V, 1e-11, 1e-11 * s0), "value-intermediate", who, " got ", v, " expected ", V);
    PBT_REQUIRE(close(w, W, 1e-11, 1e-11 * s1), "value-terminal", who, " got ", w, " expected ", W);
    if (m.hasBarrier())
        return;  // value only: the barrier term offers no analytic derivatives
    auto g = m.grad(false), h = m.grad(true);
    auto G = m.hess(false), H = m.hess(true);
    const double tol = 1e-6;
    PBT_REQUIRE(mclose(c.stateDerivativeIntermediate(), g.template head<N>(), tol, tol * s0), "state-derivative", who, " got ", gen::str(c.stateDerivativeIntermediate()), " expected ", gen::str(g));
    PBT_REQUIRE(mclose(c.controlDerivativeIntermediate(), g.template tail<M>(), tol, tol * s0), "control-derivative", who, " got ", gen::str(c.controlDerivativeIntermediate()), " expected ", gen::str(g));
    PBT_REQUIRE(mclose(c.stateSecondDerivativeIntermediate(), G.template topLeftCorner<N, N>(), tol, tol * s0), "state-second-derivative", who, " got ", gen::str(c.stateSecondDerivativeIntermediate()), " expected ", gen::str(G));
    PBT_REQUIRE(mclose(c.controlSecondDerivativeIntermediate(), G.template bottomRightCorner<M, M>(), tol, tol * s0), "control-second-derivative", who, " got ", gen::str(c.controlSecondDerivativeIntermediate()), " expected ", gen::str(G));
    PBT_REQUIRE(mclose(c.stateControlDerivativeIntermediate(), G.template bottomLeftCorner<M, N>(), tol, tol * s0), "state-control-derivative", who, " got ", gen::str(c.stateControlDerivativeIntermediate()), " expected ", gen::str(G));
    PBT_REQUIRE(mclose(c.stateDerivativeTerminal(), h.template head<N>(), tol, tol * s1), "terminal-state-derivative", who, " got ", gen::str(c.stateDerivativeTerminal()), " expected ", gen::str(h));
    PBT_REQUIRE(mclose(c.stateSecondDerivativeTerminal(), H.template topLeftCorner<N, N>(), tol, tol * s1), "terminal-state-second-derivative", who, " got ", gen::str(c.stateSecondDerivativeTerminal()), " expected ", gen::str(H));
    if (!terminalControl)
        return;
    PBT_REQUIRE(mclose(c.controlDerivativeTerminal(), h.template tail<M>(), tol, tol * s1), "terminal-control-derivative", who);
    PBT_REQUIRE(mclose(c.controlSecondDerivativeTerminal(), H.template bottomRightCorner<M, M>(), tol, tol * s1), "terminal-control-second-derivative", who);
    PBT_REQUIRE(mclose(c.stateControlDerivativeTerminal(), H.template bottomLeftCorner<M, N>(), tol, tol * s1), "terminal-state-control-derivative", who);
}
