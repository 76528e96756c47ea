// separable mechanical system used by several harnesses: p' = M v, v' = -grad U(p) + B u
#pragma once
#include <ct/core/core.h>
#include "gen.h"
struct SympPar
{
    Eigen::Vector2d m, k, a;
    double c, g, b;  // coupling, quartic term, input gain
    int read = 0;    // where the system reads position and velocity from: 0 the explicit argument, 1 the full state, 2 the mean
};
inline SympPar genSymp(pbt::Src& s)
{
    SympPar p;
    p.m = Eigen::Vector2d(s.ureal(0.5, 1.5), s.ureal(0.5, 1.5));
    p.k = Eigen::Vector2d(s.ureal(0.3, 2), s.ureal(0.3, 2));
    p.a = gen::vec<2>(s, 0.5);
    p.c = s.real(-0.3, 0.3);
    p.g = s.real(0.0, 0.5);
    p.b = s.real(-1, 1);
    p.read = s.i(0, 2);
    return p;
}
inline Eigen::Vector2d sympV(const SympPar& p, const Eigen::Vector2d& q, double u)
{
    Eigen::Vector2d f = -p.k.cwiseProduct(q) - p.a;
    f(0) -= p.c * q(1) + p.g * q(0) * q(0) * q(0);
    f(1) -= p.c * q(0);
    f(0) += p.b * u;
    f(1) += u;
    return f;
}
inline double sympE(const SympPar& p, const Eigen::Vector4d& x, double u)
{
    Eigen::Vector2d q = x.head<2>(), v = x.tail<2>();
    return 0.5 * v.dot(p.m.cwiseProduct(v)) + 0.5 * q.dot(p.k.cwiseProduct(q)) + p.a.dot(q) + p.c * q(0) * q(1) +
           p.g / 4 * std::pow(q(0), 4) - p.b * u * q(0) - u * q(1);
}
struct SympSys : public ct::core::SymplecticSystem<2, 2, 1>
{
    SympPar p;
    SympSys(const SympPar& p, std::shared_ptr<ct::core::Controller<4, 1>> c = nullptr) : ct::core::SymplecticSystem<2, 2, 1>(c), p(p) {}
    SympSys(const SympSys& o) : ct::core::SymplecticSystem<2, 2, 1>(o), p(o.p) {}
    SympSys* clone() const override { return new SympSys(*this); }
    // the part handed over separately is the same as in the full state
    Eigen::Vector2d arg(const Eigen::Vector2d& part, const Eigen::Vector2d& full) const
    {
        if (p.read == 0)
            return part;
        if (p.read == 1)
            return full;
        return 0.5 * (part + full);
    }
    void computePdot(const ct::core::StateVector<4>& x, const ct::core::StateVector<2>& v, const ct::core::ControlVector<1>& u,
        ct::core::StateVector<2>& d) override
    {
        d = p.m.cwiseProduct(arg(v, x.tail<2>()));
    }
    void computeVdot(const ct::core::StateVector<4>& x, const ct::core::StateVector<2>& q, const ct::core::ControlVector<1>& u,
        ct::core::StateVector<2>& d) override
    {
        d = sympV(p, arg(q, x.head<2>()), u(0));
    }
};
inline Eigen::Vector4d sympF(const SympPar& p, const Eigen::Vector4d& x, double u)
{
    Eigen::Vector4d d;
    d << p.m.cwiseProduct(x.tail<2>()), sympV(p, x.head<2>(), u);
    return d;
}
inline Eigen::Vector4d sympEuler(const SympPar& p, const Eigen::Vector4d& x, double u, double h)
{
    Eigen::Vector4d y;
    y.head<2>() = x.head<2>() + h * p.m.cwiseProduct(x.tail<2>());
    y.tail<2>() = x.tail<2>() + h * sympV(p, y.head<2>(), u);
    return y;
}
inline Eigen::Vector4d sympRk4(const SympPar& p, const Eigen::Vector4d& x, double u, double h)
{
    Eigen::Vector4d k1 = sympF(p, x, u), k2 = sympF(p, x + h / 2 * k1, u), k3 = sympF(p, x + h / 2 * k2, u), k4 = sympF(p, x + h * k3, u);
    return x + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4);
}
inline Eigen::Vector4d sympExact(const SympPar& p, Eigen::Vector4d x, double u, double T)
{
    int n = std::max(1, (int)std::ceil(T / 2e-3));
    for (int i = 0; i < n; i++)
        x = sympRk4(p, x, u, T / n);
    return x;
}
