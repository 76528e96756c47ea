// generators shared by the harnesses
#pragma once
#include "pbt.h"
#include <Eigen/Dense>

namespace gen {
using pbt::Src;
template <int R, int C>
Eigen::Matrix<double, R, C> mat(Src& s, double m)
{
    Eigen::Matrix<double, R, C> a;
    for (int r = 0; r < R; r++)
        for (int c = 0; c < C; c++)
            a(r, c) = s.real(-m, m);
    return a;
}
template <int R>
Eigen::Matrix<double, R, 1> vec(Src& s, double m)
{
    return mat<R, 1>(s, m);
}
inline Eigen::MatrixXd matX(Src& s, int R, int C, double m)
{
    Eigen::MatrixXd a(R, C);
    for (int r = 0; r < R; r++)
        for (int c = 0; c < C; c++)
            a(r, c) = s.real(-m, m);
    return a;
}
//! symmetric positive semi-definite, plus lo*I
template <int N>
Eigen::Matrix<double, N, N> spd(Src& s, double m, double lo)
{
    Eigen::Matrix<double, N, N> a = mat<N, N>(s, std::sqrt(m));
    Eigen::Matrix<double, N, N> r = a * a.transpose();
    r = 0.5 * (r + r.transpose().eval());
    return r + lo * Eigen::Matrix<double, N, N>::Identity();
}
template <class M>
std::string str(const M& m)
{
    std::ostringstream os;
    os << std::setprecision(6) << "[";
    for (int r = 0; r < (int)m.rows(); r++)
        for (int c = 0; c < (int)m.cols(); c++)
            os << (r + c ? (c ? " " : "; ") : "") << m(r, c);
    os << "]";
    return os.str();
}
}  // namespace gen
