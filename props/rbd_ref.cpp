// Reference rigid-body tree written for this check: recursive Newton-Euler with 3-D vectors in base coordinates.
#include "pbt.h"
#include "rbd_ref.h"
#include <Eigen/Dense>
using namespace pbt;
namespace rbdref {
inline M4 m4(const double* p) { M4 m; for (int i = 0; i < 16; i++) m(i / 4, i % 4) = p[i]; return m; }
inline M4 inv4(const M4& T) { M4 r = M4::Identity(); r.topLeftCorner<3, 3>() = T.topLeftCorner<3, 3>().transpose(); r.topRightCorner<3, 1>() = -r.topLeftCorner<3, 3>() * T.topRightCorner<3, 1>(); return r; }
inline M3 skew(const V3& v) { M3 m; m << 0, -v(2), v(1), v(2), 0, -v(0), -v(1), v(0), 0; return m; }
inline M6 motionX(const M4& T) { M6 X = M6::Zero(); M3 R = T.topLeftCorner<3, 3>(); X.topLeftCorner<3, 3>() = R; X.bottomRightCorner<3, 3>() = R; X.bottomLeftCorner<3, 3>() = skew(T.topRightCorner<3, 1>()) * R; return X; }
    M4 Tree::joint(int i, double q) const { M4 R = M4::Identity(); R(0, 0) = R(1, 1) = std::cos(q); R(1, 0) = std::sin(q); R(0, 1) = -R(1, 0); return m4(links[i].T) * R; }
    int Tree::linkIndex(const std::string& n) const { for (size_t i = 0; i < links.size(); i++) if (n == links[i].name) return i; return -1; }
    int Tree::frameLink(const std::string& n) const { int k = linkIndex(n); if (k >= 0) return k; for (auto& f : frames) if (n == f.name) return f.link; return -1; }
    M4 Tree::linkPose(int k, const VX& q) const { M4 T = M4::Identity(); while (k > 0) { T = joint(k, q(k - 1)) * T; k = links[k].parent; } return T; }
    M4 Tree::pose(const std::string& n, const VX& q) const
    {
        int k = linkIndex(n);
        if (k >= 0) return linkPose(k, q);
        for (auto& f : frames) if (n == f.name) return linkPose(f.link, q) * m4(f.T);
        abort();
    }
    std::vector<int> Tree::chain(int k) const { std::vector<int> c; for (; k > 0; k = links[k].parent) c.insert(c.begin(), k); return c; }
    MX Tree::jacobian(const std::string& n, const VX& q) const  // angular first, base coordinates, one column per joint of the chain
    {
        M4 P = pose(n, q);
        auto c = chain(frameLink(n));
        MX J(6, c.size());
        for (size_t i = 0; i < c.size(); i++)
        {
            M4 T = linkPose(c[i], q);
            V3 z = T.block<3, 1>(0, 2), d = P.block<3, 1>(0, 3) - T.block<3, 1>(0, 3);
            J.col(i) << z, z.cross(d);
        }
        return J;
    }
    double Tree::mass() const { double m = 0; for (auto& l : links) m += l.m; return m; }
    V3 Tree::com(const VX& q) const
    {
        V3 s = V3::Zero();
        for (size_t i = 0; i < links.size(); i++) { M4 T = linkPose(i, q); V3 c(links[i].com[0], links[i].com[1], links[i].com[2]); s += links[i].m * (T.topLeftCorner<3, 3>() * c + T.topRightCorner<3, 1>()); }
        return s / mass();
    }
    // everything expressed in base coordinates about the base origin with 3-D Newton-Euler equations.
    // v0, a0: spatial (Pluecker) velocity and acceleration of the base in base coordinates; g: gravity vector in base coordinates
    // fext[k]: wrench on link k (moment about the link origin, force), link coordinates. Result: base wrench (about base origin), joint torques
    // the velocity-dependent terms are evaluated in the frame instantaneously coincident with the base at rest.
    void Tree::id(const VX& q, const VX& qd, const VX& qdd, const V6& v0, const V6& a0, const V6& g, const std::vector<V6>& fext, V6& wrench, VX& tau) const
    {
        const int n = links.size();
        std::vector<M4> T(n);
        std::vector<V3> w(n), al(n), vo(n), ao(n);  // angular velocity/acceleration; velocity and classical acceleration of the link origin
        T[0] = M4::Identity();
        w[0] = v0.head<3>(); vo[0] = v0.tail<3>();
        al[0] = a0.head<3>() - g.head<3>();
        ao[0] = a0.tail<3>() + w[0].cross(vo[0]) - g.tail<3>();  // classical acceleration minus gravity
        for (int i = 1; i < n; i++)
        {
            int p = links[i].parent;
            T[i] = T[p] * joint(i, q(i - 1));
            V3 r = T[i].block<3, 1>(0, 3) - T[p].block<3, 1>(0, 3), z = T[i].block<3, 1>(0, 2);
            w[i] = w[p] + z * qd(i - 1);
            al[i] = al[p] + z * qdd(i - 1) + w[p].cross(z) * qd(i - 1);
            vo[i] = vo[p] + w[p].cross(r);
            ao[i] = ao[p] + al[p].cross(r) + w[p].cross(w[p].cross(r));
        }
        std::vector<V3> F(n, V3::Zero()), N(n, V3::Zero());  // force and moment about the link origin transmitted through the joint
        for (int i = n - 1; i >= 0; i--)
        {
            M3 R = T[i].topLeftCorner<3, 3>();
            V3 c = R * V3(links[i].com[0], links[i].com[1], links[i].com[2]);
            M3 I0; for (int k = 0; k < 9; k++) I0(k / 3, k % 3) = links[i].I[k];
            M3 I = R * I0 * R.transpose();  // about the link origin
            F[i] += links[i].m * (ao[i] + al[i].cross(c) + w[i].cross(w[i].cross(c))) - R * fext[i].tail<3>();
            N[i] += I * al[i] + w[i].cross(I * w[i]) + links[i].m * c.cross(ao[i]) - R * fext[i].head<3>();
            if (i > 0)
            {
                int p = links[i].parent;
                V3 r = T[i].block<3, 1>(0, 3) - T[p].block<3, 1>(0, 3), z = T[i].block<3, 1>(0, 2);
                tau(i - 1) = z.dot(N[i]);
                F[p] += F[i];
                N[p] += N[i] + r.cross(F[i]);
            }
        }
        wrench << N[0], F[0];
    }
    VX Tree::full(const VX& q, const VX& qd, const VX& acc, const V6& v0, const V6& g, const std::vector<V6>& fext) const  // acc = (a0, qdd)
    {
        V6 w; VX t(nj());
        id(q, qd, acc.tail(nj()), v0, acc.head<6>(), g, fext, w, t);
        VX r(6 + nj()); r << w, t; return r;
    }
    std::vector<V6> Tree::zeroF() const { return std::vector<V6>(links.size(), V6::Zero()); }
    MX Tree::massMatrix(const VX& q) const  // (6+n) x (6+n)
    {
        int n = 6 + nj(); MX M(n, n); VX z = VX::Zero(nj());
        for (int i = 0; i < n; i++) M.col(i) = full(q, z, VX::Unit(n, i), V6::Zero(), V6::Zero(), zeroF());
        return M;
    }

VX Tree::fixedID(const VX& q, const VX& qd, const VX& qdd, const V6& g, const std::vector<V6>& fext) const
{
    VX a = VX::Zero(6 + nj());
    a.tail(nj()) = qdd;
    return full(q, qd, a, V6::Zero(), g, fext).tail(nj());
}
VX Tree::fixedFD(const VX& q, const VX& qd, const VX& tau, const V6& g, const std::vector<V6>& fext) const
{
    MX M = massMatrix(q).bottomRightCorner(nj(), nj());
    return M.ldlt().solve(tau - fixedID(q, qd, VX::Zero(nj()), g, fext));
}
VX Tree::floatFD(const VX& q, const VX& qd, const VX& tau, const V6& v0, const V6& g, const std::vector<V6>& fext) const
{
    VX rhs = -full(q, qd, VX::Zero(6 + nj()), v0, g, fext);
    rhs.tail(nj()) += tau;
    return massMatrix(q).ldlt().solve(rhs);
}
V6 Tree::freeBase(const VX& q, const VX& qd, const VX& qdd, const V6& v0, const V6& g, const std::vector<V6>& fext) const
{
    VX a = VX::Zero(6 + nj());
    a.tail(nj()) = qdd;
    VX r0 = full(q, qd, a, v0, g, fext);
    M6 A = massMatrix(q).topLeftCorner(6, 6);
    return -A.ldlt().solve(V6(r0.head(6)));
}
void require_close(const MX& a, const MX& b, double rel, double abs, const std::string& key, const std::string& what)
{
    PBT_REQUIRE(a.rows() == b.rows() && a.cols() == b.cols(), key, what, ": size ", a.rows(), "x", a.cols(), " expected ", b.rows(), "x", b.cols());
    PBT_REQUIRE((a - b).norm() <= abs + rel * b.norm(), key, what, "\n", a, "\nexpected\n", b);
}
void require_transform(const Tree& t, const std::string& robot, const char* m, const char* A, const char* B, const VX& q, const M4& h, const M6& x, const M6& f)
{
    M4 T = inv4(t.pose(A, q)) * t.pose(B, q);
    M6 Xm = motionX(T), Xf = Xm;
    Xf.topRightCorner<3, 3>() = Xm.bottomLeftCorner<3, 3>();
    Xf.bottomLeftCorner<3, 3>().setZero();
    require_close(h, T, 0, 1e-6, "homogeneous_" + robot + "/" + m, std::string("homogeneous transform ") + m);
    require_close(x, Xm, 0, 1e-6, "motion_" + robot + "/" + m, std::string("motion transform ") + m);
    require_close(f, Xf, 0, 1e-6, "force_" + robot + "/" + m, std::string("force transform ") + m);
}
void require_jacobian(const Tree& t, const std::string& robot, const char* m, const char* B, const VX& q, const MX& j)
{
    require_close(j, t.jacobian(B, q), 0, 1e-6, "jacobian_" + robot + "/" + m, std::string("Jacobian ") + m);
}
void require_inertia(const std::string& robot, const LinkD& l, double mass, const V3& com, const M6& A)
{
    V3 c(l.com[0], l.com[1], l.com[2]);
    M3 I0;
    for (int i = 0; i < 9; i++) I0(i / 3, i % 3) = l.I[i];
    M6 S;
    S << I0, l.m * skew(c), -l.m * skew(c), l.m * M3::Identity();
    PBT_REQUIRE(std::abs(mass - l.m) <= 1e-6 * l.m, "mass_" + robot + "/" + l.name, mass, " expected ", l.m);
    require_close(com, c, 0, 1e-7, "com_" + robot + "/" + l.name, "centre of mass");
    require_close(A, S, 0, 1e-7, "tensor_" + robot + "/" + l.name, "spatial inertia");
}
void require_jsim(const std::string& robot, const MX& m, const MX& ref)
{
    require_close(m, ref, 1e-7, 1e-7, "jsim_" + robot, "joint-space inertia matrix");
    double ev = Eigen::SelfAdjointEigenSolver<MX>(m).eigenvalues()(0);
    PBT_REQUIRE(ev > 0, "jsim_definite_" + robot, "joint-space inertia matrix is not positive definite: smallest eigenvalue ", ev);
}
void require_factor(const std::string& robot, const MX& m, const MX& L, const MX& inv)
{
    MX l = L.triangularView<Eigen::Lower>();
    require_close(L.transpose() * L, m, 1e-7, 1e-7, "jsim_L_" + robot, "L^T L");
    require_close(L, l, 0, 1e-12, "jsim_L_triangular_" + robot, "L");
    require_close(inv * m, MX::Identity(m.rows(), m.rows()), 0, 1e-6, "jsim_inverse_" + robot, "inverse * M");
}
}
