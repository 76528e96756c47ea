// Reference rigid-body tree (implementation in rbd_ref.cpp): textbook recursive Newton-Euler in plain 3-D vectors.
#pragma once
#include <Eigen/Core>
#include <string>
#include <vector>
#include "rbd_tables.h"
namespace rbdref {
typedef Eigen::Matrix<double, 6, 1> V6;
typedef Eigen::Matrix<double, 6, 6> M6;
typedef Eigen::Matrix<double, 4, 4> M4;
typedef Eigen::Matrix<double, 3, 3> M3;
typedef Eigen::Vector3d V3;
typedef Eigen::VectorXd VX;
typedef Eigen::MatrixXd MX;
struct Tree {
    std::vector<LinkD> links;
    std::vector<FrameD> frames;
    template <int NL, int NF> Tree(const LinkD (&l)[NL], const FrameD (&f)[NF]) : links(l, l + NL), frames(f, f + NF) {}
    int nj() const { return (int)links.size() - 1; }
    M4 joint(int i, double q) const;
    int linkIndex(const std::string& n) const;
    int frameLink(const std::string& n) const;
    M4 linkPose(int k, const VX& q) const;
    M4 pose(const std::string& n, const VX& q) const;
    std::vector<int> chain(int k) const;
    MX jacobian(const std::string& n, const VX& q) const;  // angular first, base coordinates, one column per joint of the chain
    double mass() const;
    V3 com(const VX& q) const;
    void id(const VX& q, const VX& qd, const VX& qdd, const V6& v0, const V6& a0, const V6& g, const std::vector<V6>& fext, V6& wrench, VX& tau) const;
    VX full(const VX& q, const VX& qd, const VX& acc, const V6& v0, const V6& g, const std::vector<V6>& fext) const;  // acc = (a0, qdd)
    std::vector<V6> zeroF() const;
    MX massMatrix(const VX& q) const;  // (6+n) x (6+n)
    // fixed base, gravity -9.81 along base z
    VX fixedID(const VX& q, const VX& qd, const VX& qdd, const V6& g, const std::vector<V6>& fext) const;
    VX fixedFD(const VX& q, const VX& qd, const VX& tau, const V6& g, const std::vector<V6>& fext) const;
    VX floatFD(const VX& q, const VX& qd, const VX& tau, const V6& v0, const V6& g, const std::vector<V6>& fext) const;  // (a0, qdd)
    V6 freeBase(const VX& q, const VX& qd, const VX& qdd, const V6& v0, const V6& g, const std::vector<V6>& fext) const;  // base acceleration needing no base wrench
};
// throws the property failure when a and b differ
void require_close(const MX& a, const MX& b, double rel, double abs, const std::string& key, const std::string& what);
void require_transform(const Tree& t, const std::string& robot, const char* m, const char* A, const char* B, const VX& q, const M4& h, const M6& x, const M6& f);
void require_jacobian(const Tree& t, const std::string& robot, const char* m, const char* B, const VX& q, const MX& j);
void require_inertia(const std::string& robot, const LinkD& l, double mass, const V3& com, const M6& A);
void require_jsim(const std::string& robot, const MX& m, const MX& ref);
void require_factor(const std::string& robot, const MX& m, const MX& L, const MX& inv);
}
