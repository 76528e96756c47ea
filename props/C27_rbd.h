// C27: generated rigid-body models against an independent Newton-Euler reference
#include "pbt.h"
#include <Eigen/Dense>
#include <iostream>
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define FACETX(n, w) FACET(n, w)
#define STR_(a) #a
#define STR(a) STR_(a)
// PART 5 and 6 share the robot HyQ: 5 holds its kinematics, 6 its dynamics
#if PART == 1
#define ROBOT HyA
#define NS ct_HyA
#define FLOATING 0
#elif PART == 2
#define ROBOT InvertedPendulum
#define NS ct_InvertedPendulum
#define FLOATING 0
#elif PART == 3
#define ROBOT DoubleInvertedPendulum
#define NS ct_DoubleInvertedPendulum
#define FLOATING 0
#elif PART == 4
#define ROBOT QuadrotorWithLoad
#define NS ct_quadrotor
#define FLOATING 1
#else
#define ROBOT HyQ
#define NS HyQ
#define FLOATING 1
#endif
#include STR(ct/models/ROBOT/generated/jacobians.h)
#include STR(ct/models/ROBOT/generated/traits.h)
#if PART != 6
#include STR(ct/models/ROBOT/generated/miscellaneous.cpp)
#endif
#include "rbd_ref.h"
using namespace pbt;
using namespace rbdref;
namespace {
namespace rb = iit::NS;
const Tree& tree() { static const Tree t(CAT(ROBOT, _links), CAT(ROBOT, _frames)); return t; }
const int N = rb::jointsCount;
typedef rb::JointState JS;

VX joints(Src& s, double m)
{
    VX q(N);
    int mode = s.i(0, 5);
    for (int i = 0; i < N; i++)
        q(i) = mode == 0 ? 0. : mode == 1 ? s.pick(std::vector<double>{0., M_PI / 2, -M_PI / 2, M_PI, -M_PI, 0.5}) * (m < 1 ? 0 : 1) : s.real(-m, m);
    return q;
}
V6 vec6(Src& s, double m) { V6 v; for (int i = 0; i < 6; i++) v(i) = s.real(-m, m); return v; }

const std::string RN = STR(ROBOT);
std::string key(const char* what) { return what + ("_" + RN); }
}

#if PART != 6
// ------------------------------------------------------------------ coordinate transforms
FACETX(CAT(transforms_, ROBOT), PART == 1 || PART == 5 ? 10 : 5)
{
    Quiet quiet;
    rb::HomogeneousTransforms H;
    rb::MotionTransforms X;
    rb::ForceTransforms F;
    rb::Jacobians J;
    const Tree& t = tree();
    int steps = s.i(1, 3);
    for (int k = 0; k < steps; k++)
    {
        VX q = joints(s, s.pick(std::vector<double>{0.3, 1.5, 3.2, 10.}));
        JS jq = q;
        int single = s.b() ? -1 : s.i(0, 200);
        int idx = 0;
        s.note("q", q.transpose());
#define ONE(m, A, B)                                     \
    if (single < 0 || idx % 7 == single % 7)             \
        require_transform(t, RN, #m, A, B, q, M4(H.m(jq)), M6(X.m(jq)), M6(F.m(jq))); \
    idx++;
        CAT(ROBOT, _TRANSFORMS)(ONE)
#define JAC(m, B) require_jacobian(t, RN, #m, B, q, MX(J.m(jq)));
        CAT(ROBOT, _JACOBIANS)(JAC)
        rb::dyn::InertiaProperties in;
        require_close(V3(rb::getWholeBodyCOM(in, jq, H)), t.com(q), 0, 1e-6, key("whole_body_com"), "whole-body centre of mass");
        if (q.norm() > 0)
            s.nontrivial();
    }
}

// ------------------------------------------------------------------ inertia parameters
FACETX(CAT(inertia_, ROBOT), 2)
{
    Quiet quiet;
    const Tree& t = tree();
    rb::dyn::InertiaProperties in;
    int k0 = s.i(0, (int)t.links.size() - 1);
    s.nontrivial();
    PBT_REQUIRE(close(in.getTotalMass(), t.mass(), 1e-6, 0), key("total_mass"), in.getTotalMass(), " expected ", t.mass());
#define INERTIA(n, U, k) \
    if (k == k0)         \
        require_inertia(RN, t.links[k], in.CAT(getMass_, n)(), in.CAT(getCOM_, n)(), in.CAT(getTensor_, n)());
    CAT(ROBOT, _LINKS)(INERTIA)
}

#endif
#if PART != 5
// ------------------------------------------------------------------ dynamics: random histories on shared model objects
FACETX(CAT(dynamics_, ROBOT), PART == 1 || PART == 6 ? 25 : 12)
{
    Quiet quiet;
    const Tree& t = tree();
    rb::dyn::InertiaProperties in;
    rb::MotionTransforms X;
    rb::ForceTransforms XF;
    rb::dyn::InverseDynamics ID(in, X);
    rb::dyn::ForwardDynamics FD(in, X);
    rb::dyn::JSIM M(in, XF);
    typedef rb::dyn::InverseDynamics::ExtForces Ext;
    const VX zero = VX::Zero(N);
    VX q = joints(s, 3.2), qd = VX::Zero(N), qdd = VX::Zero(N), tau = VX::Zero(N);
    V6 v0 = V6::Zero(), a0 = V6::Zero(), g = V6::Zero();
    bool haveQ = false;  // true: the shared transforms hold q
    int ops = s.i(1, 5);
    for (int op = 0; op < ops; op++)
    {
        int kind = s.i(0, FLOATING ? 5 : 4);
        bool newQ = s.p(7, 10) || !haveQ;
        if (newQ) q = joints(s, 3.2);
        double vs = s.pick(std::vector<double>{0., 1., 10.});
        for (int i = 0; i < N; i++) qd(i) = s.real(-vs, vs), qdd(i) = s.real(-20, 20), tau(i) = s.real(-50, 50);
        Ext ext(V6(V6::Zero()));
        std::vector<V6> fe = t.zeroF();
        bool withExt = s.b();
        if (withExt)
        {
#define EXT(n, U, k) { fe[k] = vec6(s, 30); ext[rb::U] = fe[k]; }
            CAT(ROBOT, _LINKS)(EXT)
        }
        JS jq = q, jqd = qd, jqdd = qdd, jt = tau, out;
        for (int i = 0; i < N; i++) out(i) = s.real(-1, 1);
        s.note("op", kind, " q=", q.transpose(), " qd=", qd.transpose(), " ext=", withExt);
        if (q.norm() > 0) s.nontrivial();
#if !FLOATING
        g << 0, 0, 0, 0, 0, -9.81;
        if (kind == 0)
        {
            if (newQ) ID.id(out, jq, jqd, jqdd, ext); else ID.id(out, jqd, jqdd, ext);
            require_close(out, t.fixedID(q, qd, qdd, g, fe), 1e-7, 1e-6, key("inverse_dynamics"), "id");
        }
        else if (kind == 1)
        {
            if (newQ) FD.fd(out, jq, jqd, jt, ext); else FD.fd(out, jqd, jt, ext);
            require_close(out, t.fixedFD(q, qd, tau, g, fe), 1e-5, 1e-5 * (1 + tau.norm()), key("forward_dynamics"), "fd");
        }
        else if (kind == 2)
        {
            if (newQ) ID.G_terms(out, jq); else ID.G_terms(out);
            require_close(out, t.fixedID(q, zero, zero, g, t.zeroF()), 1e-7, 1e-6, key("gravity_terms"), "G_terms");
        }
        else if (kind == 3)
        {
            if (newQ) ID.C_terms(out, jq, jqd); else ID.C_terms(out, jqd);
            require_close(out, t.fixedID(q, qd, zero, V6::Zero(), t.zeroF()), 1e-7, 1e-6, key("coriolis_terms"), "C_terms");
        }
#else
        for (int i = 0; i < 6; i++) g(i) = i < 3 ? 0 : s.real(-10, 10);
        v0 = vec6(s, 3);
        if (vs == 0) v0.setZero();
        a0 = vec6(s, 10);
        iit::rbd::VelocityVector ba = vec6(s, 1);
        iit::rbd::ForceVector bw = vec6(s, 1);
        VX acc(6 + N), both(6 + N), zacc = VX::Zero(6 + N);
        acc << a0, qdd;
        if (kind == 0)
        {
#if PART == 6
            kind = 5;  // HyQ's InverseDynamics::id does not compile with the installed Eigen (3.4)
#else
            if (newQ) ID.id(out, ba, g, v0, jq, jqd, jqdd, ext); else ID.id(out, ba, g, v0, jqd, jqdd, ext);
            V6 br = t.freeBase(q, qd, qdd, v0, g, fe);
            acc.head(6) = br;
            require_close(ba, br, 1e-6, 1e-6, key("inverse_dynamics_base"), "base acceleration of id");
            require_close(out, VX(t.full(q, qd, acc, v0, g, fe).tail(N)), 1e-6, 1e-5, key("inverse_dynamics"), "id");
#endif
        }
        if (kind == 1)
        {
            if (newQ) FD.fd(out, ba, v0, g, jq, jqd, jt, ext); else FD.fd(out, ba, v0, g, jqd, jt, ext);
            both << ba, out;
            require_close(both, t.floatFD(q, qd, tau, v0, g, fe), 1e-5, 1e-5 * (1 + tau.norm()), key("forward_dynamics"), "fd (base, joints)");
        }
        else if (kind == 2)
        {
            if (newQ) ID.G_terms_fully_actuated(bw, out, g, jq); else ID.G_terms_fully_actuated(bw, out, g);
            both << bw, out;
            require_close(both, t.full(q, zero, zacc, V6::Zero(), g, t.zeroF()), 1e-6, 1e-6, key("gravity_terms"), "G_terms (base, joints)");
        }
        else if (kind == 3)
        {
            if (newQ) ID.C_terms_fully_actuated(bw, out, v0, jq, jqd); else ID.C_terms_fully_actuated(bw, out, v0, jqd);
            both << bw, out;
            require_close(both, t.full(q, qd, zacc, v0, V6::Zero(), t.zeroF()), 1e-6, 1e-6, key("coriolis_terms"), "C_terms (base, joints)");
        }
        else if (kind == 5)
        {
            if (newQ) ID.id_fully_actuated(bw, out, g, v0, a0, jq, jqd, jqdd, ext); else ID.id_fully_actuated(bw, out, g, v0, a0, jqd, jqdd, ext);
            both << bw, out;
            require_close(both, t.full(q, qd, acc, v0, g, fe), 1e-6, 1e-6, key("id_fully_actuated"), "id_fully_actuated (base, joints)");
        }
#endif
        if (kind == 4)
        {
            M.update(jq);
            if (newQ) haveQ = false;
            MX m = M, Mr = t.massMatrix(q);
            if (!FLOATING) Mr = MX(Mr.bottomRightCorner(N, N));
            require_jsim(RN, m, Mr);
            M.computeL();
            M.computeInverse();
            require_factor(RN, m, M.getL(), M.getInverse());
        }
        else if (newQ)
            haveQ = true;
    }
}
#endif
