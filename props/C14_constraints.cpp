// C14: constraint terms, analytical constraint containers and switched constraint containers
#include "gen.h"
#include <ct/core/core.h>
#include <ct/optcon/constraint/constraint.h>
#include <ct/optcon/constraint/constraint-impl.h>
using namespace pbt;
using namespace ct::optcon;
namespace core = ct::core;

static const size_t N = 4, M = 3;
typedef ConstraintBase<N, M> Con;
typedef ConstraintContainerAnalytical<N, M> Container;
typedef LinearConstraintContainer<N, M> LinCon;
typedef core::StateVector<N> SV;
typedef core::ControlVector<M> CV;
typedef Eigen::VectorXd VX;
typedef Eigen::MatrixXd MX;
typedef Eigen::VectorXi VI;

//! user constraint: r rows g_i = a_i.x + b_i.u + c_i*sin(x_k+t)*u_l + d_i*x_p*x_q ; default sparse implementation
struct NonlinParams
{
    MX a, b;
    VX c, d;
    VI k, l, p, q;
    VX lb, ub;
    VX value(const SV& x, const CV& u, double t) const
    {
        VX g(a.rows());
        for (int i = 0; i < g.size(); i++)
            g(i) = a.row(i).dot(x) + b.row(i).dot(u) + c(i) * std::sin(x(k(i)) + t) * u(l(i)) + d(i) * x(p(i)) * x(q(i));
        return g;
    }
    MX dx(const SV& x, const CV& u, double t) const
    {
        MX J = a;
        for (int i = 0; i < a.rows(); i++)
        {
            J(i, k(i)) += c(i) * std::cos(x(k(i)) + t) * u(l(i));
            J(i, p(i)) += d(i) * x(q(i));
            J(i, q(i)) += d(i) * x(p(i));
        }
        return J;
    }
    MX du(const SV& x, const CV& u, double t) const
    {
        MX J = b;
        for (int i = 0; i < a.rows(); i++)
            J(i, l(i)) += c(i) * std::sin(x(k(i)) + t);
        return J;
    }
};
static NonlinParams genNonlin(Src& s)
{
    NonlinParams n;
    int r = s.i(1, 3);
    n.a = gen::matX(s, r, N, 2);
    n.b = gen::matX(s, r, M, 2);
    n.c.resize(r), n.d.resize(r), n.lb.resize(r), n.ub.resize(r);
    n.k.resize(r), n.l.resize(r), n.p.resize(r), n.q.resize(r);
    for (int i = 0; i < r; i++)
    {
        n.c(i) = s.real(-2, 2), n.d(i) = s.real(-2, 2);
        n.k(i) = s.i(0, N - 1), n.l(i) = s.i(0, M - 1), n.p(i) = s.i(0, N - 1), n.q(i) = s.i(0, N - 1);
        n.lb(i) = s.real(-4, 1), n.ub(i) = n.lb(i) + s.real(0, 4);
    }
    return n;
}
class DenseCon : public Con
{
public:
    DenseCon(const NonlinParams& p) : p_(p)
    {
        lb_ = p.lb;
        ub_ = p.ub;
    }
    DenseCon(const DenseCon& o) : Con(o), p_(o.p_) {}
    DenseCon* clone() const override { return new DenseCon(*this); }
    size_t getConstraintSize() const override { return p_.a.rows(); }
    VX evaluate(const SV& x, const CV& u, const double t) override { return p_.value(x, u, t); }
    MX jacobianState(const SV& x, const CV& u, const double t) override { return p_.dx(x, u, t); }
    MX jacobianInput(const SV& x, const CV& u, const double t) override { return p_.du(x, u, t); }
    NonlinParams p_;
};
//! user constraint with its own sparsity pattern, listed in a scrambled order
class SparseCon : public DenseCon
{
public:
    SparseCon(const NonlinParams& p, const std::vector<std::pair<int, int>>& px, const std::vector<std::pair<int, int>>& pu)
        : DenseCon(p), px_(px), pu_(pu)
    {
    }
    SparseCon* clone() const override { return new SparseCon(*this); }
    size_t getNumNonZerosJacobianState() const override { return px_.size(); }
    size_t getNumNonZerosJacobianInput() const override { return pu_.size(); }
    VX jacobianStateSparse(const SV& x, const CV& u, const double t) override { return take(p_.dx(x, u, t), px_); }
    VX jacobianInputSparse(const SV& x, const CV& u, const double t) override { return take(p_.du(x, u, t), pu_); }
    void sparsityPatternState(VI& r, VI& c) override { pat(px_, r, c); }
    void sparsityPatternInput(VI& r, VI& c) override { pat(pu_, r, c); }
    static VX take(const MX& J, const std::vector<std::pair<int, int>>& p)
    {
        VX v(p.size());
        for (size_t i = 0; i < p.size(); i++)
            v(i) = J(p[i].first, p[i].second);
        return v;
    }
    static void pat(const std::vector<std::pair<int, int>>& p, VI& r, VI& c)
    {
        r.resize(p.size()), c.resize(p.size());
        for (size_t i = 0; i < p.size(); i++)
            r(i) = p[i].first, c(i) = p[i].second;
    }
    std::vector<std::pair<int, int>> px_, pu_;
};

//! the definition of one constraint
struct Model
{
    std::string kind;
    int size;
    VX lb, ub;
    int nnzx = -1, nnzu = -1;  // known non-zero counts (box and terminal terms)
    std::function<VX(const SV&, const CV&, double)> g;
    std::function<MX(const SV&, const CV&, double)> gx, gu;
};
typedef std::pair<std::shared_ptr<Con>, Model> Built;

template <int D>
static MX selection(const VI& sp)
{
    MX S = MX::Zero(sp.sum(), D);
    for (int i = 0, r = 0; i < D; i++)
        if (sp(i))
            S(r++, i) = 1;
    return S;
}

template <class Cons, int D>
static Built buildBox(Src& s, bool isState)
{
    VI sp = VI::Ones(D);
    bool sparse = s.b();
    if (sparse)
    {
        for (int i = 0; i < D; i++)
            sp(i) = s.i(0, 1);
        if (sp.sum() == 0)
            sp(s.i(0, D - 1)) = 1;
    }
    VX lb(sp.sum()), ub(sp.sum());
    for (int i = 0; i < lb.size(); i++)
        lb(i) = s.real(-3, 1), ub(i) = lb(i) + (s.p(1, 4) ? 0.0 : s.real(0, 4));
    std::shared_ptr<Cons> c;
    if (sparse)
        c.reset(new Cons(lb, ub, sp));
    else
    {
        Eigen::Matrix<double, D, 1> l = lb, u = ub;
        typename std::conditional<D == (int)N, SV, CV>::type l2(l), u2(u);
        c.reset(new Cons(l2, u2));
    }
    Model m;
    m.kind = std::string(isState ? "state" : "input") + (sparse ? "-sparse" : "-full");
    m.size = lb.size(), m.lb = lb, m.ub = ub;
    MX S = selection<D>(sp);
    int sz = m.size;
    m.nnzx = isState ? sz : 0, m.nnzu = isState ? 0 : sz;
    m.g = [S, isState](const SV& x, const CV& u, double) -> VX {
        if (isState)
        {
            VX v = x;
            return MX(S) * v;
        }
        VX v = u;
        return MX(S) * v;
    };
    m.gx = [S, isState, sz](const SV&, const CV&, double) -> MX { return isState ? MX(S) : MX(MX::Zero(sz, N)); };
    m.gu = [S, isState, sz](const SV&, const CV&, double) -> MX { return isState ? MX(MX::Zero(sz, M)) : MX(S); };
    return Built(c, m);
}

static Built buildCon(Src& s)
{
    Model m;
    switch (s.i(0, 5))
    {
        case 0:
            return buildBox<ControlInputConstraint<N, M>, M>(s, false);
        case 1:
            return buildBox<StateConstraint<N, M>, N>(s, true);
        case 2:
        {
            SV xf(gen::vec<N>(s, 2));
            m.kind = "terminal";
            m.size = N, m.lb = VX::Zero(N), m.ub = VX::Zero(N), m.nnzx = N, m.nnzu = 0;
            m.g = [xf](const SV& x, const CV&, double) -> VX { return x - xf; };
            m.gx = [](const SV&, const CV&, double) -> MX { return MX::Identity(N, N); };
            m.gu = [](const SV&, const CV&, double) -> MX { return MX::Zero(N, M); };
            return Built(std::make_shared<TerminalConstraint<N, M>>(xf), m);
        }
        case 3:
        {
            // ellipsoid obstacle, point fixed to the state by an affine-plus-quadratic kinematic map
            Eigen::Vector3d x0 = gen::vec<3>(s, 2);
            Eigen::Matrix3d A = gen::mat<3, 3>(s, 1);
            for (int i = 0; i < 3; i++)
                A(i, i) += s.logreal(0.3, 3);
            Eigen::Quaterniond q(s.real(-1, 1) + 1.5, s.real(-1, 1), s.real(-1, 1), s.real(-1, 1));
            q.normalize();
            Eigen::Matrix3d R = q.toRotationMatrix();
            Eigen::Matrix<double, 3, (int)N> P = gen::mat<3, N>(s, 1.5);
            int k = s.i(0, N - 1);
            Eigen::Vector3d w = gen::vec<3>(s, 0.5);
            auto pos = [P, k, w](const SV& x, Eigen::Vector3d& y) {
                Eigen::Matrix<double, (int)N, 1> v = x;
                y = P * v + w * x(k) * x(k);
            };
            auto jac = [P, k, w](const SV& x, Eigen::Matrix<double, 3, (int)N>& J) {
                J = P;
                J.col(k) += 2 * w * x(k);
            };
            auto ell = std::make_shared<core::tpl::Ellipsoid<double>>(x0, A, R);
            m.kind = "obstacle", m.size = 1, m.lb = VX::Zero(1), m.ub = VX::Constant(1, std::numeric_limits<double>::max());
            // |A R^T (y - x0)|^2 - 1, negative inside
            auto scaled = [R, x0, A](const Eigen::Vector3d& y) -> Eigen::Vector3d { return A * (R.transpose() * (y - x0)); };
            m.g = [=](const SV& x, const CV&, double) -> VX {
                Eigen::Vector3d y;
                pos(x, y);
                Eigen::Vector3d z = scaled(y);
                double v = -1;
                for (int i = 0; i < 3; i++)
                    v += z(i) * z(i);
                return VX::Constant(1, v);
            };
            m.gx = [=](const SV& x, const CV&, double) -> MX {
                Eigen::Vector3d y;
                Eigen::Matrix<double, 3, (int)N> J;
                pos(x, y), jac(x, J);
                Eigen::Vector3d z = scaled(y);
                MX r = MX::Zero(1, N);
                for (int c = 0; c < (int)N; c++)
                {
                    Eigen::Vector3d dz = A * (R.transpose() * J.col(c));
                    for (int i = 0; i < 3; i++)
                        r(0, c) += 2 * z(i) * dz(i);
                }
                return r;
            };
            m.gu = [](const SV&, const CV&, double) -> MX { return MX::Zero(1, M); };
            return Built(std::make_shared<ObstacleConstraint<N, M>>(ell, pos, jac), m);
        }
        case 4:
        {
            NonlinParams p = genNonlin(s);
            m.kind = "user-dense", m.size = p.a.rows(), m.lb = p.lb, m.ub = p.ub;
            m.g = [p](const SV& x, const CV& u, double t) { return p.value(x, u, t); };
            m.gx = [p](const SV& x, const CV& u, double t) { return p.dx(x, u, t); };
            m.gu = [p](const SV& x, const CV& u, double t) { return p.du(x, u, t); };
            return Built(std::make_shared<DenseCon>(p), m);
        }
        default:
        {
            NonlinParams p = genNonlin(s);
            int r = p.a.rows();
            std::vector<std::pair<int, int>> px, pu;
            // mask out entries; only x- resp. u-linear so that masked entries are exactly zero
            p.c.setZero(), p.d.setZero();
            for (int i = 0; i < r; i++)
            {
                for (int c = 0; c < (int)N; c++)
                    if (s.b())
                        px.push_back({i, c});
                    else
                        p.a(i, c) = 0;
                for (int c = 0; c < (int)M; c++)
                    if (s.b())
                        pu.push_back({i, c});
                    else
                        p.b(i, c) = 0;
            }
            for (size_t i = px.size(); i > 1; i--)
                std::swap(px[i - 1], px[s.i(0, (int)i - 1)]);
            for (size_t i = pu.size(); i > 1; i--)
                std::swap(pu[i - 1], pu[s.i(0, (int)i - 1)]);
            m.kind = "user-sparse", m.size = r, m.lb = p.lb, m.ub = p.ub, m.nnzx = px.size(), m.nnzu = pu.size();
            m.g = [p](const SV& x, const CV& u, double t) { return p.value(x, u, t); };
            m.gx = [p](const SV& x, const CV& u, double t) { return p.dx(x, u, t); };
            m.gu = [p](const SV& x, const CV& u, double t) { return p.du(x, u, t); };
            return Built(std::make_shared<SparseCon>(p, px, pu), m);
        }
    }
}

typedef std::vector<Model> Models;
static int total(const Models& ms)
{
    int n = 0;
    for (auto& m : ms)
        n += m.size;
    return n;
}
static MX dense(int rows, int cols, const VX& v, const VI& r, const VI& c, const char* what)
{
    PBT_REQUIRE(v.size() == r.size() && r.size() == c.size(), "sparse-size", what, " values ", v.size(), " rows ", r.size());
    MX J = MX::Zero(rows, cols);
    std::set<std::pair<int, int>> seen;
    for (int i = 0; i < r.size(); i++)
    {
        PBT_REQUIRE(r(i) >= 0 && r(i) < rows && c(i) >= 0 && c(i) < cols, "sparse-index", what, " (", r(i), ",", c(i), ") of ", rows, "x", cols);
        PBT_REQUIRE(seen.insert({r(i), c(i)}).second, "sparse-duplicate", what, " (", r(i), ",", c(i), ")");
        J(r(i), c(i)) = v(i);
    }
    return J;
}

//! a container evaluated at (x,u,t) is the stacked list of constraints
static void compare(LinCon& c, const Models& mi, const Models& mt, const SV& x, const CV& u, double t, const char* tag)
{
    for (int term = 0; term < 2; term++)
    {
        const Models& ms = term ? mt : mi;
        int n = total(ms);
        std::string w = std::string(tag) + (term ? "/terminal" : "/intermediate");
        size_t cnt = term ? c.getTerminalConstraintsCount() : c.getIntermediateConstraintsCount();
        PBT_REQUIRE((int)cnt == n, "count", w, " ", cnt, " expected ", n);
        if (n == 0)
            continue;
        VX g(n), lb(n), ub(n), lov(n), upv(n);
        MX gx(n, N), gu(n, M);
        int o = 0, nnzx = 0, nnzu = 0;
        bool known = true;
        for (auto& m : ms)
        {
            g.segment(o, m.size) = m.g(x, u, t);
            lb.segment(o, m.size) = m.lb;
            ub.segment(o, m.size) = m.ub;
            gx.block(o, 0, m.size, N) = m.gx(x, u, t);
            gu.block(o, 0, m.size, M) = m.gu(x, u, t);
            o += m.size;
            known = known && m.nnzx >= 0;
            nnzx += m.nnzx, nnzu += m.nnzu;
        }
        for (int i = 0; i < n; i++)
            lov(i) = g(i) < lb(i) ? g(i) - lb(i) : 0, upv(i) = g(i) > ub(i) ? g(i) - ub(i) : 0;
        VX ge = term ? c.evaluateTerminal() : c.evaluateIntermediate();
        PBT_REQUIRE(mclose(ge, g, 1e-9, 1e-10), "value", w, " got ", gen::str(ge), " expected ", gen::str(g));
        VX l = term ? c.getLowerBoundsTerminal() : c.getLowerBoundsIntermediate();
        VX h = term ? c.getUpperBoundsTerminal() : c.getUpperBoundsIntermediate();
        PBT_REQUIRE(l.size() == n && l == lb, "lower-bound", w, " ", gen::str(l), " expected ", gen::str(lb));
        PBT_REQUIRE(h.size() == n && h == ub, "upper-bound", w, " ", gen::str(h), " expected ", gen::str(ub));
        VX lv = term ? c.getLowerBoundsViolationTerminal() : c.getLowerBoundsViolationIntermediate();
        VX hv = term ? c.getUpperBoundsViolationTerminal() : c.getUpperBoundsViolationIntermediate();
        VX tv = term ? c.getTotalBoundsViolationTerminal() : c.getTotalBoundsViolationIntermediate();
        PBT_REQUIRE(mclose(lv, lov, 1e-9, 1e-10), "lower-violation", w, " ", gen::str(lv), " expected ", gen::str(lov));
        PBT_REQUIRE(mclose(hv, upv, 1e-9, 1e-10), "upper-violation", w, " ", gen::str(hv), " expected ", gen::str(upv));
        VX tot = lov + upv;
        PBT_REQUIRE(mclose(tv, tot, 1e-9, 1e-10), "total-violation", w, " ", gen::str(tv), " expected ", gen::str(tot));
        MX Jx = term ? c.jacobianStateTerminal() : c.jacobianStateIntermediate();
        MX Ju = term ? c.jacobianInputTerminal() : c.jacobianInputIntermediate();
        PBT_REQUIRE(mclose(Jx, gx, 1e-9, 1e-10), "state-jacobian", w, " ", gen::str(Jx), " expected ", gen::str(gx));
        PBT_REQUIRE(mclose(Ju, gu, 1e-9, 1e-10), "input-jacobian", w, " ", gen::str(Ju), " expected ", gen::str(gu));
        VI r, cc;
        VX sx = term ? c.jacobianStateSparseTerminal() : c.jacobianStateSparseIntermediate();
        if (term)
            c.sparsityPatternStateTerminal(r, cc);
        else
            c.sparsityPatternStateIntermediate(r, cc);
        size_t nz = term ? c.getJacobianStateNonZeroCountTerminal() : c.getJacobianStateNonZeroCountIntermediate();
        PBT_REQUIRE((int)nz == r.size() && (!known || (int)nz == nnzx), "state-nonzeros", w, " ", nz, " pattern ", r.size());
        MX Dx = dense(n, N, sx, r, cc, "state");
        PBT_REQUIRE(mclose(Dx, gx, 1e-9, 1e-10), "sparse-state-jacobian", w, " ", gen::str(Dx), " expected ", gen::str(gx));
        VX su = term ? c.jacobianInputSparseTerminal() : c.jacobianInputSparseIntermediate();
        if (term)
            c.sparsityPatternInputTerminal(r, cc);
        else
            c.sparsityPatternInputIntermediate(r, cc);
        nz = term ? c.getJacobianInputNonZeroCountTerminal() : c.getJacobianInputNonZeroCountIntermediate();
        PBT_REQUIRE((int)nz == r.size() && (!known || (int)nz == nnzu), "input-nonzeros", w, " ", nz, " pattern ", r.size());
        MX Du = dense(n, M, su, r, cc, "input");
        PBT_REQUIRE(mclose(Du, gu, 1e-9, 1e-10), "sparse-input-jacobian", w, " ", gen::str(Du), " expected ", gen::str(gu));
    }
    PBT_REQUIRE((int)c.getConstraintsCount() == total(mi) + total(mt), "total-count", tag, " ", c.getConstraintsCount());
}
template <class F>
static bool throws(F f)
{
    try
    {
        f();
    }
    catch (const std::exception&)
    {
        return true;
    }
    return false;
}

//! a container (with its model) over a history of additions, evaluations and clones
struct Obj
{
    std::shared_ptr<Container> c;
    Models mi, mt;
    std::vector<std::shared_ptr<Con>> hi, ht;  // the caller's handles of the terms this container was given (none in copies)
    bool okI = false, okT = false;
    SV x = SV::Zero();
    CV u = CV::Zero();
    double t = 0;
};

static void evalAt(Src& s, Obj& o, const char* tag)
{
    o.x = SV(gen::vec<N>(s, 2)), o.u = CV(gen::vec<M>(s, 2)), o.t = s.real(-1, 3);
    o.c->setCurrentStateAndControl(o.x, o.u, o.t);
    compare(*o.c, o.mi, o.mt, o.x, o.u, o.t, tag);
}

FACET(container_history, 4)
{
    Quiet q;
    std::vector<Obj> objs(1);
    objs[0].c.reset(new Container());
    int steps = s.i(2, 16);
    bool cloned = false, added = false;
    for (int k = 0; k < steps; k++)
    {
        Obj& o = objs[s.i(0, (int)objs.size() - 1)];
        switch (s.i(0, 6))
        {
            case 6:
            {  // the caller changes a term it handed over: the container it gave it to follows, copies made before do not
                bool term = s.b();
                auto& h = term ? o.ht : o.hi;
                auto& m = term ? o.mt : o.mi;
                std::vector<int> ok;
                for (size_t i = 0; i < h.size(); i++)
                    if (h[i] && std::dynamic_pointer_cast<DenseCon>(h[i]) && !std::dynamic_pointer_cast<SparseCon>(h[i]))
                        ok.push_back(i);
                if (ok.empty())
                    break;
                int i = s.pick(ok);
                auto d = std::dynamic_pointer_cast<DenseCon>(h[i]);
                d->p_.a(0, s.i(0, N - 1)) += 1;
                NonlinParams p = d->p_;
                m[i].g = [p](const SV& x, const CV& u, double t) { return p.value(x, u, t); };
                m[i].gx = [p](const SV& x, const CV& u, double t) { return p.dx(x, u, t); };
                m[i].gu = [p](const SV& x, const CV& u, double t) { return p.du(x, u, t); };
                s.note("change ", term ? "T" : "I", i);
                s.label("changed-term");
                break;
            }
            case 0:
            {
                Built b = buildCon(s);
                s.note("addI ", b.second.kind);
                s.label(b.second.kind);
                o.c->addIntermediateConstraint(b.first, s.b());
                o.mi.push_back(b.second);
                o.hi.push_back(b.first);
                o.okI = false;
                added = true;
                break;
            }
            case 1:
            {
                Built b = buildCon(s);
                s.note("addT ", b.second.kind);
                o.c->addTerminalConstraint(b.first, s.b());
                o.mt.push_back(b.second);
                o.ht.push_back(b.first);
                o.okT = false;
                added = true;
                break;
            }
            case 2:
            {
                s.note("init");
                o.c->initialize();
                o.okI = o.okT = true;
                break;
            }
            case 3:
            {
                if (objs.size() < 4)
                {
                    Obj n = o;
                    n.hi.assign(n.hi.size(), nullptr);
                    n.ht.assign(n.ht.size(), nullptr);
                    n.c.reset(s.b() ? o.c->clone() : new Container(*o.c));
                    s.note("clone");
                    if (n.okI && n.okT)
                        compare(*n.c, n.mi, n.mt, n.x, n.u, n.t, "fresh-clone");
                    objs.push_back(n);
                    cloned = true;
                }
                break;
            }
            case 4:
                if (o.okI && o.okT)
                {
                    s.note("eval");
                    evalAt(s, o, "container");
                    if (o.mi.size() + o.mt.size() >= 2)
                        s.nontrivial();
                    break;
                }
            // falls through
            default:
                // use of a container that has not been initialised since the last addition is refused
                if (!o.mi.empty() && !o.okI)
                {
                    s.label("refused");
                    VI r, c;
                    PBT_REQUIRE(throws([&] { o.c->evaluateIntermediate(); }), "uninitialised", "evaluateIntermediate");
                    PBT_REQUIRE(throws([&] { o.c->jacobianStateIntermediate(); }), "uninitialised", "jacobianStateIntermediate");
                    PBT_REQUIRE(throws([&] { o.c->jacobianInputIntermediate(); }), "uninitialised", "jacobianInputIntermediate");
                    PBT_REQUIRE(throws([&] { o.c->jacobianStateSparseIntermediate(); }), "uninitialised", "sparse state");
                    PBT_REQUIRE(throws([&] { o.c->jacobianInputSparseIntermediate(); }), "uninitialised", "sparse input");
                    PBT_REQUIRE(throws([&] { o.c->sparsityPatternStateIntermediate(r, c); }), "uninitialised", "pattern state");
                    PBT_REQUIRE(throws([&] { o.c->sparsityPatternInputIntermediate(r, c); }), "uninitialised", "pattern input");
                }
                if (!o.mt.empty() && !o.okT)
                {
                    s.label("refused-terminal");
                    VI r, c;
                    PBT_REQUIRE(throws([&] { o.c->evaluateTerminal(); }), "uninitialised", "evaluateTerminal");
                    PBT_REQUIRE(throws([&] { o.c->jacobianStateTerminal(); }), "uninitialised", "jacobianStateTerminal");
                    PBT_REQUIRE(throws([&] { o.c->jacobianInputTerminal(); }), "uninitialised", "jacobianInputTerminal");
                    PBT_REQUIRE(throws([&] { o.c->jacobianStateSparseTerminal(); }), "uninitialised", "sparse state");
                    PBT_REQUIRE(throws([&] { o.c->jacobianInputSparseTerminal(); }), "uninitialised", "sparse input");
                    PBT_REQUIRE(throws([&] { o.c->sparsityPatternStateTerminal(r, c); }), "uninitialised", "pattern state");
                    PBT_REQUIRE(throws([&] { o.c->sparsityPatternInputTerminal(r, c); }), "uninitialised", "pattern input");
                }
        }
    }
    for (auto& o : objs)
    {
        o.c->initialize();
        evalAt(s, o, "end");
        if (o.mi.size() + o.mt.size() >= 2)
            s.nontrivial();
    }
    if (added && cloned)
        s.label("clone");
}

//! one term on its own: value and derivatives, its clone, and the derivative against differences of the value
FACET(terms, 2)
{
    Quiet q;
    Built b = buildCon(s);
    Model& m = b.second;
    s.label(m.kind);
    s.note(m.kind);
    std::shared_ptr<Con> cl(b.first->clone());
    std::string name = "c" + std::to_string(s.i(0, 99)), got;
    b.first->setName(name);
    b.first->getName(got);
    PBT_REQUIRE(got == name, "name", got);
    std::shared_ptr<Con> cl2(b.first->clone());
    cl2->getName(got);
    PBT_REQUIRE(got == name, "clone-name", got);
    for (int k = 0; k < 3; k++)
    {
        SV x(gen::vec<N>(s, 2));
        CV u(gen::vec<M>(s, 2));
        double t = s.real(-1, 2);
        for (auto& c : {b.first, cl, cl2})
        {
            PBT_REQUIRE((int)c->getConstraintSize() == m.size, "term-size", m.kind);
            VX g = c->evaluate(x, u, t), ge = m.g(x, u, t);
            PBT_REQUIRE(mclose(g, ge, 1e-9, 1e-10), "term-value", m.kind, " ", gen::str(g), " expected ", gen::str(ge));
            MX Jx = c->jacobianState(x, u, t), Ju = c->jacobianInput(x, u, t);
            PBT_REQUIRE(mclose(Jx, m.gx(x, u, t), 1e-9, 1e-10), "term-jx", m.kind, " ", gen::str(Jx));
            PBT_REQUIRE(mclose(Ju, m.gu(x, u, t), 1e-9, 1e-10), "term-ju", m.kind, " ", gen::str(Ju));
            PBT_REQUIRE(c->getLowerBound() == m.lb && c->getUpperBound() == m.ub, "term-bounds", m.kind);
            // the model's own derivative, against central differences (guards the oracle)
            for (int i = 0; i < (int)N; i++)
            {
                SV xp = x, xm = x;
                xp(i) += 1e-5, xm(i) -= 1e-5;
                VX d = (m.g(xp, u, t) - m.g(xm, u, t)) / 2e-5, e = m.gx(x, u, t).col(i);
                PBT_REQUIRE(mclose(d, e, 1e-5, 1e-5), "oracle", m.kind);
            }
        }
    }
    s.nontrivial();
}

FACET(box_refusals, 1)
{
    Quiet q;
    s.nontrivial();
    bool state = s.b();
    int D = state ? N : M;
    VI sp(D);
    for (int i = 0; i < D; i++)
        sp(i) = s.i(0, 1);
    if (sp.sum() == 0)
        sp(0) = 1;
    int n = sp.sum();
    VX lb(n), ub(n);
    for (int i = 0; i < n; i++)
        lb(i) = s.real(-2, 2), ub(i) = lb(i) + s.real(0, 2);
    int mode = s.i(0, 3);
    bool bad = mode != 0;
    bool full = false;
    if (mode == 1)
    {
        int k = s.i(0, n - 1);
        ub(k) = lb(k) - s.logreal(1e-6, 2);
    }
    else if (mode == 2)
    {
        bool low = s.b();
        (low ? lb : ub).conservativeResize(s.b() ? n - 1 : n + 1);
        for (int i = 0; i < lb.size(); i++)
            if (!std::isfinite(lb(i)) || i >= n)
                lb(i) = -3;
        for (int i = 0; i < ub.size(); i++)
            if (!std::isfinite(ub(i)) || i >= n)
                ub(i) = 5;
    }
    else if (mode == 3)
    {
        full = true;
        lb = gen::matX(s, D, 1, 2);
        ub = lb;
        for (int i = 0; i < D; i++)
            ub(i) += s.real(0, 2);
        int k = s.i(0, D - 1);
        bad = s.b();
        if (bad)
            ub(k) = lb(k) - s.logreal(1e-6, 2);
    }
    s.note("mode ", mode, " bad ", bad, " lb ", gen::str(lb), " ub ", gen::str(ub));
    bool t = throws([&] {
        if (full && state)
            StateConstraint<N, M> c((SV(lb)), SV(ub));
        else if (full)
            ControlInputConstraint<N, M> c((CV(lb)), CV(ub));
        else if (state)
            StateConstraint<N, M> c(lb, ub, sp);
        else
            ControlInputConstraint<N, M> c(lb, ub, sp);
    });
    PBT_REQUIRE(t == bad, bad ? "box-accepted" : "box-refused", "mode ", mode);
}

FACET(switched, 3)
{
    Quiet q;
    int nm = s.i(1, 3);
    std::vector<Models> mi(nm), mt(nm);
    core::Switched<std::shared_ptr<LinCon>> sw;
    for (int i = 0; i < nm; i++)
    {
        auto c = std::make_shared<Container>();
        int a = s.i(1, 2), b = s.i(0, 2);
        for (int k = 0; k < a; k++)
        {
            Built x = buildCon(s);
            c->addIntermediateConstraint(x.first, false), mi[i].push_back(x.second);
        }
        for (int k = 0; k < b; k++)
        {
            Built x = buildCon(s);
            c->addTerminalConstraint(x.first, false), mt[i].push_back(x.second);
        }
        if (s.b())
            c->initialize();
        sw.push_back(c);
    }
    int np = s.i(1, 4);
    std::vector<int> mode;
    std::vector<double> sTimes;
    double t = s.real(-1, 1);
    core::ContinuousModeSequence seq(t);
    sTimes.push_back(t);
    for (int i = 0; i < np; i++)
    {
        mode.push_back(s.i(0, nm - 1));
        t += s.logreal(0.1, 2);
        sTimes.push_back(t);
        seq.addPhase(mode.back(), t - sTimes[i]);
    }
    // the schedule's own switching times (accumulated durations)
    if (np > 1 && nm > 1)
        s.nontrivial();
    typedef SwitchedLinearConstraintContainer<N, M> SwC;
    std::vector<std::shared_ptr<SwC>> cs;
    std::vector<int> cur;
    std::vector<double> curT;
    std::vector<SV> cx;
    std::vector<CV> cu;
    cs.emplace_back(new SwC(sw, seq));
    cs[0]->initialize();
    cur.push_back(-1), curT.push_back(0), cx.push_back(SV::Zero()), cu.push_back(CV::Zero());
    int steps = s.i(1, 6);
    for (int k = 0; k < steps; k++)
    {
        int o = s.i(0, (int)cs.size() - 1);
        if (s.p(1, 4) && cs.size() < 3 && cur[o] >= 0)
        {
            cs.emplace_back(s.b() ? cs[o]->clone() : new SwC(*cs[o]));
            cur.push_back(cur[o]), curT.push_back(curT[o]), cx.push_back(cx[o]), cu.push_back(cu[o]);
            s.note("clone in phase ", cur[o]);
            s.label("clone");
            compare(*cs.back(), mi[mode[cur[o]]], mt[mode[np - 1]], cx[o], cu[o], curT[o], "switched-clone");
        }
        int ph = s.i(0, np - 1);
        double tau = sTimes[ph] + (sTimes[ph + 1] - sTimes[ph]) * s.ureal(0.01, 0.99);
        SV x(gen::vec<N>(s, 2));
        CV u(gen::vec<M>(s, 2));
        cs[o]->setCurrentStateAndControl(x, u, tau);
        s.note("t=", tau, " mode ", mode[ph]);
        cur[o] = ph, curT[o] = tau, cx[o] = x, cu[o] = u;
        for (size_t j = 0; j < cs.size(); j++)
            if (cur[j] >= 0)
                compare(*cs[j], mi[mode[cur[j]]], mt[mode[np - 1]], cx[j], cu[j], curT[j], j == (size_t)o ? "switched" : "switched-other");
    }
}
