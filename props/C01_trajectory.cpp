// C01: discrete trajectories, interpolation and arrays against a list-of-samples model
#include <ct/core/core.h>
#include "gen.h"
using namespace pbt;
using namespace ct::core;

typedef StateVector<2> X;
typedef StateTrajectory<2> Traj;

namespace {
struct Model
{
    std::vector<double> t;
    std::vector<Eigen::Vector2d> x;
    InterpolationType type = ZOH;
};

X genX(Src& s)
{
    X v;
    v = gen::vec<2>(s, 5.0);
    return v;
}

//! reference evaluation: greatest index with t_i <= t, held or interpolated; end samples outside the range
Eigen::Vector2d refEval(const Model& m, double t, int* idx = nullptr)
{
    int n = m.t.size();
    int k = -1;
    for (int i = 0; i < n; i++)
        if (m.t[i] <= t)
            k = i;
    if (idx)
        *idx = std::max(k, 0);
    if (k < 0)
        return m.x.front();
    if (k == n - 1)
        return m.x.back();
    if (m.type == ZOH)
        return m.x[k];
    double w = (t - m.t[k]) / (m.t[k + 1] - m.t[k]);
    return (1 - w) * m.x[k] + w * m.x[k + 1];
}

double genGap(Src& s)
{
    if (s.p(1, 12))
        return 0.0;  // duplicate time stamps (switches)
    return s.logreal(1e-3, 3.0);
}

//! compare whole contents
void compare(const Traj& tr, const Model& m, const char* when)
{
    PBT_REQUIRE(tr.size() == m.t.size(), "size", when, " ", tr.size(), " vs model ", m.t.size());
    for (size_t i = 0; i < m.t.size(); i++)
    {
        PBT_REQUIRE(close(tr.getTimeFromIndex(i), m.t[i], 1e-12, 1e-12), "time", when, " i=", i, " ", tr.getTimeFromIndex(i), " vs ",
            m.t[i]);
        PBT_REQUIRE(tr[i] == m.x[i], "data", when, " i=", i);
        PBT_REQUIRE(tr.getDataArray()[i] == m.x[i] && tr.getTimeArray()[i] == tr.getTimeFromIndex(i), "data", when, " arrays i=", i);
    }
    if (!m.t.empty())
    {
        PBT_REQUIRE(tr.front() == m.x.front() && tr.back() == m.x.back(), "data", when, " front/back");
        PBT_REQUIRE(close(tr.startTime(), m.t.front(), 1e-12, 1e-12) && close(tr.finalTime(), m.t.back(), 1e-12, 1e-12), "time", when,
            " start/final time");
        PBT_REQUIRE(close(tr.duration(), m.t.back() - m.t.front(), 1e-9, 1e-10), "time", when, " duration ", tr.duration());
    }
}

void query(Src& s, Traj& tr, Model m, const char* when)
{
    int n = m.t.size();
    if (n == 0)
    {
        bool threw = false;
        try
        {
            if (s.b())
                tr.eval(s.real(-1, 1));
            else
                tr.getIndexFromTime(0.3);
        } catch (const std::exception&)
        {
            threw = true;
        }
        PBT_REQUIRE(threw, "empty-query", "query on an empty trajectory must be refused");
        s.label("query-empty");
        return;
    }
    for (int i = 0; i < n; i++)
        m.t[i] = tr.getTimeFromIndex(i);  // already checked close to the model
    double q;
    int kind = s.i(0, 3);
    if (kind == 0)
        q = m.t[s.i(0, n - 1)];
    else if (kind == 1)
    {
        int k = s.i(0, n - 1);
        double hi = k + 1 < n ? m.t[k + 1] : m.t[k] + 1.0;
        q = m.t[k] + (hi - m.t[k]) * s.real(0.05, 0.95);
    }
    else if (kind == 2)
        q = m.t.front() - s.logreal(1e-6, 1e3);
    else
        q = m.t.back() + s.logreal(1e-6, 1e3);
    int idx;
    Eigen::Vector2d ref = refEval(m, q, &idx);
    if (s.b())
    {
        X v = tr.eval(q);
        PBT_REQUIRE(mclose(v, ref, 1e-9, 1e-9), "eval", when, " t=", q, " got ", v.transpose(), " expected ", ref.transpose());
        if (kind == 0 && (m.type == ZOH || n > 1))
            PBT_REQUIRE(mclose(v, m.x[idx], 1e-12, 1e-12), "eval-node", "node value not reproduced at t=", q);
    }
    else
    {
        size_t k = tr.getIndexFromTime(q);
        PBT_REQUIRE((int)k == idx, "index", when, " t=", q, " index ", k, " expected ", idx);
    }
    if (kind == 1 && n > 2)
        s.nontrivial();
}
}  // namespace

FACET(history, 10)
{
    Model m, m2;
    m.type = s.b() ? LIN : ZOH;
    std::unique_ptr<Traj> tr;
    int n0 = s.i(0, 7);
    double t = s.real(-4, 4);
    if (s.b())
    {
        StateVectorArray<2> data;
        TimeArray time;
        for (int i = 0; i < n0; i++)
        {
            X v = genX(s);
            data.push_back(v);
            time.push_back(t);
            m.t.push_back(t);
            m.x.push_back(v);
            t += genGap(s);
        }
        tr.reset(new Traj(time, data, m.type));
    }
    else
    {
        n0 = std::max(n0, 2);
        double dt = s.logreal(1e-3, 2.0);
        StateVectorArray<2> data;
        for (int i = 0; i < n0; i++)
        {
            X v = genX(s);
            data.push_back(v);
            m.t.push_back(t + i * dt);
            m.x.push_back(v);
        }
        tr.reset(new Traj(data, dt, t, m.type));
        s.label("uniform");
    }
    s.note(m.type == LIN ? "LIN" : "ZOH", " n0=", n0);
    Traj other(s.b() ? LIN : ZOH);
    m2.type = ZOH;
    other.setInterpolationType(ZOH);
    compare(*tr, m, "after construction");
    int ops = s.i(1, 30);
    for (int o = 0; o < ops; o++)
    {
        int op = s.i(0, 15);
        int n = m.t.size();
        switch (op)
        {
            case 0:
            case 1:
            case 2:
            case 3:
                query(s, *tr, m, "query");
                s.note("q");
                break;
            case 4:
            {
                X v = genX(s);
                double gap = genGap(s);
                if (n == 0 || s.b())
                {
                    double tt = n ? tr->finalTime() + gap : s.real(-3, 3);
                    tr->push_back(v, tt, true);
                    m.t.push_back(tt);
                }
                else
                {
                    tr->push_back(v, gap, false);
                    m.t.push_back(m.t.back() + gap);
                }
                m.x.push_back(v);
                s.note("push");
                break;
            }
            case 5:
                if (n)
                {
                    tr->pop_back();
                    m.t.pop_back();
                    m.x.pop_back();
                    s.note("pop");
                }
                break;
            case 6:
            case 7:
                if (n)
                {
                    int k = s.i(0, n);
                    double dt = s.b() ? 0.0 : s.real(-2, 2);
                    if (dt == 0.0 && s.b())
                        tr->eraseFront(k);
                    else
                        tr->eraseFront(k, dt);
                    m.t.erase(m.t.begin(), m.t.begin() + k);
                    m.x.erase(m.x.begin(), m.x.begin() + k);
                    for (auto& v : m.t)
                        v -= dt;
                    s.note("erase ", k, " shift ", dt);
                    s.label("erase");
                }
                break;
            case 8:
            {
                double dt = s.real(-3, 3);
                tr->shiftTime(dt);
                for (auto& v : m.t)
                    v -= dt;
                s.note("shift ", dt);
                break;
            }
            case 9:
                m.type = s.b() ? LIN : ZOH;
                tr->setInterpolationType(m.type);
                break;
            case 10:
                if (s.p(1, 3))
                {
                    tr->clear();
                    m.t.clear();
                    m.x.clear();
                    s.note("clear");
                }
                break;
            case 11:
            {  // copy / assignment carry samples and interpolation type, and are independent
                if (s.b())
                {
                    Traj c(*tr);
                    compare(c, m, "copy");
                    query(s, c, m, "copy");
                    if (n)
                    {
                        c[0] = genX(s);
                        c.shiftTime(1.0);
                        compare(*tr, m, "original after editing the copy");
                    }
                }
                else
                {
                    other = *tr;
                    m2 = m;
                    compare(other, m2, "assigned");
                    query(s, other, m2, "assigned");
                }
                s.label("copy");
                break;
            }
            case 12:
            {  // swap exchanges samples, not the interpolation type
                tr->swapData(other);
                std::swap(m.t, m2.t);
                std::swap(m.x, m2.x);
                compare(other, m2, "swapped");
                query(s, other, m2, "swapped");
                s.label("swap");
                break;
            }
            case 13:
                if (n)
                {
                    int k = s.i(0, n - 1);
                    X v = genX(s);
                    (*tr)[k] = v;
                    m.x[k] = v;
                }
                break;
            case 14:
                if (n)
                {  // sub-trajectory, end index included
                    int a = s.i(0, n - 1), b = s.i(a, n - 1);
                    Traj sub(*tr, a, b);
                    Model ms;
                    ms.type = m.type;
                    ms.t.assign(m.t.begin() + a, m.t.begin() + b + 1);
                    ms.x.assign(m.x.begin() + a, m.x.begin() + b + 1);
                    compare(sub, ms, "sub-trajectory");
                    query(s, sub, ms, "sub-trajectory");
                    s.label("sub");
                }
                break;
            case 15:
            {  // replace data and time
                int k = s.i(1, 6);
                StateVectorArray<2> data;
                TimeArray time;
                m.t.clear();
                m.x.clear();
                double tt = s.real(-2, 2);
                for (int i = 0; i < k; i++)
                {
                    X v = genX(s);
                    data.push_back(v);
                    time.push_back(tt);
                    m.t.push_back(tt);
                    m.x.push_back(v);
                    tt += genGap(s);
                }
                tr->setData(data);
                tr->setTime(time);
                s.note("reset ", k);
                break;
            }
        }
        compare(*tr, m, "after op");
        query(s, *tr, m, "after op");
    }
}

FACET(scalarAndMatrix, 2)
{  // scalar and matrix valued trajectories follow the same rule; result does not depend on earlier queries
    int n = s.i(1, 8);
    TimeArray time;
    ScalarArray<double> d;
    FeedbackArray<2, 1> fb;
    double t = s.real(-2, 2);
    for (int i = 0; i < n; i++)
    {
        time.push_back(t);
        d.push_back(s.real(-9, 9));
        FeedbackMatrix<2, 1> K;
        K << s.real(-3, 3), s.real(-3, 3);
        fb.push_back(K);
        t += s.logreal(1e-2, 2);
    }
    auto type = s.b() ? LIN : ZOH;
    DiscreteTrajectoryBase<double, Eigen::aligned_allocator<double>, double> a(time, d, type);
    FeedbackTrajectory<2, 1> f(time, fb, type);
    double qlo = time.front() - 1, qhi = time.back() + 1;
    int nq = s.i(1, 10);
    s.note("n=", n, " type=", (int)type);
    for (int k = 0; k < nq; k++)
    {
        double q = s.real(qlo, qhi);
        int j = -1;
        for (int i = 0; i < n; i++)
            if (time[i] <= q)
                j = i;
        double ref;
        Eigen::RowVector2d rf;
        if (j < 0)
            ref = d.front(), rf = fb.front();
        else if (j == n - 1)
            ref = d.back(), rf = fb.back();
        else if (type == ZOH)
            ref = d[j], rf = fb[j];
        else
        {
            double w = (q - time[j]) / (time[j + 1] - time[j]);
            ref = d[j] + w * (d[j + 1] - d[j]);
            rf = fb[j] + w * (fb[j + 1] - fb[j]);
        }
        PBT_REQUIRE(close(a.eval(q), ref, 1e-9, 1e-9), "eval", "scalar t=", q, " ", a.eval(q), " vs ", ref);
        PBT_REQUIRE(mclose(f.eval(q), rf, 1e-9, 1e-9), "eval", "feedback t=", q);
        DiscreteTrajectoryBase<double, Eigen::aligned_allocator<double>, double> fresh(time, d, type);
        PBT_REQUIRE(fresh.eval(q) == a.eval(q), "history", "value depends on earlier queries, t=", q);
    }
    if (n > 2)
        s.nontrivial();
}

FACET(arrays, 3)
{  // arithmetic on arrays of samples is element-wise and refuses different lengths
    int n = s.i(0, 8);
    StateVectorArray<2> a, b;
    for (int i = 0; i < n; i++)
    {
        X u = genX(s), v = genX(s);
        a.push_back(u);
        b.push_back(v);
    }
    double k = s.logreal(1e-2, 10) * (s.b() ? 1 : -1);
    auto sum = a + b;
    auto dif = a - b;
    auto mul = a * k;
    auto quo = a / k;
    StateVectorArray<2> pa(a), ma(a);
    pa += b;
    ma -= b;
    PBT_REQUIRE((int)sum.size() == n && (int)dif.size() == n && (int)mul.size() == n && (int)quo.size() == n, "size", "result length");
    for (int i = 0; i < n; i++)
    {
        Eigen::Vector2d u = a[i], v = b[i];
        PBT_REQUIRE(mclose(sum[i], u + v) && mclose(dif[i], u - v) && mclose(mul[i], u * k) && mclose(quo[i], u / k) &&
                        mclose(pa[i], u + v) && mclose(ma[i], u - v),
            "arith", "element ", i);
    }
    X off = genX(s), cst = genX(s);
    StateVectorArray<2> o(a), c(a), e(a);
    o.addOffset(off);
    c.setConstant(cst);
    int cut = s.i(0, n);
    e.eraseFront(cut);
    PBT_REQUIRE((int)e.size() == n - cut, "size", "eraseFront");
    for (int i = 0; i < n; i++)
        PBT_REQUIRE(mclose(o[i], a[i] + off) && c[i] == cst, "arith", "offset/constant ", i);
    for (int i = 0; i < n - cut; i++)
        PBT_REQUIRE(e[i] == a[i + cut], "arith", "eraseFront ", i);
    StateVectorArray<2> longer(a);
    longer.push_back(off);
    int threw = 0;
    try { a + longer; } catch (const std::exception&) { threw++; }
    try { longer - a; } catch (const std::exception&) { threw++; }
    try { StateVectorArray<2> z(a); z += longer; } catch (const std::exception&) { threw++; }
    try { StateVectorArray<2> z(a); z -= longer; } catch (const std::exception&) { threw++; }
    PBT_REQUIRE(threw == 4, "length-mismatch", "operands of different length must be refused, refused ", threw, " of 4");
    // uniform time grids
    int N = s.i(2, 40);
    double dt = s.logreal(1e-4, 5), t0 = s.real(-10, 10);
    TimeArray grid(dt, (size_t)N, t0);
    PBT_REQUIRE((int)grid.size() == N, "size", "uniform grid");
    for (int i = 0; i < N; i++)
        PBT_REQUIRE(close(grid[i], t0 + i * dt, 1e-9, 1e-9 * dt), "grid", "uniform grid i=", i, " ", grid[i], " vs ", t0 + i * dt);
    s.note("n=", n, " N=", N, " dt=", dt);
    if (n > 1)
        s.nontrivial();
}

namespace {
// a fixed-size type of the toolbox built or assigned from an expression holds the expression's value
template <class T>
void valueType(Src& s, const char* what)
{
    typedef Eigen::Matrix<double, T::RowsAtCompileTime, T::ColsAtCompileTime> M;
    M a, b;
    for (int i = 0; i < a.size(); i++)
        a.data()[i] = s.real(-3, 3), b.data()[i] = s.real(-3, 3);
    const double k = s.real(-2, 2);
    const M ref = k * a + b;
    T x(k * a + b), y = T::Zero(), z;
    y = k * a + b;
    z = x;
    T c(x);
    PBT_REQUIRE(mclose(M(x), ref) && mclose(M(y), ref) && mclose(M(z), ref) && mclose(M(c), ref), std::string(what), "value ", gen::str(ref), " constructed ", gen::str(M(x)), " assigned ", gen::str(M(y)));
    x = M::Zero();
    PBT_REQUIRE(x.isZero() && M(z) == M(c) && mclose(M(c), ref), std::string(what), "copies are not independent");
    y.toImplementation() = a;
    PBT_REQUIRE(M(y) == a, std::string(what), "the underlying matrix is another object");
    // arrays of it: filled, resized, from iterators, swapped, assigned to itself
    const int n = s.i(1, 6);
    DiscreteArray<T> f(n, T(a)), g;
    PBT_REQUIRE((int)f.size() == n, std::string(what), "size of a filled array");
    for (auto& v : f)
        PBT_REQUIRE(M(v) == a, std::string(what), "filled array");
    f.back() = b;
    const int from = s.i(0, n - 1), to = s.i(from, n);
    DiscreteArray<T> part(f.begin() + from, f.begin() + to);
    PBT_REQUIRE((int)part.size() == to - from, std::string(what), "segment has ", part.size(), " elements");
    for (int i = from; i < to; i++)
        PBT_REQUIRE(M(part[i - from]) == M(f[i]), std::string(what), "segment element ", i);
    DiscreteArray<T>& self = f;
    f = self;
    g.swap(f);
    PBT_REQUIRE(f.size() == 0 && (int)g.size() == n && M(g.back()) == b && M(g.front()) == (n == 1 ? b : a), std::string(what), "swap / self-assignment");
}
}  // namespace

FACET(types, 2)
{
    valueType<StateVector<3>>(s, "StateVector");
    valueType<ControlVector<2>>(s, "ControlVector");
    valueType<OutputVector<2>>(s, "OutputVector");
    valueType<StateMatrix<3>>(s, "StateMatrix");
    valueType<ControlMatrix<2>>(s, "ControlMatrix");
    valueType<OutputMatrix<2>>(s, "OutputMatrix");
    valueType<StateControlMatrix<3, 2>>(s, "StateControlMatrix");
    valueType<OutputStateMatrix<2, 3>>(s, "OutputStateMatrix");
    valueType<FeedbackMatrix<3, 2>>(s, "FeedbackMatrix");
    // scalar and time arrays
    const int n = s.i(0, 6);
    std::vector<double> v(n);
    for (auto& e : v)
        e = s.real(-5, 5);
    ScalarArray<double> sa(v);
    TimeArray ta(v);
    PBT_REQUIRE((int)sa.size() == n && (int)ta.size() == n, "scalar-array", "sizes ", sa.size(), " ", ta.size(), " for ", n, " values");
    for (int i = 0; i < n; i++)
        PBT_REQUIRE(sa[i] == v[i] && ta[i] == v[i], "scalar-array", "element ", i);
    auto e = sa.toEigenTrajectory();
    ScalarArray<double> back;
    back.fromEigenTrajectory(e);
    PBT_REQUIRE((int)e.size() == n && (int)back.size() == n, "scalar-array", "Eigen round trip: size");
    for (int i = 0; i < n; i++)
        PBT_REQUIRE(e[i](0, 0) == v[i] && back[i] == v[i], "scalar-array", "Eigen round trip: element ", i);
    const double val = s.real(-5, 5);
    TimeArray filled((size_t)n, val);
    ScalarArray<double> sf((size_t)n, val);
    PBT_REQUIRE((int)filled.size() == n && (int)sf.size() == n, "scalar-array", "filled: size ", filled.size());
    for (int i = 0; i < n; i++)
        PBT_REQUIRE(filled[i] == val && sf[i] == val, "scalar-array", "filled: element ", i);
    s.note("n=", n);
    if (n)
        s.nontrivial();
}
