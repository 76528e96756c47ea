// C10: activation functions, sensor noise models, grids
#include "gen.h"
#include "tmpfile.h"
#include <ct/core/core.h>
#include <ct/core/common/activations/Activations.h>
using namespace pbt;
using namespace ct::core;
namespace {
std::string num(double v)
{
    std::ostringstream os;
    os << std::setprecision(17) << v;
    return os.str();
}
typedef std::shared_ptr<ct::core::tpl::ActivationBase<double>> ActPtr;
ActPtr byName(const std::string& activationKind)
{
    ActPtr c_i;
    CT_LOADABLE_ACTIVATIONS(double);
    return c_i;
}
void compare(Src& s, const ActPtr& a, bool active, double value, double t, const char* what)
{
    PBT_REQUIRE(a->isActive(t) == active, std::string(what) + "-active", "t ", t, " expected ", active);
    PBT_REQUIRE(close(a->computeActivation(t), value, 1e-10, 1e-12), std::string(what) + "-value", "t ", t, " got ", a->computeActivation(t), " expected ", value);
}
double pt(Src& s, std::vector<double> marks)
{  // at, near and away from the interesting points
    double m = s.pick(marks);
    switch (s.i(0, 3))
    {
        case 0:
            return m;
        case 1:
            return m - s.logreal(1e-6, 1);
        case 2:
            return m + s.logreal(1e-6, 1);
        default:
            return s.real(-10, 10);
    }
}
}  // namespace
FACET(single, 2)
{
    double on = s.real(-3, 3), off = on + s.real(0, 3);
    bool file = s.b();
    ActPtr a;
    if (file)
    {
        TmpFile f("term { t_on " + num(on) + "\n t_off " + num(off) + "\n }\n");
        a = byName("single");
        a->loadConfigFile(f.name, "term");
    }
    else
    {
        tpl::SingleActivation<double> orig(on, off);
        a.reset(new tpl::SingleActivation<double>(orig));
    }
    for (int k = 0; k < 4; k++)
    {
        double t = pt(s, {on, off, 0.5 * (on + off)});
        compare(s, a, t >= on && t < off, 1.0, t, "single");
    }
    s.nontrivial();
}
FACET(linear, 2)
{
    double on = s.real(-3, 3), off = on + s.real(0, 3), sl = s.real(-3, 3), v0 = s.real(-3, 3);
    ActPtr a;
    if (s.b())
    {
        TmpFile f("term { t_on " + num(on) + "\n t_off " + num(off) + "\n slope " + num(sl) + "\n startVal " + num(v0) + "\n }\n");
        a = byName("linear");
        a->loadConfigFile(f.name, "term");
    }
    else
        a.reset(new tpl::LinearActivation<double>(tpl::LinearActivation<double>(on, off, sl, v0)));
    for (int k = 0; k < 4; k++)
    {
        double t = pt(s, {on, off, 0.5 * (on + off)});
        compare(s, a, t >= on && t < off, v0 + sl * (t - on), t, "linear");
    }
    s.nontrivial();
}
FACET(rbf, 2)
{
    double mu = s.real(-3, 3), sg = s.logreal(0.1, 5);
    ActPtr a;
    if (s.b())
    {
        TmpFile f("term { mu " + num(mu) + "\n sigma " + num(sg) + "\n }\n");
        a = byName("rbf");
        a->loadConfigFile(f.name, "term");
    }
    else
        a.reset(new tpl::RBFGaussActivation<double>(tpl::RBFGaussActivation<double>(mu, sg)));
    for (int k = 0; k < 4; k++)
    {
        double t = mu + s.real(-3, 3) * sg;
        compare(s, a, true, std::exp(-0.5 * std::pow((t - mu) / sg, 2)) / (std::sqrt(2 * M_PI) * sg), t, "rbf");
    }
    s.nontrivial();
}
FACET(periodic, 3)
{
    double per = s.logreal(0.2, 3), frac = s.real(0, 1), off = s.real(0, 1) * (1 - frac) * per * 0.999, t0 = s.real(-2, 2), tend = t0 + s.real(0, 8);
    ActPtr a;
    bool file = s.b();
    if (file)
    {
        TmpFile f("term { active_percentage " + num(frac) + "\n period " + num(per) + "\n activation_offset " + num(off) + "\n period_offset " + num(t0) + "\n t_end " + num(tend) + "\n }\n");
        a = byName("periodic");
        a->loadConfigFile(f.name, "term");
        if (s.b())
            a.reset(new tpl::PeriodicActivation<double>(dynamic_cast<tpl::PeriodicActivation<double>&>(*a)));
    }
    else
    {
        tend = std::numeric_limits<double>::infinity();
        a.reset(new tpl::PeriodicActivation<double>(frac, per, off, t0));
    }
    bool in = false, out = false;
    for (int k = 0; k < 8; k++)
    {
        int cyc = s.i(-1, 4);
        double ph = s.i(0, 9) == 0 ? 0.0 : s.ureal(0, 1);
        double t = t0 + (cyc + ph) * per;
        double rel = (t - t0) - cyc * per;
        // stay clear of the exact switching instants (rounding of the phase)
        if (std::fabs(rel - off) < 1e-9 || std::fabs(rel - off - frac * per) < 1e-9 || std::fabs(rel) < 1e-9 || std::fabs(t - tend) < 1e-9 || std::fabs(rel - per) < 1e-9)
            continue;
        bool act = cyc >= 0 && t < tend && rel >= off && rel < off + frac * per;
        compare(s, a, act, 1.0, t, "periodic");
        (act ? in : out) = true;
    }
    if (in && out)
        s.nontrivial();
    s.label(file ? "file" : "constructor");
}
FACET(barrier, 3)
{
    double lb = s.real(-3, 3), ub = lb + s.real(0, 3), al = s.real(0.1, 3);
    bool hasL = true, hasU = true;
    std::shared_ptr<tpl::BarrierActivation<double>> a;
    int kind = s.i(0, 2);
    if (kind == 0)
    {
        hasL = s.i(0, 3) > 0;
        hasU = s.i(0, 3) > 0;
        TmpFile f("term { alpha " + num(al) + "\n" + (hasU ? " upper_bound " + num(ub) + "\n" : "") + (hasL ? " lower_bound " + num(lb) + "\n" : "") + " }\n");
        Quiet q;
        a = std::dynamic_pointer_cast<tpl::BarrierActivation<double>>(byName("barrier"));
        a->loadConfigFile(f.name, "term");
        s.label("file");
    }
    else
    {
        a.reset(new tpl::BarrierActivation<double>(ub, lb, al));
        if (kind == 2)
        {
            if (s.b())
            {
                lb = s.real(-3, 3);
                a->setLowerBoundOnly(lb, al);
                hasU = false;
            }
            else
            {
                ub = s.real(-3, 3);
                a->setUpperBoundOnly(ub, al);
                hasL = false;
            }
        }
    }
    for (int k = 0; k < 3; k++)
    {
        double x = s.real(-4, 4), U = hasU ? std::exp(al * (x - ub)) : 0, L = hasL ? std::exp(al * (lb - x)) : 0;
        PBT_REQUIRE(close(a->computeActivation(x), U + L, 1e-10, 1e-12), "barrier-value", "kind ", kind, " x ", x, " got ", a->computeActivation(x), " expected ", U + L);
        PBT_REQUIRE(close(a->firstOrderDerivative(x), al * (U - L), 1e-10, 1e-10 * (1 + U + L)), "barrier-first", "x ", x);
        PBT_REQUIRE(close(a->secondOrderDerivative(x), al * al * (U + L), 1e-10, 1e-12), "barrier-second", "x ", x);
    }
    s.nontrivial();
}
FACET(refused, 1)
{  // malformed activation descriptions are refused
    int k = s.i(0, 3);
    double a = s.real(-2, 2);
    std::string text, kind;
    if (k == 0)
    {
        kind = "barrier";
        text = "term { alpha 1.0\n upper_bound " + num(a) + "\n lower_bound " + num(a + s.logreal(0.01, 2)) + "\n }\n";
    }
    else if (k == 1)
    {
        kind = "barrier";
        text = "term { alpha -" + num(s.logreal(0.01, 3)) + "\n upper_bound 1.0\n lower_bound 0.0\n }\n";
    }
    else if (k == 2)
    {
        kind = "periodic";
        double per = s.logreal(0.2, 3), fr = s.real(0.1, 1);
        text = "term { active_percentage " + num(fr) + "\n period " + num(per) + "\n activation_offset " + num((1 - fr) * per + s.logreal(0.01, 1)) + "\n period_offset 0\n t_end 5\n }\n";
    }
    else
    {
        kind = s.pick(std::vector<std::string>{"single", "linear", "rbf", "periodic"});
        text = "term { nothing 1 }\n";
    }
    TmpFile f(text);
    bool threw = false;
    Quiet q;
    try
    {
        byName(kind)->loadConfigFile(f.name, "term");
    } catch (const std::exception&)
    {
        threw = true;
    }
    PBT_REQUIRE(threw, "refused", kind, " ", text);
}
FACET(quantization, 4)
{  // the quantized signal carries the rounding error over to the next sample of the same channel
    double q = s.logreal(0.01, 3), bias = s.real(-1, 1);
    auto m = s.b() ? QuantizationNoise::FLOOR : QuantizationNoise::ROUND;
    QuantizationNoise n(bias, q, m);
    std::map<int, double> rest, in, out;
    int ops = s.i(1, 25);
    for (int k = 0; k < ops; k++)
    {
        if (s.p(1, 12))
        {
            n.reset();
            rest.clear();
            in.clear();
            out.clear();
            continue;
        }
        bool vecCall = s.p(1, 4);
        int c0 = vecCall ? 0 : s.i(0, 5), c1 = vecCall ? 2 : c0;
        Eigen::Matrix<double, 3, 1> v = gen::vec<3>(s, 5), w = v;
        double x = v(0);
        if (vecCall)
            n.noisify<3>(v);
        else
            n.noisify(x, c0);
        for (int c = c0; c <= c1; c++)
        {
            double given = vecCall ? w(c) : w(0), got = (vecCall ? v(c) : x) - bias;
            double steps = got / q;
            PBT_REQUIRE(std::fabs(steps - std::round(steps)) < 1e-6, "quantum", "value ", got, " is no multiple of ", q);
            in[c] += given;
            out[c] += got;
            double r = in[c] - out[c];  // accumulated error stays below one quantum: nothing is lost or counted twice
            if (m == QuantizationNoise::FLOOR)
                PBT_REQUIRE(r > -1e-6 * q && r < q * (1 + 1e-6), "floor-rest", "channel ", c, " accumulated error ", r, " quantum ", q);
            else
                PBT_REQUIRE(std::fabs(r) < 0.5 * q * (1 + 1e-6), "round-rest", "channel ", c, " accumulated error ", r, " quantum ", q);
        }
        s.nontrivial();
        if (c1 > 1)
            s.label("channels");
    }
}
FACET(randomNoise, 1)
{
    double mean = s.real(-3, 3), r = s.logreal(0.01, 4);
    UniformNoise u(mean, r);
    GaussianNoise g(mean, r);
    double su = 0, sg = 0, sg2 = 0, su2 = 0;
    const int N = 2000;
    for (int i = 0; i < N; i++)
    {
        double a, b;
        if (i % 3 == 0)
        {
            a = u();
            b = g();
        }
        else if (i % 3 == 1)
        {
            double base = s.real(-2, 2);
            a = b = base;
            u.noisify(a);
            g.noisify(b);
            a -= base;
            b -= base;
        }
        else
        {
            a = u.gen<2>()(i % 2);
            b = g.gen<2>()(i % 2);
        }
        PBT_REQUIRE(a >= mean - r - 1e-9 && a <= mean + r + 1e-9, "uniform-range", "mean ", mean, " range ", r, " got ", a);
        su += a;
        su2 += (a - mean) * (a - mean);
        sg += b;
        sg2 += (b - mean) * (b - mean);
    }
    double k = 8 / std::sqrt((double)N);  // eight standard deviations
    PBT_REQUIRE(std::fabs(su / N - mean) < k * r, "uniform-mean", "mean ", mean, " got ", su / N);
    PBT_REQUIRE(std::fabs(sg / N - mean) < k * r, "gauss-mean", "mean ", mean, " got ", sg / N);
    PBT_REQUIRE(std::fabs(su2 / N / (r * r) - 1.0 / 3) < k, "uniform-variance", su2 / N / (r * r));
    PBT_REQUIRE(std::fabs(sg2 / N / (r * r) - 1) < 1.5 * k, "gauss-variance", sg2 / N / (r * r));
    s.nontrivial();
}
FACET(grid, 2)
{
    double a = s.real(-5, 5), b = s.real(-5, 5);
    int N = s.i(1, 40);
    TimeArray g = linspace<TimeArray>(a, b, N);
    PBT_REQUIRE((int)g.size() == N, "linspace-size", g.size());
    for (int i = 0; i < N; i++)
    {
        double e = N > 1 ? a + (b - a) * i / (N - 1) : a;
        PBT_REQUIRE(close(g[i], e, 1e-11, 1e-11), "linspace", "N ", N, " i ", i, " got ", g[i], " expected ", e);
    }
    StateVector<2> x, y;
    x = gen::vec<2>(s, 3);
    y = gen::vec<2>(s, 3);
    int M = s.i(2, 12);
    auto v = linspace<StateVectorArray<2>>(x, y, M);
    PBT_REQUIRE((int)v.size() == M, "linspace-size", v.size());
    for (int i = 0; i < M; i++)
        PBT_REQUIRE(mclose(v[i], x + (y - x) * (double(i) / (M - 1)), 1e-11, 1e-11), "linspace-vector", i);
    double dt = s.logreal(1e-3, 1), t0 = s.real(-3, 3);
    TimeArray ta(dt, N, t0);
    PBT_REQUIRE((int)ta.size() == N, "timearray-size", ta.size());
    for (int i = 0; i < N; i++)
        PBT_REQUIRE(close(ta[i], t0 + i * dt, 1e-11, 1e-11), "timearray", i);
    bool threw = false;
    try
    {
        linspace<TimeArray>(a, b, 0);
    } catch (const std::exception&)
    {
        threw = true;
    }
    PBT_REQUIRE(threw, "linspace-empty", "N=0 accepted");
    if (N > 2)
        s.nontrivial();
}
