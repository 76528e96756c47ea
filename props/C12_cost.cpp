// C12: cost functions: value, gradients and Hessians, composition of terms, loading from file
#include "cost_model.h"
namespace {
template <int N, int M>
void terms(Src& s)
{
    Quiet q;
    CostModel<N, M> m;
    CostFunctionAnalytical<N, M> c;
    int ni = s.i(0, 4), nf = s.i(0, 3);
    std::set<int> kinds;
    for (int i = 0; i < ni + nf; i++)
    {
        bool inter = i < ni;
        int k = s.p(1, 8) ? BARRIER : s.i(0, 5);
        kinds.insert(k);
        s.label(std::string(inter ? "intermediate-" : "final-") + kindName(k));
        auto t = TermModel<N, M>::draw(s, k, inter);
        t.name = "t" + std::to_string(i);
        auto p = t.make(s);
        if (s.p(1, 4))
            p.reset(p->clone());
        (inter ? m.inter : m.fin).push_back(t);
        size_t id = inter ? c.addIntermediateTerm(p) : c.addFinalTerm(p);
        PBT_REQUIRE(id == (size_t)(inter ? i : i - ni), "term-id", id);
        PBT_REQUIRE((inter ? c.getIntermediateTermById(id) : c.getFinalTermById(id)) == p, "term-by-id", id);
        PBT_REQUIRE((inter ? c.getIntermediateTermByName(t.name) : c.getFinalTermByName(t.name)) == p, "term-by-name", t.name);
    }
    c.initialize();
    for (int k = 0; k < 3; k++)
    {
        m.x = gen::vec<N>(s, 2);
        m.u = gen::vec<M>(s, 2);
        m.t = s.real(-3, 4);
        s.note("x=", gen::str(m.x), " u=", gen::str(m.u), " t=", m.t);
        c.setCurrentStateAndControl(m.x, m.u, m.t);
        compareCost<N, M>(c, m, "analytical");
        for (size_t i = 0; i < m.inter.size(); i++)
            PBT_REQUIRE(close(c.getIntermediateTermById(i)->eval(m.x, m.u, m.t),
                            (double)(m.inter[i].act.value(m.t) * m.inter[i].value(m.x.template cast<LD>(), m.u.template cast<LD>(), m.t)), 1e-10, 1e-10),
                "term-eval", i);
    }
    if (ni + nf > 1 && kinds.size() > 1)
        s.nontrivial();
}
template <int N, int M>
void simple(Src& s)
{
    CostModel<N, M> m;
    TermModel<N, M> a = TermModel<N, M>::draw(s, QUADRATIC, false), f = TermModel<N, M>::draw(s, QUADRATIC, false);
    a.Q = 0.5 * (a.Q + a.Q.transpose().eval());
    a.R = 0.5 * (a.R + a.R.transpose().eval());
    f.Q = 0.5 * (f.Q + f.Q.transpose().eval());
    f.R.setZero();
    CostFunctionQuadraticSimple<N, M> c(a.Q, a.R, a.xr, a.ur, f.xr, f.Q);
    a.Q *= 0.5;  // the simple cost is 1/2 x'Qx
    a.R *= 0.5;
    f.Q *= 0.5;
    m.inter.push_back(a);
    m.fin.push_back(f);
    m.x = gen::vec<N>(s, 2);
    m.u = gen::vec<M>(s, 2);
    m.t = s.real(-3, 4);
    c.setCurrentStateAndControl(m.x, m.u, m.t);
    compareCost<N, M>(c, m, "simple", false);
    CostFunctionQuadraticSimple<N, M> z;
    z.setCurrentStateAndControl(m.x, m.u, m.t);
    PBT_REQUIRE(z.evaluateIntermediate() == 0 && z.evaluateTerminal() == 0, "simple-default", "not zero");
    s.nontrivial();
}
template <int R, int C>
std::string matText(Src& s, const std::string& name, Eigen::Matrix<double, R, C>& m)
{
    std::string r = name + "\n{\n";
    double sc = 1;
    if (s.b())
    {
        sc = s.pick(std::vector<double>{0.5, 2, -1, 0.1, 3});
        r += "scaling " + num(sc) + "\n";
    }
    for (int i = 0; i < R; i++)
        for (int j = 0; j < C; j++)
        {
            if (s.p(1, 4))
                m(i, j) = 0;
            else
                r += "(" + std::to_string(i) + "," + std::to_string(j) + ") " + num(m(i, j)) + "\n";
            m(i, j) *= sc;
        }
    return r + "}\n";
}
template <int N, int M>
void fromFile(Src& s)
{
    Quiet q;
    CostModel<N, M> m;
    int n = s.i(1, 4);
    std::string text;
    std::vector<std::string> in, fn;
    for (int i = 0; i < n; i++)
    {
        int k = s.i(0, 4);
        bool fin = s.b();
        auto t = TermModel<N, M>::draw(s, k, false);
        std::string kn = kindName(k);
        if (s.b())
            kn[0] = std::toupper(kn[0]);
        text += "term" + std::to_string(i) + "\n{\nkind \"" + kn + "\"\ntype " + (fin ? "1" : "0") + "\n";
        t.name = "";
        if (s.p(2, 3))
        {
            t.name = "my term " + std::to_string(i);
            text += "name \"" + t.name + "\"\n";
        }
        if (!fin && s.b())
        {  // time activation read from the file
            t.act.on = true;
            std::string kind = s.pick(std::vector<std::string>{"single", "linear", "no-such-kind"});
            text += "time_activation\n{\nkind " + kind + "\n";
            double on = s.real(-2, 1), off = on + s.real(0, 3);
            if (kind == "single")
            {
                t.act.lo = on;
                t.act.hi = off;
                text += "t_on " + num(on) + "\nt_off " + num(off) + "\n";
            }
            else if (kind == "linear")
            {
                double v0 = s.real(-1, 2);
                t.act.lo = on;
                t.act.hi = off;
                t.act.b = s.real(-1, 1);
                t.act.a = v0 - t.act.b * on;
                text += "t_on " + num(on) + "\nt_off " + num(off) + "\nslope " + num(t.act.b) + "\nstartVal " + num(v0) + "\n";
            }
            else
                t.act.on = false;  // reported and ignored
            text += "}\n";
        }
        text += "weights\n{\n";
        switch (k)
        {
            case LINEAR:
                text += matText(s, "a", t.a) + matText(s, "b", t.b);
                if (s.b())
                    text += "c " + num(t.c) + "\n";
                else
                    t.c = 0;
                break;
            case SMOOTHABS:
                text += matText(s, "a", t.a) + matText(s, "b", t.b) + matText(s, "x_ref", t.xr) + matText(s, "u_ref", t.ur) + "alpha " + num(t.alpha) + "\n";
                break;
            case MIXED:
                text += matText(s, "P", t.P) + matText(s, "x_des", t.xr) + matText(s, "u_des", t.ur);
                break;
            default:
                text += matText(s, "Q", t.Q) + matText(s, "R", t.R);
                if (s.b())
                    text += matText(s, "x_des", t.xr);
                else
                    t.xr.setZero();
                if (s.b())
                    text += matText(s, "u_des", t.ur);
                else
                    t.ur.setZero();
        }
        text += "}\n}\n";
        (fin ? m.fin : m.inter).push_back(t);
        s.label(std::string("file-") + kindName(k));
    }
    TmpFile f(text);
    CostFunctionAnalytical<N, M> c;
    if (s.b())
    {  // whatever was in there is replaced
        c.addIntermediateTerm(TermModel<N, M>::draw(s, QUADRATIC, false).make(s));
        c.addFinalTerm(TermModel<N, M>::draw(s, QUADRATIC, false).make(s));
        c.loadFromConfigFile(f.name);
    }
    else
        c = CostFunctionAnalytical<N, M>(f.name);
    for (int w = 0; w < 2; w++)
    {
        auto& v = w ? m.fin : m.inter;
        for (size_t i = 0; i < v.size(); i++)
            if (v[i].name != "")
                PBT_REQUIRE((w ? c.getFinalTermByName(v[i].name) == c.getFinalTermById(i) : c.getIntermediateTermByName(v[i].name) == c.getIntermediateTermById(i)), "file-name", v[i].name);
    }
    for (int k = 0; k < 3; k++)
    {
        m.x = gen::vec<N>(s, 2);
        m.u = gen::vec<M>(s, 2);
        m.t = s.real(-3, 4);
        bool onEdge = false;
        for (auto& t : m.inter)
            onEdge = onEdge || (t.act.on && (m.t == t.act.lo || m.t == t.act.hi));
        if (onEdge)
            continue;
        c.setCurrentStateAndControl(m.x, m.u, m.t);
        compareCost<N, M>(c, m, "file");
    }
    if (n > 1)
        s.nontrivial();
}
//! the terms a configuration file cannot create still read their weights from one
template <int N, int M>
void termFile(Src& s)
{
    Quiet q;
    bool barrier = s.b();
    auto t = TermModel<N, M>::draw(s, barrier ? BARRIER : TRACKING, false);
    auto p = t.make(s);
    auto w = TermModel<N, M>::draw(s, t.kind, false);
    std::string text = "other\n{\nweights\n{\n";
    auto o = TermModel<N, M>::draw(s, t.kind, false);
    text += matText(s, "Q", o.Q) + matText(s, "R", o.R) + "}\n}\nmine\n{\nweights\n{\n";
    if (barrier)
    {
        Eigen::Matrix<double, N, N> A = w.al.asDiagonal(), U = w.hi.asDiagonal(), L = w.lo.asDiagonal();
        text += matText(s, "alpha", A) + matText(s, "upper_bound", U) + matText(s, "lower_bound", L);
        t.al = A.diagonal(), t.hi = U.diagonal(), t.lo = L.diagonal();
    }
    else
    {
        text += matText(s, "Q", w.Q) + matText(s, "R", w.R);
        t.Q = w.Q, t.R = w.R;
    }
    text += "}\n}\n";
    Eigen::Matrix<double, N, M> root = gen::mat<N, M>(s, 3), got;
    text += "root\n{\n";
    for (int i = 0; i < N; i++)
        for (int j = 0; j < M; j++)
            text += "(" + std::to_string(i) + "," + std::to_string(j) + ") " + num(root(i, j)) + "\n";
    text += "}\n";
    TmpFile f(text);
    std::shared_ptr<TermBase<N, M>> c(p->clone());
    c->loadConfigFile(f.name, "mine", s.b());
    loadMatrixCF(f.name, "root", got);
    PBT_REQUIRE(got == root, "file-root", gen::str(got), " expected ", gen::str(root));
    for (int k = 0; k < 3; k++)
    {
        Eigen::Matrix<double, N, 1> x = gen::vec<N>(s, 2);
        Eigen::Matrix<double, M, 1> u = gen::vec<M>(s, 2);
        double tt = s.real(-3, 4);
        bool edge = false;
        for (double e : t.tx)
            edge = edge || e == tt;
        for (double e : t.tu)
            edge = edge || e == tt;
        if (edge)
            continue;
        double v = c->evaluate(x, u, tt), r = (double)t.value(x.template cast<LD>(), u.template cast<LD>(), tt);
        double scale = 1;
        for (int i = 0; i < N && barrier; i++)
            scale += std::exp(t.al(i) * (x(i) - t.hi(i))) + std::exp(t.al(i) * (t.lo(i) - x(i)));
        PBT_REQUIRE(close(v, r, 1e-10, 1e-10 * (barrier ? scale : 1 + t.Q.cwiseAbs().sum() * 40 + t.R.cwiseAbs().sum() * 40)), "term-file", kindName(t.kind), " got ", v, " expected ", r);
    }
    s.label(kindName(t.kind));
    s.nontrivial();
}
}  // namespace
FACET(termFile, 1) { s.b() ? termFile<3, 2>(s) : termFile<2, 1>(s); }
FACET(composed, 6) { s.b() ? terms<3, 2>(s) : terms<2, 1>(s); }
FACET(simpleCost, 2) { s.b() ? simple<3, 2>(s) : simple<2, 1>(s); }
FACET(file, 3) { s.b() ? fromFile<3, 2>(s) : fromFile<2, 1>(s); }
FACET(refuse, 1)
{
    Quiet q;
    int k = s.i(0, 3);
    bool threw = false;
    try
    {
        CostFunctionAnalytical<2, 1> c;
        if (k == 0)
        {
            TmpFile f("term0\n{\nkind \"no-such-term\"\ntype 0\n}\n");
            c.loadFromConfigFile(f.name);
        }
        else if (k == 1)
        {
            TmpFile f("term0\n{\nkind \"quadratic\"\ntype " + std::to_string(s.i(2, 9)) + "\nweights\n{\n}\n}\n");
            c.loadFromConfigFile(f.name);
        }
        else if (k == 2)
            c.getIntermediateTermByName("absent");
        else
            c.getFinalTermByName("absent");
    } catch (const std::exception&)
    {
        threw = true;
    }
    PBT_REQUIRE(threw, "refuse", "case ", k);
}
