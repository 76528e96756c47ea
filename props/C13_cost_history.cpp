// C13: cost functions under histories of clones, time shifts, reference updates and derivative tests
#include "cost_model.h"
namespace {
template <int N, int M>
struct Pair
{
    std::shared_ptr<CostFunctionQuadratic<N, M>> c;
    CostModel<N, M> m;
    bool simple = false;
    //! whether the effect of an update of the (state or control) reference is specified for all terms of the list
    bool updatable(const std::vector<TermModel<N, M>, Eigen::aligned_allocator<TermModel<N, M>>>& ts, bool control) const
    {
        for (auto& t : ts)
            if (t.kind == QUADMULT || t.kind == SMOOTHABS || (control && t.kind == MIXED))
                return false;
        return true;
    }
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
};
template <int N, int M>
void history(Src& s, bool simple)
{
    Quiet q;
    std::vector<std::shared_ptr<Pair<N, M>>> all;
    auto p = std::make_shared<Pair<N, M>>();
    p->simple = simple;
    if (simple)
    {
        auto a = TermModel<N, M>::draw(s, QUADRATIC, false), f = TermModel<N, M>::draw(s, QUADRATIC, false);
        a.Q = 0.5 * (a.Q + a.Q.transpose().eval());
        a.R = 0.5 * (a.R + a.R.transpose().eval());
        f.Q = 0.5 * (f.Q + f.Q.transpose().eval());
        f.R.setZero();
        p->c.reset(new CostFunctionQuadraticSimple<N, M>(a.Q, a.R, a.xr, a.ur, f.xr, f.Q));
        a.Q *= 0.5;
        a.R *= 0.5;
        f.Q *= 0.5;
        p->m.inter.push_back(a);
        p->m.fin.push_back(f);
    }
    else
    {
        p->c.reset(new CostFunctionAnalytical<N, M>());
        int ni = s.i(1, 3), nf = s.i(0, 2);
        for (int i = 0; i < ni + nf; i++)
        {
            int k = s.pick(std::vector<int>{QUADRATIC, LINEAR, TRACKING, QUADRATIC, MIXED, QUADMULT, SMOOTHABS});
            s.label(kindName(k));
            auto t = TermModel<N, M>::draw(s, k, i < ni);
            t.name = "t" + std::to_string(i);
            (i < ni ? p->m.inter : p->m.fin).push_back(t);
            i < ni ? p->c->addIntermediateTerm(t.make(s)) : p->c->addFinalTerm(t.make(s));
        }
    }
    p->m.x = gen::vec<N>(s, 2);
    p->m.u = gen::vec<M>(s, 2);
    p->m.t = s.real(-3, 4);
    p->c->setCurrentStateAndControl(p->m.x, p->m.u, p->m.t);
    all.push_back(p);
    int ops = s.i(1, 10), clones = 0, changes = 0;
    for (int o = 0; o < ops; o++)
    {
        auto& y = *all[s.i(0, (int)all.size() - 1)];
        int k = s.i(0, 8);
        switch (k)
        {
            case 0:
            case 1:
            {
                y.m.x = gen::vec<N>(s, 2);
                y.m.u = gen::vec<M>(s, 2);
                double t = s.real(-3, 4);
                y.m.t = t + y.m.shift;
                y.c->setCurrentStateAndControl(y.m.x, y.m.u, t);
                s.note("set t=", t);
                break;
            }
            case 2:
                if (all.size() < 5)
                {
                    auto n = std::make_shared<Pair<N, M>>(y);
                    n->c.reset(y.c->clone());
                    all.push_back(n);
                    clones++;
                    s.note("clone");
                }
                break;
            case 3:
                y.m.shift = s.real(-2, 2);
                y.c->shiftTime(y.m.shift);
                s.note("shift ", y.m.shift);
                changes++;
                break;
            case 4:
            {
                if (!y.updatable(y.m.inter, false))
                    break;
                Eigen::Matrix<double, N, 1> r = gen::vec<N>(s, 2);
                y.c->updateReferenceState(r);
                for (auto& t : y.m.inter)
                    if (t.kind == QUADRATIC || t.kind == MIXED)
                        t.xr = r;
                changes++;
                s.note("xref");
                break;
            }
            case 5:
            {
                if (!y.updatable(y.m.fin, false))
                    break;
                Eigen::Matrix<double, N, 1> r = gen::vec<N>(s, 2);
                y.c->updateFinalState(r);
                for (auto& t : y.m.fin)
                    if (t.kind == QUADRATIC || t.kind == MIXED)
                        t.xr = r;
                changes++;
                s.note("xfinal");
                break;
            }
            case 6:
            {
                if (!y.updatable(y.m.inter, true))
                    break;
                Eigen::Matrix<double, M, 1> r = gen::vec<M>(s, 2);
                y.c->updateReferenceControl(r);
                for (auto& t : y.m.inter)
                    if (t.kind == QUADRATIC)
                        t.ur = r;
                changes++;
                s.note("uref");
                break;
            }
            case 7:
            {  // the built-in derivative self-test agrees and leaves no trace
                bool st = s.b();
                double g = st ? y.m.grad(false).template head<N>().norm() : y.m.grad(false).template tail<M>().norm();
                bool ok = st ? y.c->stateDerivativeIntermediateTest() : y.c->controlDerivativeIntermediateTest();
                bool plain = true;  // the self-test's own differencing error is negligible for these terms
                for (auto& t : y.m.inter)
                    plain = plain && (t.kind == QUADRATIC || t.kind == LINEAR || t.kind == TRACKING);
                if (plain && g > 0.5 && y.m.scale(false) < 100)
                    PBT_REQUIRE(ok, "self-test", st ? "state" : "control", " gradient norm ", g);
                s.note("selftest");
                break;
            }
            default:
                if (!y.simple)
                {  // weights changed through the handle of a term, found by its number or its name
                    bool fin = s.b();
                    auto& ts = fin ? y.m.fin : y.m.inter;
                    if (ts.empty())
                        break;
                    size_t i = s.i(0, (int)ts.size() - 1);
                    bool named = s.b();
                    auto h = named ? (fin ? y.c->getFinalTermByName(ts[i].name) : y.c->getIntermediateTermByName(ts[i].name))
                                   : (fin ? y.c->getFinalTermById(i) : y.c->getIntermediateTermById(i));
                    PBT_REQUIRE((bool)h && h->getName() == ts[i].name, "term-lookup", "term ", i, " of ", ts[i].name);
                    auto Q = gen::mat<N, N>(s, 2);
                    auto R = gen::mat<M, M>(s, 2);
                    auto P = gen::mat<M, N>(s, 2);
                    if (ts[i].kind == QUADRATIC)
                    {
                        auto t = std::dynamic_pointer_cast<TermQuadratic<N, M>>(h);
                        PBT_REQUIRE((bool)t, "term-type", i);
                        ts[i].Q = Q, ts[i].R = R;
                        t->setWeights(Q, R);
                        Eigen::Matrix<double, N, 1> r = t->getReferenceState();
                        PBT_REQUIRE(r == ts[i].xr, "reference", gen::str(r), " expected ", gen::str(ts[i].xr));
                    }
                    else if (ts[i].kind == TRACKING)
                    {
                        auto t = std::dynamic_pointer_cast<TermQuadTracking<N, M>>(h);
                        PBT_REQUIRE((bool)t, "term-type", i);
                        ts[i].Q = Q, ts[i].R = R;
                        t->setWeights(Q, R);
                    }
                    else if (ts[i].kind == MIXED)
                    {
                        auto t = std::dynamic_pointer_cast<TermMixed<N, M>>(h);
                        PBT_REQUIRE((bool)t, "term-type", i);
                        ts[i].P = P;
                        t->setWeights(P);
                    }
                    else if (ts[i].kind == QUADMULT)
                    {
                        auto t = std::dynamic_pointer_cast<TermQuadMult<N, M>>(h);
                        PBT_REQUIRE((bool)t, "term-type", i);
                        ts[i].Q = Q, ts[i].R = R;
                        t->setWeights(Q, R);
                    }
                    else
                        break;
                    changes++;
                    s.note(fin ? "weightsF" : "weights", i);
                }
        }
        for (size_t w = 0; w < all.size(); w++)
        {
            Eigen::Matrix<double, N, 1> x;
            Eigen::Matrix<double, M, 1> u;
            double t;
            all[w]->c->getCurrentStateAndControl(x, u, t);
            PBT_REQUIRE(x == all[w]->m.x && u == all[w]->m.u && close(t, all[w]->m.t, 1e-14, 1e-14), "current-point", "copy ", w, " t ", t, " expected ", all[w]->m.t);
            all[w]->m.t = t;  // equal up to rounding: keeps step-like references on the same side
            double v = all[w]->c->evaluateIntermediate(), V = (double)all[w]->m.value(false, all[w]->m.point());
            PBT_REQUIRE(close(v, V, 1e-10, 1e-10 * all[w]->m.scale(false)), "history-value", "copy ", w, " after op ", k, " got ", v, " expected ", V);
            if (s.p(1, 3) || o == ops - 1)
                compareCost<N, M>(*all[w]->c, all[w]->m, "copy " + std::to_string(w), !all[w]->simple);
        }
    }
    if (clones && changes)
        s.nontrivial();
}
}  // namespace
FACET(analytical, 5) { s.b() ? history<3, 2>(s, false) : history<2, 1>(s, false); }
FACET(simple, 4) { s.b() ? history<3, 2>(s, true) : history<2, 1>(s, true); }
