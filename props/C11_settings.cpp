// C11: what an info file says is what the settings objects hold
#include "gen.h"
#include "tmpfile.h"
#include <ct/core/core.h>
#include <boost/property_tree/info_parser.hpp>
#include <boost/property_tree/ptree.hpp>
#include <ct/optcon/solver/NLOptConSettings.hpp>
#include <ct/optcon/nlp/solver/NlpSolverSettings.h>
#include <ct/optcon/dms/dms_core/DmsSettings.h>
#include <ct/optcon/mpc/MpcSettings.h>
#include <ct/optcon/filter/FilterSettings.h>
using namespace pbt;
using namespace ct::core;
using namespace ct::optcon;
namespace {
std::string num(double v)
{
    std::ostringstream os;
    os << std::setprecision(17) << v;
    return os.str();
}
std::string num(int v) { return std::to_string(v); }
std::string num(size_t v) { return std::to_string(v); }
std::string num(bool v) { return v ? "true" : "false"; }
typedef std::function<void(std::string&)> Put;
//! writes the entries in random order
std::string shuffled(Src& s, std::vector<std::string> v)
{
    for (int i = (int)v.size() - 1; i > 0; i--)
        std::swap(v[i], v[s.i(0, i)]);
    std::string r;
    for (auto& e : v)
        r += "  " + e + "\n";
    return r;
}
//! text of a matrix with some zero entries left out, with or without scaling
template <int R, int C>
std::string matText(Src& s, const std::string& name, Eigen::Matrix<double, R, C>& m)
{
    double sc = 1;
    std::vector<std::string> v;
    bool scaled = s.b();
    if (scaled)
    {
        sc = s.pick(std::vector<double>{0.5, 2, 10, -1, 0.1});
        v.push_back("scaling " + num(sc));
    }
    for (int r = 0; r < R; r++)
        for (int c = 0; c < C; c++)
        {
            double e = s.p(1, 3) ? 0.0 : s.real(-5, 5);
            if (e != 0 || s.b())
                v.push_back("(" + std::to_string(r) + "," + std::to_string(c) + ") " + num(e));
            m(r, c) = sc * e;
        }
    return name + "\n  {\n" + shuffled(s, v) + "  }";
}
#define SAME(a, b, key) PBT_REQUIRE((a) == (b), key, #a, " got ", (a), " expected ", (b))
template <class T>
void opt(Src& s, std::vector<std::string>& v, const char* key, T& ref, T val)
{  // present: the file's value is expected; absent: the old one
    if (s.b())
    {
        ref = val;
        v.push_back(std::string(key) + " " + num(val));
    }
}
double fine(Src& s) { return s.logreal(1e-6, 10); }
}  // namespace
FACET(scalarsAndMatrices, 4)
{
    int depth = s.i(0, 2);
    double a = s.real(-100, 100);
    int k = s.i(-50, 50);
    bool b = s.b();
    Eigen::Matrix<double, 3, 2> M, G;
    Eigen::Matrix<double, 2, 1> V, W;
    bool hasOpt = s.b();
    double o = s.real(-3, 3), d = s.real(-3, 3);
    std::vector<std::string> v;
    v.push_back("a " + num(a));
    v.push_back("k " + num(k));
    v.push_back("b " + num(b));
    v.push_back(matText(s, "M", M));
    v.push_back(matText(s, "V", V));
    if (hasOpt)
        v.push_back("o " + num(o));
    std::string text = shuffled(s, v), ns;
    for (int i = 0; i < depth; i++)
    {
        std::string n = std::string("n") + char('0' + i);
        text = n + "\n{\n" + text + "}\n";
        ns = n + "." + ns;
    }
    TmpFile f("junk 7\n" + text);
    double x;
    int y;
    bool z;
    loadScalar(f.name, "a", x, ns);
    loadScalar(f.name, "k", y, ns);
    loadScalar(f.name, "b", z, ns);
    SAME(x, a, "scalar");
    SAME(y, k, "scalar");
    SAME(z, b, "scalar");
    x = 77;
    loadScalarOptional(f.name, "o", x, d, ns);
    SAME(x, hasOpt ? o : d, "optional");
    G.setConstant(99);
    W.setConstant(99);
    if (ns.empty() || s.b())
        loadMatrix(f.name, "M", G, ns);
    else
        loadMatrix(f.name, ns + "M", G);
    loadMatrix(f.name, "V", W, ns);
    PBT_REQUIRE(mclose(G, M, 1e-15, 0) && mclose(W, V, 1e-15, 0), "matrix", "got ", gen::str(G), " expected ", gen::str(M));
    loadMatrix(f.name, "absent", G, ns);
    PBT_REQUIRE(G.isZero(0), "absent-matrix", gen::str(G));
    bool threw = false;
    try
    {
        loadScalar(f.name, "absent", x, ns);
    } catch (const std::exception&)
    {
        threw = true;
    }
    PBT_REQUIRE(threw, "absent-scalar", "accepted");
    if (depth)
        s.nontrivial();
}
FACET(nlocSettings, 6)
{
    Quiet q;
    typedef NLOptConSettings N;
    N st, ref;
    auto randomise = [&s](N& n) {
        n.epsilon = fine(s);
        n.dt = fine(s);
        n.K_sim = s.i(1, 9);
        n.K_shot = s.i(1, 9);
        n.max_iterations = s.i(0, 99);
        n.nThreads = s.i(1, 9);
        n.meritFunctionRho = fine(s);
        n.integrator = s.b() ? EULERCT : RK78;
        n.nlocp_algorithm = s.b() ? N::ILQR : N::GNMS_M_CL;
        n.discretization = s.b() ? N::APPROXIMATION::TUSTIN : N::APPROXIMATION::FORWARD_EULER;
        n.lqocp_solver = s.b() ? N::HPIPM_SOLVER : N::GNRICCATI_SOLVER;
        n.debugPrint = s.b();
        n.timeVaryingDiscretization = s.b();
    };
    randomise(st);
    ref = st;
    bool fresh = s.p(1, 4);
    if (fresh)
        ref = N();
    std::vector<std::string> v;
    opt(s, v, "epsilon", ref.epsilon, fine(s));
    opt(s, v, "timeVaryingDiscretization", ref.timeVaryingDiscretization, s.b());
    opt(s, v, "min_cost_improvement", ref.min_cost_improvement, fine(s));
    opt(s, v, "maxDefectSum", ref.maxDefectSum, fine(s));
    opt(s, v, "meritFunctionRho", ref.meritFunctionRho, fine(s));
    opt(s, v, "meritFunctionRhoConstraints", ref.meritFunctionRhoConstraints, fine(s));
    opt(s, v, "max_iterations", ref.max_iterations, s.i(0, 500));
    opt(s, v, "nThreads", ref.nThreads, s.i(1, 16));
    opt(s, v, "debugPrint", ref.debugPrint, s.b());
    opt(s, v, "printSummary", ref.printSummary, s.b());
    opt(s, v, "useSensitivityIntegrator", ref.useSensitivityIntegrator, s.b());
    opt(s, v, "logToMatlab", ref.logToMatlab, s.b());
    opt(s, v, "dt", ref.dt, fine(s));
    opt(s, v, "K_sim", ref.K_sim, s.i(1, 20));
    opt(s, v, "K_shot", ref.K_shot, s.i(1, 20));
    opt(s, v, "nThreadsEigen", ref.nThreadsEigen, (size_t)s.i(1, 16));
    opt(s, v, "recordSmallestEigenvalue", ref.recordSmallestEigenvalue, s.b());
    opt(s, v, "fixedHessianCorrection", ref.fixedHessianCorrection, s.b());
    if (s.b())
    {
        ref.loggingPrefix = s.b() ? "runA" : "x";
        v.push_back("loggingPrefix " + ref.loggingPrefix);
    }
    typedef N::APPROXIMATION AP;
    static const std::vector<std::pair<std::string, IntegrationType>> ints = {{"Euler", EULER}, {"RK4", RK4}, {"MODIFIED_MIDPOINT", MODIFIED_MIDPOINT}, {"ODE45", ODE45}, {"RK5VARIABLE", RK5VARIABLE},
        {"RK78", RK78}, {"BULIRSCHSTOER", BULIRSCHSTOER}, {"EulerCT", EULERCT}, {"RK4CT", RK4CT}, {"Euler_Sym", EULER_SYM}, {"Rk_Sym", RK_SYM}};
    static const std::vector<std::pair<std::string, AP>> aps = {{"Forward_euler", AP::FORWARD_EULER}, {"Backward_euler", AP::BACKWARD_EULER}, {"Symplectic_euler", AP::SYMPLECTIC_EULER}, {"Tustin", AP::TUSTIN},
        {"Matrix_exponential", AP::MATRIX_EXPONENTIAL}};
    static const std::vector<std::pair<std::string, N::NLOCP_ALGORITHM>> algs = {{"GNMS", N::GNMS}, {"ILQR", N::ILQR}, {"MS_ILQR", N::MS_ILQR}, {"SS_OL", N::SS_OL}, {"SS_CL", N::SS_CL},
        {"GNMS_M_OL", N::GNMS_M_OL}, {"GNMS_M_CL", N::GNMS_M_CL}};
    static const std::vector<std::pair<std::string, N::LQOCP_SOLVER>> sols = {{"GNRICCATI_SOLVER", N::GNRICCATI_SOLVER}, {"HPIPM_SOLVER", N::HPIPM_SOLVER}};
    if (s.i(0, 2))
    {
        auto e = s.pick(ints);
        ref.integrator = e.second;
        v.push_back("integrator " + e.first);
    }
    if (s.i(0, 2))
    {
        auto e = s.pick(aps);
        ref.discretization = e.second;
        v.push_back("discretization " + e.first);
    }
    if (s.i(0, 2))
    {
        auto e = s.pick(algs);
        ref.nlocp_algorithm = e.second;
        v.push_back("nlocp_algorithm " + e.first);
    }
    if (s.i(0, 2))
    {
        auto e = s.pick(sols);
        ref.lqocp_solver = e.second;
        v.push_back("locp_solver " + e.first);
    }
    if (s.b())
    {
        std::vector<std::string> l;
        static const std::vector<std::pair<std::string, LineSearchSettings::TYPE>> ty = {{"NONE", LineSearchSettings::NONE}, {"SIMPLE", LineSearchSettings::SIMPLE}, {"ARMIJO", LineSearchSettings::ARMIJO},
            {"GOLDSTEIN", LineSearchSettings::GOLDSTEIN}};
        auto e = s.pick(ty);
        auto& r = ref.lineSearchSettings;
        r.type = e.second;
        r.maxIterations = s.i(0, 30);
        r.alpha_0 = fine(s);
        r.n_alpha = s.real(-1, 2);
        r.debugPrint = s.b();
        r.alpha_max = r.alpha_0;
        r.adaptive = false;
        l = {"type " + e.first, "maxIterations " + num(r.maxIterations), "alpha_0 " + num(r.alpha_0), "n_alpha " + num(r.n_alpha), "debugPrint " + num(r.debugPrint)};
        opt(s, l, "armijo_parameter", r.armijo_parameter, fine(s));
        opt(s, l, "adaptive", r.adaptive, s.b());
        opt(s, l, "alpha_max", r.alpha_max, fine(s));
        v.push_back("line_search\n  {\n" + shuffled(s, l) + "  }");
    }
    if (s.b())
    {
        std::vector<std::string> l;
        opt(s, l, "num_lqoc_iterations", ref.lqoc_solver_settings.num_lqoc_iterations, s.i(0, 30));
        opt(s, l, "lqoc_debug_print", ref.lqoc_solver_settings.lqoc_debug_print, s.b());
        v.push_back("lqoc_solver_settings\n  {\n" + shuffled(s, l) + "  }");
    }
    std::string ns = s.b() ? "alg" : "ilqr";
    TmpFile f("decoy\n{\n  dt 123\n  K_sim 77\n}\n" + ns + "\n{\n" + shuffled(s, v) + "}\n");
    if (fresh)
        st = N::fromConfigFile(f.name, false, ns);
    else
        st.load(f.name, s.b(), ns);
    SAME(st.epsilon, ref.epsilon, "nloc");
    SAME(st.timeVaryingDiscretization, ref.timeVaryingDiscretization, "nloc");
    SAME(st.min_cost_improvement, ref.min_cost_improvement, "nloc");
    SAME(st.maxDefectSum, ref.maxDefectSum, "nloc");
    SAME(st.meritFunctionRho, ref.meritFunctionRho, "nloc");
    SAME(st.meritFunctionRhoConstraints, ref.meritFunctionRhoConstraints, "nloc");
    SAME(st.max_iterations, ref.max_iterations, "nloc");
    SAME(st.nThreads, ref.nThreads, "nloc");
    SAME(st.debugPrint, ref.debugPrint, "nloc");
    SAME(st.printSummary, ref.printSummary, "nloc");
    SAME(st.useSensitivityIntegrator, ref.useSensitivityIntegrator, "nloc");
    SAME(st.logToMatlab, ref.logToMatlab, "nloc");
    SAME(st.dt, ref.dt, "nloc");
    SAME(st.K_sim, ref.K_sim, "nloc");
    SAME(st.K_shot, ref.K_shot, "nloc");
    SAME(st.nThreadsEigen, ref.nThreadsEigen, "nloc");
    SAME(st.recordSmallestEigenvalue, ref.recordSmallestEigenvalue, "nloc");
    SAME(st.fixedHessianCorrection, ref.fixedHessianCorrection, "nloc");
    SAME(st.loggingPrefix, ref.loggingPrefix, "nloc");
    SAME((int)st.integrator, (int)ref.integrator, "nloc-choice");
    SAME((int)st.discretization, (int)ref.discretization, "nloc-choice");
    SAME((int)st.nlocp_algorithm, (int)ref.nlocp_algorithm, "nloc-choice");
    SAME((int)st.lqocp_solver, (int)ref.lqocp_solver, "nloc-choice");
    auto &l = st.lineSearchSettings, &r = ref.lineSearchSettings;
    SAME((int)l.type, (int)r.type, "linesearch");
    SAME(l.maxIterations, r.maxIterations, "linesearch");
    SAME(l.alpha_0, r.alpha_0, "linesearch");
    SAME(l.alpha_max, r.alpha_max, "linesearch");
    SAME(l.n_alpha, r.n_alpha, "linesearch");
    SAME(l.debugPrint, r.debugPrint, "linesearch");
    SAME(l.adaptive, r.adaptive, "linesearch");
    SAME(l.armijo_parameter, r.armijo_parameter, "linesearch");
    SAME(st.lqoc_solver_settings.num_lqoc_iterations, ref.lqoc_solver_settings.num_lqoc_iterations, "lqoc");
    SAME(st.lqoc_solver_settings.lqoc_debug_print, ref.lqoc_solver_settings.lqoc_debug_print, "lqoc");
    // derived quantities
    N c = st;
    if (s.b())
    {  // also ask about nonsense
        if (s.b())
            c.dt = s.real(-1, 1);
        if (s.b())
            c.K_sim = s.i(-1, 2);
        if (s.b())
            c.K_shot = s.i(-1, 2);
        if (s.b())
            c.nThreads = s.i(99, 102);
    }
    bool ok = c.dt > 0 && c.K_sim > 0 && c.K_shot > 0 && !(c.K_shot > 1 && c.nlocp_algorithm == N::ILQR) && c.nThreads <= 100 && c.lineSearchSettings.alpha_0 > 0 && c.lineSearchSettings.n_alpha > 0 &&
              c.lineSearchSettings.n_alpha < 1 && c.lineSearchSettings.alpha_max > 0;
    SAME(c.parametersOk(), ok, "nloc-ok");
    double dt = s.logreal(1e-3, 0.5);
    int K = s.i(0, 300);
    st.dt = dt;
    SAME(st.computeK(K * dt), std::max(1, K), "nloc-stages");
    SAME(st.computeK(K * dt + 0.3 * dt), std::max(1, K), "nloc-stages");
    PBT_REQUIRE(close(st.getSimulationTimestep() * st.K_sim, dt, 1e-13, 0), "nloc-substep", st.getSimulationTimestep());
    auto a = st.nlocp_algorithm;
    SAME(st.closedLoopShooting(), (a == N::ILQR || a == N::MS_ILQR || a == N::SS_CL || a == N::GNMS_M_CL), "nloc-closed-loop");
    SAME(st.isSingleShooting(), (a == N::ILQR || a == N::SS_OL || a == N::SS_CL), "nloc-single-shooting");
    bool threw = false;
    try
    {
        st.computeK(-0.1);
    } catch (const std::exception&)
    {
        threw = true;
    }
    PBT_REQUIRE(threw, "nloc-negative-horizon", "accepted");
    s.nontrivial();
}
FACET(dmsSettings, 4)
{
    Quiet q;
    DmsSettings st, r;
    r.N_ = s.i(1, 100);
    r.T_ = fine(s);
    r.nThreads_ = s.i(1, 8);
    r.splineType_ = (DmsSettings::SplineType_t)s.i(0, 1);
    r.costEvaluationType_ = (DmsSettings::CostEvaluationType_t)s.i(0, 1);
    r.objectiveType_ = (DmsSettings::ObjectiveType_t)s.i(0, 1);
    r.h_min_ = fine(s);
    r.integrationType_ = (DmsSettings::IntegrationType_t)s.i(0, 2);
    r.dt_sim_ = fine(s);
    r.absErrTol_ = fine(s);
    r.relErrTol_ = fine(s);
    auto &so = r.solverSettings_, &sg = st.solverSettings_;
    so.solverType_ = s.i(0, 3) ? NlpSolverType::IPOPT : NlpSolverType::SNOPT;
    so.useGeneratedCostGradient_ = s.b();
    so.useGeneratedConstraintJacobian_ = s.b();
    auto& ip = so.ipoptSettings_;
    auto& sn = so.snoptSettings_;
    std::vector<std::string> li, ls;
    bool chk = s.b(), ex = s.b();
    if (so.solverType_ == NlpSolverType::IPOPT)
    {
        ip.max_iter_ = s.i(1, 900);
        ip.derivativeTest_ = chk ? "first-order" : "none";
        ip.hessian_approximation_ = ex ? "exact" : "limited-memory";
        ip.printLevel_ = s.i(0, 5);
        ip.tol_ = fine(s);
        li = {"MaxIterations " + num(ip.max_iter_), "CheckDerivatives " + num(chk), "ExactHessian " + num(ex), "Verbosity " + num(ip.printLevel_), "OptimalityTolerance " + num(ip.tol_)};
        opt(s, li, "restoAcceptableTol", ip.restoAcceptableTol_, fine(s));
        opt(s, li, "constr_viol_tol", ip.constr_viol_tol_, fine(s));
        opt(s, li, "restoTol", ip.restoTol_, fine(s));
        opt(s, li, "acceptableTol", ip.acceptableTol_, fine(s));
        opt(s, li, "derivativeTestTol", ip.derivativeTestTol_, fine(s));
        opt(s, li, "derivativeTestPerturbation", ip.derivativeTestPerturbation_, fine(s));
        opt(s, li, "point_perturbation_radius", ip.point_perturbation_radius_, fine(s));
        auto optS = [&](const char* k, std::string& ref, const std::string& val) {
            if (s.b())
            {
                ref = val;
                li.push_back(std::string(k) + " " + val);
            }
        };
        optS("jacobianApproximation", ip.jacobianApproximation_, "exact");
        optS("linear_scaling_on_demand", ip.linear_scaling_on_demand_, "no");
        optS("nlp_scaling_method", ip.nlp_scaling_method_, "none");
        optS("print_user_options", ip.print_user_options_, "yes");
        optS("printInfoString", ip.printInfoString_, "yes");
        optS("checkDerivativesForNaninf", ip.checkDerivativesForNaninf_, "yes");
        optS("derivativeTestPrintAll", ip.derivativeTestPrintAll_, "yes");
        optS("linear_solver", ip.linear_solver_, "ma57");
        optS("linearSystemScaling", ip.linearSystemScaling_, "mc19");
    }
    else
    {
        sn.minor_iteration_limit_param_ = s.i(1, 900);
        sn.major_iteration_limit_param_ = s.i(1, 900);
        sn.minor_print_level_param_ = s.i(0, 9);
        sn.major_print_level_param_ = s.i(0, 9);
        sn.major_optimality_tolerance_param_ = fine(s);
        ls = {"MaxMinorIterations " + num(sn.minor_iteration_limit_param_), "MaxMajorIterations " + num(sn.major_iteration_limit_param_), "MinorPrintLevelVerbosity " + num(sn.minor_print_level_param_),
            "MajorPrintLevelVerbosity " + num(sn.major_print_level_param_), "OptimalityTolerance " + num(sn.major_optimality_tolerance_param_)};
    }
    auto& ca = r.cppadSettings_;
    ca.multiThreading_ = s.b();
    ca.createForwardZero_ = s.b();
    ca.createForwardOne_ = s.b();
    ca.createReverseOne_ = s.b();
    ca.createReverseTwo_ = s.b();
    ca.createJacobian_ = s.b();
    ca.createSparseJacobian_ = s.b();
    ca.createHessian_ = s.b();
    ca.createSparseHessian_ = s.b();
    ca.maxAssignements_ = s.i(1, 99999);
    ca.generateSourceCode_ = s.b();
    ca.useDynamicLibrary_ = s.b();
    ca.compiler_ = s.b() ? DerivativesCppadSettings::GCC : DerivativesCppadSettings::CLANG;
    std::vector<std::string> lc = {"MultiThreading " + num(ca.multiThreading_), "CreateForwardZero " + num(ca.createForwardZero_), "CreateForwardOne " + num(ca.createForwardOne_),
        "CreateReverseOne " + num(ca.createReverseOne_), "CreateReverseTwo " + num(ca.createReverseTwo_), "CreateJacobian " + num(ca.createJacobian_), "CreateSparseJacobian " + num(ca.createSparseJacobian_),
        "CreateHessian " + num(ca.createHessian_), "CreateSparseHessian " + num(ca.createSparseHessian_), "MaxAssignements " + num(ca.maxAssignements_), "GenerateSourceCode " + num(ca.generateSourceCode_),
        "UseDynamicLibrary " + num(ca.useDynamicLibrary_), std::string("Compiler ") + (ca.compiler_ == DerivativesCppadSettings::GCC ? "GCC" : "CLANG")};
    std::string solver = "solver\n {\n" + shuffled(s, {"SolverType " + num((int)so.solverType_), "UseGeneratedCostGradient " + num(so.useGeneratedCostGradient_),
                                                          "UseGeneratedConstraintJacobian " + num(so.useGeneratedConstraintJacobian_), "ipopt\n {\n" + shuffled(s, li) + " }", "snopt\n {\n" + shuffled(s, ls) + " }"}) +
                         " }";
    std::string ns = s.b() ? "dms" : "other";
    TmpFile f(ns + "\n{\n" + shuffled(s, {"N " + num(r.N_), "T " + num(r.T_), "nThreads " + num(r.nThreads_), "InterpolationType " + num((int)r.splineType_), "CostEvaluationType " + num((int)r.costEvaluationType_),
                                             "ObjectiveType " + num((int)r.objectiveType_), "h_min " + num(r.h_min_), "IntegrationType " + num((int)r.integrationType_), "dt_sim " + num(r.dt_sim_),
                                             "AbsErrTol " + num(r.absErrTol_), "RelErrTol " + num(r.relErrTol_), solver, "cppad\n {\n" + shuffled(s, lc) + " }"}) +
              "}\n");
    st.load(f.name, s.b(), ns);
    SAME(st.N_, r.N_, "dms");
    SAME(st.T_, r.T_, "dms");
    SAME(st.nThreads_, r.nThreads_, "dms");
    SAME((int)st.splineType_, (int)r.splineType_, "dms");
    SAME((int)st.costEvaluationType_, (int)r.costEvaluationType_, "dms");
    SAME((int)st.objectiveType_, (int)r.objectiveType_, "dms");
    SAME(st.h_min_, r.h_min_, "dms");
    SAME((int)st.integrationType_, (int)r.integrationType_, "dms");
    SAME(st.dt_sim_, r.dt_sim_, "dms");
    SAME(st.absErrTol_, r.absErrTol_, "dms");
    SAME(st.relErrTol_, r.relErrTol_, "dms");
    SAME((int)sg.solverType_, (int)so.solverType_, "nlp");
    SAME(sg.useGeneratedCostGradient_, so.useGeneratedCostGradient_, "nlp");
    SAME(sg.useGeneratedConstraintJacobian_, so.useGeneratedConstraintJacobian_, "nlp");
    auto& ig = sg.ipoptSettings_;
    SAME(ig.max_iter_, ip.max_iter_, "ipopt");
    SAME(ig.derivativeTest_, ip.derivativeTest_, "ipopt");
    SAME(ig.hessian_approximation_, ip.hessian_approximation_, "ipopt");
    SAME(ig.printLevel_, ip.printLevel_, "ipopt");
    SAME(ig.tol_, ip.tol_, "ipopt");
    SAME(ig.restoAcceptableTol_, ip.restoAcceptableTol_, "ipopt");
    SAME(ig.constr_viol_tol_, ip.constr_viol_tol_, "ipopt");
    SAME(ig.restoTol_, ip.restoTol_, "ipopt");
    SAME(ig.acceptableTol_, ip.acceptableTol_, "ipopt");
    SAME(ig.derivativeTestTol_, ip.derivativeTestTol_, "ipopt");
    SAME(ig.derivativeTestPerturbation_, ip.derivativeTestPerturbation_, "ipopt");
    SAME(ig.point_perturbation_radius_, ip.point_perturbation_radius_, "ipopt");
    SAME(ig.jacobianApproximation_, ip.jacobianApproximation_, "ipopt");
    SAME(ig.linear_scaling_on_demand_, ip.linear_scaling_on_demand_, "ipopt");
    SAME(ig.nlp_scaling_method_, ip.nlp_scaling_method_, "ipopt");
    SAME(ig.print_user_options_, ip.print_user_options_, "ipopt");
    SAME(ig.printInfoString_, ip.printInfoString_, "ipopt");
    SAME(ig.checkDerivativesForNaninf_, ip.checkDerivativesForNaninf_, "ipopt");
    SAME(ig.derivativeTestPrintAll_, ip.derivativeTestPrintAll_, "ipopt");
    SAME(ig.linear_solver_, ip.linear_solver_, "ipopt");
    SAME(ig.linearSystemScaling_, ip.linearSystemScaling_, "ipopt");
    auto& ng = sg.snoptSettings_;
    SAME(ng.minor_iteration_limit_param_, sn.minor_iteration_limit_param_, "snopt");
    SAME(ng.major_iteration_limit_param_, sn.major_iteration_limit_param_, "snopt");
    SAME(ng.minor_print_level_param_, sn.minor_print_level_param_, "snopt");
    SAME(ng.major_print_level_param_, sn.major_print_level_param_, "snopt");
    SAME(ng.major_optimality_tolerance_param_, sn.major_optimality_tolerance_param_, "snopt");
    auto& cg = st.cppadSettings_;
    SAME(cg.multiThreading_, ca.multiThreading_, "cppad");
    SAME(cg.createForwardZero_, ca.createForwardZero_, "cppad");
    SAME(cg.createForwardOne_, ca.createForwardOne_, "cppad");
    SAME(cg.createReverseOne_, ca.createReverseOne_, "cppad");
    SAME(cg.createReverseTwo_, ca.createReverseTwo_, "cppad");
    SAME(cg.createJacobian_, ca.createJacobian_, "cppad");
    SAME(cg.createSparseJacobian_, ca.createSparseJacobian_, "cppad");
    SAME(cg.createHessian_, ca.createHessian_, "cppad");
    SAME(cg.createSparseHessian_, ca.createSparseHessian_, "cppad");
    SAME(cg.maxAssignements_, ca.maxAssignements_, "cppad");
    SAME(cg.generateSourceCode_, ca.generateSourceCode_, "cppad");
    SAME(cg.useDynamicLibrary_, ca.useDynamicLibrary_, "cppad");
    SAME((int)cg.compiler_, (int)ca.compiler_, "cppad");
    // validity
    DmsSettings c;
    c.N_ = s.b() ? s.i(0, 5) : s.i(990, 1010);
    c.T_ = s.real(-1, 5);
    c.nThreads_ = s.i(0, 40);
    c.h_min_ = s.real(0, 3);
    c.dt_sim_ = s.b() ? s.real(-1, 1) : s.real(99, 101);
    c.absErrTol_ = s.real(-0.5, 1.5);
    c.relErrTol_ = s.real(-0.5, 1.5);
    if (s.b())
    {  // mostly fine
        c = DmsSettings();
        c.T_ = s.real(-0.5, 5);
        c.h_min_ = s.real(0, 2);
    }
    bool ok = c.N_ >= 1 && c.N_ <= 1000 && c.T_ > 0 && c.nThreads_ >= 1 && c.nThreads_ <= 32 && c.h_min_ >= 0.01 && c.h_min_ <= c.T_ && c.dt_sim_ > 0 && c.dt_sim_ <= 100 && c.absErrTol_ > 1e-20 &&
              c.absErrTol_ <= 1 && c.relErrTol_ > 1e-20 && c.relErrTol_ <= 1;
    SAME(c.parametersOk(), ok, "dms-ok");
    s.nontrivial();
}
FACET(mpcSettings, 2)
{
    mpc_settings st, r;
    r.measureDelay_ = s.b();
    r.stateForwardIntegration_ = s.b();
    r.stateForwardIntegration_dt_ = fine(s);
    r.stateForwardIntegratorType_ = (IntegrationType)s.i(0, 8);
    r.fixedDelayUs_ = s.i(0, 9999);
    r.additionalDelayUs_ = s.i(0, 9999);
    r.minimumTimeHorizonMpc_ = fine(s);
    r.coldStart_ = s.b();
    r.postTruncation_ = s.b();
    r.delayMeasurementMultiplier_ = fine(s);
    r.useExternalTiming_ = s.b();
    TmpFile f("mpc\n{\n" + shuffled(s, {"measureDelay " + num(r.measureDelay_), "stateForwardIntegration " + num(r.stateForwardIntegration_), "stateForwardIntegration_dt " + num(r.stateForwardIntegration_dt_),
                                           "stateForwardIntegratorType " + num((int)r.stateForwardIntegratorType_), "fixedDelayUs " + num(r.fixedDelayUs_), "additionalDelayUs " + num(r.additionalDelayUs_),
                                           "timeHorizon " + num(r.minimumTimeHorizonMpc_), "coldStart " + num(r.coldStart_), "postTruncation " + num(r.postTruncation_),
                                           "delayMeasurementMultiplier " + num(r.delayMeasurementMultiplier_), "useExternalTiming " + num(r.useExternalTiming_)}) +
              "}\n");
    loadMpcSettings(f.name, st);
    SAME(st.measureDelay_, r.measureDelay_, "mpc");
    SAME(st.stateForwardIntegration_, r.stateForwardIntegration_, "mpc");
    SAME(st.stateForwardIntegration_dt_, r.stateForwardIntegration_dt_, "mpc");
    SAME((int)st.stateForwardIntegratorType_, (int)r.stateForwardIntegratorType_, "mpc");
    SAME(st.fixedDelayUs_, r.fixedDelayUs_, "mpc");
    SAME(st.additionalDelayUs_, r.additionalDelayUs_, "mpc");
    SAME(st.minimumTimeHorizonMpc_, r.minimumTimeHorizonMpc_, "mpc");
    SAME(st.coldStart_, r.coldStart_, "mpc");
    SAME(st.postTruncation_, r.postTruncation_, "mpc");
    SAME(st.delayMeasurementMultiplier_, r.delayMeasurementMultiplier_, "mpc");
    SAME(st.useExternalTiming_, r.useExternalTiming_, "mpc");
    s.nontrivial();
}
FACET(filterSettings, 3)
{
    Quiet q;
    Eigen::Matrix<double, 2, 3> C;
    Eigen::Matrix<double, 3, 3> Q, F, P0;
    Eigen::Matrix<double, 2, 2> R;
    Eigen::Matrix<double, 3, 1> x0;
    std::vector<std::string> v = {matText(s, "C", C), matText(s, "Q", Q), matText(s, "R", R), matText(s, "dFdv", F), matText(s, "x0", x0), matText(s, "P0", P0)};
    double al = s.real(-2, 2), be = s.real(-2, 2), ka = s.real(-2, 2);
    int it = 1000;
    v.push_back("alpha " + num(al));
    v.push_back("beta " + num(be));
    v.push_back("kappa " + num(ka));
    if (s.b())
    {
        it = s.i(1, 5000);
        v.push_back("maxDAREIterations " + num(it));
    }
    TmpFile f("filter\n{\n" + shuffled(s, v) + "}\n");
    std::string ns = "filter.";
    StateObserverSettings<2, 3> o;
    o.load(f.name, s.b(), ns);
    PBT_REQUIRE(mclose(o.C, C, 1e-15, 0) && mclose(o.Q, Q, 1e-15, 0) && mclose(o.R, R, 1e-15, 0) && mclose(o.dFdv, F, 1e-15, 0), "observer", "");
    SteadyStateKalmanFilterSettings<3> k;
    k.load(f.name, s.b(), ns);
    PBT_REQUIRE(mclose(k.x0, x0, 1e-15, 0) && (int)k.maxDAREIterations == it, "steady-state", "iterations ", k.maxDAREIterations, " expected ", it);
    ExtendedKalmanFilterSettings<3> e;
    e.load(f.name, s.b(), ns);
    PBT_REQUIRE(mclose(e.x0, x0, 1e-15, 0) && mclose(e.P0, P0, 1e-15, 0), "extended", "");
    UnscentedKalmanFilterSettings<3> u;
    u.load(f.name, s.b(), ns);
    PBT_REQUIRE(mclose(u.x0, x0, 1e-15, 0) && mclose(u.P0, P0, 1e-15, 0) && u.alpha == al && u.beta == be && u.kappa == ka, "unscented", "alpha ", u.alpha, " expected ", al);
    s.nontrivial();
}
