// Driver: see pbt.h.  Usage:
//  bin --property C01 --tier quick --seed 1 --cases N --workers W --evidence F --replay-dir D --known F
//      [--case-timeout S] [--max-seconds S] [--min-confirm k/n] [--rule TEXT] [--only facet] [--replay FILE] [-v]
#include "pbt.h"
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt {
std::vector<Facet>& facets()
{
    static std::vector<Facet> f;
    return f;
}
struct NullBuf : std::streambuf
{
    int overflow(int c) override { return c; }
    std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
};
static NullBuf nullbuf;
Quiet::Quiet() : o_(std::cout.rdbuf(&nullbuf)), e_(std::cerr.rdbuf(&nullbuf)) {}
Quiet::~Quiet()
{
    std::cout.rdbuf(o_);
    std::cerr.rdbuf(e_);
}
}  // namespace pbt
using namespace pbt;

typedef std::chrono::steady_clock Clock;
static double now()
{
    return std::chrono::duration<double>(Clock::now().time_since_epoch()).count();
}

static const uint64_t CAP = 1 << 15;
enum Outcome
{
    OK = 0,
    DISCARDED = 1,
    FAILED = 2,
    CRASHED = 3,
    HUNG = 4
};
struct Shared
{
    volatile uint64_t len;
    volatile double started;      // start time of the running case, 0 if idle
    volatile uint64_t caseIndex;  // running case
    volatile uint32_t facet;
    volatile int outcome;  // of the last finished case
    volatile uint64_t done, discards, known;
    volatile int nontrivial;
    char key[128];
    char msg[4096];
    char notes[6144];
    uint64_t buf[CAP];
};
static Shared* newShared()
{
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED)
        abort();
    memset(p, 0, sizeof(Shared));
    return (Shared*)p;
}
static void cpy(char* d, size_t n, const std::string& s)
{
    strncpy(d, s.c_str(), n - 1);
    d[n - 1] = 0;
}

struct Opt
{
    std::string property = "C00", tier = "quick", evidence, replayDir = ".", known, rule, replay, only, level = "exploration";
    std::vector<std::string> assumptions;
    uint64_t seed = 1, cases = 1000;
    int workers = 8;
    double caseTimeout = 60, maxSeconds = 400;
    int confirmNeed = 3, confirmOf = 3;
    bool verbose = false;
} opt;

static int runCase(Src& s, const Facet& f, Shared* sh)
{
    try
    {
        if (opt.verbose)
            f.fn(s);
        else
        {
            Quiet q;
            f.fn(s);
        }
        return OK;
    } catch (const Discard&)
    {
        return DISCARDED;
    } catch (const Fail& e)
    {
        cpy(sh->key, sizeof(sh->key), e.key);
        cpy(sh->msg, sizeof(sh->msg), e.msg);
        return FAILED;
    } catch (const std::exception& e)
    {
        cpy(sh->key, sizeof(sh->key), "exception");
        cpy(sh->msg, sizeof(sh->msg), std::string("unexpected exception: ") + e.what());
        return FAILED;
    } catch (...)
    {
        cpy(sh->key, sizeof(sh->key), "exception");
        cpy(sh->msg, sizeof(sh->msg), "unexpected exception of unknown type");
        return FAILED;
    }
}

struct Result
{
    int outcome = OK;
    std::string key, msg, notes;
    std::vector<uint64_t> choices;
};
static bool isBad(int o) { return o == FAILED || o == CRASHED || o == HUNG; }

static void silenceStderr()
{
    if (opt.verbose)
        return;
    int fd = open("/dev/null", O_WRONLY);
    if (fd >= 0)
    {
        dup2(fd, 1);
        if (!getenv("PBT_KEEP_STDERR"))
            dup2(fd, 2);
        close(fd);
    }
}

//! run one case given by its choices, in a child of its own
static Result runIsolated(const std::vector<uint64_t>& choices, uint32_t facet)
{
    static Shared* sh = newShared();
    memset((void*)sh, 0, offsetof(Shared, buf));
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0)
    {
        silenceStderr();
        Src s(choices, sh->buf, CAP, &sh->len);
        int o = runCase(s, facets()[facet], sh);
        cpy(sh->notes, sizeof(sh->notes), s.notes());
        sh->outcome = o;
        sh->done = 1;
        _exit(0);
    }
    double t0 = now();
    int st = 0;
    Result r;
    for (;;)
    {
        pid_t w = waitpid(pid, &st, WNOHANG);
        if (w == pid)
            break;
        if (now() - t0 > opt.caseTimeout)
        {
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            r.outcome = HUNG;
            r.key = "hang";
            r.msg = "case did not finish within the case time limit";
            break;
        }
        usleep(500);
    }
    r.choices.assign(sh->buf, sh->buf + sh->len);
    if (r.outcome == HUNG)
        return r;
    if (!sh->done)
    {
        r.outcome = CRASHED;
        r.key = "crash";
        std::ostringstream os;
        if (WIFSIGNALED(st))
            os << "process died with signal " << WTERMSIG(st);
        else
            os << "process ended with status " << WEXITSTATUS(st) << " (sanitizer report or abort)";
        r.msg = os.str();
        return r;
    }
    r.outcome = sh->outcome;
    r.key = sh->key;
    r.msg = sh->msg;
    r.notes = sh->notes;
    return r;
}

static std::set<std::string> knownKeys;  // "<facet>:<key>"
static bool isKnown(uint32_t facet, const std::string& key)
{
    return knownKeys.count(facets()[facet].name + ":" + key) > 0;
}

//! smaller: shorter, then lexicographically smaller
static bool simpler(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b)
{
    if (a.size() != b.size())
        return a.size() < b.size();
    return a < b;
}

static Result shrink(Result best, uint32_t facet, double budget)
{
    double t0 = now();
    int tries = 0;
    auto attempt = [&](std::vector<uint64_t> c) {
        if (now() - t0 > budget || tries > 1500)
            return false;
        tries++;
        if (!simpler(c, best.choices))
            return false;
        Result r = runIsolated(c, facet);
        if (isBad(r.outcome) && !isKnown(facet, r.key) && r.outcome == best.outcome && !simpler(best.choices, r.choices))
        {
            if (r.choices == best.choices)
                return false;
            best = r;
            return true;
        }
        return false;
    };
    bool progress = true;
    while (progress && now() - t0 < budget)
    {
        progress = false;
        for (size_t block = std::max<size_t>(1, best.choices.size() / 2); block >= 1; block /= 2)
            for (size_t i = 0; i + block <= best.choices.size();)
            {
                std::vector<uint64_t> c = best.choices;
                c.erase(c.begin() + i, c.begin() + i + block);
                if (attempt(c))
                    progress = true;
                else
                    i += block;
                if (now() - t0 > budget)
                    return best;
            }
        for (size_t block = std::max<size_t>(1, best.choices.size() / 2); block >= 1; block /= 2)
            for (size_t i = 0; i + block <= best.choices.size(); i += block)
            {
                std::vector<uint64_t> c = best.choices;
                bool z = true;
                for (size_t k = i; k < i + block; k++)
                {
                    z = z && c[k] == 0;
                    c[k] = 0;
                }
                if (!z && attempt(c))
                    progress = true;
            }
        for (size_t i = 0; i < best.choices.size(); i++)
        {
            uint64_t v = best.choices[i];
            for (uint64_t cand : {v / 2, v - 1})
            {
                if (i >= best.choices.size() || best.choices[i] == 0 || cand >= best.choices[i])
                    continue;
                std::vector<uint64_t> c = best.choices;
                c[i] = cand;
                if (attempt(c))
                {
                    progress = true;
                    break;
                }
            }
        }
    }
    return best;
}

static std::string jesc(const std::string& s)
{
    std::string o;
    for (char c : s)
    {
        if (c == '"' || c == '\\')
        {
            o += '\\';
            o += c;
        }
        else if ((unsigned char)c < 0x20)
            o += ' ';
        else if ((unsigned char)c >= 0x7f)
            o += '?';
        else
            o += c;
    }
    return o;
}

static void writeReplay(const std::string& path, uint32_t facet, const Result& r)
{
    std::ofstream f(path);
    f << "property " << opt.property << "\nfacet " << facets()[facet].name << "\noutcome " << r.outcome << "\nkey " << r.key
      << "\nchoices " << r.choices.size();
    for (auto c : r.choices)
        f << " " << c;
    f << "\n# " << jesc(r.msg) << "\n# case: " << jesc(r.notes) << "\n";
}

static void workerLoop(int w, Shared* sh, const std::vector<uint32_t>& wheel, uint64_t firstCase, const std::string& out)
{
    silenceStderr();
    std::ofstream f(out, std::ios::app);
    std::map<std::string, uint64_t> lab;
    std::map<uint32_t, int> sampled;
    std::map<uint32_t, std::pair<uint64_t, uint64_t>> perFacet;
    double t0 = now();
    for (uint64_t i = firstCase; i < opt.cases; i += opt.workers)
    {
        if (now() - t0 > opt.maxSeconds)
            break;
        uint32_t facet = wheel[i % wheel.size()];
        sh->caseIndex = i;
        sh->facet = facet;
        sh->key[0] = sh->msg[0] = 0;
        sh->started = now();
        Src s(mix(mix(opt.seed) ^ mix(i * 2654435761ull + 17)), sh->buf, CAP, &sh->len);
        int o = runCase(s, facets()[facet], sh);
        sh->started = 0;
        if (o == FAILED && isKnown(facet, sh->key))
        {
            sh->known = sh->known + 1;
            sh->done = sh->done + 1;
            f << "K " << facets()[facet].name << ":" << sh->key << "\n";
            continue;
        }
        if (o == FAILED)
        {
            sh->outcome = FAILED;
            f.flush();
            _exit(3);
        }
        sh->done = sh->done + 1;
        if (o == DISCARDED)
        {
            sh->discards = sh->discards + 1;
            continue;
        }
        perFacet[facet].first++;
        for (auto& l : s.labels())
            lab[facets()[facet].name + "/" + l]++;
        if (s.isNontrivial())
        {
            perFacet[facet].second++;
            f << "H " << std::hex << (s.hash() ^ mix(facet)) << std::dec << "\n";
            if (sampled[facet]++ < 2 && w < 2)
                f << "S " << facets()[facet].name << " case " << i << ": " << jesc(s.notes()).substr(0, 700) << "\n";
        }
    }
    for (auto& l : lab)
        f << "L " << l.second << " " << l.first << "\n";
    for (auto& p : perFacet)
        f << "F " << p.second.first << " " << p.second.second << " " << facets()[p.first].name << "\n";
    f.flush();
    sh->outcome = OK;
    _exit(0);
}

int main(int argc, char** argv)
{
    for (int i = 1; i < argc; i++)
    {
        std::string a = argv[i];
        auto next = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--property") opt.property = next();
        else if (a == "--tier") opt.tier = next();
        else if (a == "--seed") opt.seed = std::stoull(next());
        else if (a == "--cases") opt.cases = std::stoull(next());
        else if (a == "--workers") opt.workers = std::stoi(next());
        else if (a == "--evidence") opt.evidence = next();
        else if (a == "--replay-dir") opt.replayDir = next();
        else if (a == "--known") opt.known = next();
        else if (a == "--rule") opt.rule = next();
        else if (a == "--assume") opt.assumptions.push_back(next());
        else if (a == "--only") opt.only = next();
        else if (a == "--replay") opt.replay = next();
        else if (a == "--case-timeout") opt.caseTimeout = std::stod(next());
        else if (a == "--max-seconds") opt.maxSeconds = std::stod(next());
        else if (a == "--confirm")
        {
            std::string c = next();
            sscanf(c.c_str(), "%d/%d", &opt.confirmNeed, &opt.confirmOf);
        }
        else if (a == "-v") opt.verbose = true;
    }
    std::stable_sort(facets().begin(), facets().end(), [](const Facet& a, const Facet& b) { return a.name < b.name; });

    // known findings: lines "finding: property=<id> facet=<facet> key=<key> <text>"
    std::vector<std::string> knownTexts;
    if (!opt.known.empty())
    {
        std::ifstream f(opt.known);
        std::string line;
        while (std::getline(f, line))
        {
            if (line.compare(0, 9, "finding: ") != 0)
                continue;
            std::istringstream is(line.substr(9));
            std::string p, fa, k, rest;
            is >> p >> fa >> k;
            std::getline(is, rest);
            if (p != "property=" + opt.property)
                continue;
            knownKeys.insert(fa.substr(6) + ":" + k.substr(4));
            knownTexts.push_back(rest);
        }
    }

    if (!opt.replay.empty())
    {
        std::ifstream f(opt.replay);
        std::string w, facet;
        std::vector<uint64_t> c;
        while (f >> w)
        {
            if (w == "facet")
                f >> facet;
            else if (w == "choices")
            {
                size_t n;
                f >> n;
                c.resize(n);
                for (auto& x : c)
                    f >> x;
            }
            else if (w[0] == '#')
                std::getline(f, w);
        }
        for (uint32_t k = 0; k < facets().size(); k++)
            if (facets()[k].name == facet)
            {
                Result r = runIsolated(c, k);
                std::cout << "replay " << opt.replay << ": " << (isBad(r.outcome) ? "FAILS" : "passes") << " key=" << r.key << " "
                          << r.msg << "\n  case: " << r.notes << std::endl;
                return isBad(r.outcome) ? 1 : 0;
            }
        std::cout << "unknown facet " << facet << std::endl;
        return 2;
    }

    std::vector<uint32_t> wheel;
    for (uint32_t k = 0; k < facets().size(); k++)
        if (opt.only.empty() || facets()[k].name == opt.only)
            for (int j = 0; j < facets()[k].weight; j++)
                wheel.push_back(k);
    if (wheel.empty())
    {
        std::cerr << "no facets\n";
        return 2;
    }
    for (size_t k = wheel.size() - 1; k > 0; k--)
        std::swap(wheel[k], wheel[mix(k + 99) % (k + 1)]);

    double t0 = now();
    int W = opt.workers;
    std::vector<Shared*> sh(W);
    std::vector<pid_t> pids(W);
    std::vector<std::string> outs(W);
    char tmpl[] = "/tmp/pbtXXXXXX";
    if (!mkdtemp(tmpl))
        return 2;
    std::string tmp = tmpl;
    int unconfirmed = 0, hangs = 0;
    Result bad;
    bool violated = false;
    uint32_t badFacet = 0;
    uint64_t badCase = 0;

    auto spawn = [&](int w, uint64_t first) {
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0)
        {
            workerLoop(w, sh[w], wheel, first, outs[w]);
            _exit(0);
        }
        pids[w] = pid;
    };
    for (int w = 0; w < W; w++)
    {
        sh[w] = newShared();
        outs[w] = tmp + "/w" + std::to_string(w);
        spawn(w, w);
    }
    int alive = W;
    while (alive > 0 && !violated)
    {
        usleep(2000);
        for (int w = 0; w < W && !violated; w++)
        {
            if (pids[w] <= 0)
                continue;
            int st = 0;
            pid_t p = waitpid(pids[w], &st, WNOHANG);
            bool hung = false;
            if (p == 0)
            {
                double s = sh[w]->started;
                if (s > 0 && now() - s > opt.caseTimeout)
                {
                    hung = true;
                    kill(pids[w], SIGKILL);
                    waitpid(pids[w], &st, 0);
                }
                else
                    continue;
            }
            if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 0)
            {
                pids[w] = -1;
                alive--;
                continue;
            }
            // a failing, crashing or hanging case
            Result r;
            r.outcome = hung ? HUNG : (WIFEXITED(st) && WEXITSTATUS(st) == 3 && sh[w]->outcome == FAILED) ? FAILED : CRASHED;
            r.choices.assign(sh[w]->buf, sh[w]->buf + sh[w]->len);
            uint32_t facet = sh[w]->facet;
            uint64_t ci = sh[w]->caseIndex;
            int confirmed = 0, tried = 0;
            Result c;
            for (int k = 0; k < opt.confirmOf; k++)
            {
                Result q = runIsolated(r.choices, facet);
                tried++;
                if (isBad(q.outcome) && !isKnown(facet, q.key))
                {
                    confirmed++;
                    c = q;
                }
                if (confirmed >= std::max(1, opt.confirmNeed))
                    break;
                if (opt.confirmOf - tried + confirmed < opt.confirmNeed)
                    break;
            }
            // need 0: schedule-dependent checks, where a single mismatch with the reference is a violation even if it does not
            // repeat; a single hang is only believed if it repeats or a second case hangs
            if (r.outcome == HUNG)
                hangs++;
            if (opt.confirmNeed == 0 && confirmed == 0 && (r.outcome != HUNG || hangs >= 2))
            {
                c = r;
                c.key = r.outcome == FAILED ? sh[w]->key : "";
                c.msg = r.outcome == FAILED ? sh[w]->msg : r.outcome == HUNG ? "hang" : "crash";
                confirmed = 1;
            }
            if (confirmed >= std::max(1, opt.confirmNeed))
            {
                violated = true;
                bad = c;
                badFacet = facet;
                badCase = ci;
            }
            else
            {
                unconfirmed++;
                std::cout << "note: case " << ci << " (" << facets()[facet].name << ") failed once ("
                          << (r.outcome == FAILED ? sh[w]->msg : r.outcome == HUNG ? "hang" : "crash") << ") but only " << confirmed
                          << " of " << tried << " repetitions failed; not reported" << std::endl;
                sh[w]->done = sh[w]->done + 1;
                spawn(w, ci + W);
            }
        }
    }
    for (int w = 0; w < W; w++)
        if (pids[w] > 0)
        {
            kill(pids[w], SIGKILL);
            int st;
            waitpid(pids[w], &st, 0);
        }

    // collect statistics
    uint64_t evaluations = 0, discards = 0, known = 0;
    for (int w = 0; w < W; w++)
    {
        evaluations += sh[w]->done;
        discards += sh[w]->discards;
        known += sh[w]->known;
    }
    std::set<std::string> hashes;
    std::map<std::string, uint64_t> labels, ran, nontriv;
    std::vector<std::string> samples;
    for (int w = 0; w < W; w++)
    {
        std::ifstream f(outs[w]);
        std::string line;
        while (std::getline(f, line))
        {
            if (line.size() < 3)
                continue;
            if (line[0] == 'H')
                hashes.insert(line.substr(2));
            else if (line[0] == 'S')
                samples.push_back(line.substr(2));
            else if (line[0] == 'L')
            {
                std::istringstream is(line.substr(2));
                uint64_t n;
                std::string l;
                is >> n;
                std::getline(is, l);
                labels[l.substr(1)] += n;
            }
            else if (line[0] == 'F')
            {
                std::istringstream is(line.substr(2));
                uint64_t a, b;
                std::string l;
                is >> a >> b >> l;
                ran[l] += a;
                nontriv[l] += b;
            }
        }
    }
    std::string cmd = "rm -rf -- " + tmp;
    if (tmp.compare(0, 8, "/tmp/pbt") == 0 && system(cmd.c_str()) != 0)
        std::cerr << "could not remove " << tmp << "\n";

    std::string replayPath;
    if (violated)
    {
        std::cout << "failing case " << badCase << " (" << facets()[badFacet].name << "): key=" << bad.key << " " << bad.msg << std::endl;
        Result small = bad.outcome == HUNG ? bad : shrink(bad, badFacet, opt.confirmNeed == opt.confirmOf ? 40.0 : 5.0);
        // the shrunk case must fail as reliably as the original one
        int ok = 0;
        if (opt.confirmNeed == opt.confirmOf && small.choices != bad.choices)
            for (int k = 0; k < 3; k++)
                ok += isBad(runIsolated(small.choices, badFacet).outcome) ? 1 : 0;
        if (ok == 3)
            bad = small;
        replayPath = opt.replayDir + "/" + opt.property + "-" + facets()[badFacet].name + ".replay";
        writeReplay(replayPath, badFacet, bad);
        std::cout << "shrunk to " << bad.choices.size() << " choices: key=" << bad.key << " " << bad.msg << "\n  case: " << bad.notes
                  << std::endl;
    }
    double wall = now() - t0;
    if (!opt.evidence.empty())
    {
        std::ofstream f(opt.evidence);
        f << "{\n \"property\": \"" << opt.property << "\",\n \"tier\": \"" << opt.tier << "\",\n \"seed\": " << opt.seed
          << ",\n \"level\": \"" << opt.level << "\",\n \"coverage\": {\n  \"evaluations\": " << evaluations
          << ",\n  \"distinct_nontrivial\": " << hashes.size() << ",\n  \"rule\": \"" << jesc(opt.rule) << "\",\n  \"discarded\": "
          << discards << ",\n  \"known_finding_hits\": " << known << ",\n  \"unconfirmed\": " << unconfirmed
          << ",\n  \"facets\": {";
        bool first = true;
        for (auto& r : ran)
        {
            f << (first ? "" : ", ") << "\"" << jesc(r.first) << "\": {\"passed\": " << r.second << ", \"nontrivial\": " << nontriv[r.first] << "}";
            first = false;
        }
        f << "},\n  \"classes\": {";
        first = true;
        for (auto& l : labels)
        {
            f << (first ? "" : ", ") << "\"" << jesc(l.first) << "\": " << l.second;
            first = false;
        }
        f << "},\n  \"samples\": [";
        std::sort(samples.begin(), samples.end());
        for (size_t i = 0; i < samples.size() && i < 24; i++)
            f << (i ? ",\n   " : "\n   ") << "\"" << samples[i] << "\"";
        f << "]\n },\n \"assumptions\": [";
        for (size_t i = 0; i < opt.assumptions.size(); i++)
            f << (i ? ", " : "") << "\"" << jesc(opt.assumptions[i]) << "\"";
        f << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << (violated ? 1 : 0) << "\n}\n";
    }
    for (auto& k : knownTexts)
        std::cout << "KNOWN-FINDING: property=" << opt.property << k << std::endl;
    std::cout << opt.property << " " << opt.tier << " seed=" << opt.seed << ": " << evaluations << " cases, " << hashes.size()
              << " distinct non-trivial, " << discards << " discarded, " << known << " known-finding hits, " << wall << " s" << std::endl;
    for (auto& r : ran)
        std::cout << "   " << r.first << ": " << r.second << " passed, " << nontriv[r.first] << " non-trivial" << std::endl;
    if (violated)
    {
        std::cout << "VIOLATION property=" << opt.property << " replay=" << replayPath << std::endl;
        return 1;
    }
    return 0;
}
