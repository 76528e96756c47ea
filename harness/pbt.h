// Small property-based-testing engine: choice-sequence generators, shrinking on the recorded choices, crash and
// hang containment by forked workers, replay files.  A run is a pure function of the code and the seed.
#pragma once
#include <cstdint>
#include <cmath>
#include <functional>
#include <iomanip>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

struct Fail
{
    std::string key, msg;
};
struct Discard
{
};

inline uint64_t mix(uint64_t x)
{
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}

//! where all randomness of a case comes from
class Src
{
public:
    // recording area may live in shared memory so that a crash leaves the choices behind
    Src(uint64_t seed, uint64_t* buf, uint64_t cap, volatile uint64_t* len)
        : replay_(false), state_(seed), buf_(buf), cap_(cap), len_(len)
    {
        *len_ = 0;
    }
    Src(const std::vector<uint64_t>& given, uint64_t* buf, uint64_t cap, volatile uint64_t* len)
        : replay_(true), given_(given), state_(0), buf_(buf), cap_(cap), len_(len)
    {
        *len_ = 0;
    }

    //! uniform in [0,n)
    uint64_t choice(uint64_t n)
    {
        if (n <= 1)
            return 0;
        uint64_t v;
        if (replay_)
        {
            v = pos_ < given_.size() ? given_[pos_] : 0;
            if (v >= n)
                v = n - 1;
        }
        else
        {
            state_ = mix(state_ + 0x1234567);
            v = state_ % n;
        }
        pos_++;
        if (*len_ < cap_)
        {
            buf_[*len_] = v;
            *len_ = *len_ + 1;
        }
        else
            throw Discard();
        hash_ = mix(hash_ ^ (v + 0x51ull));
        return v;
    }
    //! integer in [lo,hi], shrinks towards lo
    int i(int lo, int hi) { return lo + (int)choice((uint64_t)((long long)hi - lo + 1)); }
    bool b() { return choice(2) == 1; }
    //! true with probability num/den; shrinks to false
    bool p(int num, int den) { return choice(den) >= (uint64_t)(den - num); }
    template <class T>
    T pick(const std::vector<T>& v)
    {
        return v[choice(v.size())];
    }
    //! real number in [lo,hi]; mixes "simple" values with fine ones; shrinks to the simplest value in range
    double real(double lo, double hi)
    {
        static const double simple[] = {0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 0.25};
        uint64_t k = choice(24);
        double span = hi - lo;
        if (k < 8)
        {
            double v = simple[k];
            if (v >= lo && v <= hi)
                return v;
            return lo + span * (double)k / 8.0;
        }
        if (k < 11)
            return lo + span * (double)choice(17) / 16.0;
        return lo + span * (double)choice(1u << 30) / (double)((1u << 30) - 1);
    }
    //! positive real, log-uniform in [lo,hi]
    double logreal(double lo, double hi)
    {
        return lo * std::pow(hi / lo, (double)choice(1u << 20) / (double)((1u << 20) - 1));
    }
    //! fine uniform real (never one of the "simple" values on purpose)
    double ureal(double lo, double hi) { return lo + (hi - lo) * (double)choice(1u << 30) / (double)((1u << 30) - 1); }

    void label(const std::string& l) { labels_.insert(l); }
    void nontrivial() { nontrivial_ = true; }
    template <class... A>
    void note(const A&... a)
    {
        std::ostringstream os;
        os << std::setprecision(9);
        int dummy[] = {0, ((os << a), 0)...};
        (void)dummy;
        notes_ += os.str() + "; ";
        if (notes_.size() > 6000)
            notes_ = notes_.substr(0, 6000);
    }

    const std::set<std::string>& labels() const { return labels_; }
    bool isNontrivial() const { return nontrivial_; }
    const std::string& notes() const { return notes_; }
    uint64_t hash() const { return hash_; }

private:
    bool replay_;
    std::vector<uint64_t> given_;
    uint64_t pos_ = 0;
    uint64_t state_;
    uint64_t hash_ = 77;
    uint64_t* buf_;
    uint64_t cap_;
    volatile uint64_t* len_;
    std::set<std::string> labels_;
    bool nontrivial_ = false;
    std::string notes_;
};

template <class... A>
[[noreturn]] inline void fail(const std::string& key, const A&... a)
{
    std::ostringstream os;
    os << std::setprecision(12);
    int dummy[] = {0, ((os << a), 0)...};
    (void)dummy;
    throw Fail{key, os.str()};
}

#define PBT_REQUIRE(cond, key, ...)             \
    do                                          \
    {                                           \
        if (!(cond))                            \
            pbt::fail(key, #cond, " | ", __VA_ARGS__); \
    } while (0)

inline void discard_unless(bool c)
{
    if (!c)
        throw Discard();
}

//! |a-b| <= abs + rel*max(|a|,|b|); NaN never close
inline bool close(double a, double b, double rel = 1e-9, double abs = 1e-9)
{
    if (!(std::isfinite(a) && std::isfinite(b)))
        return a == b;  // equal infinities
    return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b));
}
//! matrix closeness: max-norm of the difference relative to the max-norm of the reference
template <class A, class B>
inline bool mclose(const A& a, const B& b, double rel = 1e-9, double abs = 1e-9)
{
    if (a.rows() != b.rows() || a.cols() != b.cols())
        return false;
    double scale = 0, diff = 0;
    for (int r = 0; r < (int)a.rows(); r++)
        for (int c = 0; c < (int)a.cols(); c++)
        {
            double x = (double)a(r, c), y = (double)b(r, c);
            if (!(std::isfinite(x) && std::isfinite(y)))
                return false;
            scale = std::max(scale, std::max(std::fabs(x), std::fabs(y)));
            diff = std::max(diff, std::fabs(x - y));
        }
    return diff <= abs + rel * scale;
}

typedef std::function<void(Src&)> CaseFn;
struct Facet
{
    std::string name;
    int weight;
    CaseFn fn;
};
std::vector<Facet>& facets();

struct Reg
{
    Reg(const char* name, int weight, CaseFn fn) { facets().push_back(Facet{name, weight, fn}); }
};
#define FACET(name, weight)                                   \
    static void facet_##name(pbt::Src& s);                    \
    static pbt::Reg reg_##name(#name, weight, facet_##name);  \
    static void facet_##name(pbt::Src& s)

//! silence std::cout/cerr of the library while a case runs
struct Quiet
{
    Quiet();
    ~Quiet();
    std::streambuf *o_, *e_;
};
}  // namespace pbt
