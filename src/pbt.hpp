// Minimal property-based-testing runtime: every random decision of a case is one entry of a recorded
// choice sequence, so that (a) a case is a pure function of (seed, case index), (b) any failure - assertion,
// exception, sanitizer report, signal, CPU-time exhaustion - shrinks by editing the choice sequence and
// (c) the shrunk choice sequence is the replay file.
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <string>
#include <vector>
#include <stdexcept>
#include <sstream>
#include <algorithm>

namespace pbt {

struct Fail : std::runtime_error { using std::runtime_error::runtime_error; };
struct Discard {};

class Src
{
  public:
    // random mode
    explicit Src(uint64_t seed) : replay_(false) { s_[0] = mix(seed); s_[1] = mix(seed + 0x9E3779B97F4A7C15ull); if (!(s_[0] | s_[1])) s_[0] = 1; }
    // replay mode
    explicit Src(std::vector<uint64_t> choices) : replay_(true), in_(std::move(choices)) {}

    // guided mode: the choices of an earlier case, edited, then random ones
    Src(std::vector<uint64_t> choices, uint64_t seed) : Src(seed) { replay_ = tail_ = true; in_ = std::move(choices); }

    // uniform in [0, n] (inclusive); smaller is simpler
    uint64_t draw(uint64_t n)
    {
        uint64_t v;
        if (replay_ && !(tail_ && pos_ >= in_.size())) { v = pos_ < in_.size() ? in_[pos_] : 0; ++pos_; if (v > n) v = n == UINT64_MAX ? v : v % (n + 1); }
        else { uint64_t r = next(); v = n == UINT64_MAX ? r : r % (n + 1); }
        record(v);
        return v;
    }
    int64_t range(int64_t lo, int64_t hi) { return lo + static_cast<int64_t>(draw(static_cast<uint64_t>(hi - lo))); }
    size_t size(size_t lo, size_t hi) { return lo + static_cast<size_t>(draw(hi - lo)); }
    bool coin() { return draw(1) == 1; }
    // true with probability num/den; shrinks to false
    bool chance(uint32_t num, uint32_t den) { return draw(den - 1) >= den - num; }
    template <typename T> const T& pick(const std::vector<T>& v) { return v[draw(v.size() - 1)]; }
    template <typename T> T pick(std::initializer_list<T> v) { return *(v.begin() + draw(v.size() - 1)); }
    // index by weights
    size_t weighted(std::initializer_list<uint32_t> w)
    {
        uint64_t tot = 0; for (auto x : w) tot += x;
        uint64_t r = draw(tot - 1); size_t i = 0;
        for (auto x : w) { if (r < x) return i; r -= x; ++i; }
        return 0;
    }
    uint8_t byte() { return static_cast<uint8_t>(draw(255)); }
    uint64_t bits(unsigned n) { return n >= 64 ? draw(UINT64_MAX) : draw((1ull << n) - 1); }
    // integers biased to boundaries and to small magnitudes, n bits wide
    uint64_t edgy(unsigned n)
    {
        const uint64_t m = n >= 64 ? UINT64_MAX : (1ull << n) - 1;
        switch (weighted({3, 4, 2, 1, 1, 1}))
        {
        case 0: return draw(std::min<uint64_t>(m, 20));
        case 1: return draw(m);
        case 2: { unsigned k = static_cast<unsigned>(draw(n - 1)); return (k >= 63 ? draw(UINT64_MAX) : draw((2ull << k) - 1)) & m; }
        case 3: return m - draw(std::min<uint64_t>(m, 3));
        case 4: return ((m >> 1) + draw(2)) & m; // around the sign boundary
        default: return (1ull << draw(n - 1)) & m;
        }
    }
    std::string bytes(size_t n)
    {
        std::string s(n, '\0');
        for (size_t i = 0; i < n; i += 8) { uint64_t v = draw(UINT64_MAX); for (size_t j = 0; j < 8 && i + j < n; ++j) s[i + j] = static_cast<char>(v >> (8 * j)); }
        return s;
    }
    std::string alnum(size_t n)
    {
        static const char a[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
        std::string s; for (size_t i = 0; i < n; ++i) s += a[draw(35)]; return s;
    }
    // string over an explicit alphabet
    std::string over(const std::string& alpha, size_t n) { std::string s; for (size_t i = 0; i < n; ++i) s += alpha[draw(alpha.size() - 1)]; return s; }

    const std::vector<uint64_t>& log() const { return log_; }

    // where to mirror the choices (shared memory) so that a crash does not lose them
    static uint64_t* shm; static uint64_t shmCap;

  private:
    bool replay_, tail_ = false;
    std::vector<uint64_t> in_, log_;
    size_t pos_ = 0;
    uint64_t s_[2]{};
    static uint64_t mix(uint64_t z) { z += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    uint64_t next() { uint64_t a = s_[0], b = s_[1]; s_[0] = b; a ^= a << 23; s_[1] = a ^ b ^ (a >> 17) ^ (b >> 26); return mix(s_[1] + b); }
    void record(uint64_t v) { log_.push_back(v); if (shm && log_.size() < shmCap) { shm[log_.size()] = v; shm[0] = log_.size(); } }
};

// ---- per-case context ---------------------------------------------------------------------------------
struct Ctx
{
    bool nontrivial = false;
    uint64_t hash = 1469598103934665603ull;
    std::vector<std::string> labels;
    std::string sample;
    void label(std::string l) { labels.push_back(std::move(l)); }
    void mark(bool b) { nontrivial = nontrivial || b; }
    void feed(const void* p, size_t n) { auto c = static_cast<const unsigned char*>(p); for (size_t i = 0; i < n; ++i) { hash ^= c[i]; hash *= 1099511628211ull; } }
    void feed(const std::string& s) { feed(s.data(), s.size()); }
    void feed(uint64_t v) { feed(&v, sizeof v); }
    void note(const std::string& s) { if (sample.size() < 600) { sample += s; sample += ' '; } }
};

using CaseFn = std::function<void(Src&, Ctx&)>;
struct Group { std::string name; uint64_t quick, thorough; CaseFn fn; };
// A recorded genuine defect that is not repaired: `fn` exercises exactly the recorded input and throws pbt::Fail while it still fails.
struct Known { std::string id; std::function<void()> fn; };
struct Registry { std::string property, rule; std::vector<std::string> assumptions; std::vector<Group> groups; std::vector<Known> known; uint64_t cpuSecPerCase = 20; };
Registry& reg();
// one exhaustive/static pre-check may be expressed as a group with quick=thorough=1

bool probing(); // a single case is run on its own (shrinking, confirming, replaying)
const std::string& scratch(); // directory of this run, removed at its end
std::string hex(const void* p, size_t n, size_t cap = 200);
inline std::string hex(const std::string& s, size_t cap = 200) { return hex(s.data(), s.size(), cap); }
std::string esc(const std::string& s, size_t cap = 300);
int run(int argc, char** argv);

template <typename... A> [[noreturn]] void fail(const A&... a) { std::ostringstream o; (o << ... << a); throw Fail(o.str()); }
} // namespace pbt

#define PBT_CHECK(cond, ...)                                                                                                                        \
    do { if (!(cond)) ::pbt::fail("check failed: " #cond " | ", ##__VA_ARGS__); } while (0)
#define PBT_EQ(a, b, ...)                                                                                                                           \
    do { const auto& a__ = (a); const auto& b__ = (b); if (!(a__ == b__)) ::pbt::fail("expected equal: " #a " == " #b " | got ", a__, " vs ", b__, " | ", ##__VA_ARGS__); } while (0)

struct PbtGroupReg { PbtGroupReg(const char* n, uint64_t q, uint64_t t, pbt::CaseFn f) { pbt::reg().groups.push_back({n, q, t, std::move(f)}); } };
#define PBT_GROUP(ident, quick, thorough)                                                                                                           \
    static void pbt_case_##ident(pbt::Src&, pbt::Ctx&);                                                                                             \
    static PbtGroupReg pbt_reg_##ident(#ident, quick, thorough, pbt_case_##ident);                                                                  \
    static void pbt_case_##ident([[maybe_unused]] pbt::Src& src, [[maybe_unused]] pbt::Ctx& ctx)
struct PbtKnownReg { PbtKnownReg(const char* n, std::function<void()> f) { pbt::reg().known.push_back({n, std::move(f)}); } };
#define PBT_KNOWN(ident, idtext)                                                                                                                    \
    static void pbt_known_##ident();                                                                                                                \
    static PbtKnownReg pbt_knownreg_##ident(idtext, pbt_known_##ident);                                                                             \
    static void pbt_known_##ident()
#define PBT_PROPERTY(id, ruletext)                                                                                                                  \
    static struct PbtPropReg { PbtPropReg() { pbt::reg().property = id; pbt::reg().rule = ruletext; } } pbt_prop_reg;
