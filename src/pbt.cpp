#include "pbt.hpp"
#include <nlohmann/json.hpp>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

#if defined(__SANITIZE_THREAD__)
#define PBT_RACES true
#elif defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define PBT_RACES true
#endif
#endif
#ifndef PBT_RACES
#define PBT_RACES false
#endif

#define PBT_PLAIN __attribute__((no_sanitize("address", "thread")))
// ---- coverage of the code under test (and of the check), collected only while a guided case runs --------
namespace {
constexpr size_t COV = 1u << 16;
struct Cov
{
    unsigned char edge[COV], cmp[COV]; uint64_t pairs[256][2]; uint32_t nPairs, prev; uintptr_t base;
} cov;
__thread bool covOn = false;
extern "C" char __executable_start;
PBT_PLAIN inline uint32_t covPc(void* ret) { return static_cast<uint32_t>(((reinterpret_cast<uintptr_t>(ret) - reinterpret_cast<uintptr_t>(&__executable_start)) * 0x9E3779B97F4A7C15ull) >> 40); }
PBT_PLAIN inline void covPair(uint64_t a, uint64_t b) { uint32_t i = cov.nPairs++ & 255; cov.pairs[i][0] = a; cov.pairs[i][1] = b; }
PBT_PLAIN inline void covCmp(void* ret, uint64_t a, uint64_t b)
{
    uint64_t d = a ^ b; uint32_t k = d ? static_cast<uint32_t>(__builtin_popcountll(d)) : 0; cov.cmp[(covPc(ret) + k * 977u) & (COV - 1)] = 1;
    if (d) covPair(a, b);
}
PBT_PLAIN inline void covBytes(void* ret, const void* a, const void* b, size_t n) { size_t k = 0; while (k < n && k < 32 && static_cast<const char*>(a)[k] == static_cast<const char*>(b)[k]) ++k; cov.cmp[(covPc(ret) + 31337u + static_cast<uint32_t>(k) * 977u) & (COV - 1)] = 1; }
} // namespace
#define PBT_COV extern "C" PBT_PLAIN
#define PBT_RET __builtin_return_address(0)
PBT_COV void __sanitizer_cov_trace_pc() { if (!covOn) return; uint32_t h = covPc(PBT_RET); unsigned char& c = cov.edge[(h ^ cov.prev) & (COV - 1)]; if (c != 255) ++c; cov.prev = h >> 1; }
PBT_COV void __sanitizer_cov_trace_cmp1(uint8_t a, uint8_t b) { if (covOn) covCmp(PBT_RET, a, b); }
PBT_COV void __sanitizer_cov_trace_cmp2(uint16_t a, uint16_t b) { if (covOn) covCmp(PBT_RET, a, b); }
PBT_COV void __sanitizer_cov_trace_cmp4(uint32_t a, uint32_t b) { if (covOn) covCmp(PBT_RET, a, b); }
PBT_COV void __sanitizer_cov_trace_cmp8(uint64_t a, uint64_t b) { if (covOn) covCmp(PBT_RET, a, b); }
PBT_COV void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t b) { if (covOn) covCmp(PBT_RET, b, a); }
PBT_COV void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t b) { if (covOn) covCmp(PBT_RET, b, a); }
PBT_COV void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t b) { if (covOn) covCmp(PBT_RET, b, a); }
PBT_COV void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t b) { if (covOn) covCmp(PBT_RET, b, a); }
PBT_COV void __sanitizer_cov_trace_cmpf(float, float) {}
PBT_COV void __sanitizer_cov_trace_cmpd(double, double) {}
PBT_COV void __sanitizer_cov_trace_switch(uint64_t v, uint64_t* c) { if (!covOn) return; for (uint64_t i = 0; i < c[0] && i < 24; ++i) if (c[2 + i] != v) covPair(v, c[2 + i]); }
PBT_COV void __sanitizer_weak_hook_memcmp(void* pc, const void* a, const void* b, size_t n, int) { if (covOn) covBytes(pc, a, b, n); }

namespace pbt {
using json = nlohmann::json;
uint64_t* Src::shm = nullptr;
uint64_t Src::shmCap = 0;
Registry& reg() { static Registry r; return r; }

std::string hex(const void* p, size_t n, size_t cap)
{
    static const char* d = "0123456789abcdef"; std::string o; auto c = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n && i < cap; ++i) { o += d[c[i] >> 4]; o += d[c[i] & 15]; }
    if (n > cap) o += "..(" + std::to_string(n) + ")";
    return o;
}
std::string esc(const std::string& s, size_t cap)
{
    std::string o; char b[8];
    for (size_t i = 0; i < s.size() && i < cap; ++i)
    {
        unsigned char c = s[i];
        if (c == '\n') o += "\\n"; else if (c == '\r') o += "\\r"; else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\x%02x", c); o += b; } else o += c;
    }
    if (s.size() > cap) o += "..(" + std::to_string(s.size()) + ")";
    return o;
}

namespace {
constexpr uint64_t CHOICE_CAP = 1u << 20;
struct Shm
{
    volatile uint64_t status; // 0 running, 1 failed by assertion/exception, 2 clean end
    volatile uint64_t group, index, evals;
    char msg[8192];
    uint64_t choices[CHOICE_CAP];
};
Shm* mapShm() { void* p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(2); } return static_cast<Shm*>(p); }

uint64_t mix64(uint64_t z) { z += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
uint64_t hashStr(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }
uint64_t caseSeed(uint64_t seed, const Group& g, uint64_t i) { return mix64(mix64(seed ^ hashStr(g.name)) + i); }
double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

void armCpu(uint64_t sec) { itimerval t{}; t.it_value.tv_sec = static_cast<time_t>(sec); setitimer(ITIMER_PROF, &t, nullptr); }

struct GStat { uint64_t evals = 0, discards = 0, nontrivial = 0, guided = 0, kept = 0; std::map<std::string, uint64_t> labels; std::vector<std::string> samples; std::unordered_set<uint64_t> hashes; };

// runs one case; returns false + msg on failure
bool runCase(const Group& g, Src& src, Ctx& ctx, std::string& msg, bool& discarded)
{
    discarded = false;
    armCpu(reg().cpuSecPerCase);
    try { g.fn(src, ctx); }
    catch (const Discard&) { discarded = true; }
    catch (const Fail& f) { msg = f.what(); return false; }
    catch (const std::exception& e) { msg = std::string("unexpected exception escaped: ") + e.what(); return false; }
    catch (...) { msg = "unexpected non-standard exception escaped"; return false; }
    return true;
}

std::string tmpDir;
std::string sanLog(pid_t pid)
{
    std::string out, path = tmpDir + "/san." + std::to_string(pid);
    std::ifstream f(path); std::string l; int n = 0;
    while (n < 14 && std::getline(f, l)) { if (l.find("=====") == 0 || l.empty()) continue; out += l + " / "; ++n; }
    std::error_code ec; std::filesystem::remove(path, ec);
    return out;
}
std::string describe(int st, pid_t pid, const Shm* s)
{
    if (s->status == 1) { return std::string(const_cast<const char*>(s->msg)); }
    std::string m;
    if (WIFSIGNALED(st)) { int sg = WTERMSIG(st); m = sg == SIGPROF ? "CPU time exhausted on one case (non-termination)" : std::string("killed by signal ") + strsignal(sg); }
    else { m = "abnormal exit status " + std::to_string(WEXITSTATUS(st)); }
    std::string sl = sanLog(pid);
    if (!sl.empty()) m += " | sanitizer: " + sl;
    return m;
}
void childSetup()
{
    signal(SIGPROF, SIG_DFL);
    rlimit c{0, 0}; setrlimit(RLIMIT_CORE, &c);
    int fd = open("/dev/null", O_WRONLY); if (!getenv("PBT_VERBOSE")) { dup2(fd, 1); dup2(fd, 2); }
}

struct Outcome { bool failed = false; bool inconclusive = false; std::string msg; std::vector<uint64_t> log; };
Shm* gProbe = nullptr;
bool gProbing = false;
Outcome probe(size_t gi, const std::vector<uint64_t>& choices)
{
    if (!gProbe) gProbe = mapShm();
    Shm* s = gProbe; s->status = 0; s->msg[0] = 0; s->choices[0] = 0;
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(2); }
    if (pid == 0)
    {
        childSetup(); gProbing = true;
        Src::shm = s->choices; Src::shmCap = CHOICE_CAP;
        Src src(choices); Ctx ctx; std::string msg; bool d;
        if (!runCase(reg().groups[gi], src, ctx, msg, d)) { strncpy(s->msg, msg.c_str(), sizeof(s->msg) - 1); s->status = 1; _exit(77); }
        s->status = 2; _exit(0);
    }
    int st; waitpid(pid, &st, 0);
    Outcome o;
    if (s->status == 2 && WIFEXITED(st) && WEXITSTATUS(st) == 0) { sanLog(pid); return o; }
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { o.inconclusive = true; return o; } // OOM killer, not the code
    o.failed = true; o.msg = describe(st, pid, s);
    uint64_t n = std::min<uint64_t>(s->choices[0], CHOICE_CAP - 1);
    o.log.assign(s->choices + 1, s->choices + 1 + n);
    return o;
}

Outcome shrink(size_t gi, Outcome best, double deadline)
{
    auto attempt = [&](const std::vector<uint64_t>& c) -> bool {
        if (now() > deadline) return false;
        Outcome o = probe(gi, c);
        if (!o.failed) return false;
        if (o.log.size() > best.log.size()) return false;
        if (o.log.size() == best.log.size() && !(o.log < best.log)) return false;
        best = std::move(o); return true;
    };
    bool improved = true;
    while (improved && now() < deadline)
    {
        improved = false;
        for (size_t len : {256, 64, 32, 16, 8, 4, 2, 1})
        {
            if (best.log.size() < len) continue;
            for (size_t i = best.log.size() - len + 1; i-- > 0 && now() < deadline;)
            {
                if (i + len > best.log.size()) { continue; }
                auto c = best.log; c.erase(c.begin() + i, c.begin() + i + len);
                if (attempt(c)) improved = true;
                else if (i > 0)
                { // deleting a span often needs the preceding count lowered
                    c = best.log; if (c[i - 1] > 0) { c[i - 1] -= 1; c.erase(c.begin() + i, c.begin() + i + len); if (attempt(c)) improved = true; }
                }
                if (len >= 8 && i >= len / 2) i -= len / 2 - 1;
            }
        }
        for (size_t len : {64, 16, 4})
            for (size_t i = 0; i + len <= best.log.size() && now() < deadline; i += len)
            {
                auto c = best.log; if (std::all_of(c.begin() + i, c.begin() + i + len, [](uint64_t v) { return v == 0; })) continue;
                std::fill(c.begin() + i, c.begin() + i + len, 0); if (attempt(c)) improved = true;
            }
        for (size_t i = 0; i < best.log.size() && now() < deadline; ++i)
        {
            if (best.log[i] == 0) continue;
            auto c = best.log; c[i] = 0; if (attempt(c)) { improved = true; continue; }
            uint64_t lo = 0, hi = i < best.log.size() ? best.log[i] : 0;
            while (hi - lo > 1 && now() < deadline) { uint64_t m = lo + (hi - lo) / 2; c = best.log; if (i >= c.size()) break; c[i] = m; if (attempt(c)) { improved = true; hi = m; } else lo = m; }
        }
    }
    return best;
}

struct WorkerCfg { uint64_t seed; bool thorough; int w, W; double deadline; double scale, guided; };
uint64_t groupCases(const Group& g, bool thorough, double scale) { uint64_t n = thorough ? g.thorough : g.quick; return n <= 1 ? n : std::max<uint64_t>(1, static_cast<uint64_t>(n * scale)); }

// the cases of one group which reached something new, and the search that edits them
struct Corpus
{
    struct Entry { std::vector<uint64_t> log; std::vector<std::pair<uint64_t, uint64_t>> pairs; };
    std::vector<Entry> entries; std::vector<unsigned char> seenEdge = std::vector<unsigned char>(COV), seenCmp = std::vector<unsigned char>(COV);
    static void begin() { memset(cov.edge, 0, COV); memset(cov.cmp, 0, COV); cov.nPairs = 0; cov.prev = 0; }
    static unsigned char bucket(unsigned char c) { return c <= 2 ? c : c == 3 ? 4 : c < 8 ? 8 : c < 16 ? 16 : c < 32 ? 32 : c < 128 ? 64 : 128; }
    bool end(const Src& s, Src& rnd)
    {
        bool fresh = false; uint64_t wd;
        for (size_t i = 0; i < COV; i += 8)
        {
            memcpy(&wd, cov.edge + i, 8); if (wd) for (size_t j = i; j < i + 8; ++j) if (unsigned char k = bucket(cov.edge[j]); k & ~seenEdge[j]) { seenEdge[j] |= k; fresh = true; }
            memcpy(&wd, cov.cmp + i, 8); if (wd) for (size_t j = i; j < i + 8; ++j) if (cov.cmp[j] && !seenCmp[j]) { seenCmp[j] = 1; fresh = true; }
        }
        if (!fresh || s.log().size() > 6000) return false;
        Entry e; e.log = s.log(); uint32_t n = std::min<uint32_t>(cov.nPairs, 256); for (uint32_t i = 0; i < n; ++i) { std::pair<uint64_t, uint64_t> q(cov.pairs[i][0], cov.pairs[i][1]); if (std::find(e.pairs.begin(), e.pairs.end(), q) == e.pairs.end()) e.pairs.push_back(q); }
        if (entries.size() < 3000) entries.push_back(std::move(e)); else entries[rnd.draw(entries.size() - 1)] = std::move(e);
        return true;
    }
    std::vector<uint64_t> mutate(Src& r)
    {
        if (entries.empty() || r.chance(1, 6)) return {};
        size_t n = entries.size(), back = std::min<size_t>(n, 40); const Entry& e = entries[r.coin() ? n - 1 - r.draw(back - 1) : r.draw(n - 1)];
        auto v = e.log; if (v.empty()) return v;
        for (size_t k = 1 + r.weighted({6, 3, 2, 1, 1}); k-- > 0 && !v.empty();)
        {
            size_t p = r.draw(v.size() - 1), len = std::min<size_t>(1 + r.weighted({6, 3, 2, 1, 1, 1, 1, 1}), v.size() - p);
            switch (r.weighted({4, 3, 6, 2, 2, 2, 1, 2, 2}))
            {
            case 0: v[p] = r.draw(UINT64_MAX); break;
            case 1: v[p] += r.range(-4, 4); break;
            case 2:
                for (int tries = 0; tries < 12 && !e.pairs.empty(); ++tries)
                {
                    auto [a, b] = e.pairs[r.draw(e.pairs.size() - 1)]; uint64_t off = r.weighted({4, 1}); std::vector<size_t> at; for (size_t i = 0; i < v.size(); ++i) if (v[i] + off == a) at.push_back(i);
                    if (at.empty()) continue;
                    v[at[r.draw(at.size() - 1)]] = b - off + static_cast<uint64_t>(r.pick({0, 0, 0, 1, -1})); break;
                }
                break;
            case 3: v.erase(v.begin() + p, v.begin() + p + len); break;
            case 4: { std::vector<uint64_t> x; for (size_t i = 0; i < len; ++i) x.push_back(r.draw(UINT64_MAX)); v.insert(v.begin() + p, x.begin(), x.end()); break; }
            case 5: { std::vector<uint64_t> x(v.begin() + p, v.begin() + p + len); v.insert(v.begin() + p, x.begin(), x.end()); break; }
            case 6: { auto& o = entries[r.draw(n - 1)].log; if (!o.empty()) { size_t q = r.draw(o.size() - 1); v.resize(p); v.insert(v.end(), o.begin() + q, o.end()); } break; }
            case 7: v.resize(p); break;
            default: v[p] = r.coin() ? 0 : v[r.draw(v.size() - 1)]; break;
            }
        }
        return v;
    }
};
constexpr uint64_t GUIDED = 1ull << 40; // index of the first guided case

[[noreturn]] void worker(const WorkerCfg& cfg, Shm* s, const std::string& statPath, uint64_t stopG, uint64_t stopI, const std::string& only)
{
    childSetup();
    Src::shm = s->choices; Src::shmCap = CHOICE_CAP;
    auto& r = reg(); std::vector<GStat> st(r.groups.size()); bool truncated = false;
    auto one = [&](size_t gi, uint64_t index, Src& src) {
        s->group = gi; s->index = index; s->choices[0] = 0;
        Ctx ctx; std::string msg; bool disc;
        bool ok = runCase(r.groups[gi], src, ctx, msg, disc); covOn = false;
        if (!ok) { strncpy(s->msg, msg.c_str(), sizeof(s->msg) - 1); s->status = 1; _exit(77); }
        auto& t = st[gi]; ++t.evals; s->evals = s->evals + 1;
        if (disc) { ++t.discards; }
        else
        {
            for (auto& l : ctx.labels) ++t.labels[l];
            if (ctx.nontrivial) { if (t.hashes.insert(ctx.hash).second) { ++t.nontrivial; if (t.samples.size() < 2 && !ctx.sample.empty()) t.samples.push_back(ctx.sample); } }
        }
        if (gi == stopG && index == stopI) { s->status = 2; _exit(0); }
    };
    // groups are interleaved so that a time cap never starves one of them
    auto sweep = [&](std::vector<uint64_t> total, auto&& f) {
        std::vector<uint64_t> next(r.groups.size(), static_cast<uint64_t>(cfg.w));
        for (bool more = true; more && !truncated;)
        {
            more = false;
            for (size_t gi = 0; gi < r.groups.size() && !truncated; ++gi)
            {
                uint64_t quantum = std::max<uint64_t>(1, total[gi] / cfg.W / 50);
                for (uint64_t q = 0; q < quantum && next[gi] < total[gi]; ++q, next[gi] += cfg.W)
                {
                    if (now() > cfg.deadline) { truncated = true; break; }
                    f(gi, next[gi]);
                }
                if (next[gi] < total[gi]) more = true;
            }
        }
    };
    std::vector<uint64_t> total, guided;
    for (auto& g : r.groups) { uint64_t n = !only.empty() && g.name != only ? 0 : groupCases(g, cfg.thorough, cfg.scale); total.push_back(cfg.guided > 0 ? 0 : n); guided.push_back(n <= 1 ? 0 : static_cast<uint64_t>(n * cfg.guided)); }
    sweep(total, [&](size_t gi, uint64_t i) { Src src(caseSeed(cfg.seed, r.groups[gi], i)); one(gi, i, src); });
    // or the search guided by what the cases reach: edits of the cases that reached something new
    std::vector<Corpus> corpora(r.groups.size());
    sweep(guided, [&](size_t gi, uint64_t i) {
        uint64_t seed = caseSeed(cfg.seed + 0x51ED, r.groups[gi], i); Src rnd(seed); uint64_t* keep = Src::shm; Src::shm = nullptr; auto c = corpora[gi].mutate(rnd); Src::shm = keep;
        Src src(std::move(c), seed + 1); Corpus::begin(); covOn = true; one(gi, GUIDED + i, src); Src::shm = nullptr; st[gi].kept += corpora[gi].end(src, rnd); Src::shm = keep; ++st[gi].guided;
    });
    armCpu(0);
    json out; out["truncated"] = truncated;
    for (size_t gi = 0; gi < st.size(); ++gi)
    {
        json j; j["evals"] = st[gi].evals; j["discards"] = st[gi].discards; j["labels"] = st[gi].labels; j["samples"] = st[gi].samples; j["guided"] = st[gi].guided; j["kept"] = st[gi].kept;
        std::vector<uint64_t> h(st[gi].hashes.begin(), st[gi].hashes.end()); j["hashes"] = h; out["groups"].push_back(j);
    }
    { std::ofstream f(statPath, std::ios::binary); auto v = json::to_cbor(out); f.write(reinterpret_cast<const char*>(v.data()), static_cast<std::streamsize>(v.size())); }
    s->status = 2; _exit(0);
}
std::string argOf(int c, char** v, const char* n, const char* d) { for (int i = 1; i + 1 < c; ++i) if (!strcmp(v[i], n)) return v[i + 1]; return d; }

int replayFile(const std::string& path)
{
    std::ifstream f(path); if (!f) { fprintf(stderr, "cannot open %s\n", path.c_str()); return 2; }
    json j = json::parse(f);
    auto& r = reg(); size_t gi = 0; for (; gi < r.groups.size(); ++gi) if (r.groups[gi].name == j["group"]) break;
    if (gi == r.groups.size()) { fprintf(stderr, "unknown group\n"); return 2; }
    Outcome o = probe(gi, j["choices"].get<std::vector<uint64_t>>());
    if (o.failed) { printf("VIOLATION property=%s replay=%s\n%s\n", r.property.c_str(), path.c_str(), o.msg.c_str()); return 1; }
    printf("replay passes\n"); return 0;
}
} // namespace
const std::string& scratch() { return tmpDir; }
bool probing() { return gProbing; }

int run(int argc, char** argv)
{
    auto& r = reg();
    const double t0 = now();
    uint64_t seed = strtoull(argOf(argc, argv, "--seed", "1").c_str(), nullptr, 0);
    const std::string tier = argOf(argc, argv, "--tier", "quick"), root = argOf(argc, argv, "--root", "/verif");
    const bool thorough = tier == "thorough";
    const double scale = atof(argOf(argc, argv, "--scale", "1").c_str());
    const double cap = atof(argOf(argc, argv, "--cap", thorough ? "3000" : "240").c_str());
    const std::string only = argOf(argc, argv, "--group", "");
    int W = atoi(argOf(argc, argv, "--workers", "0").c_str()); if (W <= 0) W = static_cast<int>(std::max(1l, sysconf(_SC_NPROCESSORS_ONLN)));
    tmpDir = argOf(argc, argv, "--tmp", (root + "/build/run." + r.property + "." + std::to_string(getpid())).c_str());
    std::filesystem::create_directories(tmpDir);
    struct Clean { ~Clean() { std::error_code ec; if (!tmpDir.empty()) std::filesystem::remove_all(tmpDir, ec); } } clean;
    if (!getenv("PBT_REEXEC"))
    { // sanitizer options must be in the environment before start-up
        setenv("PBT_REEXEC", "1", 1);
        std::string o = "detect_leaks=0:allocator_may_return_null=1:exitcode=98:handle_abort=1:max_allocation_size_mb=4096:detect_stack_use_after_return=0:log_path=" + tmpDir + "/san";
        setenv("ASAN_OPTIONS", o.c_str(), 1); setenv("UBSAN_OPTIONS", ("halt_on_error=1:print_stacktrace=0:exitcode=98:log_path=" + tmpDir + "/san").c_str(), 1);
        setenv("TSAN_OPTIONS", ("halt_on_error=1:exitcode=98:die_after_fork=0:report_thread_leaks=0:log_path=" + tmpDir + "/san").c_str(), 1);
        std::vector<std::string> a(argv, argv + argc); a.push_back("--tmp"); a.push_back(tmpDir);
        std::vector<char*> av; for (auto& x : a) av.push_back(x.data()); av.push_back(nullptr);
        execv("/proc/self/exe", av.data()); perror("execv"); return 2;
    }
    if (auto rp = argOf(argc, argv, "--replay", ""); !rp.empty()) return replayFile(rp);
    if (auto c1 = argOf(argc, argv, "--case", ""); !c1.empty())
    { // debugging aid: run exactly one generated case in-process
        uint64_t i = strtoull(c1.c_str(), nullptr, 0);
        for (auto& g : r.groups) if (g.name == only) { Src s(caseSeed(seed, g, i)); Ctx c; std::string m; bool d; bool ok = runCase(g, s, c, m, d); printf("%s %s\n%s\n", ok ? "ok" : "FAIL", m.c_str(), c.sample.c_str()); return ok ? 0 : 1; }
        return 2;
    }

    // ---- recorded findings ----------------------------------------------------------------------------
    std::set<std::string> listed; std::map<std::string, std::string> what;
    {
        std::ifstream f(root + "/known_findings.json");
        if (f) { json j = json::parse(f); for (auto& e : j["findings"]) if (e["property"] == r.property) { listed.insert(e["id"]); what[e["id"]] = e["what"]; } }
    }
    int violations = 0; std::string vmsg;
    if (atof(argOf(argc, argv, "--guided", "0").c_str()) <= 0) for (auto& k : r.known)
    {
        if (!gProbe) gProbe = mapShm();
        Shm* s = gProbe; s->status = 0; s->msg[0] = 0;
        pid_t pid = fork();
        if (pid == 0) { childSetup(); armCpu(r.cpuSecPerCase); try { k.fn(); } catch (const std::exception& e) { strncpy(s->msg, e.what(), sizeof(s->msg) - 1); s->status = 1; _exit(77); } s->status = 2; _exit(0); }
        int st; waitpid(pid, &st, 0);
        bool bad = !(s->status == 2 && WIFEXITED(st) && WEXITSTATUS(st) == 0);
        std::string m = bad ? describe(st, pid, s) : "";
        if (bad && listed.count(k.id)) { printf("KNOWN-FINDING: property=%s %s: %s\n", r.property.c_str(), k.id.c_str(), what[k.id].c_str()); }
        else if (bad)
        {
            std::string path = root + "/replays/" + r.property + "-" + k.id + ".json"; std::filesystem::create_directories(root + "/replays");
            std::ofstream(path) << json{{"property", r.property}, {"known_id", k.id}, {"message", m}}.dump(1, ' ', false, json::error_handler_t::replace);
            printf("VIOLATION property=%s replay=%s\n%s\n", r.property.c_str(), path.c_str(), m.c_str()); ++violations;
        }
    }
    fflush(stdout);

    // ---- generated search -----------------------------------------------------------------------------
    WorkerCfg cfg{seed, thorough, 0, W, t0 + cap, scale, atof(argOf(argc, argv, "--guided", "0").c_str())};
    std::vector<Shm*> shm(W); std::vector<pid_t> pids(W); std::vector<bool> alive(W, true);
    for (int w = 0; w < W; ++w)
    {
        shm[w] = mapShm();
        pids[w] = fork(); if (pids[w] < 0) { perror("fork"); return 2; }
        if (pids[w] == 0) { cfg.w = w; worker(cfg, shm[w], tmpDir + "/stat." + std::to_string(w), UINT64_MAX, UINT64_MAX, only); }
    }
    int failedW = -1, failSt = 0, oom = 0;
    for (int left = W; left > 0;)
    {
        int st; pid_t p = wait(&st); if (p < 0) break;
        int w = static_cast<int>(std::find(pids.begin(), pids.end(), p) - pids.begin()); if (w >= W) continue;
        alive[w] = false; --left;
        if (shm[w]->status == 2 && WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { ++oom; continue; }
        if (failedW < 0) { failedW = w; failSt = st; for (int k = 0; k < W; ++k) if (alive[k]) kill(pids[k], SIGTERM); }
        // a second failing worker is ignored: it was stopped or found another case of the same search
        else continue;
        vmsg = describe(st, p, shm[w]);
        // the others were told to stop; collect them
        for (int k = 0; k < W; ++k) if (alive[k]) { int s2; waitpid(pids[k], &s2, 0); alive[k] = false; }
        break;
    }
    uint64_t evals = 0, disc = 0; json groups = json::object(); json samples = json::array(); uint64_t distinct = 0; bool truncated = false;
    std::vector<std::unordered_set<uint64_t>> hs(r.groups.size()); std::vector<GStat> tot(r.groups.size());
    if (failedW < 0)
    {
        for (int w = 0; w < W; ++w)
        {
            std::ifstream f(tmpDir + "/stat." + std::to_string(w), std::ios::binary); if (!f) continue;
            std::vector<uint8_t> v((std::istreambuf_iterator<char>(f)), {}); json j = json::from_cbor(v);
            truncated = truncated || j["truncated"].get<bool>();
            for (size_t g = 0; g < r.groups.size(); ++g)
            {
                auto& x = j["groups"][g]; tot[g].evals += x["evals"].get<uint64_t>(); tot[g].discards += x["discards"].get<uint64_t>(); tot[g].guided += x["guided"].get<uint64_t>(); tot[g].kept += x["kept"].get<uint64_t>();
                for (auto& [k, n] : x["labels"].items()) tot[g].labels[k] += n.get<uint64_t>();
                for (auto& h : x["hashes"]) hs[g].insert(h.get<uint64_t>());
                for (auto& s : x["samples"]) if (tot[g].samples.size() < 3) tot[g].samples.push_back(s);
            }
        }
    }
    else { for (int w = 0; w < W; ++w) evals += shm[w]->evals; evals += 1; }
    for (size_t g = 0; g < r.groups.size(); ++g)
    {
        evals += tot[g].evals; disc += tot[g].discards; distinct += hs[g].size();
        groups[r.groups[g].name] = {{"evaluations", tot[g].evals}, {"discarded", tot[g].discards}, {"distinct_nontrivial", hs[g].size()}, {"classes", tot[g].labels}};
        if (tot[g].guided) { groups[r.groups[g].name]["coverage_guided"] = tot[g].guided; groups[r.groups[g].name]["kept_for_new_coverage"] = tot[g].kept; }
        for (auto& s : tot[g].samples) samples.push_back(r.groups[g].name + ": " + s);
    }
    if (failedW >= 0)
    {
        Shm* s = shm[failedW]; size_t gi = s->group; uint64_t idx = s->index;
        uint64_t n = std::min<uint64_t>(s->choices[0], CHOICE_CAP - 1); std::vector<uint64_t> ch(s->choices + 1, s->choices + 1 + n);
        Outcome o = probe(gi, ch);
        std::string path; json rep{{"property", r.property}, {"group", r.groups[gi].name}, {"seed", seed}, {"case_index", idx}, {"tier", tier}};
        bool confirmed = false;
        if (o.failed)
        {
            Outcome b = shrink(gi, o, now() + 45);
            int ok = 0; for (int k = 0; k < 3; ++k) ok += probe(gi, b.log).failed;
            const int need = PBT_RACES ? 1 : 3; // a data race needs its schedule; one more report from the same case confirms it
            if (ok < need) { b = o; ok = 0; for (int k = 0; k < 3; ++k) ok += probe(gi, ch).failed; if (ok >= need) b.log = ch; }
            confirmed = ok >= need; rep["choices"] = b.log; rep["message"] = b.msg; vmsg = b.msg;
        }
        else
        { // not reproducible in isolation: replay the worker's whole history
            int ok = 0;
            for (int k = 0; k < 3; ++k)
            {
                Shm* q = mapShm(); pid_t p = fork();
                if (p == 0) { cfg.w = failedW; cfg.deadline = now() + 600; worker(cfg, q, tmpDir + "/x", gi, idx, only); }
                int st; waitpid(p, &st, 0); if (!(q->status == 2 && WIFEXITED(st) && WEXITSTATUS(st) == 0) && q->group == gi && q->index == idx) { ++ok; vmsg = describe(st, p, q); }
                munmap(q, sizeof(Shm));
            }
            confirmed = ok >= (PBT_RACES ? 1 : 3); rep["choices"] = ch; rep["message"] = vmsg; rep["history"] = "reproduces only after the preceding cases of worker " + std::to_string(failedW) + " of " + std::to_string(W);
        }
        if (confirmed)
        {
            std::filesystem::create_directories(root + "/replays");
            path = root + "/replays/" + r.property + "-" + r.groups[gi].name + ".json";
            std::ofstream(path) << rep.dump(1, ' ', false, json::error_handler_t::replace);
            printf("VIOLATION property=%s replay=%s\n[%s case %llu, %zu choices] %s\n", r.property.c_str(), path.c_str(), r.groups[gi].name.c_str(), static_cast<unsigned long long>(idx), rep["choices"].size(), vmsg.c_str());
            ++violations; samples.push_back("FAILING " + r.groups[gi].name + ": " + vmsg.substr(0, 500));
        }
        else { printf("UNCONFIRMED property=%s (did not reproduce three times): %s\n", r.property.c_str(), vmsg.c_str()); }
        (void)failSt;
    }
    json ev{{"property", r.property}, {"tier", thorough ? "thorough" : "quick"}, {"seed", seed}, {"level", "exploration"}, {"violations", violations},
            {"wall_s", now() - t0}, {"assumptions", r.assumptions}};
    ev["coverage"] = {{"evaluations", evals}, {"distinct_nontrivial", distinct}, {"rule", r.rule}, {"samples", samples}, {"discarded", disc}, {"groups", groups},
                      {"stopped_by_time_cap", truncated}, {"workers", W}, {"workers_killed_for_memory", oom}};
    if (cfg.guided > 0 && !violations)
    { // the second phase of a run: added to the evidence of the first
        std::ifstream f(root + "/evidence/" + r.property + ".json");
        if (f && only.empty())
        {
            json e = json::parse(f), c = ev["coverage"]; c.erase("samples"); c.erase("rule"); auto& o = e["coverage"]; o["guided_phase"] = c; o["guided_phase"]["wall_s"] = ev["wall_s"];
            o["evaluations"] = o["evaluations"].get<uint64_t>() + evals; e["wall_s"] = e["wall_s"].get<double>() + ev["wall_s"].get<double>(); ev = e;
        }
    }
    if (only.empty() || violations) { std::filesystem::create_directories(root + "/evidence"); std::ofstream(root + "/evidence/" + r.property + ".json") << ev.dump(1, ' ', false, json::error_handler_t::replace) << "\n"; }
    printf("%s tier=%s seed=%llu evaluations=%llu distinct_nontrivial=%llu discarded=%llu violations=%d wall=%.1fs%s%s\n", r.property.c_str(), tier.c_str(), static_cast<unsigned long long>(seed),
           static_cast<unsigned long long>(evals), static_cast<unsigned long long>(distinct), static_cast<unsigned long long>(disc), violations, now() - t0, truncated ? " (time cap)" : "", cfg.guided > 0 ? " (guided phase)" : "");
    if (argOf(argc, argv, "--stats", "") == "1") printf("%s\n", groups.dump(1).c_str());
    return violations ? 1 : 0;
}
} // namespace pbt

int main(int argc, char** argv) { return pbt::run(argc, argv); }
