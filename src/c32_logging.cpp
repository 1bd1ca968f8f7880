// C32: log records reach exactly the configured outputs.
// GUIDED: 0
// LIBS: common dcommon oem
#include "streams.hpp"
#include <atomic>
#include "novatel_edie/common/logger.hpp"
#include "novatel_edie/decoders/oem/parser.hpp"
#include <filesystem>
#include <fstream>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
using namespace model;
PBT_PROPERTY("C32", "random histories of logger registrations, level changes, added rotating files and consoles and records, then records and registrations from several threads, then a shutdown, each in a process of its own; the files (with their rotated parts) and the console output are read back and compared with a model of levels and outputs; parsers with framer and decoder logging enabled against a capturing output; "
                    "non-trivial = a file received a record and another was withheld from it by a level")
namespace {
using Lv = spdlog::level::level_enum;
const char* const LEVELS[] = {"trace", "debug", "info", "warning", "error", "critical", "off"};
struct Dir { string path; Dir() : path(pbt::scratch() + "/log." + std::to_string(getpid())) { std::filesystem::remove_all(path); std::filesystem::create_directories(path); } ~Dir() { std::error_code ec; std::filesystem::remove_all(path, ec); } };
struct Sink { int file; int level; };                               // file -1: an added console; -2: the root logger's console
struct Log { string name; bool own = false, known = false; int level = 2; vector<Sink> sinks; };
struct Op { enum { REGISTER, LEVEL, GLOBAL, FILE_, CONSOLE, RECORD } k; int log = 0, level = 0, file = 0, wrap = 0; size_t size = 0, files = 0; bool rotate = false; string text; };
struct Rec { int log, level, thread; string text; };
vector<string> lines(const string& f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); string t = s.str(); vector<string> r; size_t a = 0; while (a < t.size()) { size_t e = t.find('\n', a); if (e == string::npos) { r.push_back(t.substr(a) + "<no end of line>"); break; } r.push_back(t.substr(a, e - a)); a = e + 1; } return r; }
// a file written through a rotating output: its rotated parts, oldest first, then the file itself
std::map<int, string> rotated(const string& dir, const string& stem)
{
    std::map<int, string> parts; for (auto& e : std::filesystem::directory_iterator(dir)) { string n = e.path().filename().string(); if (!e.is_regular_file() || n.rfind(stem + ".", 0) != 0 || n.size() < 5 || n.substr(n.size() - 4) != ".log") continue; string mid = n.substr(stem.size(), n.size() - stem.size() - 4); parts[mid.empty() ? 0 : -atoi(mid.c_str() + 1)] = e.path().string(); }
    return parts;
}
// "[2026-11-19 04:00:12.411000] [info] text": the text, or a failure
string split(const string& l, string& level)
{
    const string pat = "[dddd-dd-dd dd:dd:dd.dddddd] ["; bool ok = l.size() > pat.size(); for (size_t i = 0; ok && i < pat.size(); ++i) ok = pat[i] == 'd' ? isdigit(static_cast<unsigned char>(l[i])) != 0 : l[i] == pat[i];
    size_t e = ok ? l.find("] ", pat.size()) : string::npos; PBT_CHECK(ok && e != string::npos, "a line of the file is not '[time] [level] text': ", pbt::esc(l)); level = l.substr(pat.size(), e - pat.size()); return l.substr(e + 2);
}
template <class F> int child(const string& out, F&& f)
{
    fflush(stdout); fflush(stderr); pid_t p = fork(); PBT_CHECK(p >= 0, "fork");
    if (p == 0) { if (!freopen(out.c_str(), "w", stdout)) _exit(90); int rc = 91; try { rc = f(); } catch (const std::exception& e) { fprintf(stderr, "exception: %s\n", e.what()); } _exit(rc); }
    int st = 0; waitpid(p, &st, 0); return st;
}
string lvl(int l) { return LEVELS[l]; }
} // namespace
PBT_GROUP(history, 4000, 150000)
{
    Dir dir; vector<Log> logs; size_t n = src.size(1, 5); for (size_t i = 0; i < n; ++i) logs.push_back({"log" + std::to_string(i) + (src.chance(1, 4) ? " with.a-name" : ""), src.chance(1, 5), false, 2, {}});
    logs.push_back({"root", false, false, 2, {}}); Log& root = logs.back(); size_t rootIx = logs.size() - 1; root.sinks.push_back({-2, 0});
    bool rootUp = false; struct File { int uses = 0; size_t size = 0, files = 0; bool rotate = false, old = false; } files[4]; for (auto& f : files) f.old = src.chance(1, 3);
    vector<Op> ops; vector<Rec> recs; int serial = 0; bool wrote = false, withheld = false;
    auto up = [&] { rootUp = true; root.known = true; };
    auto reg = [&](size_t i) { if (logs[i].own) return; up(); if (!logs[i].known) { logs[i].known = true; logs[i].level = root.level; logs[i].sinks = root.sinks; } };
    auto text = [&](int th) { string t = "~" + std::to_string(th) + "." + std::to_string(serial++) + " "; size_t m = src.chance(1, 12) ? src.size(0, 3000) : src.size(0, 120); static const string chars = "abcdefghijklmnopqrstuvwxyz {}%[]:,.#*\\\"\xC3\xA9"; return t + src.over(chars, m); };
    auto record = [&](int i, int th, int l) { Op o; o.k = Op::RECORD; o.log = i; o.level = l; o.wrap = int(src.draw(1)); o.text = text(th); recs.push_back({i, l, th, o.text}); return o; };
    auto rlevel = [&] { return int(src.draw(5)); };
    // reference: what each record reaches, evaluated when it is logged
    std::map<std::tuple<int, int, int>, vector<std::pair<int, string>>> want; std::map<string, int> consoles;
    auto expect = [&](const Rec& r) { const Log& g = logs[r.log]; for (auto& s : g.sinks) { bool pass = r.level >= g.level && r.level >= s.level; if (s.file >= 0) { (pass ? wrote : withheld) = true; } if (!pass) continue; if (s.file == -1) ++consoles[r.text]; else want[{s.file, r.log, r.thread}].push_back({r.level, r.text}); } };
    const string oldLine = "[2020-01-01 00:00:00.000000] [info] Logger initialized."; for (int i = 0; i < 4; ++i) if (files[i].old) std::ofstream(dir.path + "/f" + std::to_string(i) + ".log") << oldLine << '\n'; std::filesystem::create_directories(dir.path + "/f4.log");
    size_t steps = src.size(1, 40);
    for (size_t i = 0; i < steps; ++i)
    {
        Op o; o.log = int(src.draw(logs.size() - 1)); o.wrap = int(src.draw(1)); Log& g = logs[o.log];
        switch (src.weighted({2, 2, 1, 4, 1, 10}))
        {
        case 0: o.k = Op::REGISTER; reg(o.log); break;
        case 1: o.k = Op::LEVEL; reg(o.log); o.level = int(src.draw(6)); g.level = o.level; break;
        case 2: o.k = Op::GLOBAL; o.level = int(src.draw(6)); for (auto& x : logs) if (x.known && !x.own) x.level = o.level; if (!rootUp) continue; break;
        case 3:
        {
            o.k = Op::FILE_; reg(o.log); o.file = int(src.draw(4)); o.level = int(src.draw(6)); if (o.file == 4) { up(); break; } // 4: a directory
            File& f = files[o.file]; bool has = false; for (auto& s : g.sinks) if (s.file == o.file) has = true; if (has) { o.k = Op::REGISTER; break; }
            o.rotate = src.coin(); o.files = 20; o.size = 5u << 20; if (src.chance(1, 3)) { o.size = src.size(200, 3000); o.files = src.pick<size_t>({1, 2, 3, 300, 300}); }
            if (f.uses++ == 0) { f.size = o.size; f.files = o.files; f.rotate = o.rotate; if (o.size < 10000) ctx.label("limited size"); } else ctx.label("file of several loggers");
            if (!rootUp) ctx.label("file before any registration"); up(); g.sinks.push_back({o.file, o.level}); break;
        }
        case 4: o.k = Op::CONSOLE; reg(o.log); o.level = int(src.draw(6)); g.sinks.push_back({-1, o.level}); break;
        default: reg(o.log); o = record(o.log, 0, rlevel()); expect(recs.back()); break;
        }
        ops.push_back(o);
    }
    vector<vector<Op>> threads; if (src.chance(1, 3))
    {
        size_t t = src.size(2, 4); ctx.label("threads"); threads.resize(t); vector<std::pair<size_t, Rec>> order;
        for (size_t k = 0; k < t; ++k) for (size_t i = 0, m = src.size(1, 12); i < m; ++i) { int l = int(src.draw(logs.size() - 1)); reg(l); Op r; r.k = Op::REGISTER; r.log = l; threads[k].push_back(r); threads[k].push_back(record(l, int(k) + 1, rlevel())); expect(recs.back()); }
    }
    ctx.mark(wrote && withheld); std::stringstream show; show << logs.size() << " loggers; "; for (auto& o : ops) show << (logs[o.log].own ? "own " : "") << (o.k == Op::REGISTER ? "register " : o.k == Op::LEVEL ? "level " : o.k == Op::GLOBAL ? "all levels " : o.k == Op::FILE_ ? "file " : o.k == Op::CONSOLE ? "console " : "record ") << o.log << '/' << LEVELS[o.level] << '/' << o.file << "; "; ctx.feed(show.str());
    bool wrapShutdown = src.coin();
    int st = child(dir.path + "/console", [&]() -> int {
        std::vector<std::shared_ptr<spdlog::logger>> own(logs.size()); std::vector<std::atomic<spdlog::logger*>> first(logs.size()); std::atomic<int> bad{0};
        auto get = [&](const Op& o) { if (logs[o.log].own) { if (!own[o.log]) own[o.log] = std::make_shared<spdlog::logger>(logs[o.log].name); return own[o.log]; } auto p = o.wrap ? Logger::RegisterLogger(logs[o.log].name) : GetLoggerManager()->RegisterLogger(logs[o.log].name); spdlog::logger* none = nullptr; if (!p || p->name() != logs[o.log].name) bad = 11; else if (!first[o.log].compare_exchange_strong(none, p.get()) && none != p.get()) bad = 12; return p; };
        auto run = [&](const Op& o) {
            auto level = static_cast<Lv>(o.level);
            switch (o.k)
            {
            case Op::REGISTER: get(o); break;
            case Op::LEVEL: get(o)->set_level(level); break;
            case Op::GLOBAL: if (o.wrap) Logger::SetLoggingLevel(level); else GetLoggerManager()->SetLoggingLevel(level); break;
            case Op::FILE_: { auto p = get(o); size_t before = p->sinks().size(); try { string f = dir.path + "/f" + std::to_string(o.file) + ".log"; if (o.wrap) Logger::AddRotatingFileLogger(p, level, f, o.size, o.files, o.rotate); else GetLoggerManager()->AddRotatingFileLogger(p, level, f, o.size, o.files, o.rotate); if (o.file == 4) bad = 13; } catch (const spdlog::spdlog_ex&) { if (o.file != 4) bad = 14; } if (p->sinks().size() != before + (o.file != 4)) bad = 15; break; }
            case Op::CONSOLE: if (o.wrap) Logger::AddConsoleLogging(get(o), level); else GetLoggerManager()->AddConsoleLogging(get(o), level); break;
            case Op::RECORD: if (o.wrap) get(o)->log(level, "{}", o.text); else get(o)->log(level, o.text); break;
            }
        };
        for (auto& o : ops) run(o);
        std::vector<std::thread> ts; for (auto& t : threads) ts.emplace_back([&run, &t] { for (auto& o : t) run(o); }); for (auto& t : ts) t.join();
        if (wrapShutdown) Logger::Shutdown(); else GetLoggerManager()->Shutdown();
        return bad;
    });
    PBT_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, st == 11 << 8 ? "a logger registered under a name has another name" : st == 12 << 8 ? "registering a name again gives another logger" : st >> 8 >= 13 && st >> 8 <= 15 ? "adding a file fails, or succeeds for a directory, or adds the wrong number of outputs: " + std::to_string(st >> 8) : "the process ends with status " + std::to_string(st), " after ", show.str());
    std::map<std::tuple<int, int, int>, vector<std::pair<int, string>>> got; std::map<string, Rec> known; for (auto& r : recs) known[r.text] = r;
    auto foreign = [&](const string& t, const string& l) { for (const char* p : {"Logger initialized.", "RegisterLogger(\"", "Added rotating file sink: ", "Removed rotating file sink: "}) if (t.rfind(p, 0) == 0) return; pbt::fail("a record nobody wrote is in ", l, ": ", pbt::esc(t), " after ", show.str()); };
    for (int f = 0; f < 4; ++f)
    {
        auto parts = rotated(dir.path, "f" + std::to_string(f)); const File& u = files[f]; auto where = [&](int k) { return " part " + std::to_string(-k) + " of file " + std::to_string(f) + " with limits " + std::to_string(u.size) + " and " + std::to_string(u.files) + " after " + show.str(); };
        if (u.uses) { PBT_CHECK(parts.count(0), "no file:", where(0)); PBT_CHECK(parts.size() <= u.files + 1, parts.size(), " parts:", where(0)); if (parts.size() > 1) ctx.label("rotated"); } else PBT_CHECK(parts.size() == size_t(u.old), "a file nobody added:", where(0));
        if (u.old && u.uses && u.size > 10000) { bool inBase = false; auto v = lines(parts[0]); inBase = !v.empty() && v[0] == oldLine; PBT_CHECK(inBase == !u.rotate && parts.count(-1) == size_t(u.rotate), "the former content is ", inBase ? "kept in" : "moved out of", where(0)); }
        for (auto& [k, path] : parts)
        {
            auto v = lines(path); size_t bytes = std::filesystem::file_size(path); PBT_CHECK(!u.uses || bytes <= u.size || v.size() == 1, bytes, " bytes in", where(k));
            for (auto& l : v)
            {
                string level, t = split(l, level); auto it = known.find(t); if (it == known.end()) { foreign(t, "a file"); continue; } const Rec& r = it->second;
                PBT_CHECK(level == LEVELS[r.level], "a record is shown with level ", level, " but was written with ", LEVELS[r.level]); got[{f, r.log, r.thread}].push_back({r.level, t});
            }
        }
        // the oldest parts are dropped when there are too many
        if (u.uses && parts.size() == u.files + 1) for (auto& [k, v] : want) if (std::get<0>(k) == f) { auto& g = got[k]; if (g.size() < v.size()) { ctx.label("oldest records dropped"); v.erase(v.begin(), v.end() - g.size()); } }
    }
    std::map<string, int> plain;
    for (auto& l : lines(dir.path + "/console"))
    {
        if (l.rfind("~", 0) == 0) { PBT_CHECK(known.count(l), "the console shows a record nobody wrote: ", pbt::esc(l)); ++plain[l]; continue; }
        size_t at = l.find('~'); if (at == string::npos) { size_t b = l.rfind("] "); foreign(b == string::npos ? l : l.find(" [root] ") != string::npos ? l.substr(l.find("] ", l.find(" [root] ") + 8) + 2) : l, "the console"); continue; }
        auto it = known.find(l.substr(at)); if (it == known.end()) { // a path or name with '~' cannot occur, so this is altered text
            pbt::fail("the console shows an altered record: ", pbt::esc(l)); }
        const Rec& r = it->second; string tail = "[" + logs[r.log].name + "] [" + LEVELS[r.level] + "] "; PBT_CHECK(at >= tail.size() && l.substr(at - tail.size(), tail.size()) == tail, "the console shows ", pbt::esc(l), " for a record of ", logs[r.log].name, "/", LEVELS[r.level]); got[{-2, r.log, r.thread}].push_back({r.level, r.text});
    }
    for (auto* m : {&want, &got}) for (auto& [k, v] : *m)
    {
        auto& a = want[k]; auto& b = got[k]; if (a == b) continue; size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
        pbt::fail(std::get<0>(k) < 0 ? "the console" : "file " + std::to_string(std::get<0>(k)), " has ", b.size(), " records of logger ", logs[std::get<1>(k)].name, " and thread ", std::get<2>(k), ", expected ", a.size(), "; they differ at ", i, ": got ", i < b.size() ? lvl(b[i].first) + " " + pbt::esc(b[i].second) : "nothing", ", expected ", i < a.size() ? lvl(a[i].first) + " " + pbt::esc(a[i].second) : "nothing", " after ", show.str());
    }
    PBT_CHECK(plain == consoles, "the added consoles show ", plain.size(), " records, expected ", consoles.size(), " after ", show.str()); (void)rootIx;
}
namespace {
struct Capture : spdlog::sinks::base_sink<std::mutex> { vector<string> got; void sink_it_(const spdlog::details::log_msg& m) override { got.push_back(string("[") + LEVELS[int(m.level)] + "] " + string(m.payload.data(), m.payload.size())); } void flush_() override {} };
string joined(const vector<string>& v) { string r; for (auto& s : v) r += s + "\n"; return r; }
} // namespace
// the framer and decoders of a parser write their records to the given file, and reading is not affected by it
PBT_GROUP(components, 1200, 40000)
{
    Opt o; o.text = true; o.maxFields = 4; Db d = genDb(src, o, src.size(1, 3)); for (auto& m : d.msgs) if (m.id == 43 || m.name.compare(0, 5, "RANGE") == 0 || m.name.compare(0, 8, "RXCONFIG") == 0) throw pbt::Discard{};
    streams::addRx(d); rng::addMessages(d); d.load(); Db other = d; { Opt q = o; for (auto& m : other.msgs) if (!streams::special(m) && src.coin()) for (auto& [c, f] : m.defs) f = genFields(src, q, other.enums, 3, 0); } other.load(); vector<Db> ds{d, other, other};
    string in = streams::streamOf(src, ds, 0, o, true, true); for (size_t i = 0, n = src.size(0, 4); i < n; ++i) { size_t at = src.draw(in.size() - 1); if (src.coin()) in[at] = char(src.byte()); else in.insert(at, src.bytes(src.size(1, 20))); }
    for (size_t i = 0, n = src.size(0, 3); i < n; ++i) { string b = "#" + d.msgs[src.draw(d.msgs.size() - 1)].name + "A,COM1,"; const char* good[] = {"0", "90.0", "FINESTEERING", "2000", "1.000", "00000000", "0001", "0"}; size_t bad = src.draw(9); for (size_t k = 0; k < 8; ++k) b += (k == bad ? src.pick<string>({"x", "", "-", "99999999999999"}) : string(good[k])) + (k < 7 ? "," : ";"); b += "1,2"; in.insert(0, b + num("*%08x\r\n", crc32ref(b.substr(1)))); ctx.label("header with a broken field"); }
    vector<std::tuple<int, int, string>> direct; for (size_t i = 0, n = src.size(0, 6); i < n; ++i) { direct.emplace_back(int(src.draw(2)), int(src.draw(5)), "own record " + std::to_string(i) + src.alnum(src.size(0, 2000))); }
    bool file = src.coin(); int level = int(src.draw(6)), before = int(src.draw(6)); ctx.feed(in); Dir dir; string log = dir.path + "/parser.log"; bool unknown = src.coin();
    auto run = [&](bool logging) {
        return child(dir.path + (logging ? "/out1" : "/out0"), [&]() -> int {
            int bad = 0; GetLoggerManager()->RegisterLogger("root"); if (!logging) GetLoggerManager()->SetLoggingLevel(spdlog::level::off); string res; auto cap = std::make_shared<Capture>();
            {
                auto p = std::make_unique<oem::Parser>(d.db); auto f = std::make_unique<oem::FileParser>(d.db); spdlog::apply_all([&](const std::shared_ptr<spdlog::logger>& l) { l->set_error_handler([&](const string& m) { fprintf(stderr, "log error: %s\n", m.c_str()); bad = 21; }); });
                if (logging) { GetLoggerManager()->SetLoggingLevel(static_cast<Lv>(before)); for (const char* n : {"novatel_framer", "novatel_header_decoder", "message_decoder"}) { auto l = spdlog::get(n); if (!l) return 22; l->sinks().push_back(cap); } if (file) f->EnableFramerDecoderLogging(static_cast<Lv>(level), log); else p->EnableFramerDecoderLogging(static_cast<Lv>(level), log); cap->got.clear(); }
                auto setup = [&](auto& x) { x.SetReturnUnknownBytes(unknown); x.SetDecompressRangeCmp(true); x.SetEncodeFormat(ne::ENCODE_FORMAT::ASCII); };
                if (file) { setup(*f); auto is = std::make_shared<std::stringstream>(in); f->SetStream(is); res = streams::drain(*f, true, ne::STATUS::STREAM_EMPTY); }
                else { setup(*p); for (size_t i = 0; i < in.size(); i += 1000) { size_t k = std::min<size_t>(1000, in.size() - i); (void)!p->Write(reinterpret_cast<const unsigned char*>(in.data()) + i, k); res += streams::drain(*p, true, ne::STATUS::BUFFER_EMPTY); } }
                if (logging) { for (auto& [w, l, s] : direct) spdlog::get(w == 0 ? "novatel_framer" : w == 1 ? "novatel_header_decoder" : "message_decoder")->log(static_cast<Lv>(l), s); GetLoggerManager()->Shutdown(); }
                std::ofstream(dir.path + (logging ? "/res1" : "/res0")) << res; if (logging) std::ofstream(dir.path + "/cap") << joined(cap->got);
                if (logging) { p.release(); f.release(); } // the files are complete without their owners' end
            }
            return bad;
        });
    };
    for (bool l : {false, true}) { int st = run(l); PBT_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, st == 21 << 8 ? "a log record cannot be formatted" : "the process ends with status " + std::to_string(st), l ? " with" : " without", " logging"); }
    auto a = lines(dir.path + "/res0"), b = lines(dir.path + "/res1"); for (size_t i = 0; i < std::max(a.size(), b.size()); ++i) PBT_CHECK(i < a.size() && i < b.size() && a[i] == b[i], "reading gives ", i < b.size() ? pbt::esc(b[i], 300) : "nothing", " with logging and ", i < a.size() ? pbt::esc(a[i], 300) : "nothing", " without");
    auto cap = lines(dir.path + "/cap"), got = lines(log); bool some = !cap.empty(); const string time = "[2026-11-19 04:00:12.411000] "; for (auto& s : got) if (s.size() > time.size() && s[0] == '[' && s[5] == '-' && s[20] == '.' && s[27] == ']') s.erase(0, time.size());
    vector<string> own, have; for (auto& [w, l, s] : direct) if (l >= level) own.push_back(string("[") + LEVELS[l] + "] " + s);
    for (auto& s : cap) if (s.find("own record ") != string::npos) have.push_back(s); PBT_CHECK(own == have, "with framer and decoder logging at level ", LEVELS[level], " their loggers pass ", have.size(), " of the records written to them, expected ", own.size());
    ctx.mark(some && level > 0); if (cap.size() > direct.size()) ctx.label("records of the components");
    for (size_t i = 0; i < std::max(cap.size(), got.size()); ++i) PBT_CHECK(i < cap.size() && i < got.size() && cap[i] == got[i], "line ", i, " of the log file is ", i < got.size() ? pbt::esc(got[i], 300) : "missing", ", the record was ", i < cap.size() ? pbt::esc(cap[i], 300) : "none");
}
