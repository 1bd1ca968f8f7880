// C22: abbreviated ASCII commands become the ASCII or binary message they stand for.
// LIBS: common dcommon oem
#include "model.hpp"
#include "casegen.hpp"
#include "novatel_edie/decoders/oem/commander.hpp"
using namespace model; using ne::STATUS; using EF = ne::ENCODE_FORMAT;
PBT_PROPERTY("C22", "commands typed from a random definition and random values (with and without line end, with and without parameters, several definitions of the message), encoded to ASCII and binary by the member and the static function, "
                    "into buffers of every size, across changes of the database, and arbitrary or very long command lines in buffers without a terminator; "
                    "non-trivial = the command has at least one parameter (conversion groups) or at least 4 bytes (robustness groups)")
namespace {
struct Out { STATUS st; string msg; uint32_t size; bool nul; };
template <class F> Out call(const string& cmd, size_t cap, EF ef, F f)
{
    Exact in(cmd); std::unique_ptr<char[]> o(new char[cap ? cap : 1]); memset(o.get(), 0x5a, cap ? cap : 1); Out r; r.size = uint32_t(cap); r.nul = false;
    try { r.st = f(reinterpret_cast<char*>(in.data()), uint32_t(cmd.size()), o.get(), r.size, ef); } catch (const std::exception& e) { pbt::fail("Encode threw ", e.what(), " for \"", pbt::esc(cmd.substr(0, 300)), "\""); }
    if (r.st == STATUS::SUCCESS) { PBT_CHECK(r.size <= cap, "length ", r.size, " in a buffer of ", cap); r.msg.assign(o.get(), r.size); r.nul = r.size < cap && o[r.size] == 0; if (r.size < cap) PBT_CHECK(r.nul, "the command is not terminated"); }
    return r;
}
Out member(oem::Commander& c, const string& cmd, size_t cap, EF ef) { return call(cmd, cap, ef, [&](const char* p, uint32_t n, char* o, uint32_t& s, EF e) { return c.Encode(p, n, o, s, e); }); }
Out statics(const Db& d, const string& cmd, size_t cap, EF ef) { oem::MessageDecoder dec(d.db); oem::Encoder enc(d.db); return call(cmd, cap, ef, [&](const char* p, uint32_t n, char* o, uint32_t& s, EF e) { return oem::Commander::Encode(*d.db, dec, enc, p, n, o, s, e); }); }
struct Cmd { const Msg* m; const Fields* fs; Body b; string text; Hdr h; };
Cmd genCmd(Src& s, const Db& d, const Opt& o)
{
    Cmd c; c.m = &d.msgs[s.draw(d.msgs.size() - 1)]; c.fs = nullptr; for (auto& [k, f] : c.m->defs) if (k == c.m->latest) c.fs = &f; if (!c.fs) throw pbt::Discard{};
    c.b = genBody(s, *c.fs, o, d); if (!plainFloats(*c.fs, c.b, false)) throw pbt::Discard{};
    string t = refAbb(*c.fs, c.b, d); t = t.substr(t.find_first_not_of("< \r\n") == string::npos ? t.size() : t.find_first_not_of("< ")); if (!t.empty()) t.pop_back();
    c.text = c.m->name + (t.empty() ? "" : " " + t) + (s.coin() ? "\r\n" : "");
    c.h.usMessageId = uint16_t(c.m->id); c.h.ucMessageType = 0; c.h.uiPortAddress = 0xC0; c.h.usSequence = 0; c.h.ucIdleTime = 0; c.h.uiTimeStatus = 0; c.h.usWeek = 0; c.h.dMilliseconds = 0; c.h.uiReceiverStatus = 0; c.h.uiMessageDefinitionCrc = c.m->latest; c.h.usReceiverSwVersion = 0;
    return c;
}
Opt opts() { Opt o; o.text = true; o.maxFields = 6; o.depth = 1; return o; }
Db genCmdDb(Src& s, const Opt& o) { Db d = genDb(s, o, s.size(1, 3)); for (auto& e : d.enums) if (e.name == "PortAddress" && s.coin()) { bool have = false; for (auto& v : e.vals) have = have || v.first == 192 || v.second == "THISPORT"; if (!have) e.vals.push_back({192, "THISPORT"}); } d.load(); return d; }
string want(const Db& d, const Cmd& c, EF ef)
{
    Body b = shown(*c.fs, c.b); if (ef == EF::ASCII) return refTextMsg(d, c.h, *c.fs, b, T::ASCII, false);
    return refBinMsg(c.h, *c.fs, b, false, false);
}
void same(const Out& o, const string& w, const Cmd& c, EF ef, const char* who)
{
    PBT_CHECK(o.st == STATUS::SUCCESS, who, " reports ", int(o.st), " for \"", pbt::esc(c.text), "\" ", defText(*c.fs));
    if (o.msg != w) pbt::fail(who, " encodes \"", pbt::esc(c.text), "\" as ", ef == EF::ASCII ? "\"" + pbt::esc(o.msg) + "\"" : pbt::hex(o.msg), " instead of ", ef == EF::ASCII ? "\"" + pbt::esc(w) + "\"" : pbt::hex(w), " ", defText(*c.fs));
}
} // namespace
PBT_GROUP(encode, 18000, 200000)
{
    Opt o = opts(); Db d = genCmdDb(src, o); Cmd c = genCmd(src, d, o); ctx.feed(c.text); ctx.mark(c.text.find(' ') != string::npos); ctx.note(defText(*c.fs)); if (c.m->defs.size() > 1) ctx.label("several definitions"); for (auto& f : *c.fs) ctx.label(kindName(f.kind));
    oem::Commander cm(d.db);
    for (EF ef : {EF::ASCII, EF::BINARY}) { string w = want(d, c, ef); size_t cap = w.size() + 64 + src.draw(500); same(member(cm, c.text, cap, ef), w, c, ef, "Commander"); same(statics(d, c.text, cap, ef), w, c, ef, "static Encode"); }
    for (EF ef : {EF::ABBREV_ASCII, EF::JSON, EF::FLATTENED_BINARY, EF::UNSPECIFIED}) { PBT_EQ(int(member(cm, c.text, 1000, ef).st), int(STATUS::UNSUPPORTED), "format ", int(ef)); PBT_EQ(int(statics(d, c.text, 1000, ef).st), int(STATUS::UNSUPPORTED), "format ", int(ef)); }
}
PBT_GROUP(buffer, 8000, 80000)
{
    Opt o = opts(); Db d = genCmdDb(src, o); Cmd c = genCmd(src, d, o); ctx.feed(c.text); ctx.mark(c.text.find(' ') != string::npos); oem::Commander cm(d.db); EF ef = src.coin() ? EF::ASCII : EF::BINARY; string w = want(d, c, ef);
    for (int k = 0; k < 10; ++k)
    {
        size_t cap = k < 5 ? w.size() - std::min<size_t>(w.size(), src.draw(8)) + src.draw(8) : src.draw(w.size() + 70); ctx.feed(std::to_string(cap));
        for (int who = 0; who < 2; ++who)
        {
            Out r = who ? member(cm, c.text, cap, ef) : statics(d, c.text, cap, ef);
            if (cap < w.size()) PBT_CHECK(r.st == STATUS::BUFFER_FULL, "status ", int(r.st), " in ", cap, " bytes for ", w.size());
            else if (cap < w.size() + 64 && r.st == STATUS::BUFFER_FULL) continue;
            else same(r, w, c, ef, who ? "Commander" : "static Encode");
        }
    }
    uint32_t n = 10; char z[10]; PBT_EQ(int(cm.Encode(nullptr, 3, z, n, ef)), int(STATUS::NULL_PROVIDED), "no command"); PBT_EQ(int(cm.Encode("LOG", 3, nullptr, n, ef)), int(STATUS::NULL_PROVIDED), "no buffer");
}
// the database in effect is the one loaded last
PBT_GROUP(databases, 6000, 60000)
{
    Opt o = opts(); vector<Db> ds; for (int i = 0; i < 3; ++i) ds.push_back(genCmdDb(src, o)); bool start = src.chance(2, 3); oem::Commander cm(start ? ds[0].db : nullptr); const Db* cur = start ? &ds[0] : nullptr; ctx.mark(true);
    for (size_t i = 0, n = src.size(1, 8); i < n; ++i)
    {
        if (src.chance(1, 3)) { cur = &ds[src.draw(2)]; cm.LoadJsonDb(cur->db); ctx.feed("L"); continue; }
        const Db& from = src.chance(3, 4) && cur ? *cur : ds[src.draw(2)]; Cmd c = genCmd(src, from, o); EF ef = src.coin() ? EF::ASCII : EF::BINARY; ctx.feed(c.text);
        if (!cur) { PBT_EQ(int(member(cm, c.text, 70000, ef).st), int(STATUS::NO_DATABASE), "no database"); continue; }
        if (&from == cur) same(member(cm, c.text, 400000, ef), want(*cur, c, ef), c, ef, "Commander");
        else { string w0 = want(from, c, ef); Out r = member(cm, c.text, 400000, ef), r2 = statics(*cur, c.text, 400000, ef); PBT_EQ(int(r.st), int(r2.st), "status of \"", pbt::esc(c.text), "\" from another database"); PBT_CHECK(r.msg == r2.msg, "command from another database"); }
    }
}
PBT_GROUP(unknown, 8000, 80000)
{
    Opt o = opts(); static Db d = [] { Opt q = opts(); Src s(uint64_t{5}); return genCmdDb(s, q); }(); oem::Commander cm(d.db); string name = src.over("ABCDEFGHXYZ0123456789_", src.size(1, 14)); for (auto& m : d.msgs) if (name.compare(0, m.name.size(), m.name) == 0) throw pbt::Discard{};
    name = "Q" + name; string cmd = name + (src.coin() ? " " + src.over("ABC 123.-\"", src.size(0, 30)) : "") + (src.coin() ? "\r\n" : ""); ctx.feed(cmd); ctx.mark(cmd.size() >= 4); EF ef = src.coin() ? EF::ASCII : EF::BINARY;
    PBT_EQ(int(member(cm, cmd, 1000, ef).st), int(STATUS::NO_DEFINITION), "\"", pbt::esc(cmd), "\""); PBT_EQ(int(statics(d, cmd, 1000, ef).st), int(STATUS::NO_DEFINITION), "\"", pbt::esc(cmd), "\"");
}
// any line: no exception, nothing outside the buffers
PBT_GROUP(robust, 16000, 200000)
{
    static vector<Db> ds = [] { vector<Db> v; Opt q = opts(); for (uint64_t k = 1; k < 30; ++k) { Src s(k); v.push_back(genCmdDb(s, q)); } return v; }(); const Db& d = ds[src.draw(ds.size() - 1)]; Opt o = opts(); Cmd c = genCmd(src, d, o); string t = c.text;
    switch (src.draw(5))
    {
    case 0: t = t.substr(0, src.draw(t.size())); break;
    case 1: for (size_t i = 0, n = src.size(1, 5); i < n; ++i) t[src.draw(t.size() - 1)] = char(src.byte()); break;
    case 2: t = c.m->name + " " + src.bytes(src.size(0, 80)); break;
    case 3: t = c.m->name + " " + (src.coin() ? "\"" : "") + string(src.coin() ? 32760 + src.draw(20) : src.draw(70000), src.pick({'a', '1', ' ', '"', '<'})); break;
    case 4: t = src.bytes(src.size(0, 60)); break;
    default: t.insert(src.draw(t.size()), src.pick(vector<string>{" ", "  ", "\"", "\r\n", "<", "\\", string(1, '\0'), "*", ","}));
    }
    ctx.feed(t.substr(0, 200)); ctx.mark(t.size() >= 4); oem::Commander cm(d.db); size_t cap = src.chance(1, 4) ? src.draw(200) : 100000; EF ef = src.coin() ? EF::ASCII : EF::BINARY; Out a = member(cm, t, cap, ef), b = statics(d, t, cap, ef); PBT_EQ(int(a.st), int(b.st), "both functions on \"", pbt::esc(t.substr(0, 200)), "\""); PBT_CHECK(a.msg == b.msg, "both functions on \"", pbt::esc(t.substr(0, 200)), "\"");
}
