// C28: a component given another message database behaves as one built with it.
// LIBS: common dcommon oem
#include "casegen.hpp"
#include "streams.hpp"
#include <filesystem>
#include <fstream>
#include <unistd.h>
using namespace model; using namespace streams;
PBT_PROPERTY("C28", "histories of a component (header decoder, message decoder, encoder, parser, file parser, receiver-configuration handler, range decompressor) given up to three related databases one after the other - "
                    "same messages with other definitions, names, identifiers and enumerations - and used on messages of all of them in between, compared after every use with a component built with the current database; "
                    "non-trivial = used before and after a change of database on messages it decodes")
namespace {
bool hasName(const Db& d, const string& n) { for (auto& m : d.msgs) if (m.name == n) return true; return false; }
// the same database after some years
Db variant(Src& s, const Db& a, const Opt& o)
{
    Db d; d.enums = a.enums; d.msgs = a.msgs;
    for (auto& e : d.enums)
        switch (s.draw(3))
        {
        case 0: break;
        case 1: for (auto& v : e.vals) v.second += "Q"; break;
        case 2: for (size_t i = 0; i + 1 < e.vals.size(); ++i) if (s.coin()) std::swap(e.vals[i].second, e.vals[i + 1].second); break;
        default: if (e.vals.size() > 1) e.vals.pop_back();
        }
    for (auto& e : d.enums) if (e.name == "Responses") { vector<std::pair<uint32_t, string>> v; for (auto& x : e.vals) if (x.first != 1 && x.second != "OK" && x.second != "OKQ") v.push_back(x); v.insert(v.begin(), {1, "OK"}); e.vals = v; } // 1 is OK in every release
    for (auto& e : d.enums) if (e.name == "Commands" || e.name == "GPSTimeStatus") { std::set<string> have; for (auto& v : e.vals) have.insert(v.second); for (auto& b : a.byName(e.name)->vals) { bool in = false; for (auto& v : e.vals) in |= v.first == b.first; if (!in) e.vals.push_back(b); } }
    for (size_t i = 0; i < d.msgs.size(); ++i)
    {
        Msg& m = d.msgs[i];
        if (special(m)) { if (m.id == 43 && s.coin()) m.defs[0].second[0].sub[2].conv = "%.5lf"; continue; }
        switch (s.draw(5))
        {
        case 0: break;
        case 1: for (auto& [c, f] : m.defs) f = genFields(s, o, d.enums, 4, 0); break;
        case 2: if (!hasName(d, m.name + "Q")) m.name += "Q"; break;
        case 3: { Msg& n = d.msgs[s.draw(d.msgs.size() - 1)]; if (!special(n)) std::swap(m.id, n.id); break; }
        case 4: { Msg& n = d.msgs[s.draw(d.msgs.size() - 1)]; if (!special(n)) std::swap(m.defs, n.defs), std::swap(m.latest, n.latest); break; }
        default: m.latest = m.defs[s.draw(m.defs.size() - 1)].first;
        }
    }
    d.load(); return d;
}
vector<Db> worlds(Src& s, const Opt& o, bool rx, bool ranges)
{
    Db a = genDb(s, o, s.size(1, 3)); for (auto& m : a.msgs) if (m.id == 43 || m.name.compare(0, 5, "RANGE") == 0 || m.name.compare(0, 8, "RXCONFIG") == 0) throw pbt::Discard{};
    if (s.chance(1, 8)) for (auto& x : a.msgs[0].defs) x.second.clear();
    if (rx) addRx(a);
    if (ranges) rng::addMessages(a);
    a.load(); vector<Db> v{a}; v.push_back(variant(s, a, o)); v.push_back(variant(s, s.coin() ? a : v[1], o)); return v;
}
void differ(const string& used, const string& fresh, const char* what, const string& msg, const string& log)
{
    if (used == fresh) return;
    size_t k = 0; while (k < used.size() && k < fresh.size() && used[k] == fresh[k]) ++k; size_t a = k > 60 ? k - 60 : 0;
    pbt::fail(what, " used with other databases before differs at ", k, ": ...", used.substr(a, 300), " | built with the database: ...", fresh.substr(a, 300), " | for \"", pbt::esc(msg, 300), "\" after", log);
}
// built with the database, or with the file that holds it
template <class P> std::unique_ptr<P> built(Src& s, const Db& d)
{
    if (!s.chance(1, 5)) return std::make_unique<P>(d.db);
    string f = pbt::scratch() + "/db." + std::to_string(getpid()) + ".json"; std::ofstream(f, std::ios::binary) << d.json(); return std::make_unique<P>(std::filesystem::path(f));
}
} // namespace
PBT_GROUP(stages, 8000, 300000)
{
    Opt o; o.text = o.json = true; o.maxFields = 4; auto ds = worlds(src, o, false, false); int cur = src.chance(1, 6) ? -1 : int(src.draw(2)); bool together = src.chance(3, 4);
    Stages st(cur < 0 ? nullptr : ds[cur].db); string log = num(" built(%d)", cur); size_t before = 0, after = 0; bool changed = false;
    for (size_t i = 0, n = src.size(3, 14); i < n; ++i)
    {
        if (cur < 0 || src.chance(1, 4))
        {
            int k = int(src.draw(2)); if (cur >= 0 && k != cur && before) changed = true; cur = k; log += num(" load(%d)", k);
            if (together) st.load(ds[k].db); else { st.md.LoadJsonDb(ds[k].db); st.en.LoadJsonDb(ds[k].db); st.hd.LoadJsonDb(ds[k].db); }
            continue;
        }
        const Db& from = src.chance(3, 4) ? ds[cur] : ds[src.draw(2)]; string m = message(src, from, o, true); ctx.feed(m); bool ok, ok2; Stages fresh(ds[cur].db); string a = st.use(m, ok), b = fresh.use(m, ok2); log += &from == &ds[cur] ? " use" : " use(other)";
        differ(a, b, "the decoders and the encoder", m, log); if (&from == &ds[cur]) PBT_CHECK(ok || formOf(m) == HF::JSON, "a message of the database is not decoded: ", b, " for \"", pbt::esc(m), "\""); (changed ? after : before) += ok;
    }
    ctx.mark(before && after);
}
// the responses carry the enumeration of the current database
PBT_GROUP(responses, 6000, 200000)
{
    Opt o; o.text = true; o.maxFields = 2; auto ds = worlds(src, o, false, false); int cur = int(src.draw(2)); oem::MessageDecoder md(ds[cur].db); ctx.mark(true); string log;
    for (size_t i = 0, n = src.size(2, 6); i < n; ++i)
    {
        if (i) { cur = int(src.draw(2)); md.LoadJsonDb(ds[cur].db); log += num(" load(%d)", cur); }
        const Db& d = ds[cur]; auto* re = d.byName("Responses"); auto& v = re->vals[src.draw(re->vals.size() - 1)]; string text = (v.second == "OK" ? "" : "ERROR:desc ") + v.second; bool bin = src.coin();
        string body; if (bin) { put(body, v.first, 4); body += v.second; } else body = text + "*00000000\r\n"; Exact b(body); oem::MetaDataStruct m; m.bResponse = true; m.eFormat = bin ? HF::BINARY : HF::ASCII; m.uiHeaderLength = 0; m.uiLength = uint32_t(body.size() + (bin ? 4 : 0)); m.uiBinaryMsgLength = uint32_t(body.size());
        ctx.feed(body); ne::CompositeField cf; ST st = md.Decode(b.data(), cf, m); PBT_EQ(int(st), 0, "response \"", pbt::esc(body), "\"");
        auto id = std::get<int32_t>(cf.GetFieldValueVariant(*cf.GetFieldInfo()->messageOrderedFields.front()));
        bool fits = false; for (auto& q : re->vals) fits |= int32_t(q.first) == id && q.second == v.second; PBT_CHECK(fits, "response id ", id, " of \"", text, "\" after", log);
        auto f = cf.GetFieldInfo()->messageOrderedFields.front(); auto e = std::dynamic_pointer_cast<const ne::EnumField>(f); PBT_CHECK(e != nullptr, "the response id is not an enumeration");
        PBT_CHECK(e->enumDef == d.db->GetEnumDefName("Responses"), "the response id refers to the enumeration of another database after", log); PBT_EQ(GetEnumString(e->enumDef, uint32_t(id)), v.second, "name of the response after", log);
    }
}
PBT_GROUP(parser, 4000, 150000)
{
    Opt o; o.text = o.json = true; o.maxFields = 3; bool rx = src.chance(1, 3), ranges = src.chance(1, 3); auto ds = worlds(src, o, rx, ranges); int cur = src.chance(1, 6) ? -1 : int(src.draw(2)); bool read = src.coin(), unknown = src.coin(), ignore = src.coin(); EF ef = src.pick({EF::ASCII, EF::ABBREV_ASCII, EF::BINARY, EF::JSON});
    oem::Parser p(cur < 0 ? nullptr : ds[cur].db); options(p, unknown, ignore, ef); string log = num(" built(%d)", cur); size_t before = 0, after = 0; bool changed = false;
    for (size_t i = 0, n = src.size(3, 8); i < n; ++i)
    {
        if (cur < 0 || src.chance(1, 3)) { int k = int(src.draw(2)); if (cur >= 0 && k != cur && before) changed = true; cur = k; p.LoadJsonDb(ds[k].db); log += num(" load(%d)", k); continue; }
        string t = streamOf(src, ds, cur, o, rx, ranges); ctx.feed(t); auto own = built<oem::Parser>(src, ds[cur]); auto& fresh = *own; options(fresh, unknown, ignore, ef); log += " use";
        for (auto* q : {&p, &fresh}) PBT_EQ(size_t(q->Write(reinterpret_cast<const unsigned char*>(t.data()), t.size())), t.size(), "write");
        string a = drain(p, read, ST::BUFFER_EMPTY), b = drain(fresh, read, ST::BUFFER_EMPTY); while (p.Flush(nullptr, 32768)) {}
        differ(a, b, read ? "the parser (Read)" : "the parser (ReadIntermediate)", t, log); (changed ? after : before) += decoded(b);
    }
    ctx.mark(before && after); if (rx) ctx.label("receiver configuration"); if (ranges) ctx.label("compressed ranges");
}
PBT_GROUP(rxconfig, 2500, 80000)
{
    Opt o; o.text = o.json = true; o.maxFields = 3; auto ds = worlds(src, o, true, false); int cur = int(src.draw(2)); oem::RxConfigHandler p(ds[cur].db); p.SetLoggerLevel(spdlog::level::off); string log = num(" built(%d)", cur); size_t before = 0, after = 0; bool changed = false;
    auto convert = [&](oem::RxConfigHandler& h, const string& t, EF ef, size_t& n) {
        string r; Exact b(t); h.Write(b.data(), uint32_t(t.size()));
        try { for (int k = 0; k < 20; ++k) { ne::MessageDataStruct m, e; oem::MetaDataStruct mm, em; ST st = h.Convert(m, mm, e, em, ef); r += "\nstatus " + std::to_string(int(st)); if (st == ST::SUCCESS) { ++n; r += " [" + pbt::esc(slice(m), 100000) + "] [" + pbt::esc(slice(e), 100000) + "]" + metaText(mm) + metaText(em); } else if (st == ST::BUFFER_EMPTY || st == ST::INCOMPLETE) break; } }
        catch (const std::exception& e) { r += string(" throws ") + e.what(); }
        return r; };
    for (size_t i = 0, n = src.size(3, 8); i < n; ++i)
    {
        if (src.chance(1, 3)) { int k = int(src.draw(2)); if (k != cur && before) changed = true; cur = k; p.LoadJsonDb(ds[k].db); log += num(" load(%d)", k); continue; }
        string t = streamOf(src, ds, cur, o, true, false); EF ef = src.pick({EF::ASCII, EF::ABBREV_ASCII, EF::BINARY, EF::JSON}); ctx.feed(t); oem::RxConfigHandler fresh(ds[cur].db); fresh.SetLoggerLevel(spdlog::level::off); size_t x = 0, y = 0; log += " use"; string a = convert(p, t, ef, x), b = convert(fresh, t, ef, y);
        std::unique_ptr<unsigned char[]> fl(new unsigned char[400000]); (void)p.Flush(fl.get(), 400000); differ(a, b, "the receiver-configuration handler", t, log); (changed ? after : before) += y;
    }
    ctx.mark(before && after);
}
PBT_GROUP(file_parser, 2500, 80000)
{
    Opt o; o.text = o.json = true; o.maxFields = 3; bool rx = src.chance(1, 3), ranges = src.chance(1, 3); auto ds = worlds(src, o, rx, ranges); int cur = src.chance(1, 6) ? -1 : int(src.draw(2)); bool read = src.coin(), unknown = src.coin(), ignore = src.coin(); EF ef = src.pick({EF::ASCII, EF::ABBREV_ASCII, EF::BINARY, EF::JSON});
    oem::FileParser p(cur < 0 ? nullptr : ds[cur].db); options(p, unknown, ignore, ef); string log = num(" built(%d)", cur); size_t before = 0, after = 0; bool changed = false;
    for (size_t i = 0, n = src.size(3, 8); i < n; ++i)
    {
        if (cur < 0 || src.chance(1, 3)) { int k = int(src.draw(2)); if (cur >= 0 && k != cur && before) changed = true; cur = k; p.LoadJsonDb(ds[k].db); log += num(" load(%d)", k); continue; }
        string t = streamOf(src, ds, cur, o, rx, ranges); ctx.feed(t); auto own = built<oem::FileParser>(src, ds[cur]); auto& fresh = *own; options(fresh, unknown, ignore, ef); log += " use"; p.Reset();
        for (auto* q : {&p, &fresh}) PBT_CHECK(q->SetStream(std::make_shared<std::stringstream>(t)), "stream is rejected");
        string a = drain(p, read, ST::STREAM_EMPTY), b = drain(fresh, read, ST::STREAM_EMPTY); differ(a, b, read ? "the file parser (Read)" : "the file parser (ReadIntermediate)", t, log); (changed ? after : before) += decoded(b);
    }
    ctx.mark(before && after);
}
PBT_GROUP(range, 2500, 80000)
{
    Opt o; o.text = true; o.maxFields = 2; auto ds = worlds(src, o, false, true); int cur = src.chance(1, 6) ? -1 : int(src.draw(2)); oem::RangeDecompressor p(cur < 0 ? nullptr : ds[cur].db); p.SetLoggerLevel(spdlog::level::off); string log = num(" built(%d)", cur); size_t before = 0, after = 0; bool changed = false;
    auto run = [](oem::RangeDecompressor& r, const string& m, EF ef, bool& ok) {
        std::unique_ptr<unsigned char[]> b(new unsigned char[0x8000]); memcpy(b.get(), m.data(), m.size()); oem::MetaDataStruct md; md.uiLength = uint32_t(m.size()); ok = false;
        try { ST st = r.Decompress(b.get(), 0x8000, md, ef); ok = st == ST::SUCCESS; return "status " + std::to_string(int(st)) + (ok ? metaText(md) + " [" + pbt::esc(string(reinterpret_cast<char*>(b.get()), md.uiLength), 100000) + "]" : ""); }
        catch (const std::exception& e) { return string("throws ") + e.what(); } };
    for (size_t i = 0, n = src.size(3, 10); i < n; ++i)
    {
        if (cur < 0 || src.chance(1, 3)) { int k = int(src.draw(2)); if (cur >= 0 && k != cur && before) changed = true; cur = k; p.LoadJsonDb(ds[k].db); log += num(" load(%d)", k); continue; }
        rng::State rs; unsigned week = unsigned(src.range(1000, 2500)); double ms = double(src.draw(600000)) * 1000; rng::Msgs r = src.coin() ? rng::gen1(src, 5) : rng::gen2(src, rs, rs.week(week, ms), 0, 3); Hdr h; h.usMessageId = uint16_t(r.id); h.uiPortAddress = 32; h.uiTimeStatus = 180; h.usWeek = uint16_t(week); h.dMilliseconds = ms; string m = rng::frame(h, r.body); ctx.feed(m);
        EF ef = src.pick({EF::ASCII, EF::ABBREV_ASCII, EF::BINARY, EF::JSON}); oem::RangeDecompressor fresh(ds[cur].db); fresh.SetLoggerLevel(spdlog::level::off); p.Reset(); bool x, y; log += " use"; string a = run(p, m, ef, x), b = run(fresh, m, ef, y); differ(a, b, "the range decompressor", m, log); (changed ? after : before) += y;
    }
    ctx.mark(before && after);
}
