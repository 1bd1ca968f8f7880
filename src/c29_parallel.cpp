// C29: components used in different threads do not affect each other.
// GUIDED: 0
// LIBS: common dcommon oem
// SANITIZER: thread
#include "streams.hpp"
#include <atomic>
#include <thread>
#include "novatel_edie/decoders/common/framer_manager.hpp"
#include "novatel_edie/decoders/oem/commander.hpp"
#include "novatel_edie/decoders/oem/filter.hpp"
using namespace model; using namespace streams;
PBT_PROPERTY("C29", "two to four threads started together, each building its own components (framer, framer manager, decoders, encoder, parser, file parser, commander, receiver-configuration handler, range decompressor, database loader and editor) over a database they share or their own, on generated messages and streams, several rounds; "
                    "ThreadSanitizer watches for data races and each thread's results are compared with the same work done alone afterwards; non-trivial = two threads of the same kind, or three threads")
namespace {
struct Job { int kind; string in, aux; EF ef; bool read; ne::MessageDatabase::Ptr db; };
const char* const KINDS[] = {"parser", "file parser", "decoders and encoder", "receiver configuration", "commander", "range decompressor", "database loader", "framer manager", "database editor", "framer"};
string work(const Job& j)
{
    string r;
    try
    {
        switch (j.kind)
        {
        case 0: { oem::Parser p(j.db); options(p, true, false, j.ef); size_t w = 0; while (w < j.in.size()) { w += p.Write(reinterpret_cast<const unsigned char*>(j.in.data()) + w, std::min<size_t>(j.in.size() - w, 700)); r += drain(p, j.read, ST::BUFFER_EMPTY); } break; }
        case 1: { oem::FileParser p(j.db); options(p, true, false, j.ef); p.SetStream(std::make_shared<std::stringstream>(j.in)); r = drain(p, j.read, ST::STREAM_EMPTY); break; }
        case 2: { Stages s(j.db); bool ok; r = s.use(j.in, ok); break; }
        case 3: {
            oem::RxConfigHandler h(j.db); h.SetLoggerLevel(spdlog::level::off); Exact b(j.in); h.Write(b.data(), uint32_t(j.in.size()));
            for (int k = 0; k < 10; ++k) { ne::MessageDataStruct m, e; oem::MetaDataStruct mm, em; ST st = h.Convert(m, mm, e, em, j.ef); r += " " + std::to_string(int(st)); if (st == ST::SUCCESS) r += pbt::esc(slice(m), 100000); else if (st == ST::BUFFER_EMPTY || st == ST::INCOMPLETE) break; }
            break;
        }
        case 4: { oem::Commander c(j.db); char o[20000]; uint32_t n = sizeof o; ST st = c.Encode(j.in.data(), uint32_t(j.in.size()), o, n, j.read ? EF::BINARY : EF::ASCII); r = std::to_string(int(st)) + (st == ST::SUCCESS ? pbt::esc(string(o, n), 100000) : ""); break; }
        case 5: { oem::RangeDecompressor d(j.db); d.SetLoggerLevel(spdlog::level::off); std::unique_ptr<unsigned char[]> b(new unsigned char[0x8000]); memcpy(b.get(), j.in.data(), j.in.size()); oem::MetaDataStruct md; md.uiLength = uint32_t(j.in.size()); ST st = d.Decompress(b.get(), 0x8000, md, j.ef); r = std::to_string(int(st)); if (st == ST::SUCCESS) r += pbt::esc(string(reinterpret_cast<char*>(b.get()), md.uiLength), 100000); break; }
        case 6: { auto d = ne::ParseJsonDb(j.aux); Stages s(d); bool ok; r = s.use(j.in, ok); break; }
        case 7: {
            ne::FramerManager f({"OEM"}); std::unique_ptr<unsigned char[]> b(new unsigned char[0x8000]); size_t w = 0;
            while (w < j.in.size()) { w += f.Write(reinterpret_cast<const unsigned char*>(j.in.data()) + w, uint32_t(std::min<size_t>(j.in.size() - w, 3000))); for (int g = 0; g < 2000; ++g) { ne::MetaDataBase* md = nullptr; ST st = f.GetFrame(b.get(), 0x8000, md); if (st == ST::BUFFER_EMPTY || st == ST::INCOMPLETE) break; r += "\n" + std::to_string(int(st)) + pbt::esc(string(reinterpret_cast<char*>(b.get()), md ? md->uiLength : 0), 100000); } }
            break;
        }
        case 8: {
            ne::MessageDatabase d(*j.db); auto other = ne::ParseJsonDb(j.aux); vector<ne::MessageDefinition::ConstPtr> v(other->MessageDefinitions().begin(), other->MessageDefinitions().end()); d.AppendMessages(v); if (!v.empty()) d.RemoveMessage(v.front()->logID);
            for (auto& m : d.MessageDefinitions()) { r += m->name + std::to_string(m->logID); r += d.GetMsgDef(int32_t(m->logID)) ? "+" : "-"; r += d.GetMsgDef(std::string_view(m->name)) ? "+" : "-"; }
            break;
        }
        default: {
            oem::Framer f; std::unique_ptr<unsigned char[]> b(new unsigned char[0x8000]); oem::MetaDataStruct md; size_t w = 0;
            while (w < j.in.size()) { w += f.Write(reinterpret_cast<const unsigned char*>(j.in.data()) + w, std::min<size_t>(j.in.size() - w, 500)); for (int g = 0; g < 2000; ++g) { ST st = f.GetFrame(b.get(), 0x8000, md); if (st == ST::BUFFER_EMPTY || st == ST::INCOMPLETE) break; r += "\n" + std::to_string(int(st)) + pbt::esc(string(reinterpret_cast<char*>(b.get()), md.uiLength), 100000); } }
        }
        }
    }
    catch (const std::exception& e) { r += string(" throws ") + e.what(); }
    return r;
}
} // namespace
PBT_GROUP(threads, 1200, 40000)
{
    Opt o; o.text = o.json = true; o.maxFields = 3; vector<Db> ds{genDb(src, o, src.size(1, 3))}; for (auto& m : ds[0].msgs) if (m.id == 43 || m.name.compare(0, 5, "RANGE") == 0 || m.name.compare(0, 8, "RXCONFIG") == 0) throw pbt::Discard{};
    addRx(ds[0]); rng::addMessages(ds[0]); ds[0].load(); ds.push_back(ds[0]); ds.push_back(ds[0]); const Db& d = ds[0]; auto other = ne::ParseJsonDb(d.json());
    const size_t n = src.size(2, 4); const bool alike = src.coin(); vector<vector<Job>> jobs(n); int first = int(src.draw(9)); bool nt = n > 2 || alike;
    for (size_t t = 0; t < n; ++t)
        for (size_t k = 0, m = src.size(1, 2); k < m; ++k)
        {
            Job j; j.kind = alike && !k ? first : int(src.draw(9)); j.ef = EFS[src.draw(3)]; j.read = src.coin(); j.db = src.chance(3, 4) ? d.db : other; ctx.label(KINDS[j.kind]);
            switch (j.kind)
            {
            case 0: case 1: case 7: case 9: j.in = streamOf(src, ds, 0, o, src.coin(), src.coin()); break;
            case 2: j.in = message(src, d, o, true); break;
            case 3: j.in = streamOf(src, ds, 0, o, true, false); break;
            case 4: { const Msg& m2 = ordinary(src, d); const Fields* fs = nullptr; for (auto& [q, f] : m2.defs) if (q == m2.latest) fs = &f; string t2 = refAbb(*fs, genBody(src, *fs, o, d), d); size_t a = t2.find_first_not_of("< "); j.in = m2.name + " " + (a == string::npos ? "" : t2.substr(a)); break; }
            case 5: { rng::State rs; unsigned week = unsigned(src.range(1000, 2500)); double ms = double(src.draw(600000)) * 1000; rng::Msgs r = src.coin() ? rng::gen1(src, 4) : rng::gen2(src, rs, rs.week(week, ms), 0, 3); Hdr h; h.usMessageId = uint16_t(r.id); h.uiPortAddress = 32; h.uiTimeStatus = 180; h.usWeek = uint16_t(week); h.dMilliseconds = ms; j.in = rng::frame(h, r.body); break; }
            case 6: j.aux = d.json(); j.in = message(src, d, o, true); break;
            case 8: { Db x = genDb(src, o, 2); j.aux = x.json(); break; }
            }
            if (j.in.size() > 20000) throw pbt::Discard{};
            ctx.feed(j.in); jobs[t].push_back(std::move(j));
        }
    ctx.mark(nt);
    for (int round = 0, rounds = pbt::probing() ? 60 : 2; round < rounds; ++round)
    {
        vector<vector<string>> got(n); std::atomic<size_t> ready{0}; vector<std::thread> th;
        for (size_t t = 0; t < n; ++t) th.emplace_back([&, t] { ++ready; while (ready.load() < n) std::this_thread::yield(); for (auto& j : jobs[t]) got[t].push_back(work(j)); });
        for (auto& x : th) x.join();
        if (round) continue;
        for (size_t t = 0; t < n; ++t)
            for (size_t k = 0; k < jobs[t].size(); ++k)
            {
                string alone = work(jobs[t][k]); if (alone == got[t][k]) continue;
                size_t q = 0; while (q < alone.size() && q < got[t][k].size() && alone[q] == got[t][k][q]) ++q; size_t a = q > 60 ? q - 60 : 0;
                pbt::fail("the ", KINDS[jobs[t][k].kind], " of thread ", t, " gives ...", got[t][k].substr(a, 300), " | alone ...", alone.substr(a, 300));
            }
    }
}
