// C16: a filter passes exactly the messages its configuration selects.
// LIBS: common dcommon oem
#include "novatel_edie/decoders/oem/filter.hpp"
#include "frames.hpp"
#include <cmath>
#include <set>
PBT_PROPERTY("C16", "histories of filter configuration calls over small pools of names, ids, formats, sources and times, with message metadata drawn around those values after every call, against a declarative reference of the configuration; "
                    "non-trivial = history after which the filter accepted at least one message and rejected at least one")
namespace ne = novatel::edie; namespace oem = novatel::edie::oem; using std::string; using std::vector;
using HF = ne::HEADER_FORMAT; using TS = ne::TIME_STATUS; using pbt::Src;
using IdT = std::tuple<uint32_t, HF, uint8_t>; using NameT = std::tuple<string, HF, uint8_t>;
struct Bound { bool on = false; uint32_t week = 0, ms = 0; };
struct Model
{
    Bound lo, up; bool invTime = false;
    std::set<int> ts; bool invTs = false;
    std::set<IdT> ids; bool invIds = false;
    std::set<NameT> names; bool invNames = false;
    bool dec = false, invDec = false; uint32_t period = 0;
    bool nmea = false, resp = true, nonResp = true;
    template <class S, class K> static bool in(const S& s, const K& k, HF f, uint8_t src) { return s.count({k, f, src}) || s.count({k, HF::ALL, src}); }
    // each condition on its own: does it select the message, before inversion?
    bool pass(const oem::MetaDataStruct& m, string* why) const
    {
        auto no = [&](const char* w) { if (why) *why = w; return false; };
        if (m.eFormat == HF::UNKNOWN) return no("unknown");
        if (m.eFormat == HF::NMEA) return nmea || no("nmea");
        if (m.bResponse ? !resp : !nonResp) return no("response");
        if (lo.on || up.on)
        {
            auto t = std::make_pair(uint32_t(m.usWeek), uint32_t(m.dMilliseconds)); auto l = std::make_pair(lo.week, lo.ms), u = std::make_pair(up.week, up.ms);
            bool inside = (!lo.on || t >= l) && (!up.on || t <= u);
            if (inside == invTime) return no("time");
        }
        if (!ts.empty() && bool(ts.count(int(m.eTimeStatus))) == invTs) return no("time status");
        if (!ids.empty() && in(ids, uint32_t(m.usMessageId), m.eFormat, m.ucSiblingId) == invIds) return no("id");
        if (!names.empty() && in(names, m.messageName, m.eFormat, m.ucSiblingId) == invNames) return no("name");
        if (dec && period != 0 && (uint32_t(m.dMilliseconds) % period == 0) == invDec) return no("decimation");
        return true;
    }
};
static const vector<HF> kFmt = {HF::ASCII, HF::ABB_ASCII, HF::BINARY, HF::SHORT_ASCII, HF::SHORT_ABB_ASCII, HF::SHORT_BINARY, HF::JSON, HF::PROPRIETARY_BINARY, HF::ALL};
static const vector<TS> kTs = {TS::UNKNOWN, TS::APPROXIMATE, TS::COARSE, TS::FREEWHEELING, TS::FINE, TS::FINESTEERING, TS::SATTIME};
static const vector<uint32_t> kPeriods = {1, 2, 10, 250, 500, 1000, 1001, 5000, 7, 604800000, 0};
static HF aFormat(Src& s) { return s.chance(1, 3) ? HF::ALL : kFmt[s.draw(kFmt.size() - 2)]; }
static uint32_t aWeek(Src& s) { return s.chance(1, 12) ? uint32_t(s.edgy(16)) : uint32_t(s.range(2000, 2003)); }
static uint32_t aMs(Src& s)
{
    switch (s.draw(4)) { case 0: return uint32_t(s.draw(604800000)); case 1: return uint32_t(s.draw(20)) * 500; case 2: return uint32_t(1000 + s.draw(3)); case 3: return uint32_t(s.draw(604800)) * 1000; default: return uint32_t(s.draw(5)); }
}
static oem::MetaDataStruct message(Src& s, const Model& m, const vector<string>& names)
{
    oem::MetaDataStruct d; d.eFormat = s.chance(1, 12) ? HF::NMEA : s.chance(1, 30) ? HF::UNKNOWN : kFmt[s.draw(kFmt.size() - 2)]; d.bResponse = s.chance(1, 5);
    d.usWeek = uint16_t(aWeek(s)); d.dMilliseconds = aMs(s);
    // around the configured bounds
    if (m.lo.on && s.chance(1, 3)) { d.usWeek = uint16_t(m.lo.week + s.draw(2) - 1); d.dMilliseconds = double(m.lo.ms + uint32_t(s.draw(2)) - (m.lo.ms ? 1 : 0)); if (m.lo.week && s.coin()) d.usWeek = uint16_t(m.lo.week); }
    else if (m.up.on && s.chance(1, 3)) { d.usWeek = uint16_t(m.up.week + s.draw(2) - 1); d.dMilliseconds = double(m.up.ms + uint32_t(s.draw(2)) - (m.up.ms ? 1 : 0)); if (m.up.week && s.coin()) d.usWeek = uint16_t(m.up.week); }
    if (m.dec && m.period && s.chance(1, 2)) d.dMilliseconds = double(uint32_t(d.dMilliseconds) / m.period * uint64_t(m.period));
    d.eTimeStatus = s.pick(kTs); d.usMessageId = uint16_t(s.range(40, 43)); d.messageName = s.pick(names); d.ucSiblingId = uint8_t(s.draw(2));
    return d;
}
PBT_GROUP(history, 1500000, 30000000)
{
    oem::Filter f; Model m; vector<string> names = {"BESTPOS", "RANGE", "BESTPO", "BESTPOSX", ""}; string log; size_t n = src.size(1, 14); bool yes = false, noo = false;
    auto probe = [&] {
        size_t k = 1 + src.draw(5);
        for (size_t i = 0; i < k; ++i)
        {
            auto d = message(src, m, names); string why = "pass"; bool want = m.pass(d, &why); bool got = f.DoFiltering(d); ctx.label(why); (want ? yes : noo) = true;
            PBT_CHECK(got == want, "filter ", got ? "accepts" : "rejects", " a message (format ", int(d.eFormat), " response ", d.bResponse, " week ", d.usWeek, " ms ", d.dMilliseconds, " status ", int(d.eTimeStatus), " id ", d.usMessageId, " name \"", d.messageName, "\" source ", int(d.ucSiblingId), "), reference: ", why, "; after", log);
        }
    };
    probe();
    for (size_t i = 0; i < n; ++i)
    {
        auto say = [&](auto... a) { std::ostringstream o; ((o << " " << a), ...); log += ";" + o.str(); };
        uint32_t id = uint32_t(src.range(40, 43)); uint8_t sc = uint8_t(src.draw(2)); HF ff = aFormat(src); string nm = src.pick(names);
        switch (src.weighted({4, 4, 3, 1, 1, 1, 3, 3, 1, 3, 3, 2, 1, 3, 3, 2, 1, 3, 3, 2, 1, 2, 2, 2, 1, 1, 1}))
        {
        case 0: { uint32_t w = aWeek(src), ms = aMs(src); f.SetIncludeLowerTimeBound(w, ms / 1000.0); m.lo = {true, w, ms}; say("lower", w, ms); break; }
        case 1: { uint32_t w = aWeek(src), ms = aMs(src); f.SetIncludeUpperTimeBound(w, ms / 1000.0); m.up = {true, w, ms}; say("upper", w, ms); break; }
        case 2: m.invTime = src.coin(); f.InvertTimeFilter(m.invTime); say("invert time", m.invTime); break;
        case 3: f.ClearLowerTimeBound(); m.lo.on = false; say("clear lower"); break;
        case 4: f.ClearUpperTimeBound(); m.up.on = false; say("clear upper"); break;
        case 5: f.ClearTimeBounds(); m.lo.on = m.up.on = false; m.invTime = src.coin(); f.InvertTimeFilter(m.invTime); say("clear bounds, invert", m.invTime); break;
        case 6: { uint32_t p = src.pick(kPeriods); if (src.coin()) f.SetIncludeDecimation(p / 1000.0); else f.SetIncludeDecimationMs(p); m.dec = true; m.period = p; say("decimate", p); break; }
        case 7: m.invDec = src.coin(); f.InvertDecimationFilter(m.invDec); say("invert decimation", m.invDec); break;
        case 8: f.ClearDecimationFilter(); m.dec = false; m.invDec = src.coin(); f.InvertDecimationFilter(m.invDec); say("clear decimation, invert", m.invDec); break;
        case 9: { TS t = src.pick(kTs); f.IncludeTimeStatus(t); m.ts.insert(int(t)); say("status", int(t)); break; }
        case 10: { vector<TS> v; size_t k = src.draw(3); for (size_t j = 0; j < k; ++j) { v.push_back(src.pick(kTs)); m.ts.insert(int(v.back())); } f.IncludeTimeStatus(v); say("statuses", k); for (auto t : v) say(int(t)); break; }
        case 11: { TS t = src.pick(kTs); f.RemoveTimeStatus(t); m.ts.erase(int(t)); say("remove status", int(t)); break; }
        case 12: if (src.coin()) { f.ClearTimeStatuses(); m.ts.clear(); m.invTs = false; say("clear statuses"); } else { m.invTs = src.coin(); f.InvertTimeStatusFilter(m.invTs); say("invert statuses", m.invTs); } break;
        case 13: if (src.chance(1, 4)) { f.IncludeMessageId(id); m.ids.insert({id, HF::ALL, uint8_t(0)}); say("id", id); } else { f.IncludeMessageId(id, ff, sc); m.ids.insert({id, ff, sc}); say("id", id, int(ff), int(sc)); } break;
        case 14: { vector<IdT> v; size_t k = src.draw(3); for (size_t j = 0; j < k; ++j) { v.emplace_back(uint32_t(src.range(40, 43)), aFormat(src), uint8_t(src.draw(2))); m.ids.insert(v.back()); say("ids", std::get<0>(v.back()), int(std::get<1>(v.back())), int(std::get<2>(v.back()))); } f.IncludeMessageId(v); break; }
        case 15: if (!m.ids.empty() && src.chance(3, 4)) { auto it = m.ids.begin(); std::advance(it, long(src.draw(m.ids.size() - 1))); std::tie(id, ff, sc) = *it; } f.RemoveMessageId(id, ff, sc); m.ids.erase({id, ff, sc}); say("remove id", id, int(ff), int(sc)); break;
        case 16: if (src.coin()) { f.ClearMessageIds(); m.ids.clear(); m.invIds = false; say("clear ids"); } else { m.invIds = src.coin(); f.InvertMessageIdFilter(m.invIds); say("invert ids", m.invIds); } break;
        case 17: if (src.chance(1, 4)) { f.IncludeMessageName(nm); m.names.insert({nm, HF::ALL, uint8_t(0)}); say("name", nm); } else { f.IncludeMessageName(nm, ff, sc); m.names.insert({nm, ff, sc}); say("name", nm, int(ff), int(sc)); } break;
        case 18: { vector<NameT> v; size_t k = src.draw(3); for (size_t j = 0; j < k; ++j) { v.emplace_back(src.pick(names), aFormat(src), uint8_t(src.draw(2))); m.names.insert(v.back()); say("names", std::get<0>(v.back()), int(std::get<1>(v.back())), int(std::get<2>(v.back()))); } f.IncludeMessageName(v); break; }
        case 19: if (!m.names.empty() && src.chance(3, 4)) { auto it = m.names.begin(); std::advance(it, long(src.draw(m.names.size() - 1))); std::tie(nm, ff, sc) = *it; } f.RemoveMessageName(nm, ff, sc); m.names.erase({nm, ff, sc}); say("remove name", nm, int(ff), int(sc)); break;
        case 20: if (src.coin()) { f.ClearMessageNames(); m.names.clear(); m.invNames = false; say("clear names"); } else { m.invNames = src.coin(); f.InvertMessageNameFilter(m.invNames); say("invert names", m.invNames); } break;
        case 21: m.nmea = src.coin(); f.IncludeNmeaMessages(m.nmea); say("nmea", m.nmea); break;
        case 22: m.resp = src.chance(3, 4); f.IncludeResponses(m.resp); say("responses", m.resp); break;
        case 23: m.nonResp = src.chance(3, 4); f.IncludeNonResponses(m.nonResp); say("non-responses", m.nonResp); break;
        case 24: f.ClearFilters(); m = Model(); say("clear all"); break;
        case 25: m.invIds = src.coin(); f.InvertMessageIdFilter(m.invIds); say("invert ids", m.invIds); break;
        default: m.invNames = src.coin(); f.InvertMessageNameFilter(m.invNames); say("invert names", m.invNames); break;
        }
        probe();
    }
    ctx.feed(log); ctx.mark(yes && noo);
}
