// Independent model of OEM message definitions, values, and every wire/text form of a message.
// Nothing in here calls the code under test except ParseJsonDb (to load the generated definitions).
#pragma once
#include "pbt.hpp"
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <map>
#include <memory>
#include <set>
#include "novatel_edie/decoders/common/json_db_reader.hpp"
#include "novatel_edie/decoders/oem/common.hpp"
#include "novatel_edie/decoders/oem/encoder.hpp"
#include "novatel_edie/decoders/oem/header_decoder.hpp"
#include "novatel_edie/decoders/oem/message_decoder.hpp"

namespace model {
using std::string;
using std::vector;
using pbt::Src;
namespace ne = novatel::edie;
namespace oem = novatel::edie::oem;

enum class K { SIMPLE, ENUM, FIXED, VAR, STR, ROWS };
struct Fld
{
    string name;
    K kind = K::SIMPLE;
    string dt = "UINT"; // data type name
    unsigned len = 4;   // data type length
    string conv;        // conversion string, may be empty
    unsigned arr = 0;   // maximum / fixed element count
    unsigned lenSize = 4;
    string lenRef; // name of the earlier field that carries the count
    vector<Fld> sub;
    int en = -1; // enumeration index
    bool var() const { return kind == K::VAR || kind == K::STR || kind == K::ROWS; }
};
using Fields = vector<Fld>;
struct Enm { string id, name; vector<std::pair<uint32_t, string>> vals; };
struct Msg { uint32_t id; string name; vector<std::pair<uint32_t, Fields>> defs; uint32_t latest; };
struct Val { vector<uint64_t> e; string s; vector<vector<Val>> rows; };
using Body = vector<Val>;

struct Db
{
    vector<Enm> enums;
    vector<Msg> msgs;
    ne::MessageDatabase::Ptr db;
    string json() const;
    void load() { db = ne::ParseJsonDb(json()); }
    const Msg* byId(uint32_t id) const { for (auto& m : msgs) if (m.id == id) return &m; return nullptr; }
    const Enm* byName(const string& n) const { for (auto& e : enums) if (e.name == n) return &e; return nullptr; }
};

// ---------------------------------------------------------------- JSON of the database
inline string jesc(const string& s)
{
    string o;
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
        else if (c < 0x20) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += char(c);
    }
    return o;
}
inline const char* kindName(K k)
{
    switch (k) { case K::SIMPLE: return "SIMPLE"; case K::ENUM: return "ENUM"; case K::FIXED: return "FIXED_LENGTH_ARRAY"; case K::VAR: return "VARIABLE_LENGTH_ARRAY"; case K::STR: return "STRING"; default: return "FIELD_ARRAY"; }
}
inline string fieldsJson(const Fields& fs, const vector<Enm>& enums);
inline string fieldJson(const Fld& f, const vector<Enm>& enums)
{
    string o = "{\"name\":\"" + jesc(f.name) + "\",\"type\":\"" + kindName(f.kind) + "\",\"description\":\"d\",";
    o += f.conv.empty() ? string("\"conversionString\":null,") : "\"conversionString\":\"" + f.conv + "\",";
    o += "\"dataType\":{\"name\":\"" + f.dt + "\",\"length\":" + std::to_string(f.len) + ",\"description\":\"x\"}";
    if (f.kind == K::ENUM) o += ",\"enumID\":\"" + enums[f.en].id + "\"";
    if (f.kind == K::FIXED || f.var())
    {
        o += ",\"arrayLength\":" + std::to_string(f.arr);
        if (f.kind == K::VAR || f.kind == K::ROWS)
        {
            if (!f.lenRef.empty()) o += ",\"arrayLengthRef\":\"" + f.lenRef + "\"";
            if (f.lenSize != 4) o += ",\"arrayLengthFieldSize\":" + std::to_string(f.lenSize);
        }
    }
    if (f.kind == K::ROWS) o += ",\"fields\":" + fieldsJson(f.sub, enums);
    return o + "}";
}
inline string fieldsJson(const Fields& fs, const vector<Enm>& enums)
{
    string o = "["; bool first = true;
    for (auto& f : fs) { if (!first) o += ","; first = false; o += fieldJson(f, enums); }
    return o + "]";
}
inline string enumJson(const Enm& e)
{
    string o = "{\"_id\":\"" + e.id + "\",\"name\":\"" + e.name + "\",\"enumerators\":["; bool first = true;
    for (auto& [v, n] : e.vals) { if (!first) o += ","; first = false; o += "{\"value\":" + std::to_string(v) + ",\"name\":\"" + n + "\",\"description\":\"desc " + n + "\"}"; }
    return o + "]}";
}
inline string msgJson(const Msg& m, const vector<Enm>& enums)
{
    string o = "{\"_id\":\"m" + std::to_string(m.id) + "\",\"messageID\":" + std::to_string(m.id) + ",\"name\":\"" + m.name + "\",\"description\":\"about " + m.name + "\",\"latestMsgDefCrc\":\"" + std::to_string(m.latest) + "\",\"fields\":{";
    bool first = true;
    for (auto& [crc, fs] : m.defs) { if (!first) o += ","; first = false; o += "\"" + std::to_string(crc) + "\":" + fieldsJson(fs, enums); }
    return o + "}}";
}
inline string Db::json() const
{
    string o = "{\"meta\":{\"subset\":\"s\",\"version\":\"1.2.3\",\"messageFamily\":\"OEM\"},\"enums\":["; bool first = true;
    for (auto& e : enums) { if (!first) o += ","; first = false; o += enumJson(e); }
    o += "],\"messages\":["; first = true;
    for (auto& m : msgs) { if (!first) o += ","; first = false; o += msgJson(m, enums); }
    return o + "]}";
}

// ---------------------------------------------------------------- conversions
struct Conv { int width = -1, prec = -1; string letters; };
inline Conv parseConv(const string& c)
{
    Conv r; if (c.empty()) return r;
    size_t i = 1; if (i < c.size() && isdigit((unsigned char)c[i])) { r.width = 0; while (i < c.size() && isdigit((unsigned char)c[i])) r.width = r.width * 10 + (c[i++] - '0'); }
    if (i < c.size() && c[i] == '.') ++i;
    if (i < c.size() && isdigit((unsigned char)c[i])) { r.prec = 0; while (i < c.size() && isdigit((unsigned char)c[i])) r.prec = r.prec * 10 + (c[i++] - '0'); }
    r.letters = c.substr(i); return r;
}
inline bool isFloat(const Fld& f) { return f.dt == "FLOAT" || f.dt == "DOUBLE"; }
inline bool isSigned(const Fld& f) { return f.dt == "CHAR" || f.dt == "SHORT" || f.dt == "INT" || f.dt == "LONG" || f.dt == "LONGLONG"; }
inline bool quotedArr(const Fld& f) { auto l = parseConv(f.conv).letters; return (f.kind == K::FIXED || f.kind == K::VAR) && (l == "s" || l == "S"); }
inline bool rawArr(const Fld& f) { auto l = parseConv(f.conv).letters; return (f.kind == K::FIXED || f.kind == K::VAR) && (l == "P" || l == "Z"); }
inline bool allFixed(const Fields& fs) { for (auto& f : fs) if (f.var()) return false; return true; }

// ---------------------------------------------------------------- generators
struct Opt
{
    bool text = false;      // only type/conversion pairs and values the text forms can represent
    bool json = false;      // ... and JSON too
    unsigned maxFields = 6;
    unsigned depth = 2;     // nesting of field arrays
    unsigned maxArr = 8;
    bool anyEnum = true;    // enum values outside the enumeration
    bool composite = true;  // field arrays whose rows have variable fields
    bool strings = true, lenRefs = true, vars = true;
    unsigned big = 25;      // one array in this many has hundreds of elements (0: none)
    bool boolArrays = true; // one-byte BOOL elements in arrays
    bool extreme = false;   // unusually wide or precise floating-point conversions
};
struct Combo { const char* dt; unsigned len; const char* conv; };
inline Combo simpleCombo(Src& s, const Opt& o, bool array)
{
    static const vector<Combo> ints = {{"UINT", 4, "%u"}, {"UINT", 4, "%lu"}, {"ULONG", 4, "%lu"}, {"ULONG", 4, "%x"}, {"UINT", 4, "%lx"}, {"UINT", 4, "%X"}, {"INT", 4, "%d"}, {"LONG", 4, "%ld"}, {"SHORT", 2, "%hd"}, {"USHORT", 2, "%hu"}, {"USHORT", 2, "%u"}, {"USHORT", 2, "%x"}, {"CHAR", 1, "%B"}, {"UCHAR", 1, "%UB"}, {"UCHAR", 1, "%u"}, {"UCHAR", 1, "%XB"}, {"UCHAR", 1, "%x"}, {"HEXBYTE", 1, "%XB"}, {"HEXBYTE", 1, "%x"}, {"LONGLONG", 8, "%lld"}, {"ULONGLONG", 8, "%llu"}, {"ULONGLONG", 8, "%u"}, {"ULONGLONG", 8, "%x"}, {"ULONGLONG", 8, "%llx"}};
    static const vector<Combo> special = {{"UINT", 4, "%T"}, {"ULONG", 4, "%T"}, {"UINT", 4, "%m"}, {"ULONG", 4, "%m"}, {"SATELLITEID", 4, "%id"}, {"UINT", 4, "%id"}, {"BOOL", 4, "%d"}, {"ULONG", 4, "%c"}, {"CHAR", 1, "%c"}};
    static const vector<Combo> fl = {{"FLOAT", 4, "%f"}, {"FLOAT", 4, "%.3f"}, {"FLOAT", 4, "%5.2f"}, {"FLOAT", 4, "%e"}, {"FLOAT", 4, "%.9e"}, {"FLOAT", 4, "%k"}, {"FLOAT", 4, "%4.3k"}, {"FLOAT", 4, "%5.9k"}, {"FLOAT", 4, "%g"}, {"DOUBLE", 8, "%lf"}, {"DOUBLE", 8, "%.11lf"}, {"DOUBLE", 8, "%.4f"}, {"DOUBLE", 8, "%f"}, {"DOUBLE", 8, "%.17le"}, {"DOUBLE", 8, "%le"}, {"DOUBLE", 8, "%.5e"}, {"DOUBLE", 8, "%lk"}, {"DOUBLE", 8, "%6.3lk"}, {"DOUBLE", 8, "%3.12lk"}, {"DOUBLE", 8, "%lg"}, {"DOUBLE", 8, "%.0lf"}, {"DOUBLE", 8, "%12.4lk"}};
    static const vector<Combo> untext = {{"UINT", 4, ""}, {"DOUBLE", 8, ""}, {"FLOAT", 4, ""}, {"CHAR", 1, ""}, {"CHAR", 1, "%d"}, {"UCHAR", 1, "%d"}, {"SHORT", 2, "%d"}, {"USHORT", 2, "%d"}, {"HEXBYTE", 1, ""}, {"LONGLONG", 8, ""}, {"UCHAR", 1, "%c"}, {"UCHAR", 1, "%uc"}};
    static const vector<Combo> arraySpecial = {{"UINT", 4, "%T"}, {"ULONG", 4, "%T"}, {"UINT", 4, "%m"}, {"ULONG", 4, "%m"}, {"SATELLITEID", 4, "%id"}, {"UINT", 4, "%id"}};
    static const Combo boolCombo = {"BOOL", 1, "%d"};
    size_t w = s.weighted({6, array ? 2u : 3u, 5, o.text ? 0u : 2u});
    static const vector<Combo> wide = {{"DOUBLE", 8, "%17.3lk"}, {"FLOAT", 4, "%20.9k"}, {"DOUBLE", 8, "%16.2lk"}, {"DOUBLE", 8, "%15.2lk"}, {"DOUBLE", 8, "%0.5lk"}, {"DOUBLE", 8, "%25.20lf"}, {"FLOAT", 4, "%.30f"}, {"DOUBLE", 8, "%.25le"}, {"FLOAT", 4, "%1.0k"}, {"DOUBLE", 8, "%.0le"}, {"DOUBLE", 8, "%1.1lg"}};
    if (o.extreme && w == 2 && s.coin()) return s.pick(wide);
    if (w == 1 && array && o.boolArrays && s.chance(1, 6)) return boolCombo;
    return s.pick(w == 0 ? ints : w == 1 ? (array ? arraySpecial : special) : w == 2 ? fl : untext);
}
inline Fields genFields(Src& s, const Opt& o, const vector<Enm>& enums, unsigned firstUserEnum, unsigned depth, unsigned minFields = 1)
{
    Fields fs;
    size_t n = s.size(minFields, depth == 0 ? o.maxFields : std::max(2u, o.maxFields / 2));
    for (size_t i = 0; i < n; ++i)
    {
        Fld f; f.name = "f" + std::to_string(i) + (depth ? "_" + std::to_string(depth) : "");
        size_t w = s.weighted({10, 3, 4, o.vars ? 4u : 0u, o.vars && o.strings && (depth == 0 || o.composite) ? 3u : 0u, o.vars && depth < o.depth && (depth == 0 || o.composite) ? 3u : 0u});
        if (w == 3 && depth > 0 && !o.composite) w = 2;
        switch (w)
        {
        case 0: { auto c = simpleCombo(s, o, false); f.kind = K::SIMPLE; f.dt = c.dt; f.len = c.len; f.conv = c.conv; break; }
        case 1:
            f.kind = K::ENUM; f.en = int(s.size(firstUserEnum, enums.size() - 1)); f.dt = "UINT"; f.conv = "%d";
            f.len = s.pick({4u, 4u, 4u, 2u, 1u}); if (f.len == 1) f.dt = "UCHAR"; if (f.len == 2) f.dt = "USHORT";
            break;
        case 2: case 3: {
            f.kind = w == 2 ? K::FIXED : K::VAR;
            f.arr = unsigned(s.size(1, o.maxArr));
            if (s.chance(1, 3))
            {
                static const vector<Combo> chars = {{"CHAR", 1, "%s"}, {"UCHAR", 1, "%s"}, {"UCHAR", 1, "%P"}, {"CHAR", 1, "%P"}, {"HEXBYTE", 1, "%Z"}};
                auto c = s.pick(chars); f.dt = c.dt; f.len = c.len; f.conv = c.conv; f.arr = unsigned(s.size(1, 20));
            }
            else { auto c = simpleCombo(s, o, true); f.dt = c.dt; f.len = c.len; f.conv = c.conv; }
            break;
        }
        case 4: f.kind = K::STR; f.dt = "CHAR"; f.len = 1; f.conv = "%s"; f.arr = unsigned(s.size(1, 40)); break;
        default:
            f.kind = K::ROWS; f.dt = "UINT"; f.len = s.pick({4u, 4u, 4u, 8u, 1u}); f.conv = "";
            f.arr = unsigned(s.size(1, 4)); f.sub = genFields(s, o, enums, firstUserEnum, depth + 1);
        }
        bool big = false;
        if (o.big && depth == 0 && f.kind != K::SIMPLE && f.kind != K::ENUM && string(f.dt) != "FLOAT" && string(f.dt) != "DOUBLE" && s.chance(1, o.big))
        {
            if (f.kind != K::ROWS) big = true;
            else { big = f.sub.size() <= 2; for (auto& x : f.sub) big = big && (x.kind == K::SIMPLE || x.kind == K::ENUM) && string(x.dt) != "FLOAT" && string(x.dt) != "DOUBLE"; }
            if (big) f.arr = unsigned(s.size(200, 600));
        }
        if (f.kind == K::VAR || f.kind == K::ROWS) f.lenSize = big ? s.pick({4u, 2u}) : s.pick({4u, 4u, 4u, 2u, 1u});
        if (o.lenRefs && (f.kind == K::VAR || f.kind == K::ROWS) && s.chance(1, 5))
        {
            Fld r; r.name = "n" + f.name; auto c = s.pick({Combo{"UINT", 4, "%u"}, Combo{"USHORT", 2, "%hu"}, Combo{"UCHAR", 1, "%UB"}, Combo{"LONG", 4, "%ld"}}); if (big && c.len == 1) c = Combo{"USHORT", 2, "%hu"};
            r.dt = c.dt; r.len = c.len; r.conv = c.conv; f.lenRef = r.name; fs.push_back(r);
        }
        fs.push_back(f);
    }
    return fs;
}
inline vector<Enm> baseEnums(Src& s)
{
    vector<Enm> e;
    e.push_back({"cmds", "Commands", {{0, "NOCMD"}, {1, "LOG"}, {2, "UNLOGALL"}, {700, "XCOMMAND"}}});
    e.push_back({"ports", "PortAddress", {{0, "NO_PORTS"}, {1, "COM1_ALL"}, {32, "COM1"}, {33, "COM1_1"}, {64, "COM2"}, {95, "COM2_31"}, {192, "THISPORT"}, {1440, "USB1"}, {2000, "ICOM1"}}});
    e.push_back({"tstat", "GPSTimeStatus", {{20, "UNKNOWN"}, {60, "APPROXIMATE"}, {120, "COARSE"}, {130, "COARSESTEERING"}, {160, "FREEWHEELING"}, {170, "FINEADJUSTING"}, {180, "FINE"}, {200, "FINESTEERING"}, {220, "SATTIME"}}});
    e.push_back({"resp", "Responses", {{1, "OK"}, {2, "Requested log does not exist"}, {4, "Data record too large"}, {17, "Invalid Message"}}});
    size_t n = s.size(1, 2);
    for (size_t i = 0; i < n; ++i)
    {
        Enm u; u.id = "user" + std::to_string(i); u.name = "UserEnum" + std::to_string(i);
        std::set<uint32_t> used; size_t k = s.size(1, 5);
        for (size_t j = 0; j < k; ++j)
        {
            uint32_t v = uint32_t(s.weighted({4, 2, 1}) == 0 ? s.draw(10) : s.draw(127)); if (s.chance(1, 8)) v = uint32_t(s.draw(250));
            if (used.insert(v).second) u.vals.push_back({v, "E" + std::to_string(i) + "_" + s.over("ABCXYZ", s.size(1, 4)) + std::to_string(v)});
        }
        e.push_back(u);
    }
    return e;
}
// message names that cannot be mistaken for another name plus a format suffix or a sibling suffix, nor (abbreviated ASCII) for the response text OK or ERROR
inline string genName(Src& s)
{
    string n = s.over("BESTPOSRANGHEADIUMK", s.size(1, 10)) + s.over("DEKX012345ABR", 1);
    if (n.compare(0, 2, "OK") == 0 || n.compare(0, 5, "ERROR") == 0) n = "B" + n;
    return n;
}
inline Db genDb(Src& s, const Opt& o, size_t nMsgs = 1)
{
    Db d; d.enums = baseEnums(s);
    std::set<string> names; std::set<uint32_t> ids;
    for (size_t i = 0; i < nMsgs; ++i)
    {
        Msg m; m.name = genName(s); auto clash = [&] { for (const char* x : {"", "A", "B", "R"}) if (names.count(m.name + x)) return true; return strchr("ABR", m.name.back()) && names.count(m.name.substr(0, m.name.size() - 1)); };
        while (clash()) { m.name += "X"; }
        names.insert(m.name);
        m.id = uint32_t(s.range(3, 60000)); if (s.chance(1, 3)) m.id = uint32_t(s.range(3, 300)); while (m.id == 700 || m.id == 128 || m.id == 140 || m.id == 1273 || m.id == 1734 || m.id == 2050 || m.id == 2474 || m.id == 2537 || !ids.insert(m.id).second) ++m.id; // not RXCONFIG or RANGECMP
        size_t nd = s.weighted({4, 1}) + 1; std::set<uint32_t> crcs;
        for (size_t k = 0; k < nd; ++k)
        {
            uint32_t crc = uint32_t(s.weighted({3, 1}) == 0 ? s.draw(UINT32_MAX) : s.draw(0xffff)); if (!crcs.insert(crc).second) continue;
            m.defs.push_back({crc, genFields(s, o, d.enums, 4, 0)});
        }
        m.latest = m.defs[s.draw(m.defs.size() - 1)].first;
        d.msgs.push_back(m);
    }
    d.load();
    return d;
}
inline uint64_t genFloat(Src& s, unsigned len, bool text)
{
    double v;
    switch (s.weighted({3, 3, 3, 1, 1}))
    {
    case 0: v = double(s.range(-1000, 1000)); break;
    case 1: v = double(s.range(-1000000000, 1000000000)) / double(s.pick({1, 2, 3, 10, 1000, 1000000})); break;
    case 2: v = std::ldexp(double(s.bits(53)), int(s.range(-80, 10))) * (s.coin() ? -1 : 1); break;
    case 3: v = s.pick({0.0, -0.0, 1e9, 1e-9, 0.001, 0.01, 0.1, 100.0, 99999.5, 9.9999999e5, 1e-40, 1e37}); break;
    default: v = std::ldexp(double(s.bits(53)), int(s.range(len == 4 ? -170 : -1070, len == 4 ? 70 : 960))); break;
    }
    if (!text && s.chance(1, 20)) v = s.pick({double(INFINITY), -double(INFINITY), double(NAN)});
    uint64_t b = 0;
    if (len == 4) { float f = float(v); if (text && !std::isfinite(f)) f = 1; memcpy(&b, &f, 4); } else memcpy(&b, &v, 8);
    return b;
}
inline uint64_t genScalar(Src& s, const Fld& f, const Opt& o, const Db& d)
{
    if (f.kind == K::ENUM)
    {
        auto& e = d.enums[f.en];
        uint64_t v = e.vals[s.draw(e.vals.size() - 1)].first;
        if (!o.text && o.anyEnum && s.chance(1, 6)) v = s.edgy(f.len * 8);
        return v & (f.len >= 8 ? UINT64_MAX : (1ull << (8 * f.len)) - 1);
    }
    auto l = parseConv(f.conv).letters;
    if (f.dt == "BOOL") return s.draw(1);
    if (isFloat(f)) return genFloat(s, f.len, o.text);
    if (l == "c") { static const string safe = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789!#$%&'()+-./:=>?@[]^_{}~"; if (o.text) return uint8_t(safe[s.draw(safe.size() - 1)]); return s.range(33, 126); }
    if (l == "T") return s.chance(3, 4) ? s.draw(604800000) : s.edgy(32);
    if (l == "m")
    {
        if (!o.text && s.chance(1, 4)) return s.edgy(24);
        auto& m = d.msgs[s.draw(d.msgs.size() - 1)]; unsigned resp = s.chance(1, 4), fmt = resp ? 1 : unsigned(s.draw(2)), sib = unsigned(s.draw(s.chance(1, 3) ? 9 : 0));
        return m.id | sib << 16 | fmt << 21 | resp << 23;
    }
    if (l == "id") return s.chance(1, 2) ? s.draw(220) : (s.draw(64) | (s.edgy(16) << 16));
    return s.edgy(f.len * 8);
}
inline string genText(Src& s, size_t n, const Opt& o, bool forStr)
{
    string r;
    static const string safe = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789!#$%&'()+-./:=>?@[]^_{}~ ,;";
    for (size_t i = 0; i < n; ++i)
    {
        if (o.text) r += safe[s.draw(safe.size() - 1)];
        else r += char(s.weighted({6, 1}) == 0 ? s.range(32, 126) : s.range(1, 255));
    }
    if (forStr && o.text && !r.empty() && (r[0] == ' ')) r[0] = 'q';
    return r;
}
inline Body genBody(Src& s, const Fields& fs, const Opt& o, const Db& d)
{
    Body b;
    for (size_t fi = 0; fi < fs.size(); ++fi)
    {
        auto& f = fs[fi]; Val v;
        switch (f.kind)
        {
        case K::SIMPLE: case K::ENUM: v.e = {genScalar(s, f, o, d)}; break;
        case K::FIXED: case K::VAR: {
            size_t n = f.kind == K::FIXED ? f.arr : s.size(0, f.arr);
            auto l = parseConv(f.conv).letters;
            if (l == "s")
            {
                size_t k = f.kind == K::FIXED ? s.size(0, n) : n; string t = genText(s, k, o, false);
                if (!o.text && s.chance(1, 6) && !t.empty()) t[s.draw(t.size() - 1)] = 0; // embedded NUL ends the text
                t.resize(n, '\0'); for (char c : t) v.e.push_back(uint8_t(c));
            }
            else if (l == "P")
            {
                for (size_t i = 0; i < n; ++i)
                {
                    uint8_t c = s.byte(); if (s.coin()) c = uint8_t(s.pick({int(92), int(97), int(90), int(34), 0, 127, 31, 200}));
                    if (o.text && (c == '*' || c == '"')) c = 'p';
                    if (o.text && i == 0 && (c == ',' || c == ' ' || c == '<')) c = 'p';
                    v.e.push_back(c);
                }
            }
            else for (size_t i = 0; i < n; ++i) { if (i < 24) v.e.push_back(genScalar(s, f, o, d)); else { auto again = v.e[i - 1 - i % 7]; v.e.push_back(again); } }
            break;
        }
        case K::STR: v.s = genText(s, s.size(0, f.arr), o, true); for (auto& c : v.s) if (!c) c = 1; break;
        case K::ROWS: { size_t n = s.size(0, f.arr); for (size_t i = 0; i < n; ++i) { if (i < 12) v.rows.push_back(genBody(s, f.sub, o, d)); else { auto again = v.rows[i - 1 - i % 5]; v.rows.push_back(again); } } break; }
        }
        b.push_back(v);
        if (!f.lenRef.empty())
            for (size_t j = 0; j < fi; ++j) if (fs[j].name == f.lenRef) b[j].e = {f.kind == K::ROWS ? v.rows.size() : v.e.size()};
    }
    return b;
}

// ---------------------------------------------------------------- binary layout
inline void put(string& o, uint64_t v, unsigned n) { for (unsigned i = 0; i < n; ++i) o += char(v >> (8 * i)); }
inline void alignTo(string& o, size_t base, unsigned size) { unsigned a = std::min(4u, size); while ((o.size() - base) % a) o += '\0'; }
inline size_t fixedStride(const Fields& fs)
{
    size_t p = 0;
    for (auto& f : fs) { unsigned a = std::min(4u, f.len); p = (p + a - 1) / a * a; p += size_t(f.len) * (f.kind == K::FIXED ? f.arr : 1); }
    return p;
}
inline Body emptyBody(const Fields& fs)
{
    Body b; for (auto& f : fs) { Val v; if (f.kind == K::SIMPLE || f.kind == K::ENUM) v.e = {0}; if (f.kind == K::FIXED) v.e.assign(f.arr, 0); b.push_back(v); } return b;
}
// offsets (when given) receives the position of every top-level field's value, counts of arrays included
inline void refBinary(string& o, const Fields& fs, const Body& b, bool flat, vector<size_t>* offsets = nullptr)
{
    const size_t base = o.size();
    for (size_t i = 0; i < fs.size(); ++i)
    {
        auto& f = fs[i]; auto& v = b[i];
        alignTo(o, base, f.len);
        if ((f.kind == K::VAR || f.kind == K::ROWS) && f.lenRef.empty())
        {
            alignTo(o, base, f.lenSize);
            if (offsets) offsets->push_back(o.size());
            put(o, f.kind == K::ROWS ? v.rows.size() : v.e.size(), f.lenSize);
        }
        else if (offsets) offsets->push_back(o.size());
        const size_t start = o.size();
        switch (f.kind)
        {
        case K::STR:
            o += v.s;
            if (flat) while (o.size() - start < size_t(f.arr) * f.len) o += '\0';
            o += '\0'; while ((o.size() - base) % 4) o += '\0';
            break;
        case K::ROWS:
            for (auto& r : v.rows)
            {
                if (!allFixed(f.sub)) alignTo(o, base, f.len);
                string row; refBinary(row, f.sub, r, flat); o += row;
            }
            if (flat && allFixed(f.sub)) while (o.size() - start < f.arr * fixedStride(f.sub)) o += '\0';
            else if (flat) for (size_t k = v.rows.size(); k < f.arr; ++k) { alignTo(o, base, f.len); string row; refBinary(row, f.sub, emptyBody(f.sub), flat); o += row; }
            break;
        default:
            for (auto e : v.e) put(o, e, f.len);
            if (flat && f.kind == K::VAR) while (o.size() - start < size_t(f.arr) * f.len) o += '\0';
        }
    }
}

// ---------------------------------------------------------------- text forms
enum class T { ASCII, ABB, JSON };
inline string num(const char* fmt, ...) { char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); return b; }
inline string enumText(const Enm* e, uint64_t v) { if (e) for (auto& [x, n] : e->vals) if (x == v) return n; return "UNKNOWN"; }
inline string msgIdText(const Db& d, uint32_t v)
{
    auto* m = d.byId(v & 0xffff); unsigned sib = v >> 16 & 31, fmt = v >> 21 & 3, resp = v >> 23 & 1;
    string n = m ? m->name : "UNKNOWN"; n += resp ? "R" : fmt == 0 ? "B" : fmt == 1 ? "A" : ""; if (sib) n += "_" + std::to_string(sib); return n;
}
inline double asDouble(const Fld& f, uint64_t b) { if (f.dt == "FLOAT") { float x; memcpy(&x, &b, 4); return x; } double x; memcpy(&x, &b, 8); return x; }
inline int64_t asSigned(const Fld& f, uint64_t b) { unsigned sh = 64 - 8 * f.len; return int64_t(b << sh) >> sh; }
inline string floatText(const Fld& f, uint64_t b, const Conv& c)
{
    double v = asDouble(f, b); bool sci;
    if (c.letters == "f" || c.letters == "lf") sci = false;
    else if (c.letters == "e" || c.letters == "le") sci = true;
    else if (c.width < 0) sci = true;
    else
    {
        double a = std::fabs(v), lo = std::pow(10.0, -c.width), hi = std::pow(10.0, c.width);
        double mn = f.dt == "FLOAT" ? double(std::numeric_limits<float>::min()) : std::numeric_limits<double>::min();
        sci = a >= mn && (a > hi || a < lo);
    }
    int p = c.prec < 0 ? 6 : c.prec;
    return sci ? num("%.*e", p, v) : num("%.*f", p, v);
}
inline string elemText(const Fld& f, uint64_t b, T t, const Db& d)
{
    Conv c = parseConv(f.conv); const string& l = c.letters; bool js = t == T::JSON;
    auto q = [&](string x) { return js ? "\"" + x + "\"" : x; };
    if (f.dt == "BOOL") return js ? (b ? "true" : "false") : (b ? "TRUE" : "FALSE");
    if (isFloat(f)) return floatText(f, b, c);
    if (l == "T") return num("%u.%03u", uint32_t(b) / 1000, uint32_t(b) % 1000);
    if (l == "m") return q(msgIdText(d, uint32_t(b)));
    if (l == "id") { int16_t ch = int16_t(b >> 16); string x = std::to_string(b & 0xffff); if (ch) x += num("%+d", ch); return q(x); }
    if (l == "c") return q(js ? jesc(string(1, char(b))) : string(1, char(b)));
    if (l == "P" && !js)
    {
        if (b == '\\') return "\\\\";
        if (b > 31 && b < 127) return string(1, char(b));
        return num("\\x%02x", unsigned(b));
    }
    if (!js)
    {
        if (l == "XB") return num("%02x", unsigned(b));
        if (l == "x" || l == "X" || l == "lx" || l == "llx") return num("%0*llx", int(2 * f.len), (unsigned long long)b);
        if (f.dt == "HEXBYTE") return num("%02x", unsigned(b));
    }
    if (isSigned(f) && l != "P") return std::to_string(asSigned(f, b));
    return std::to_string(b);
}
inline string arrText(const Fld& f, const Val& v, T t, const Db& d, char sep)
{
    string o; if (f.kind == K::VAR) o += std::to_string(v.e.size()) + sep;
    if (quotedArr(f)) { o += '"'; for (auto e : v.e) { if (!e) break; o += char(e); } o += '"'; o += sep; return o; }
    if (rawArr(f)) { for (auto e : v.e) o += elemText(f, e, t, d); o += sep; return o; }
    for (auto e : v.e) { o += elemText(f, e, t, d); o += sep; }
    return o;
}
// ASCII body: every field followed by the separator
inline string refAscii(const Fields& fs, const Body& b, const Db& d)
{
    string o;
    for (size_t i = 0; i < fs.size(); ++i)
    {
        auto& f = fs[i]; auto& v = b[i];
        switch (f.kind)
        {
        case K::SIMPLE: o += elemText(f, v.e[0], T::ASCII, d) + ","; break;
        case K::ENUM: o += enumText(&d.enums[f.en], v.e[0]) + ","; break;
        case K::FIXED: case K::VAR: o += arrText(f, v, T::ASCII, d, ','); break;
        case K::STR: o += "\"" + v.s + "\","; break;
        case K::ROWS: o += std::to_string(v.rows.size()) + ","; for (auto& r : v.rows) o += refAscii(f.sub, r, d); break;
        }
    }
    return o;
}
inline string refAbb(const Fields& fs, const Body& b, const Db& d, unsigned depth = 1)
{
    auto ind = [](unsigned n) { return "<" + string(5 * n, ' '); };
    string o = ind(depth); bool nl = false;
    for (size_t i = 0; i < fs.size(); ++i)
    {
        if (nl) { o += "\r\n" + ind(depth); nl = false; }
        auto& f = fs[i]; auto& v = b[i];
        switch (f.kind)
        {
        case K::SIMPLE: o += elemText(f, v.e[0], T::ABB, d) + " "; break;
        case K::ENUM: o += enumText(&d.enums[f.en], v.e[0]) + " "; break;
        case K::FIXED: case K::VAR: o += arrText(f, v, T::ABB, d, ' '); break;
        case K::STR: o += "\"" + v.s + "\" "; break;
        case K::ROWS:
            o += std::to_string(v.rows.size()) + " "; if (v.rows.empty()) o += "\r\n" + ind(depth + 1);
            for (auto& r : v.rows) o += "\r\n" + refAbb(f.sub, r, d, depth + 1);
            nl = true; break;
        }
    }
    return o;
}
// what a JSON parser must recover, as a canonical string (used for comparison after parsing the output)
inline string refJson(const Fields& fs, const Body& b, const Db& d)
{
    string o = "{"; bool first = true;
    for (size_t i = 0; i < fs.size(); ++i)
    {
        auto& f = fs[i]; auto& v = b[i]; if (!first) o += ","; first = false; o += "\"" + f.name + "\": ";
        switch (f.kind)
        {
        case K::SIMPLE: o += parseConv(f.conv).letters == "c" ? "\"" + jesc(string(1, char(v.e[0]))) + "\"" : elemText(f, v.e[0], T::JSON, d); break;
        case K::ENUM: o += "\"" + enumText(&d.enums[f.en], v.e[0]) + "\""; break;
        case K::FIXED: case K::VAR:
            if (quotedArr(f)) { string t; for (auto e : v.e) { if (!e) break; t += char(e); } o += "\"" + jesc(t) + "\""; }
            else { o += "["; for (size_t k = 0; k < v.e.size(); ++k) { if (k) o += ","; o += elemText(f, v.e[k], T::JSON, d); } o += "]"; }
            break;
        case K::STR: o += "\"" + jesc(v.s) + "\""; break;
        case K::ROWS: o += "["; for (size_t k = 0; k < v.rows.size(); ++k) { if (k) o += ","; o += refJson(f.sub, v.rows[k], d); } o += "]"; break;
        }
    }
    return o + "}";
}

// ---------------------------------------------------------------- headers
using Hdr = oem::IntermediateHeader;
struct HdrOpt { bool shortForm = false, text = true, response = false; };
// the definition checksum a header must carry so that the definition with key `crc` is the one that applies (16 bits in the binary header)
inline uint32_t hdrCrcFor(Src& s, const Msg& m, uint32_t& crc)
{
    std::set<uint32_t> keys; for (auto& [c, f] : m.defs) keys.insert(c);
    if (crc > 0xffff) { crc = m.latest; }
    if (crc <= 0xffff && (crc != m.latest || s.coin())) return crc;
    uint32_t v = uint32_t(s.draw(0xffff)); while (keys.count(v)) v = (v + 1) & 0xffff; return v;
}
inline Hdr genHdr(Src& s, const Db& d, const Msg& m, const HdrOpt& o)
{
    Hdr h; h.usMessageId = uint16_t(m.id);
    h.ucMessageType = 0;
    if (!o.shortForm)
    {
        h.ucMessageType = uint8_t(s.draw(s.chance(1, 3) ? 31 : 0));
        if (o.response) h.ucMessageType |= 0x80;
        auto& p = d.byName("PortAddress")->vals; h.uiPortAddress = p[s.draw(p.size() - 1)].first;
        if (h.uiPortAddress > 255) h.uiPortAddress = 32; // the binary header carries one byte
        h.usSequence = uint16_t(s.edgy(16)); h.ucIdleTime = uint8_t(s.draw(255));
        auto& ts = d.byName("GPSTimeStatus")->vals; h.uiTimeStatus = ts[s.draw(ts.size() - 1)].first;
        h.uiReceiverStatus = uint32_t(s.edgy(32)); h.usReceiverSwVersion = uint16_t(s.edgy(16));
        h.uiMessageDefinitionCrc = uint16_t(s.edgy(16));
    }
    h.usWeek = uint16_t(s.chance(1, 8) ? s.edgy(16) : s.draw(3000));
    h.dMilliseconds = double(s.chance(1, 8) ? s.edgy(32) : s.draw(604799999));
    return h;
}
inline string msgNameOf(const Db& d, const Hdr& h) { auto* m = d.byId(h.usMessageId); return m ? m->name : enumText(d.byName("Commands"), h.usMessageId); }
inline string sib(const Hdr& h) { unsigned k = h.ucMessageType & 0x1f; return k ? "_" + std::to_string(k) : ""; }
inline string secText(const Hdr& h) { uint32_t ms = uint32_t(h.dMilliseconds); return num("%u.%03u", ms / 1000, ms % 1000); }
inline string idleText(const Hdr& h) { return num("%u.%u", h.ucIdleTime / 2, h.ucIdleTime % 2 * 5); }
inline string refTextHeader(const Db& d, const Hdr& h, T t, bool shortForm)
{
    string name = msgNameOf(d, h), port = enumText(d.byName("PortAddress"), h.uiPortAddress), ts = enumText(d.byName("GPSTimeStatus"), h.uiTimeStatus);
    if (t == T::JSON)
    {
        string o = "{\"message\": \"" + name + sib(h) + "\",\"id\": " + std::to_string(h.usMessageId);
        if (!shortForm) o += ",\"port\": \"" + port + "\",\"sequence_num\": " + std::to_string(h.usSequence) + ",\"percent_idle_time\": " + idleText(h) + ",\"time_status\": \"" + ts + "\"";
        o += ",\"week\": " + std::to_string(h.usWeek) + ",\"seconds\": " + secText(h);
        if (!shortForm) o += ",\"receiver_status\": " + std::to_string(h.uiReceiverStatus) + ",\"HEADER_reserved1\": " + std::to_string(h.uiMessageDefinitionCrc) + ",\"receiver_sw_version\": " + std::to_string(h.usReceiverSwVersion);
        return o + "}";
    }
    char sep = t == T::ASCII ? ',' : ' ';
    string o = t == T::ABB ? "<" : shortForm ? "%" : "#";
    if (t == T::ASCII) name += h.ucMessageType & 0x80 ? "R" : "A";
    o += name + sib(h) + sep;
    if (!shortForm) o += port + sep + std::to_string(h.usSequence) + sep + idleText(h) + sep + ts + sep;
    o += std::to_string(h.usWeek) + sep + secText(h);
    if (!shortForm) o += sep + num("%08x", h.uiReceiverStatus) + sep + num("%04x", h.uiMessageDefinitionCrc) + sep + std::to_string(h.usReceiverSwVersion);
    return o + (t == T::ASCII ? ";" : "\r\n");
}
inline uint32_t crc32ref(const string& s)
{
    uint32_t c = 0; for (unsigned char x : s) { c ^= x; for (int i = 0; i < 8; ++i) c = c & 1 ? c >> 1 ^ 0xEDB88320u : c >> 1; } return c;
}
inline string refBinHeader(const Hdr& h, size_t bodyLen, bool shortForm)
{
    string o = shortForm ? "\xAA\x44\x13" : "\xAA\x44\x12";
    if (shortForm) { put(o, bodyLen, 1); put(o, h.usMessageId, 2); put(o, h.usWeek, 2); put(o, uint64_t(h.dMilliseconds), 4); return o; }
    put(o, 28, 1); put(o, h.usMessageId, 2); put(o, h.ucMessageType & ~0x60u, 1); put(o, h.uiPortAddress, 1); put(o, bodyLen, 2); put(o, h.usSequence, 2); put(o, h.ucIdleTime, 1); put(o, h.uiTimeStatus, 1);
    put(o, h.usWeek, 2); put(o, uint64_t(h.dMilliseconds), 4); put(o, h.uiReceiverStatus, 4); put(o, h.uiMessageDefinitionCrc, 2); put(o, h.usReceiverSwVersion, 2);
    return o;
}
inline string refBinMsg(const Hdr& h, const Fields& fs, const Body& b, bool flat, bool shortForm)
{
    string body; refBinary(body, fs, b, flat); string m = refBinHeader(h, body.size(), shortForm) + body; uint32_t c = crc32ref(m); put(m, c, 4); return m;
}
inline string refTextMsg(const Db& d, const Hdr& h, const Fields& fs, const Body& b, T t, bool shortForm)
{
    string hd = refTextHeader(d, h, t, shortForm);
    if (t == T::JSON) return "{\"header\": " + hd + ",\"body\": " + refJson(fs, b, d) + "}";
    if (t == T::ABB) { string o = hd + refAbb(fs, b, d); o.pop_back(); return o + "\r\n"; }
    string o = hd + refAscii(fs, b, d); if (!fs.empty()) o.pop_back(); // the delimiter after the last field
    return o + num("*%08x\r\n", crc32ref(o.substr(1)));
}

// ---------------------------------------------------------------- reading the decoded message through the public interface
template <typename V> inline void toBits(vector<uint64_t>& o, V v) { uint64_t b = 0; memcpy(&b, &v, sizeof v); o.push_back(b); }
inline void addVariant(Val& o, const ne::FieldValueVariant& v)
{
    std::visit([&](auto&& x) {
        using X = std::decay_t<decltype(x)>;
        if constexpr (std::is_same_v<X, bool>) o.e.push_back(x ? 1 : 0);
        else if constexpr (std::is_arithmetic_v<X>) toBits(o.e, x);
        else if constexpr (std::is_same_v<X, string>) { for (char c : x) o.e.push_back(uint8_t(c)); o.s = x; }
        else if constexpr (ne::is_specialization_of_v<X, ne::TypedBuffer>) { for (size_t i = 0; i < x.size(); ++i) toBits(o.e, x[i]); }
        else if constexpr (std::is_same_v<X, ne::FlatFieldArray> || std::is_same_v<X, ne::CompositeFieldArray>) { throw std::logic_error("rows"); }
        else { for (auto y : x) toBits(o.e, y); }
    }, v);
}
inline Body extract(const ne::CompositeField& cf, const Fields& fs, const ne::FieldInfo& info);
inline Val extractRows(const ne::FieldValueVariant& v, const Fld& f, const ne::FieldInfo& info)
{
    Val o;
    if (auto* c = std::get_if<ne::CompositeFieldArray>(&v)) { for (auto& r : *c) o.rows.push_back(extract(r, f.sub, info)); return o; }
    if (auto* a = std::get_if<ne::FlatFieldArray>(&v))
    {
        if (info.fixedFieldBytes == 0) return o;
        for (size_t i = 0; i < a->size(); ++i)
            o.rows.push_back(extract(ne::CompositeField::ViewFixedFields(a->data() + i * info.fixedFieldBytes, info.fixedFieldBytes), f.sub, info));
        return o;
    }
    // a field that the message did not reach keeps an empty value
    return o;
}
inline Body extract(const ne::CompositeField& cf, const Fields& fs, const ne::FieldInfo& info)
{
    Body b;
    PBT_EQ(info.messageOrderedFields.size(), fs.size(), "decoded field definitions");
    for (size_t i = 0; i < fs.size(); ++i)
    {
        auto& def = *info.messageOrderedFields[i]; auto& f = fs[i];
        if (def.name != f.name) pbt::fail("field order: " + def.name + " instead of " + f.name);
        Val v;
        if (f.kind == K::ROWS) v = extractRows(cf.GetFieldValueVariant(def), f, *dynamic_cast<const ne::FieldArrayField&>(def).fieldInfo);
        else { addVariant(v, cf.GetFieldValueVariant(def)); if (f.kind == K::STR) v.e.clear(); }
        if (f.kind == K::ENUM || f.kind == K::SIMPLE || f.kind == K::FIXED || f.kind == K::VAR)
            for (auto& e : v.e) if (f.len < 8) e &= (1ull << (8 * f.len)) - 1;
        b.push_back(v);
    }
    return b;
}
inline string show(const Fields& fs, const Body& b)
{
    string o = "{";
    for (size_t i = 0; i < b.size(); ++i)
    {
        o += (i ? ", " : "") + (i < fs.size() ? fs[i].name : "?") + "=";
        if (i < fs.size() && fs[i].kind == K::ROWS) { o += "["; for (auto& r : b[i].rows) o += show(fs[i].sub, r); o += "]"; }
        else if (i < fs.size() && fs[i].kind == K::STR) o += "\"" + pbt::esc(b[i].s) + "\"";
        else for (size_t k = 0; k < b[i].e.size(); ++k) o += (k ? "," : "") + num("%llx", (unsigned long long)b[i].e[k]);
    }
    return o + "}";
}
// empty string when equal, otherwise the path of the first difference
inline string diff(const Fields& fs, const Body& want, const Body& got, const string& path = "")
{
    if (want.size() != got.size()) return path + ": field count";
    for (size_t i = 0; i < fs.size(); ++i)
    {
        auto& f = fs[i]; string p = path + "." + f.name;
        if (f.kind == K::ROWS)
        {
            if (want[i].rows.size() != got[i].rows.size()) return p + ": rows " + std::to_string(want[i].rows.size()) + " vs " + std::to_string(got[i].rows.size());
            for (size_t r = 0; r < want[i].rows.size(); ++r) { auto x = diff(f.sub, want[i].rows[r], got[i].rows[r], p + "[" + std::to_string(r) + "]"); if (!x.empty()) return x; }
        }
        else if (f.kind == K::STR) { if (want[i].s != got[i].s) return p + ": \"" + pbt::esc(want[i].s) + "\" vs \"" + pbt::esc(got[i].s) + "\""; }
        else
        {
            if (want[i].e.size() != got[i].e.size()) return p + ": count " + std::to_string(want[i].e.size()) + " vs " + std::to_string(got[i].e.size());
            for (size_t k = 0; k < want[i].e.size(); ++k)
                if (want[i].e[k] != got[i].e[k]) return p + "[" + std::to_string(k) + "]: " + num("%llx vs %llx", (unsigned long long)want[i].e[k], (unsigned long long)got[i].e[k]) + " (" + f.dt + " " + f.conv + ")";
        }
    }
    return "";
}
inline string defText(const Fields& fs)
{
    string o;
    for (auto& f : fs)
    {
        o += (o.empty() ? "" : " ") + f.name + ":" + kindName(f.kind) + "/" + f.dt + std::to_string(f.len) + f.conv;
        if (f.kind == K::FIXED || f.var()) o += "[" + std::to_string(f.arr) + "]";
        if (!f.lenRef.empty()) o += "#" + f.lenRef; else if (f.lenSize != 4) o += "#" + std::to_string(f.lenSize);
        if (f.kind == K::ROWS) o += "{" + defText(f.sub) + "}";
    }
    return o;
}

// decode a body held in an exactly sized heap buffer (so that a sanitizer sees any over-read)
struct Exact
{
    std::unique_ptr<unsigned char[]> p; size_t n;
    explicit Exact(const string& s) : p(new unsigned char[s.size()]), n(s.size()) { if (n) memcpy(p.get(), s.data(), n); }
    unsigned char* data() { return p.get(); }
};
inline oem::MetaDataStruct metaFor(const Hdr& h, ne::HEADER_FORMAT fmt, size_t msgLen, size_t hdrLen, size_t binBody, uint32_t defCrc, const string& name)
{
    oem::MetaDataStruct m; m.eFormat = fmt; m.usMessageId = h.usMessageId; m.uiLength = uint32_t(msgLen); m.uiHeaderLength = uint32_t(hdrLen); m.uiBinaryMsgLength = uint32_t(binBody); m.uiMessageCrc = defCrc;
    m.messageName = name; m.bResponse = (h.ucMessageType & 0x80) != 0; m.usWeek = h.usWeek; m.dMilliseconds = h.dMilliseconds; return m;
}
struct Encoded { ne::STATUS st; string msg, header, body; };
// encode into an exactly sized heap buffer
inline Encoded encode(const oem::Encoder& enc, const Hdr& h, const ne::CompositeField& cf, ne::HEADER_FORMAT hf, ne::ENCODE_FORMAT ef, size_t cap_ = 100000, unsigned char fill = 0xCD, size_t off = 0)
{
    const size_t cap = cap_ + off;
    std::unique_ptr<unsigned char[]> buf(new unsigned char[cap ? cap : 1]); memset(buf.get(), fill, cap);
    unsigned char* p = buf.get() + off; ne::MessageDataStruct md; Encoded r;
    try { r.st = enc.Encode(&p, uint32_t(cap_), h, cf, md, hf, ef); } catch (const std::exception& ex) { string n; if (cf.GetFieldInfo()) for (auto& f : cf.GetFieldInfo()->messageOrderedFields) n += " " + f->name + ":" + f->conversion + "/" + std::to_string(int(f->dataType.name)) + "/" + std::to_string(f->dataType.length); pbt::fail("Encode threw ", ex.what(), " format ", int(ef), " fields", n); }
    if (r.st == ne::STATUS::SUCCESS)
    {
        auto in = [&](const unsigned char* q, size_t n) { return q >= buf.get() && q + n <= buf.get() + cap; };
        PBT_CHECK(md.pucMessage == buf.get() + off && in(md.pucMessage, md.uiMessageLength), "reported message lies outside the caller's buffer");
        r.msg.assign((char*)md.pucMessage, md.uiMessageLength);
        if (md.pucMessageHeader) { PBT_CHECK(in(md.pucMessageHeader, md.uiMessageHeaderLength), "reported header lies outside the caller's buffer"); r.header.assign((char*)md.pucMessageHeader, md.uiMessageHeaderLength); }
        if (md.pucMessageBody) { PBT_CHECK(in(md.pucMessageBody, md.uiMessageBodyLength), "reported body lies outside the caller's buffer"); r.body.assign((char*)md.pucMessageBody, md.uiMessageBodyLength); }
    }
    return r;
}
} // namespace model
