// C21: loading a JSON database yields exactly the definitions it describes, from memory or from a file; malformed input is a load failure.
// LIBS: common dcommon oem
#include "model.hpp"
#include <filesystem>
#include <fstream>
#include <unistd.h>
using namespace model;
PBT_PROPERTY("C21", "databases built as JSON trees with shuffled members, unknown extra members, optional and null members, escapes and white space, loaded from memory and file and compared member by member with the tree, including the field layout of every alignment rule; "
                    "every kind of structural mutation and prefix of such a text has to fail with JsonDbReaderFailure; non-trivial = at least one message with an array, string, enumeration or nested field array / any mutation");

// ---- JSON tree
struct J
{
    enum T { NUL, NUM, STR, ARR, OBJ, BOO } t = NUL;
    string s; vector<J> a; vector<std::pair<string, J>> o;
    static J num(uint64_t v) { J j; j.t = NUM; j.s = std::to_string(v); return j; }
    static J str(string v) { J j; j.t = STR; j.s = std::move(v); return j; }
    static J arr() { J j; j.t = ARR; return j; }
    static J obj() { J j; j.t = OBJ; return j; }
    static J boo(bool b) { J j; j.t = BOO; j.s = b ? "true" : "false"; return j; }
    J& add(const string& k, J v) { o.emplace_back(k, std::move(v)); return *this; }
};
static string quote(Src& s, const string& v)
{
    string o = "\"";
    for (size_t i = 0; i < v.size(); ++i)
    {
        unsigned char c = v[i];
        if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
        else if (c == '/' && s.chance(1, 2)) o += "\\/";
        else if (c == '\n' && s.coin()) o += "\\n";
        else if (c == '\t' && s.coin()) o += "\\t";
        else if (c < 0x20 || (c < 0x7f && s.chance(1, 40))) { char b[8]; snprintf(b, sizeof b, s.coin() ? "\\u%04x" : "\\u%04X", c); o += b; }
        else o += char(c);
    }
    return o + "\"";
}
static string ws(Src& s) { return s.chance(1, 12) ? s.over(" \t\r\n", s.size(1, 3)) : ""; }
static void print(Src& s, const J& j, string& o)
{
    switch (j.t)
    {
    case J::NUL: o += "null"; break;
    case J::NUM: case J::BOO: o += j.s; break;
    case J::STR: o += quote(s, j.s); break;
    case J::ARR: { o += '['; bool f = true; for (auto& x : j.a) { if (!f) o += ','; f = false; o += ws(s); print(s, x, o); o += ws(s); } o += ']'; break; }
    case J::OBJ: { o += '{'; bool f = true; for (auto& [k, x] : j.o) { if (!f) o += ','; f = false; o += ws(s) + quote(s, k) + ws(s) + ":" + ws(s); print(s, x, o); o += ws(s); } o += '}'; break; }
    }
}
static J junk(Src& s, int depth = 0)
{
    switch (s.draw(depth > 1 ? 3 : 5))
    {
    case 0: return J(); case 1: return J::num(s.edgy(63)); case 2: return J::str(s.alnum(s.size(0, 5))); case 3: return J::boo(s.coin());
    case 4: { J a = J::arr(); for (size_t n = s.size(0, 3); n; --n) a.a.push_back(junk(s, depth + 1)); return a; }
    default: { J a = J::obj(); for (size_t n = s.size(0, 3); n; --n) a.add(s.alnum(3), junk(s, depth + 1)); return a; }
    }
}
// shuffles the members of an object and mixes members in that nobody asks for
static J finish(Src& s, J o, bool keepOrder = false)
{
    if (!keepOrder && s.chance(1, 2)) for (size_t i = o.o.size(); i > 1; --i) std::swap(o.o[i - 1], o.o[s.draw(i - 1)]);
    if (!keepOrder && s.chance(1, 6)) o.o.insert(o.o.begin() + long(s.draw(o.o.size())), {"x-" + s.alnum(3), junk(s)});
    return o;
}
// ---- expected content
struct XF
{
    string name, type, descr, conv, dtName, dtDescr, enumId, ref; unsigned len = 0; uint32_t arr = 0; unsigned lenSize = 4; vector<XF> sub;
    size_t index = 0, subBytes = 0, subVars = 0; uint32_t size = 0;
};
struct XM { string id, name, descr; uint32_t logId, latest; vector<std::pair<uint32_t, vector<XF>>> defs; };
struct XE { string id, name; struct V { uint32_t v; string n, d; }; vector<V> vals; };
struct X { bool meta = false; string subset, version = "0.0.0", family; vector<XM> ms; vector<XE> es; };

static string text(Src& s)
{
    switch (s.draw(7)) { case 0: return ""; case 1: return "caf\xc3\xa9 \xe2\x82\xac \xf0\x9f\x9b\xb0"; case 2: return s.over("ab/\\\"\n\t\x01{}[]:,", s.size(1, 8)); default: return s.alnum(s.size(1, 9)); }
}
static void optText(Src& s, J& o, const char* key, string& out) { if (s.chance(1, 6)) { o.add(key, J()); out = ""; } else { out = text(s); o.add(key, J::str(out)); } }
static const vector<string> kTypes = {"BOOL", "HEXBYTE", "CHAR", "UCHAR", "SHORT", "USHORT", "INT", "UINT", "LONG", "ULONG", "LONGLONG", "ULONGLONG", "FLOAT", "DOUBLE", "SATELLITEID", "UNKNOWN", "NOSUCHTYPE"};
static ne::DATA_TYPE typeOf(const string& n)
{
    static const ne::DATA_TYPE t[] = {ne::DATA_TYPE::BOOL, ne::DATA_TYPE::HEXBYTE, ne::DATA_TYPE::CHAR, ne::DATA_TYPE::UCHAR, ne::DATA_TYPE::SHORT, ne::DATA_TYPE::USHORT, ne::DATA_TYPE::INT, ne::DATA_TYPE::UINT, ne::DATA_TYPE::LONG, ne::DATA_TYPE::ULONG,
                                      ne::DATA_TYPE::LONGLONG, ne::DATA_TYPE::ULONGLONG, ne::DATA_TYPE::FLOAT, ne::DATA_TYPE::DOUBLE, ne::DATA_TYPE::SATELLITEID, ne::DATA_TYPE::UNKNOWN, ne::DATA_TYPE::UNKNOWN};
    for (size_t i = 0; i < kTypes.size(); ++i) if (kTypes[i] == n) return t[i];
    return ne::DATA_TYPE::UNKNOWN;
}
static string convText(Src& s)
{
    string c = "%"; if (s.chance(1, 3)) c += std::to_string(s.draw(40)); else if (s.chance(1, 8)) c += "0" + std::to_string(s.draw(20));
    if (s.chance(1, 3)) c += "." + (s.coin() ? std::to_string(s.draw(30)) : string());
    return c + s.pick<string>({"d", "u", "s", "S", "Z", "P", "lf", "llu", "hd", "uc", "XB", "k", "T", "id", "c", "zzz"});
}
static vector<XF> mkFields(Src& s, J& out, const X& x, int depth)
{
    vector<XF> fs; out = J::arr();
    for (size_t n = s.size(0, depth ? 4 : 7); n; --n)
    {
        XF f; J o = J::obj();
        f.type = s.pick<string>({"SIMPLE", "ENUM", "FIXED_LENGTH_ARRAY", "VARIABLE_LENGTH_ARRAY", "STRING", "FIELD_ARRAY"});
        if (f.type == "FIELD_ARRAY" && depth > 2) f.type = "SIMPLE";
        f.name = s.chance(1, 10) ? text(s) : "f" + s.alnum(4); o.add("name", J::str(f.name)).add("type", J::str(f.type)); optText(s, o, "description", f.descr);
        switch (s.draw(3)) { case 0: break; case 1: o.add("conversionString", J()); break; default: f.conv = convText(s); o.add("conversionString", J::str(f.conv)); }
        J dt = J::obj(); f.dtName = s.pick(kTypes); f.len = unsigned(s.chance(1, 8) ? s.draw(65535) : s.pick({1, 2, 4, 8, 0, 3, 12})); dt.add("name", J::str(f.dtName)).add("length", J::num(f.len)); optText(s, dt, "description", f.dtDescr); o.add("dataType", finish(s, dt));
        if (f.type == "ENUM") { f.enumId = x.es.empty() || s.chance(1, 6) ? "none" : s.pick(x.es).id; o.add("enumID", J::str(f.enumId)); }
        else if (f.type != "SIMPLE")
        {
            bool rows = f.type == "FIELD_ARRAY";
            if (rows && s.chance(1, 6)) o.add("arrayLength", J()); else { f.arr = uint32_t(s.chance(1, 6) ? s.draw(5000) : s.draw(20)); o.add("arrayLength", J::num(f.arr)); }
            if (s.chance(1, 4)) { f.lenSize = unsigned(s.pick({1, 2, 4, 8, 255})); o.add("arrayLengthFieldSize", J::num(f.lenSize)); }
            if (s.chance(1, 4)) { if (s.chance(1, 4)) o.add("arrayLengthRef", J()); else { f.ref = "r" + s.alnum(3); o.add("arrayLengthRef", J::str(f.ref)); } }
            if (rows) { J sub; f.sub = mkFields(s, sub, x, depth + 1); o.add("fields", sub); }
        }
        out.a.push_back(finish(s, o)); fs.push_back(f);
    }
    return fs;
}
static void layout(vector<XF>& fs, bool align, size_t& bytes, size_t& vars, uint32_t& sum)
{
    bytes = vars = 0; sum = 0;
    for (auto& f : fs)
    {
        if (f.type == "SIMPLE" || f.type == "ENUM" || f.type == "FIXED_LENGTH_ARRAY")
        {
            size_t a = align ? std::min(4u, f.len) : 1; if (a) while (bytes % a) ++bytes;
            f.index = bytes; size_t n = f.type == "FIXED_LENGTH_ARRAY" ? size_t(f.len) * f.arr : f.len; bytes += n; sum += uint32_t(n);
        }
        else
        {
            f.index = vars++;
            if (f.type == "FIELD_ARRAY") { uint32_t per; layout(f.sub, align, f.subBytes, f.subVars, per); f.size = per * f.arr; }
            else sum += f.len * f.arr;
        }
    }
}
static J mkDb(Src& s, X& x)
{
    J root = J::obj(), es = J::arr(), ms = J::arr();
    if (!s.chance(1, 6))
    {
        x.meta = true; J m = J::obj();
        if (s.chance(3, 4)) { x.family = s.pick<string>({"OEM", "OEM", "OEM", "", "oem", "ACME"}); m.add("messageFamily", J::str(x.family)); }
        if (s.coin()) { x.version = text(s); m.add("version", J::str(x.version)); }
        if (s.coin()) { x.subset = text(s); m.add("subset", J::str(x.subset)); }
        root.add("meta", finish(s, m));
    }
    for (size_t n = s.size(0, 4); n; --n)
    {
        XE e; e.id = "e" + std::to_string(n); e.name = s.chance(1, 6) ? text(s) + std::to_string(n) : "Enum" + std::to_string(n);
        J vs = J::arr();
        for (size_t k = s.size(0, 5); k; --k) { XE::V v; v.v = uint32_t(s.edgy(31)); v.n = s.chance(1, 8) ? text(s) : s.alnum(4); J o = J::obj(); o.add("value", J::num(v.v)).add("name", J::str(v.n)); optText(s, o, "description", v.d); e.vals.push_back(v); vs.a.push_back(finish(s, o)); }
        J o = J::obj(); o.add("_id", J::str(e.id)).add("name", J::str(e.name)).add("enumerators", vs); es.a.push_back(finish(s, o)); x.es.push_back(e);
    }
    for (size_t n = s.size(0, 4); n; --n)
    {
        XM m; m.id = "id" + std::to_string(n); m.name = s.chance(1, 8) ? text(s) + std::to_string(n) : "MSG" + std::to_string(n); m.logId = uint32_t(s.edgy(31)); while (std::any_of(x.ms.begin(), x.ms.end(), [&](auto& q) { return q.logId == m.logId; })) ++m.logId;
        J o = J::obj(); o.add("_id", J::str(m.id)).add("messageID", J::num(m.logId)).add("name", J::str(m.name)); optText(s, o, "description", m.descr);
        J defs = J::obj();
        for (size_t k = s.size(0, 3); k; --k)
        {
            uint32_t crc = uint32_t(s.edgy(32)); if (std::any_of(m.defs.begin(), m.defs.end(), [&](auto& d) { return d.first == crc; })) continue;
            J fj; auto fs = mkFields(s, fj, x, 0); m.defs.emplace_back(crc, fs); defs.add(std::to_string(crc), fj);
        }
        m.latest = m.defs.empty() || s.chance(1, 6) ? uint32_t(s.edgy(32)) : s.pick(m.defs).first;
        o.add("latestMsgDefCrc", J::str(std::to_string(m.latest))).add("fields", defs); ms.a.push_back(finish(s, o)); x.ms.push_back(m);
    }
    root.add("enums", es).add("messages", ms);
    for (auto& m : x.ms) for (auto& [c, fs] : m.defs) { size_t b, v; uint32_t t; layout(fs, x.meta && x.family == "OEM", b, v, t); }
    return finish(s, root);
}
static void checkFields(const ne::FieldInfo& fi, vector<XF> fs, bool align, const ne::MessageDatabase& db, const string& at)
{
    size_t bytes, vars; uint32_t sum; layout(fs, align, bytes, vars, sum);
    PBT_EQ(fi.messageOrderedFields.size(), fs.size(), "number of fields of ", at); PBT_EQ(fi.fixedFieldBytes, bytes, "bytes of the fixed part of ", at); PBT_EQ(fi.varFieldCount, vars, "variable fields of ", at);
    for (size_t i = 0; i < fs.size(); ++i)
    {
        auto& x = fs[i]; auto& f = *fi.messageOrderedFields[i]; string w = at + " field " + x.name + " (" + x.type + ")";
        PBT_EQ(f.name, x.name, w); PBT_EQ(f.description, x.descr, "description of ", w); PBT_EQ(f.conversion, x.conv, "conversion of ", w); PBT_EQ(string(ne::FieldTypeToString(f.type)), x.type, w);
        PBT_CHECK(f.dataType.name == typeOf(x.dtName), "data type of ", w); PBT_EQ(f.dataType.length, x.len, "length of ", w); PBT_EQ(f.dataType.description, x.dtDescr, w); PBT_EQ(f.index, x.index, "index of ", w);
        auto c = parseConv(x.conv); PBT_CHECK(f.width.value_or(-1) == c.width && f.precision.value_or(-1) == c.prec, "width or precision of ", w, " with conversion ", x.conv);
        PBT_EQ(f.conversionHash, x.conv.empty() ? 0u : crc32ref(c.letters), "conversion of ", w, ": ", x.conv);
        bool str = x.type == "STRING" || c.letters == "s" || c.letters == "S"; PBT_EQ(f.isString, str, w, " ", x.conv); PBT_EQ(f.isCsv, !str && c.letters != "Z" && c.letters != "P", w, " ", x.conv);
        auto* ef = dynamic_cast<const ne::EnumField*>(&f); auto* af = dynamic_cast<const ne::ArrayField*>(&f); auto* rf = dynamic_cast<const ne::FieldArrayField*>(&f);
        PBT_EQ(ef != nullptr, x.type == "ENUM", "class of ", w); PBT_EQ(af != nullptr, x.type != "ENUM" && x.type != "SIMPLE", "class of ", w); PBT_EQ(rf != nullptr, x.type == "FIELD_ARRAY", "class of ", w);
        if (ef) { PBT_EQ(ef->enumId, x.enumId, w); PBT_CHECK(ef->enumDef == db.GetEnumDefId(x.enumId), "enumeration of ", w); }
        if (af) { PBT_EQ(af->arrayLength, x.arr, "array length of ", w); PBT_EQ(af->arrayLengthRef, x.ref, "length reference of ", w); PBT_EQ(unsigned(af->arrayLengthFieldSize), x.lenSize, "size of the length of ", w); }
        if (rf) { PBT_EQ(rf->fieldSize, x.size, "field size of ", w); checkFields(*rf->fieldInfo, x.sub, align, db, w); }
    }
}
static void checkDb(const ne::MessageDatabase& db, const X& x, const string& how)
{
    auto meta = db.GetDbMetadata(); PBT_EQ(meta != nullptr, x.meta, how, ": metadata");
    if (meta) { PBT_EQ(meta->subset, x.subset, how); PBT_EQ(meta->version, x.version, how); PBT_EQ(meta->messageFamily, x.family, how); }
    PBT_EQ(db.EnumDefinitions().size(), x.es.size(), how); PBT_EQ(db.MessageDefinitions().size(), x.ms.size(), how);
    for (size_t i = 0; i < x.es.size(); ++i)
    {
        auto& e = *db.EnumDefinitions()[i]; auto& w = x.es[i]; PBT_CHECK(e._id == w.id && e.name == w.name && e.enumerators.size() == w.vals.size(), how, ": enumeration ", i);
        uint32_t top = 0;
        for (size_t k = 0; k < w.vals.size(); ++k)
        {
            PBT_CHECK(e.enumerators[k].value == w.vals[k].v && e.enumerators[k].name == w.vals[k].n && e.enumerators[k].description == w.vals[k].d, how, ": enumerator ", k, " of ", w.name); top = std::max(top, w.vals[k].v);
            // among repeated names or values the last one counts
            auto byName = std::find_if(w.vals.rbegin(), w.vals.rend(), [&](auto& v) { return v.n == w.vals[k].n; }); PBT_EQ(e.nameValue.at(w.vals[k].n), byName->v, how, ": value of enumerator ", w.vals[k].n);
            auto byVal = std::find_if(w.vals.rbegin(), w.vals.rend(), [&](auto& v) { return v.v == w.vals[k].v; }); PBT_EQ(string(e.valueName.at(w.vals[k].v)), byVal->n, how, ": name of enumerator ", w.vals[k].v);
        }
        PBT_EQ(e.unknownValue, top + 1, how, ": placeholder value of ", w.name); PBT_CHECK(db.GetEnumDefId(w.id) == db.EnumDefinitions()[i], how, ": enumeration by id ", w.id); PBT_CHECK(db.GetEnumDefName(w.name) && db.GetEnumDefName(w.name)->name == w.name, how, ": enumeration by name ", w.name);
    }
    for (size_t i = 0; i < x.ms.size(); ++i)
    {
        auto& m = *db.MessageDefinitions()[i]; auto& w = x.ms[i]; string at = how + ": message " + w.name;
        PBT_CHECK(m._id == w.id && m.name == w.name && m.description == w.descr, at); PBT_EQ(m.logID, w.logId, at); PBT_EQ(m.latestMessageCrc, w.latest, at); PBT_EQ(m.fieldInfo.size(), w.defs.size(), at);
        for (auto& [crc, fs] : w.defs) { auto it = m.fieldInfo.find(crc); PBT_CHECK(it != m.fieldInfo.end(), at, " definition ", crc); checkFields(*it->second, fs, x.meta && x.family == "OEM", db, at); }
        PBT_CHECK(db.GetMsgDef(int32_t(w.logId)) == db.MessageDefinitions()[i], at, " by identifier"); PBT_CHECK(db.GetMsgDef(w.name) && db.GetMsgDef(w.name)->name == w.name, at, " by name");
    }
}
static string tmpName() { static int n = 0; return (std::filesystem::temp_directory_path() / ("c21_" + std::to_string(getpid()) + "_" + std::to_string(n++ % 4) + ".json")).string(); }
struct TmpFile
{
    string p = tmpName();
    explicit TmpFile(const string& t) { std::ofstream(p, std::ios::binary) << t; }
    ~TmpFile() { std::error_code e; std::filesystem::remove(p, e); }
};
static bool interesting(const X& x) { for (auto& m : x.ms) for (auto& [c, fs] : m.defs) for (auto& f : fs) if (f.type != "SIMPLE") return true; return false; }

PBT_GROUP(load, 25000, 1500000)
{
    X x; J root = mkDb(src, x); string t = ws(src); print(src, root, t); t += ws(src);
    ctx.feed(t); ctx.mark(interesting(x)); ctx.note(pbt::esc(t, 200)); if (x.meta && x.family == "OEM") ctx.label("OEM layout"); else ctx.label("unaligned layout");
    auto db = ne::ParseJsonDb(t); checkDb(*db, x, "from memory");
    if (src.chance(1, 8)) { ctx.label("file"); TmpFile f(t); checkDb(*ne::LoadJsonDbFile(f.p), x, "from a file"); }
    if (src.chance(1, 4))
    {   // loading is repeatable and definitions compare equal member by member
        auto again = ne::ParseJsonDb(t); for (size_t i = 0; i < x.ms.size(); ++i) PBT_CHECK(*db->MessageDefinitions()[i] == *again->MessageDefinitions()[i], "the same text gives different definitions");
    }
}
static bool rejected(const string& t, string& how)
{
    try { (void)ne::ParseJsonDb(t); how = "was accepted"; return false; }
    catch (const ne::JsonDbReaderFailure& e) { return true; }
    catch (const std::exception& e) { how = string("let another exception escape: ") + e.what(); return false; }
}
PBT_GROUP(prefix, 3000, 150000)
{
    X x; J root = mkDb(src, x); string t; print(src, root, t); if (t.size() > 3000) throw pbt::Discard{};
    size_t n = src.draw(t.size() - 1); ctx.mark(true); ctx.feed(t); ctx.feed(n); string how;
    for (size_t k : {n, t.size() - 1, n / 2}) PBT_CHECK(rejected(t.substr(0, k), how), "the first ", k, " of ", t.size(), " bytes of a database ", how, ": ", pbt::esc(t.substr(0, k), 300));
    if (src.chance(1, 8)) { TmpFile f(t.substr(0, n)); bool ok = false; try { (void)ne::LoadJsonDbFile(f.p); } catch (const ne::JsonDbReaderFailure&) { ok = true; } PBT_CHECK(ok, "a truncated database file was loaded"); ctx.label("file"); }
    if (src.chance(1, 50)) { bool ok = false; try { (void)ne::LoadJsonDbFile("/nonexistent/c21.json"); } catch (const ne::JsonDbReaderFailure&) { ok = true; } PBT_CHECK(ok, "a missing file was loaded"); }
}
// every place of the tree where a required member is missing or has the wrong type
struct Site { J* obj; size_t idx; string path; };
static void sites(J& fields, vector<std::pair<J*, string>>& out) // objects with their kind
{
    for (auto& f : fields.a) { out.push_back({&f, "field"}); for (auto& [k, v] : f.o) { if (k == "dataType") out.push_back({&v, "dataType"}); if (k == "fields") sites(v, out); } }
}
PBT_GROUP(mutate, 20000, 1000000)
{
    X x; J root = mkDb(src, x);
    vector<std::pair<J*, string>> objs{{&root, "root"}};
    for (auto& [k, v] : root.o)
    {
        if (k == "enums") for (auto& e : v.a) { objs.push_back({&e, "enum"}); for (auto& [k2, v2] : e.o) if (k2 == "enumerators") for (auto& y : v2.a) objs.push_back({&y, "enumerator"}); }
        if (k == "messages") for (auto& m : v.a) { objs.push_back({&m, "message"}); for (auto& [k2, v2] : m.o) if (k2 == "fields") for (auto& [c, d] : v2.o) sites(d, objs); }
    }
    auto [o, kind] = objs[src.draw(objs.size() - 1)];
    string ftype; for (auto& [k, v] : o->o) if (kind == "field" && k == "type") ftype = v.s;
    std::map<string, string> need; // member -> required type: s string, S string or null, u unsigned, U unsigned or null, a array, o object
    if (kind == "root") need = {{"enums", "a"}, {"messages", "a"}};
    else if (kind == "enum") need = {{"_id", "s"}, {"name", "s"}, {"enumerators", "a"}};
    else if (kind == "enumerator") need = {{"value", "u"}, {"name", "s"}, {"description", "S"}};
    else if (kind == "message") need = {{"_id", "s"}, {"messageID", "u"}, {"name", "s"}, {"description", "S"}, {"latestMsgDefCrc", "s"}, {"fields", "o"}};
    else if (kind == "dataType") need = {{"name", "s"}, {"length", "u"}, {"description", "S"}};
    else
    {
        need = {{"name", "s"}, {"type", "s"}, {"description", "S"}, {"dataType", "o"}};
        if (ftype == "ENUM") need["enumID"] = "s";
        else if (ftype != "SIMPLE") need["arrayLength"] = ftype == "FIELD_ARRAY" ? "U" : "u";
        if (ftype == "FIELD_ARRAY") need["fields"] = "a";
    }
    vector<string> keys; for (auto& [k, t] : need) keys.push_back(k);
    string key = src.pick(keys), t = need[key]; string what;
    auto member = std::find_if(o->o.begin(), o->o.end(), [&](auto& m) { return m.first == key; });
    PBT_CHECK(member != o->o.end(), "generator lost ", key);
    switch (src.draw(3))
    {
    case 0: o->o.erase(member); what = "without " + key; break;
    case 1:
    {   // a value of a type that this member cannot have
        vector<J> bad; bad.push_back(J::boo(true));
        if (t != "s" && t != "S") bad.push_back(J::str(src.pick<string>({"", "x", "5"}))); if (t != "u" && t != "U") bad.push_back(J::num(src.draw(9)));
        if (t != "S" && t != "U") bad.push_back(J()); if (t != "a") bad.push_back(J::arr()); if (t != "o") bad.push_back(J::obj());
        if (t == "u" || t == "U") { J j; j.t = J::NUM; j.s = src.pick<string>({"-1", "1.5", "-9000000000", "1e2", "2.0"}); bad.push_back(j); }
        member->second = bad[src.draw(bad.size() - 1)]; what = "with another type of " + key; break;
    }
    case 2: // unusable content
        if (key == "latestMsgDefCrc") { member->second = J::str(src.pick<string>({"", "abc", " ", "-", "99999999999999999999999"})); what = "with unusable " + key; }
        else if (kind == "field" && key == "type") { member->second = J::str(src.pick<string>({"", "SIMPL", "simple", "BITFIELD", "UNKNOWN", "RESPONSE_ID", "STRING2"})); what = "with unusable " + key; }
        else if (kind == "message" && key == "fields") { J bad = J::obj(); bad.add(src.pick<string>({"", "crc", "x12"}), J::arr()); member->second = bad; what = "with a definition that has no checksum"; }
        else if (kind == "field")
        {
            for (size_t i = 0; i < o->o.size(); ++i) if (o->o[i].first == "conversionString") { o->o.erase(o->o.begin() + long(i)); break; }
            o->add("conversionString", J::str(src.pick<string>({"", "d", "%", "%5", "%.3", "%5.2", "% d", "%d ", "%-5d", "%5.2.1f", "%99999999999999d", "%.99999999999d", "%d5"}))); what = "with an unusable conversion " + o->o.back().second.s;
        }
        else throw pbt::Discard{};
        break;
    default: // an element of an array of objects is not an object
    {
        J* arr = nullptr; for (auto& [k, v] : o->o) if (v.t == J::ARR && need.count(k)) arr = &v;
        if (!arr) throw pbt::Discard{};
        J bad = src.coin() ? J() : src.coin() ? J::num(3) : src.coin() ? J::arr() : J::str("x"); arr->a.insert(arr->a.begin() + long(src.draw(arr->a.size())), bad); what = "with an element that is not an object"; break;
    }
    }
    string txt; print(src, root, txt); ctx.mark(true); ctx.feed(txt); ctx.label(kind); ctx.label(what.substr(0, 24)); ctx.note(kind + " " + what); string how;
    PBT_CHECK(rejected(txt, how), "a database with a ", kind, " ", what, " ", how, ": ", pbt::esc(txt, 1500));
}
// arbitrary damage to the text: a load failure or a database, nothing else
PBT_GROUP(damage, 10000, 600000)
{
    X x; J root = mkDb(src, x); string t; print(src, root, t);
    for (size_t n = src.size(1, 4); n && !t.empty(); --n)
        switch (src.draw(4))
        {
        case 0: t[src.draw(t.size() - 1)] = char(src.byte()); break;
        case 1: t.erase(src.draw(t.size() - 1), src.size(1, 6)); break;
        case 2: t.insert(src.draw(t.size()), 1, src.pick({'{', '}', '[', ']', '"', ',', ':', '-', '\\', '9', '\0', '\xff'})); break;
        case 3: { size_t a = src.draw(t.size() - 1), k = src.size(1, 30); t.insert(src.draw(t.size()), t.substr(a, k)); break; }
        default: t += src.pick<string>({"}", "]", "x", ",", "{}", "null"}); break;
        }
    ctx.mark(true); ctx.feed(t);
    try { (void)ne::ParseJsonDb(t); ctx.label("loaded"); } catch (const ne::JsonDbReaderFailure&) { ctx.label("rejected"); } catch (const std::exception& e) { pbt::fail("damaged text let another exception escape: ", e.what(), ": ", pbt::esc(t, 1500)); }
}
