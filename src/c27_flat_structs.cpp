// C27: the structures that scripts/gen_flat_cpp_structs.py generates have the layout of the flattened binary form.
// GUIDED: 0
// LIBS: common dcommon oem
#include "casegen.hpp"
#include "flatlayout.hpp"
#include <filesystem>
#include <fstream>
#include <unistd.h>
using namespace model;
PBT_PROPERTY("C27", "databases of 30 random message definitions given to the generator script (all types, nested field arrays, counts of each size or in an earlier field, several definitions per message); the generated header is compiled, the offset, size, extent and kind of every member is "
                    "taken from the compiler and a random flattened body written by the encoder is read back through them; non-trivial = a definition with an array, a string or padding")
namespace {
struct Member { bool count = false; size_t countOff = 0, countSize = 0, off = 0, size = 0, elem = 0; char kind = '?'; };
struct Struct { size_t size = 0; vector<Member> m; };
using Structs = std::map<string, Struct>;
void dumpCode(string& o, const string& name, const Fields& fs)
{
    o += "{ using S = " + name + "; printf(\"S " + name + " %zu\\n\", sizeof(S));\n";
    for (auto& f : fs)
    {
        const bool cnt = (f.kind == K::VAR || f.kind == K::ROWS) && f.lenRef.empty();
        if (cnt) o += "printf(\"C %zu %zu\\n\", offsetof(S, " + f.name + "_arraylength), sizeof(S::" + f.name + "_arraylength)); static_assert(std::is_unsigned<decltype(S::" + f.name + "_arraylength)>::value, \"count\");\n";
        o += "{ using T = decltype(S::" + f.name + "); using E = std::remove_extent<T>::type; printf(\"F %zu %zu %zu %c\\n\", offsetof(S, " + f.name + "), sizeof(T), sizeof(E), std::is_floating_point<E>::value ? 'f' : std::is_class<E>::value ? 's' : std::is_signed<E>::value ? 'i' : 'u'); }\n";
    }
    o += "}\n"; for (auto& f : fs) if (f.kind == K::ROWS) dumpCode(o, name + "_" + f.name, f.sub);
}
// a structure has one size for all elements and cannot end inside its padding
bool expressible(const Fields& fs, size_t limit)
{
    Layout L = layoutOf(fs);
    for (size_t i = 0; i < fs.size(); ++i)
    {
        auto& f = fs[i]; if (f.kind != K::ROWS) continue;
        const size_t n = layoutOf(f.sub).size, step = allFixed(f.sub) ? n : alignUp(n, f.len), end = L.data[i] + f.arr * step, next = i + 1 < fs.size() ? L.off[i + 1] : limit;
        if (end > next || !expressible(f.sub, step)) return false;
    }
    return true;
}
string run(const string& cmd, int& rc) { string o; FILE* p = popen((cmd + " 2>&1").c_str(), "r"); PBT_CHECK(p, "popen"); char b[4096]; while (size_t n = fread(b, 1, sizeof b, p)) o.append(b, n); rc = pclose(p); return o; }
struct Dir { string path; Dir() : path(pbt::scratch() + "/flat." + std::to_string(getpid())) { std::filesystem::remove_all(path); std::filesystem::create_directories(path); } ~Dir() { std::error_code ec; std::filesystem::remove_all(path, ec); } };
uint64_t rd(const string& s, size_t at, size_t n) { PBT_CHECK(at + n <= s.size(), "the structure reaches beyond the message: ", at, "+", n, " of ", s.size()); uint64_t v = 0; for (size_t i = 0; i < n; ++i) v |= uint64_t(uint8_t(s[at + i])) << (8 * i); return v; }
void readThrough(const Structs& all, const string& name, const string& s, size_t base, const Fields& fs, const Body& b)
{
    const Struct& st = all.at(name);
    for (size_t i = 0; i < fs.size(); ++i)
    {
        auto& f = fs[i]; auto& v = b[i]; auto& m = st.m.at(i); string where = name + "." + f.name + " (" + kindName(f.kind) + " " + f.dt + "/" + std::to_string(f.len) + ")"; size_t n = m.elem ? m.size / m.elem : 0;
        if (m.count) PBT_EQ(rd(s, base + m.countOff, m.countSize), f.kind == K::ROWS ? v.rows.size() : v.e.size(), "element count of ", where);
        const bool fl = f.dt == "FLOAT" || f.dt == "DOUBLE", sg = f.dt == "INT" || f.dt == "SHORT" || f.dt == "LONG" || f.dt == "LONGLONG";
        switch (f.kind)
        {
        case K::STR: { PBT_EQ(m.elem, size_t(1), "character size of ", where); PBT_CHECK(n > v.s.size(), where, " holds ", n, " characters"); string t; for (size_t k = 0; k < n; ++k) t += char(rd(s, base + m.off + k, 1)); PBT_EQ(pbt::esc(t), pbt::esc(v.s + string(n - v.s.size(), '\0')), "characters of ", where); break; }
        case K::ROWS: PBT_EQ(n, size_t(f.arr), "elements of ", where); PBT_EQ(int(m.kind), int('s'), "kind of ", where); for (size_t k = 0; k < v.rows.size(); ++k) readThrough(all, name + "_" + f.name, s, base + m.off + k * m.elem, f.sub, v.rows[k]); break;
        default:
            PBT_EQ(m.elem, size_t(f.len), "element size of ", where); PBT_EQ(n, size_t(f.kind == K::SIMPLE || f.kind == K::ENUM ? 1 : f.arr), "elements of ", where);
            PBT_CHECK((m.kind == 'f') == fl, "kind ", m.kind, " of ", where); if (!fl && f.dt != "CHAR" && f.dt != "BOOL" && !(f.kind == K::ENUM && f.len == 4)) PBT_CHECK((m.kind == 'i') == (sg && f.kind != K::ENUM), "signedness ", m.kind, " of ", where);
            for (size_t k = 0; k < n; ++k) PBT_EQ(rd(s, base + m.off + k * f.len, f.len), k < v.e.size() ? v.e[k] : 0, "element ", k, " of ", where);
        }
    }
}
} // namespace
PBT_GROUP(layout, 640, 6000)
{
    const char* env = getenv("VERIF_REPO"); const string script = string(env ? env : "/repo") + "/scripts/gen_flat_cpp_structs.py"; Opt o; o.maxFields = 6; o.maxArr = 6; Db d; bool nt = false; Dir dir; size_t messages = 30;
    for (size_t tries = 0; d.msgs.size() < messages && tries < 4; ++tries) { Db x = genDb(src, o, messages); d = x; }
    { std::ofstream f(dir.path + "/db.json"); f << d.json(); }
    int rc; string log = run("cd '" + dir.path + "' && python3 -W ignore '" + script + "' db.json --all-logs", rc); PBT_CHECK(rc == 0, "the script fails: ", log.substr(0, 2000));
    string hpp; { std::ifstream f(dir.path + "/novatel_message_definitions.hpp"); std::stringstream q; q << f.rdbuf(); hpp = q.str(); }
    string code; vector<const Msg*> have;
    for (auto& m : d.msgs)
    {
        const Fields* fs = nullptr; for (auto& [k, f] : m.defs) if (k == m.latest) fs = &f;
        if (!expressible(*fs, layoutOf(*fs).size)) { ctx.label("cannot be a structure"); continue; }
        have.push_back(&m); dumpCode(code, m.name, *fs); nt |= !allFixed(*fs); for (auto& f : *fs) ctx.label(kindName(f.kind));
    }
    { std::ofstream f(dir.path + "/dump.cpp"); f << "#include \"novatel_message_definitions.hpp\"\n#include <cstddef>\n#include <cstdio>\n#include <type_traits>\nusing namespace novatel::edie::oem;\nint main() {\n" << code << "}\n"; }
    ctx.feed(hpp); ctx.mark(nt); ctx.note(d.msgs[0].name + " " + defText(d.msgs[0].defs[0].second));
    string err = run("cd '" + dir.path + "' && g++ -std=c++17 -w -O0 -o dump dump.cpp", rc); PBT_CHECK(rc == 0, "the generated header or the use of its members does not compile: ", err.substr(0, 2500));
    string out = run("'" + dir.path + "/dump'", rc); PBT_CHECK(rc == 0, "dump"); Structs all; Struct* cur = nullptr; std::istringstream in(out); string t; Member next;
    while (in >> t)
    {
        if (t == "S") { string n; in >> n; cur = &all[n]; cur->m.clear(); in >> cur->size; next = Member(); }
        else if (t == "C") { next.count = true; in >> next.countOff >> next.countSize; }
        else { in >> next.off >> next.size >> next.elem >> next.kind; cur->m.push_back(next); next = Member(); }
    }
    for (auto* m : have)
    {
        const Fields* fs = nullptr; for (auto& [k, f] : m->defs) if (k == m->latest) fs = &f;
        Body b = genBody(src, *fs, o, d); HdrOpt ho; Hdr h = genHdr(src, d, *m, ho); uint32_t crc = m->latest; h.uiMessageDefinitionCrc = hdrCrcFor(src, *m, crc); if (crc != m->latest) continue;
        if (layoutOf(*fs).size > 60000) continue; // does not fit in a message
        string msg = refBinMsg(h, *fs, b, false, false); oem::HeaderDecoder hd(d.db); oem::MessageDecoder dec(d.db); oem::Encoder enc(d.db); Exact e(msg); oem::MetaDataStruct md; md.uiLength = uint32_t(msg.size()); Hdr g; ne::CompositeField cf;
        PBT_EQ(int(hd.Decode(e.data(), g, md)), 0, "header"); PBT_EQ(int(dec.Decode(e.data() + md.uiHeaderLength, cf, md)), 0, "body");
        auto r = encode(enc, g, cf, md.eFormat, ne::ENCODE_FORMAT::FLATTENED_BINARY, 70000); PBT_EQ(int(r.st), 0, "flattening"); string body = r.body.substr(0, r.body.size() - 4);
        PBT_EQ(all.at(m->name).size, body.size(), "size of structure ", m->name, " and of the flattened body of ", defText(*fs)); readThrough(all, m->name, body, 0, *fs, b);
    }
}
