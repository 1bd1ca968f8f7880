// C31: the type stubs generated for a database declare exactly its enumerations, messages and fields.
// GUIDED: 0
// LIBS: common dcommon oem
#include "casegen.hpp"
#include <filesystem>
#include <fstream>
#include <unistd.h>
using namespace model;
PBT_PROPERTY("C31", "random message databases given to the stub generator (all field types, nested field arrays, several definitions per message, enumerators named with digits, blanks and punctuation, conversions absent or null); the written files are parsed as Python and every class, member, property, type, constructor argument and alias is compared with the database; "
                    "non-trivial = a database with a nested field array, an enumerator whose name is no identifier or a message with two definitions")
namespace {
string run(const string& cmd, int& rc) { string o; FILE* p = popen((cmd + " 2>&1").c_str(), "r"); PBT_CHECK(p, "popen"); char b[4096]; while (size_t n = fread(b, 1, sizeof b, p)) o.append(b, n); rc = pclose(p); return o; }
struct Dir { string path; Dir() : path(pbt::scratch() + "/stub." + std::to_string(getpid())) { std::filesystem::remove_all(path); std::filesystem::create_directories(path); } ~Dir() { std::error_code ec; std::filesystem::remove_all(path, ec); } };
bool rows(const Fields& fs) { for (auto& f : fs) if (f.kind == K::ROWS) return true; return false; }
string clean(const string& s) { string o; for (char c : s) o += isalnum(static_cast<unsigned char>(c)) ? c : '_'; return isdigit(static_cast<unsigned char>(o[0])) ? "_" + o : o; }
} // namespace
PBT_GROUP(stubs, 1000, 30000)
{
    const char* env = getenv("VERIF_REPO"); Dir dir; string cmd; bool nt = false; size_t n = src.size(1, 4);
    for (size_t i = 0; i < n; ++i)
    {
        Opt o; o.maxFields = 6; o.text = src.coin(); o.json = src.coin(); o.anyEnum = true; Db d = genDb(src, o, src.size(1, 4));
        for (auto& e : d.enums)
        {
            std::set<string> seen{"EDIE_UNKNOWN"}; auto vals = e.vals; e.vals.clear();
            for (auto& [v, name] : vals)
            {
                string q = name;
                if (src.chance(1, 2)) { static const char odd[] = " -+/.()#'&:,*<>=!?[]%@_9"; for (size_t k = 0, m = src.size(1, 3); k < m; ++k) q.insert(src.draw(q.size()), 1, odd[src.draw(sizeof odd - 2)]); if (q.find_first_of("\"\\") != string::npos) q = name; }
                if (src.chance(1, 8)) q = "7" + q; if (!seen.insert(clean(q)).second || clean(q) == "_") continue;
                if (q != clean(q)) { nt = true; ctx.label("enumerator that is no identifier"); } e.vals.push_back({v, q});
            }
        }
        for (auto& m : d.msgs) { if (m.defs.size() > 1) { nt = true; ctx.label("two definitions"); } for (auto& [c, fs] : m.defs) if (rows(fs)) { nt = true; ctx.label("field array"); } }
        string j = d.json(); ctx.feed(j);
        if (src.chance(1, 3)) { const string nul = "\"conversionString\":null,"; for (size_t at = 0; (at = j.find(nul, at)) != string::npos;) if (src.coin()) { j.erase(at, nul.size()); ctx.label("no conversion"); } else at += nul.size(); }
        string f = dir.path + "/db" + std::to_string(i) + ".json"; std::ofstream(f) << j; cmd += " '" + f + "'";
    }
    ctx.mark(nt);
    string tool = __FILE__; tool = tool.substr(0, tool.rfind("/src/")) + "/tools/stub_oracle.py";
    int rc; string log = run("python3 -W ignore '" + tool + "' '" + (env ? env : "/repo") + "'" + cmd, rc); PBT_CHECK(rc == 0, rc == 3 << 8 ? "the stubs differ from the database: " : "the generator fails: ", log.substr(log.size() > 1500 ? log.size() - 1500 : 0));
}
