LG="include/novatel_edie/common/logger.hpp"; PA="src/decoders/oem/src/parser.cpp"; HD="src/decoders/oem/src/header_decoder.cpp"
H=r'''#include <filesystem>
#include <fstream>
#include "novatel_edie/common/logger.hpp"
static string slurp(const string& f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
static string tmpdir() { char t[] = "/tmp/demolog.XXXXXX"; REQUIRE(mkdtemp(t)); return t; }
'''
SEEDS=[
dict(id="b36-new-logger-level", property="C32", edits=[(LG,"                pclLogger->set_level(rootLogger->level());","                pclLogger->set_level(spdlog::level::info);")],
 demo=H+r'''int main() { string d = tmpdir(); auto* m = GetLoggerManager(); m->RegisterLogger("first"); m->SetLoggingLevel(spdlog::level::debug); auto l = m->RegisterLogger("second"); m->AddRotatingFileLogger(l, spdlog::level::trace, d + "/a.log"); l->debug("hello"); m->Shutdown(); string t = slurp(d + "/a.log"); std::filesystem::remove_all(d); REQUIRE(t.find("hello") != string::npos); }''',
 needs="a logger registered after the logging level was changed", breaks="its records below the default level are lost"),
dict(id="b37-console-level-frozen", property="C32", edits=[(LG,"        pclConsoleSink->set_level(eLevel_);","        pclConsoleSink->set_level(std::max(eLevel_, lgr->level()));")],
 demo=H+r'''#include <unistd.h>
int main() { string d = tmpdir(); REQUIRE(freopen((d + "/out").c_str(), "w", stdout)); auto* m = GetLoggerManager(); auto l = m->RegisterLogger("first"); m->AddConsoleLogging(l, spdlog::level::debug); l->set_level(spdlog::level::debug); l->debug("hello"); m->Shutdown(); fflush(stdout); string t = slurp(d + "/out"); std::filesystem::remove_all(d); REQUIRE(("\n" + t).find("\nhello\n") != string::npos); }''',
 needs="a console with a lower level than the logger's, whose level is lowered afterwards", breaks="the records do not reach the console"),
dict(id="b38-header-decoder-log-level", property="C32", edits=[(PA,"    clMyHeaderDecoder.SetLoggerLevel(eLevel_);\n","    if (clMyHeaderDecoder.GetLogger()->level() > eLevel_) { clMyHeaderDecoder.SetLoggerLevel(eLevel_); }\n")],
 demo=H+r'''int main() { string d = tmpdir(); auto dbx = db(msg("AA", 9, fld("x", "ULONG", 4, "%lu"))); oem::Parser p(dbx); REQUIRE(freopen("/dev/null", "w", stdout)); p.EnableFramerDecoderLogging(spdlog::level::err, d + "/a.log"); auto l = spdlog::get("novatel_header_decoder"); REQUIRE(l); l->warn("hello"); REQUIRE(l->level() == spdlog::level::err); GetLoggerManager()->Shutdown(); std::filesystem::remove_all(d); }''',
 needs="framer and decoder logging enabled with a level above the present one", breaks="the header decoder keeps logging below that level"),
dict(id="b39-idle-above-100", property="C09", edits=[(HD,"        stInterHeader_.ucIdleTime = static_cast<uint8_t>(std::lround(2.0F * fIdleTime));","        stInterHeader_.ucIdleTime = static_cast<uint8_t>(std::lround(2.0F * std::min(fIdleTime, 100.0F)));")],
 demo=r'''int main() { auto d = db(msg("AA", 9, fld("x", "ULONG", 4, "%lu"))); auto r = decode(d, asc("AAA,COM1,0,127.5,FINESTEERING,2000,1.000,00000000,0000,0;7")); REQUIRE(r.h.ucIdleTime == 255); r = decode(d, asc("AAA,COM1,0,90.5,FINESTEERING,2000,1.000,00000000,0000,0;7")); REQUIRE(r.h.ucIdleTime == 181); }''',
 needs="a textual header with an idle time above 100", breaks="the header field differs from the transmitted one"),
dict(id="b40-static-json-parser", property="C29", edits=[(HD,"    simdjson::dom::parser parser;\n    simdjson::dom::element doc;","    static simdjson::dom::parser parser;\n    simdjson::dom::element doc;")],
 flags="-fsanitize=thread",
 demo=r'''#include <atomic>
#include <thread>
int main() { auto d = db(msg("AA", 9, fld("x", "ULONG", 4, "%lu"))); std::atomic<bool> ok{true}; auto work = [&](int week) { oem::HeaderDecoder h(d); string s = "{\"header\": {\"message\": \"AA\",\"id\": 9,\"port\": \"COM1\",\"sequence_num\": 0,\"percent_idle_time\": 1.0,\"time_status\": \"UNKNOWN\",\"week\": " + std::to_string(week) + ",\"seconds\": 1.000,\"receiver_status\": 0,\"HEADER_reserved1\": 0,\"receiver_sw_version\": 0},\"body\": {\"x\": 1}}"; for (int i = 0; i < 3000 && ok; ++i) { oem::IntermediateHeader ih; oem::MetaDataStruct m; m.uiLength = uint32_t(s.size()); auto st = h.Decode(reinterpret_cast<const unsigned char*>(s.c_str()), ih, m); if (st != ne::STATUS::SUCCESS || ih.usWeek != week) ok = false; } };
 vector<std::thread> t; for (int w : {1000, 2000, 3000, 4000}) t.emplace_back(work, w); for (auto& x : t) x.join(); REQUIRE(ok.load()); }''',
 needs="JSON headers decoded by two threads at the same time", breaks="the decoders share one parser"),
]
