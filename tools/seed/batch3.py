FR="src/decoders/oem/src/framer.cpp"; MD="src/decoders/common/src/message_decoder.cpp"; DBH="include/novatel_edie/decoders/common/message_database.hpp"; PA="src/decoders/oem/src/parser.cpp"; FI="src/decoders/oem/src/filter.cpp"; RD="src/decoders/oem/src/rangecmp/range_decompressor.cpp"; ST="python/novatel_edie_files/stubgen.py"
PY=r'''static string pyrun(const string& cmd) { string out; FILE* p = popen((cmd + " 2>&1").c_str(), "r"); char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, p)) > 0) out.append(b, n); pclose(p); return out; }
static string slurp(const string& f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
static string tmpdir() { char t[] = "/tmp/demopy.XXXXXX"; REQUIRE(mkdtemp(t)); return t; }
'''
SEEDS=[
dict(id="b27-signed-ulonglong", property="C27", sources="src/common/src src/decoders/common/src src/decoders/oem/src", edits=[("scripts/gen_flat_cpp_structs.py","    'ULONGLONG': 'uint64_t',","    'ULONGLONG': 'int64_t',")],
 demo=PY+r'''int main() { string d = tmpdir(); std::ofstream(d + "/db.json") << "{\"enums\":[],\"messages\":[" << msg("AA", 9, fld("x", "ULONGLONG", 8, "%llu") + "," + fld("y", "LONGLONG", 8, "%lld")) << "]}"; string o = pyrun("python3 scripts/gen_flat_cpp_structs.py " + d + "/db.json -al -o " + d + "/o.hpp"); string h = slurp(d + "/o.hpp"); std::ofstream(d + "/t.cpp") << "#include \"o.hpp\"\n#include <type_traits>\nusing namespace novatel::edie::oem; static_assert(std::is_unsigned<decltype(AA::x)>::value && std::is_signed<decltype(AA::y)>::value && sizeof(AA) == 16, \"\");\n"; int rc = std::system(("g++ -fsyntax-only -std=c++17 " + d + "/t.cpp").c_str()); std::filesystem::remove_all(d); std::printf("%s\n%s", o.c_str(), h.c_str()); REQUIRE(rc == 0); }''',
 needs="a message with an ULONGLONG field whose value exceeds the signed range", breaks="the generated structure has a signed member for an unsigned field"),
dict(id="b28-parser-rxconfig-database", property="C28", edits=[(PA,"        clMyRxConfigHandler.LoadJsonDb(pclMessageDb_);","        if (pclMyMessageDb == nullptr) { clMyRxConfigHandler.LoadJsonDb(pclMessageDb_); }")],
 demo=r'''int main() { string rx = "," + msg("RXCONFIG", 128, fld("msg", "UCHAR", 1, "%R", "VARIABLE_LENGTH_ARRAY", ",\"arrayLength\":30000")); auto d1 = db(msg("AA", 9, fld("x", "ULONG", 4, "%lu")) + rx), d2 = db(msg("AA", 9, fld("x", "USHORT", 2, "%hu") + "," + fld("y", "USHORT", 2, "%hu")) + rx);
 string in = bin(9, le(0x00050007, 4), 0, 1), core = in.substr(0, in.size() - 4); in = core + le(crc(core) ^ 0xFFFFFFFF, 4); string m = bin(128, in, 0, 1);
 auto run = [&](oem::Parser& p) { p.SetEncodeFormat(ne::ENCODE_FORMAT::ASCII); (void)!p.Write(reinterpret_cast<const unsigned char*>(m.data()), m.size()); ne::MessageDataStruct o; oem::MetaDataStruct md; REQUIRE(p.Read(o, md) == ne::STATUS::SUCCESS); return string((char*)o.pucMessage, o.uiMessageLength); };
 oem::Parser a(d1), b(d2); run(a); a.LoadJsonDb(d2); REQUIRE(run(a) == run(b)); }''',
 needs="a parser which is given a second database and then reads an RXCONFIG message", breaks="the embedded message is still read with the first database"),
dict(id="b29-static-header", property="C29", edits=[(PA,"        IntermediateHeader stHeader;\n        CompositeField stMessage;\n        STATUS eStatus = ReadIntermediate(stMessageData_, stHeader,","        static IntermediateHeader stHeader;\n        CompositeField stMessage;\n        STATUS eStatus = ReadIntermediate(stMessageData_, stHeader,")],
 demo=r'''#include <atomic>
#include <thread>
int main() { auto d = db(msg("AA", 9, fld("x", "ULONG", 4, "%lu"))); std::atomic<bool> ok{true}; auto work = [&](unsigned week) { auto one = [&](oem::Parser& p) { string m = bin(9, le(week, 4), 0, 1, 0x20, week); (void)!p.Write(reinterpret_cast<const unsigned char*>(m.data()), m.size()); ne::MessageDataStruct o; oem::MetaDataStruct md; return p.Read(o, md) == ne::STATUS::SUCCESS ? string((char*)o.pucMessage, o.uiMessageLength) : string(); };
 oem::Parser p(d); p.SetEncodeFormat(ne::ENCODE_FORMAT::ASCII); char w[16]; std::snprintf(w, sizeof w, ",%u,1.000,", week); for (int i = 0; i < 30000 && ok; ++i) { if (one(p).find(w) == string::npos) ok = false; } };
 vector<std::thread> t; for (unsigned w : {1000u, 2000u, 3000u, 4000u}) t.emplace_back(work, w); for (auto& x : t) x.join(); REQUIRE(ok.load()); }''',
 needs="two parsers used by two threads at the same time", breaks="a message is written with the header another thread just read"),
dict(id="b30-array-count-size-equality", property="C30", edits=[(DBH,"        return arrayLength == o.arrayLength && arrayLengthRef == o.arrayLengthRef && arrayLengthFieldSize == o.arrayLengthFieldSize;","        return arrayLength == o.arrayLength && arrayLengthRef == o.arrayLengthRef;")],
 demo=r'''int main() { auto mk = [](const string& n) { return db(msg("AA", 9, fld("x", "ULONG", 4, "%lu", "VARIABLE_LENGTH_ARRAY", ",\"arrayLength\":5" + n)))->GetMsgDef("AA"); }; auto a = mk(""), b = mk(",\"arrayLengthFieldSize\":2"), c = mk(",\"arrayLengthFieldSize\":4"); REQUIRE(*a == *c); REQUIRE(!(*a == *b)); }''',
 needs="two definitions which differ only in the size of an array's count", breaks="definitions with different layouts compare equal"),
dict(id="b31-nested-alias", property="C31", edits=[(ST,"                subfield_hints.append(self._convert_field_array_def(field, name, aliases))\n\n        # Create alias hints","                subfield_hints.append(self._convert_field_array_def(field, name, parent_aliases))\n\n        # Create alias hints")],
 demo=PY+r'''int main() { string in = fld("b", "ULONG", 4, "", "FIELD_ARRAY", ",\"arrayLength\":4,\"fields\":[" + fld("z", "ULONG", 4, "%lu") + "]"), f = fld("a", "ULONG", 4, "", "FIELD_ARRAY", ",\"arrayLength\":4,\"fields\":[" + in + "]"); string d = tmpdir(); std::ofstream(d + "/db.json") << "{\"enums\":[],\"messages\":[" << msg("AA", 9, f, 77) << "]}";
 std::ofstream(d + "/r.py") << "import sys,types,typing,json,importlib.util\nsys.dont_write_bytecode=True\nt=types.ModuleType('typer'); t.Argument=lambda *a,**k:None; t.Option=lambda *a,**k:None; t.run=lambda f:None\ne=types.ModuleType('typing_extensions'); e.Annotated=typing.Annotated\nsys.modules['typer']=t; sys.modules['typing_extensions']=e\nsp=importlib.util.spec_from_file_location('stubgen','python/novatel_edie_files/stubgen.py'); M=importlib.util.module_from_spec(sp); sp.loader.exec_module(M)\ng=M.StubGenerator(sys.argv[1])\nprint(g.get_message_stubs())\n";
 string o = pyrun("python3 " + d + "/r.py " + d + "/db.json"); std::filesystem::remove_all(d); std::printf("%s\n", o.c_str()); REQUIRE(o.find("AA_a_Field = ") != string::npos); REQUIRE(o.find("AA_a_Field_b_Field = ") != string::npos); }''',
 needs="field arrays nested in field arrays of the latest definition", breaks="the alias of the inner element has the wrong name"),
dict(id="b32-secondary-rangecmp5", property="C17", edits=[(PA,"        clMyRangeCmpFilter.IncludeMessageId(RANGECMP5_MSG_ID, HEADER_FORMAT::ALL, static_cast<uint8_t>(MEASUREMENT_SOURCE::SECONDARY));","        clMyRangeCmpFilter.IncludeMessageId(RANGECMP5_MSG_ID, HEADER_FORMAT::BINARY, static_cast<uint8_t>(MEASUREMENT_SOURCE::SECONDARY));")],
 demo=r'''int main() { string obs = fld("p", "USHORT", 2, "%hu") + "," + fld("f", "USHORT", 2, "%hu") + "," + fld("q", "HEXBYTE", 1, "%Z", "FIXED_LENGTH_ARRAY", ",\"arrayLength\":40"); auto d = db(msg("RANGECMP5", 2537, fld("x", "UCHAR", 1, "%Z", "VARIABLE_LENGTH_ARRAY", ",\"arrayLength\":3000")) + "," + msg("RANGE", 43, fld("n", "ULONG", 4, "%lu", "VARIABLE_LENGTH_ARRAY", ",\"arrayLength\":11")));
 for (unsigned sib : {0u, 1u}) for (string m : {bin(2537, le(4, 4) + string(4, 0), sib, 1), asc("RANGECMP5A" + string(sib ? "_1" : "") + ",COM1,0,90.0,FINESTEERING,2000,1.000,00000000,0001,0;4,00000000")}) { oem::Parser p(d); p.SetDecompressRangeCmp(true); p.SetEncodeFormat(ne::ENCODE_FORMAT::BINARY); (void)!p.Write(reinterpret_cast<const unsigned char*>(m.data()), m.size()); ne::MessageDataStruct o; oem::MetaDataStruct md; auto st = p.Read(o, md); std::printf("%d %d\n", (int)st, (int)md.usMessageId); REQUIRE(st == ne::STATUS::SUCCESS && md.usMessageId == 43); } }''',
 needs="a RANGECMP5 message of the secondary antenna in a text format", breaks="it is passed on compressed"),
dict(id="b33-empty-row-enum", property="C21", edits=[(DBH,"                if (!fieldArrayField || fieldArrayField->fieldInfo->messageOrderedFields.empty()) { continue; }","                if (!fieldArrayField || fieldArrayField->fieldInfo->messageOrderedFields.empty()) { return; }")],
 demo=r"""int main() { string e = "{\"name\":\"E\",\"_id\":\"e1\",\"enumerators\":[{\"value\":1,\"name\":\"ONE\",\"description\":\"\"}]}", f = fld("x", "ENUM", 4, "", "ENUM", ",\"enumID\":\"e1\""), r = fld("r", "ULONG", 4, "", "FIELD_ARRAY", ",\"arrayLength\":4,\"fields\":[]"); auto d = db(msg("BB", 10, r + "," + f), e); auto en = std::dynamic_pointer_cast<const ne::EnumField>(d->GetMsgDef("BB")->fieldInfo.at(1)->messageOrderedFields[1]); REQUIRE(en && en->enumDef && en->enumDef == d->GetEnumDefId("e1")); }""",
 needs="a field array without fields before an enumeration field", breaks="the enumeration field has no enumeration"),
dict(id="b34-filter-vector-duplicates", property="C16", edits=[(FI,"    for (const auto& name : vNames_) { PushUnique(vMyMessageNameFilters, name); }","    vMyMessageNameFilters.insert(vMyMessageNameFilters.end(), vNames_.begin(), vNames_.end());")],
 demo=r'''int main() { oem::Filter f; std::vector<std::tuple<string, ne::HEADER_FORMAT, uint8_t>> v = {{"AA", ne::HEADER_FORMAT::ALL, 0}, {"BB", ne::HEADER_FORMAT::ALL, 0}}; f.IncludeMessageName("AA"); f.IncludeMessageName(v); f.RemoveMessageName("AA", ne::HEADER_FORMAT::ALL, 0); oem::MetaDataStruct m; m.eFormat = ne::HEADER_FORMAT::BINARY; m.messageName = "AA"; REQUIRE(!f.DoFiltering(m)); m.messageName = "BB"; REQUIRE(f.DoFiltering(m)); }''',
 needs="a name included twice, once in a list, and then removed", breaks="the removed name still passes"),
dict(id="b35-differential-doppler", property="C23", edits=[(RD,"    stDiffBlock_.bValidPhr = iPhr != SIG_DBLK_INVALID_PHR;","    stDiffBlock_.bValidPhr = iPhr != SIG_DBLK_INVALID_PHR && stRefBlock_.bValidPsr;")],
 demo=r'''struct Bits { string s; unsigned n = 0; void put(uint64_t v, unsigned k) { for (unsigned i = 0; i < k; ++i) { if (n % 8 == 0) s += char(0); if ((v >> i) & 1) s.back() |= char(1 << (n % 8)); ++n; } } };
static double adr(oem::RangeDecompressor& r, string body, unsigned ms) { body = le(body.size(), 4) + body; string m = bin(2050, body, 0, 0, 0x20, 2000, ms); vector<unsigned char> b(40000); std::memcpy(b.data(), m.data(), m.size()); oem::MetaDataStruct md; md.uiLength = uint32_t(m.size()); auto st = r.Decompress(b.data(), 40000, md, ne::ENCODE_FORMAT::BINARY); std::printf("st %d\n", (int)st); REQUIRE(st == ne::STATUS::SUCCESS); double f; std::memcpy(&f, b.data() + 28 + 4 + 4 + 8 + 4, 8); return f; }
int main() { auto d = db(msg("RANGECMP4", 2050, fld("x", "ULONG", 4, "%lu")) + "," + msg("RANGE", 43, fld("n", "UCHAR", 1, "%d", "FIXED_LENGTH_ARRAY", ",\"arrayLength\":48"))); for (bool valid : {true, false}) { oem::RangeDecompressor r(d);
 auto head = [](Bits& b, bool diff) { b.put(1, 16); b.put(1, 64); b.put(2, 16); b.put(1, 1); b.put(diff, 1); b.put(3, 3); b.put(1, 1); b.put(0, 1); b.put(800, 11); b.put(3, 4); b.put(2, 4); b.put(2, 4); };
 Bits a; head(a, false); a.put(valid ? 40000000000ull : (1ull << 37) - 1, 37); a.put(12, 23); a.put(100, 26); a.put(0, 64); REQUIRE(adr(r, a.s, 1000) == adr(r, a.s, 1000));
 Bits c; head(c, true); c.put(5, 19); c.put(6, 16); c.put(7, 18); c.put(0, 64); double x = adr(r, c.s, 1500); std::printf("%f\n", x); REQUIRE(x == x); } }''',
 needs="a differential block against a reference block without a pseudorange", breaks="a valid carrier phase is reported as missing"),
]
