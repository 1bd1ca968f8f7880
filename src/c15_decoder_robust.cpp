// C15: messages that framing accepts, with arbitrary contents, decode to a status without crashing, throwing or reading outside the message.
// LIBS: common dcommon oem
#include "casegen.hpp"
#include "frames.hpp"
#include "novatel_edie/decoders/oem/framer.hpp"
using namespace model;
PBT_PROPERTY("C15", "reference messages of random definitions with mutated, truncated, extended or entirely random contents, re-sealed (length, checksum, terminator) so that the real framer accepts them, decoded from an exactly sized heap buffer under the address sanitizer and, when "
                    "decoded, encoded to every format; truncated binary messages are compared with a model of where the message ends; non-trivial = the framer accepted the message and its contents differ from a valid one")
static string sealBinary(string m, bool shortForm)
{
    if (shortForm) { if (m.size() < 12) m.resize(12, '\0'); size_t n = std::min<size_t>(m.size() - 12, 255); m.resize(12 + n); m[0] = '\xAA'; m[1] = '\x44'; m[2] = '\x13'; m[3] = char(n); }
    else { if (m.size() < 28) m.resize(28, '\0'); m[0] = '\xAA'; m[1] = '\x44'; m[2] = '\x12'; m[3] = 28; size_t n = m.size() - 28; m[8] = char(n); m[9] = char(n >> 8); }
    put(m, crc32ref(m), 4); return m;
}
static string mutateBytes(pbt::Src& s, string m, size_t from)
{
    size_t k = s.size(1, 6);
    for (size_t i = 0; i < k; ++i)
    {
        size_t n = m.size() > from ? m.size() - from : 0;
        switch (s.weighted({5, 3, 3, 2, 2}))
        {
        case 0: if (n) m[from + s.draw(n - 1)] = char(s.byte()); break;
        case 1: if (n) m.resize(from + s.draw(n - 1)); break;
        case 2: m += s.bytes(s.size(1, 40)); break;
        case 3: if (n) { size_t at = from + s.draw(n - 1); static const unsigned char kv[] = {0xFF, 0x7F, 0x80, 0x00, 0x01}; size_t w = s.pick({1, 2, 4}); unsigned char v = kv[s.draw(4)]; for (size_t q = at; q < std::min(m.size(), at + w); ++q) m[q] = char(v); } break;
        default: if (n) { size_t at = from + s.draw(n - 1), len = s.draw(std::min<size_t>(8, m.size() - at)); m.erase(at, len); }
        }
    }
    return m;
}
static string mutateText(pbt::Src& s, string m, size_t from)
{
    static const vector<string> tok = {"4294967295", "-1", "1e999", "nan", "inf", "-inf", "18446744073709551616", "99999999999999999999999", "0x10", "", " ", "\"", "\"\"", ",", ";", "<", "[", "]", "{", "}", "\\x", "\\", "\\xZ", "TRUE", "null", "true", "1.5", "UNKNOWN", "00000000000000000000001", "\xff", ",,,,", "\\\\x4", "1-", "1+", "+", "-", "5-99999", "2", "3", "200", "{\"a\":1}", "[]", "[[]]", "\"\\u0041\"", "1e-400", ":", "#A", "BESTPOSA", "_1"};
    size_t k = s.size(1, 5);
    for (size_t i = 0; i < k; ++i)
    {
        size_t n = m.size() > from ? m.size() - from : 0; size_t at = from + (n ? s.draw(n - 1) : 0);
        auto edge = [&](size_t p, bool fwd) { auto isd = [](char c) { return c == ',' || c == ' ' || c == ';' || c == '\n' || c == '[' || c == ']' || c == ':' || c == '{' || c == '}'; }; if (fwd) while (p < m.size() && !isd(m[p])) ++p; else while (p > from && !isd(m[p - 1])) --p; return p; };
        switch (s.weighted({4, 3, 2, 4, 2, 2}))
        {
        case 0: if (n) m[at] = s.pick({',', ';', '"', '<', '>', '{', '}', '[', ']', ':', '-', ' ', '+', '.', 'e', '0', '9', 'A', 'b', '\\', 'x', '\t', '\x01', '_'}); break;
        case 1: m.insert(std::min(at, m.size()), tok[s.draw(tok.size() - 1)]); break;
        case 2: if (n) m.erase(at, s.size(1, 12)); break;
        case 3: if (n) { size_t b = edge(at, false), e = edge(at, true); m.replace(b, e - b, tok[s.draw(tok.size() - 1)]); } break; // a whole token
        case 4: if (n) { string part = m.substr(at, s.size(1, 20)); m.insert(at, part); } break;
        default: if (n) m.resize(at);
        }
    }
    return m;
}
static void strip(string& m, const char* bad) { string o; for (char c : m) if (!strchr(bad, c) || !c) o += c; m = o; }
// the real framer accepts exactly this message
static bool framed(const string& m, bool json, oem::MetaDataStruct& md)
{
    oem::Framer f; f.SetFrameJson(json); f.Write(reinterpret_cast<const unsigned char*>(m.data()), m.size()); vector<unsigned char> buf(0x10000);
    for (int i = 0; i < 4; ++i)
    {
        auto st = f.GetFrame(buf.data(), uint32_t(buf.size()), md);
        if (st == ne::STATUS::SUCCESS) return md.uiLength == m.size();
        if (st != ne::STATUS::INCOMPLETE || !json) return false;
    }
    return false;
}
static const ne::ENCODE_FORMAT kFormats[] = {ne::ENCODE_FORMAT::ASCII, ne::ENCODE_FORMAT::ABBREV_ASCII, ne::ENCODE_FORMAT::BINARY, ne::ENCODE_FORMAT::FLATTENED_BINARY, ne::ENCODE_FORMAT::JSON};
static void decodeAny(const Db& d, const string& m, oem::MetaDataStruct md, pbt::Ctx& ctx)
{
    oem::HeaderDecoder hd(d.db); oem::MessageDecoder dec(d.db); Exact buf(m); Hdr h; ne::CompositeField cf; ne::STATUS st;
    try { st = hd.Decode(buf.data(), h, md); } catch (const std::exception& e) { pbt::fail("the header decoder threw ", e.what(), " for ", pbt::esc(m.substr(0, 300))); }
    if (st != ne::STATUS::SUCCESS) { ctx.label("header refused"); return; }
    PBT_CHECK(md.uiHeaderLength <= m.size(), "the header is reported to be longer than the message ", pbt::esc(m.substr(0, 300)));
    try { st = dec.Decode(buf.data() + md.uiHeaderLength, cf, md); } catch (const std::exception& e) { pbt::fail("the message decoder threw ", e.what(), " for ", pbt::esc(m.substr(0, 400))); }
    if (st != ne::STATUS::SUCCESS) { ctx.label("body refused"); return; }
    ctx.label("decoded");
    oem::Encoder enc(d.db);
    for (auto ef : kFormats) encode(enc, h, cf, md.eFormat, ef, 300000);
}
PBT_GROUP(binary, 20000, 500000)
{
    Case c; Opt o; o.maxFields = 6; genCase(src, c, o); bool sf = c.shortForm; size_t hl = sf ? 12 : 28; string m = c.msg.substr(0, c.msg.size() - 4);
    switch (src.weighted({6, 2, 1})) { case 0: m = mutateBytes(src, m, hl); break; case 1: m = mutateBytes(src, m, src.pick({size_t(4), size_t(6), hl - 4})); break; default: m = m.substr(0, hl) + src.bytes(src.size(0, 200)); }
    m = sealBinary(m, sf); ctx.feed(m); ctx.note(defText(*c.fs) + " " + pbt::hex(m, 100)); oem::MetaDataStruct md; if (!framed(m, false, md)) throw pbt::Discard{};
    ctx.mark(m != c.msg); decodeAny(c.d, m, md, ctx);
}
PBT_GROUP(ascii, 18000, 400000)
{
    Case c; Opt o; o.text = true; o.maxFields = 6; genCase(src, c, o); string t = refTextMsg(c.d, c.h, *c.fs, c.b, T::ASCII, c.shortForm), orig = t; t.resize(t.rfind('*')); size_t semi = t.find(';');
    t = mutateText(src, t, src.weighted({5, 1}) ? 1 : semi + 1); strip(t, "*\r\n"); string m = t + num("*%08x\r\n", crc32ref(t.substr(1)));
    ctx.feed(m); ctx.note(defText(*c.fs) + " " + pbt::esc(m.substr(0, 120))); oem::MetaDataStruct md; if (!framed(m, false, md)) throw pbt::Discard{}; ctx.mark(m != orig); decodeAny(c.d, m, md, ctx);
}
PBT_GROUP(abbreviated, 14000, 300000)
{
    Case c; Opt o; o.text = true; o.maxFields = 6; genCase(src, c, o); string t = refTextMsg(c.d, c.h, *c.fs, c.b, T::ABB, c.shortForm), orig = t; size_t eol = t.find('\n');
    t = mutateText(src, t.substr(0, t.size() - 2), src.weighted({5, 1}) ? 1 : eol + 1); strip(t, src.coin() ? "\r" : "");
    string m; for (size_t i = 0; i < t.size(); ++i) { if (t[i] == '\n' && (!i || t[i - 1] != '\r')) m += '\r'; m += t[i]; }
    m += "\r\n"; string fed = m + "XXXXXXXXXXXXXXXX\r\n"; ctx.feed(m); ctx.note(defText(*c.fs) + " " + pbt::esc(m.substr(0, 120)));
    // an abbreviated message ends where the next line does not continue it
    oem::Framer f; f.Write(reinterpret_cast<const unsigned char*>(fed.data()), fed.size()); vector<unsigned char> buf(0x10000); oem::MetaDataStruct md; auto st = f.GetFrame(buf.data(), uint32_t(buf.size()), md);
    if (st != ne::STATUS::SUCCESS) throw pbt::Discard{};
    m.assign(reinterpret_cast<char*>(buf.data()), md.uiLength); ctx.mark(m != orig); decodeAny(c.d, m, md, ctx);
}
// replace whole JSON values by other well-formed ones
static string mutateJson(pbt::Src& s, string t, size_t from)
{
    static const vector<string> val = {"0", "-1", "4294967295", "4294967296", "18446744073709551615", "-9223372036854775808", "1.5", "-0", "1e308", "1e-320", "\"\"", "\"a\"", "\"TRUE\"", "\"-5\"", "\"1+\"", "\"\\u0041\"", "\"\\n\"", "\"012345678901234567890123456789\"", "\"11111111\"", "\"2\"", "true", "false", "null", "[]", "[1,2,3,4,5,6,7,8,9,10,11,12]", "[[1]]", "[\"a\"]", "[1,\"a\"]", "{}", "{\"f0\": 1}", "[{}]", "[{},{},{},{},{},{},{}]", "[{\"f0_1\": 1}]", "[null]"};
    size_t k = s.size(1, 3);
    for (size_t i = 0; i < k; ++i)
    {
        vector<size_t> colons; for (size_t q = from; q + 2 < t.size(); ++q) if (t[q] == '"' && t[q + 1] == ':') colons.push_back(q + 2);
        if (colons.empty()) break;
        size_t b = s.pick(colons); while (b < t.size() && t[b] == ' ') ++b; size_t e = b; int depth = 0; bool q = false;
        for (; e < t.size(); ++e)
        {
            char c = t[e]; if (q) { if (c == '\\') ++e; else if (c == '"') q = false; continue; }
            if (c == '"') q = true; else if (c == '[' || c == '{') ++depth; else if (c == ']' || c == '}') { if (!depth) break; --depth; } else if (c == ',' && !depth) break;
        }
        // an array or string with more or fewer elements of its own kind is the value the field's own decoding path has to bound
        string v = t.substr(b, e - b), r; size_t more = s.chance(1, 5) ? s.size(20, 300) : s.size(1, 8);
        if (v.size() > 2 && v[0] == '[' && s.coin())
        {
            string in = v.substr(1, v.size() - 2); size_t cut = in.size(); bool str = false; depth = 0; vector<size_t> commas;
            for (size_t z = 0; z < in.size(); ++z) { char c = in[z]; if (str) { if (c == '\\') ++z; else if (c == '"') str = false; continue; } if (c == '"') str = true; else if (c == '[' || c == '{') ++depth; else if (c == ']' || c == '}') --depth; else if (c == ',' && !depth) commas.push_back(z); }
            if (!commas.empty()) cut = s.pick(commas);
            if (s.chance(1, 4)) r = "[" + in.substr(0, cut) + "]"; else { r = "[" + in; string el = in.substr(0, commas.empty() ? in.size() : commas[0]); for (size_t z = 0; z < more; ++z) r += "," + el; r += "]"; }
        }
        else if (v.size() > 1 && v[0] == '"' && s.chance(1, 3)) r = v.substr(0, v.size() - 1) + string(more, s.pick({'a', '1', '0', ' '})) + "\"";
        else r = s.pick(val);
        t.replace(b, e - b, r);
    }
    return t;
}
PBT_GROUP(json, 24000, 400000)
{
    Case c; Opt o; o.text = o.json = true; o.maxFields = 6; genCase(src, c, o); string t = refTextMsg(c.d, c.h, *c.fs, c.b, T::JSON, c.shortForm), orig = t; size_t body = t.find(",\"body\"");
    if (src.chance(3, 4)) t = mutateJson(src, t, src.chance(1, 6) ? 1 : body + 2); else { t = mutateText(src, t, src.weighted({4, 1}) ? 1 : body + 9); if (src.coin() && !t.empty()) t.back() = '}'; }
    ctx.feed(t); ctx.note(defText(*c.fs) + " " + pbt::esc(t.substr(0, 120))); oem::MetaDataStruct md;
    if (!framed(t, true, md)) { if (src.chance(1, 4) && t.size() > 2) { md = oem::MetaDataStruct(); md.eFormat = ne::HEADER_FORMAT::JSON; md.uiLength = uint32_t(t.size()); if (t[0] != '{') throw pbt::Discard{}; } else throw pbt::Discard{}; }
    ctx.mark(t != orig); decodeAny(c.d, t, md, ctx);
}
PBT_GROUP(response, 4000, 60000)
{
    Opt o; o.maxFields = 2; Db d = genDb(src, o, 1); HdrOpt ho; Hdr h = genHdr(src, d, d.msgs[0], ho); h.ucMessageType |= 0x80; string m; oem::MetaDataStruct md;
    if (src.coin()) { m = sealBinary(refBinHeader(h, 0, false) + src.bytes(src.size(0, 30)), false); }
    else { m = refTextHeader(d, h, T::ASCII, false) + mutateText(src, "ERROR:something", 0); strip(m, "*\r\n"); m += num("*%08x\r\n", crc32ref(m.substr(1))); }
    ctx.feed(m); if (!framed(m, false, md)) throw pbt::Discard{}; ctx.mark(true); decodeAny(d, m, md, ctx);
}
// a binary message cut short: the fields before the end have their values, those after it are empty, a field that is cut makes the message malformed
PBT_GROUP(truncated, 10000, 200000)
{
    Case c; Opt o; o.maxFields = 6; o.composite = false; genCase(src, c, o); bool sf = c.shortForm; size_t hl = sf ? 12 : 28, full = c.msg.size() - hl - 4, cut = src.draw(full); if (cut == full) throw pbt::Discard{};
    string m = sealBinary(c.msg.substr(0, hl + cut), sf); ctx.feed(m); ctx.mark(true); ctx.note(defText(*c.fs) + " cut to " + std::to_string(cut) + " of " + std::to_string(full));
    // where each field starts (after its alignment gap) and ends
    bool cutInside = false, partText = false; size_t keep = 0, at = 0;
    for (auto& f : *c.fs)
    {
        size_t a = std::min(4u, f.len); at = (at + a - 1) / a * a; if (at >= cut) break;
        string upTo; Fields fs(c.fs->begin(), c.fs->begin() + keep + 1); Body b(c.b.begin(), c.b.begin() + keep + 1); refBinary(upTo, fs, b, false); size_t end = upTo.size();
        if (f.kind == K::STR) { size_t z = at + c.b[keep].s.size() + 1; if (cut < z) { partText = true; break; } if (cut < end) { at = end; ++keep; break; } } // only its padding is missing
        else if (end > cut) { cutInside = true; break; }
        at = end; ++keep;
    }
    oem::HeaderDecoder hd(c.d.db); oem::MessageDecoder dec(c.d.db); Exact buf(m); oem::MetaDataStruct md; md.uiLength = uint32_t(m.size()); Hdr h; PBT_EQ(int(hd.Decode(buf.data(), h, md)), 0, "header");
    ne::CompositeField cf; auto st = dec.Decode(buf.data() + md.uiHeaderLength, cf, md);
    if (partText && st == ne::STATUS::MALFORMED_INPUT) return; // either is sound: the text ends with the message
    PBT_EQ(int(st), int(cutInside ? ne::STATUS::MALFORMED_INPUT : ne::STATUS::SUCCESS), "status of a message cut to ", cut, " of ", full, " bytes, after ", keep, " whole fields of ", defText(*c.fs));
    if (cutInside) return;
    Body want(c.b.begin(), c.b.begin() + keep), rest = emptyBody(*c.fs); want.insert(want.end(), rest.begin() + keep, rest.end()); if (partText) want[keep].s = c.b[keep].s.substr(0, cut - at);
    string x = diff(*c.fs, want, extract(cf, *c.fs, *cf.GetFieldInfo())); PBT_CHECK(x.empty(), "message cut to ", cut, " of ", full, " bytes (expected vs decoded) ", x, " ", defText(*c.fs));
}
// a textual message cut short after a whole field: the fields before the end have their values, those after it are empty, and the checksum is no field
PBT_GROUP(truncated_text, 10000, 200000)
{
    Case c; Opt o; o.text = true; o.maxFields = 6; genCase(src, c, o); if (!plainFloats(*c.fs, c.b, false) || c.fs->size() < 2) throw pbt::Discard{};
    size_t keep = src.size(1, c.fs->size() - 1); Fields fs(c.fs->begin(), c.fs->begin() + long(keep)); Body b(c.b.begin(), c.b.begin() + long(keep));
    string m = refTextMsg(c.d, c.h, fs, b, T::ASCII, c.shortForm); ctx.feed(m); ctx.mark(true); ctx.note(defText(*c.fs)); ctx.label(string("cut after ") + kindName(fs.back().kind));
    oem::HeaderDecoder hd(c.d.db); oem::MessageDecoder dec(c.d.db); Exact buf(m); oem::MetaDataStruct md; md.eFormat = c.shortForm ? ne::HEADER_FORMAT::SHORT_ASCII : ne::HEADER_FORMAT::ASCII; md.uiLength = uint32_t(m.size()); Hdr h; PBT_EQ(int(hd.Decode(buf.data(), h, md)), 0, "header");
    ne::CompositeField cf; auto st = dec.Decode(buf.data() + md.uiHeaderLength, cf, md); PBT_EQ(int(st), int(ne::STATUS::SUCCESS), "status of \"", pbt::esc(m), "\" cut after ", keep, " fields of ", defText(*c.fs));
    Body want = shown(fs, b), rest = emptyBody(*c.fs); want.insert(want.end(), rest.begin() + long(keep), rest.end());
    string x = diff(*c.fs, want, extract(cf, *c.fs, *cf.GetFieldInfo())); PBT_CHECK(x.empty(), "message \"", pbt::esc(m), "\" cut after ", keep, " fields (expected vs decoded) ", x, " ", defText(*c.fs));
}
// a textual message whose last field announces more elements than the message has: the checksum and the terminator are no elements
PBT_GROUP(count_beyond_text, 10000, 200000)
{
    Case c; Opt o; o.text = true; o.maxFields = 5; genCase(src, c, o); if (!plainFloats(*c.fs, c.b, false)) throw pbt::Discard{};
    vector<size_t> cand; for (size_t k = 0; k < c.fs->size(); ++k) if ((*c.fs)[k].kind == K::VAR || (*c.fs)[k].kind == K::ROWS) cand.push_back(k);
    if (cand.empty()) throw pbt::Discard{}; size_t k = src.pick(cand); auto& f = (*c.fs)[k]; size_t n = f.kind == K::ROWS ? c.b[k].rows.size() : c.b[k].e.size(); char how = f.conv.empty() ? ' ' : f.conv.back(); if (n >= f.arr || !f.lenRef.empty() || (f.kind == K::VAR && (how == 's' || how == 'S' || how == 'P'))) throw pbt::Discard{}; // characters in quotes may be fewer
    auto bodyOf = [&](size_t keep) { Fields fs(c.fs->begin(), c.fs->begin() + long(keep)); Body b(c.b.begin(), c.b.begin() + long(keep)); string t = refTextMsg(c.d, c.h, fs, b, T::ASCII, c.shortForm); size_t a = t.find(';'), z = t.rfind('*'); return t.substr(a + 1, z - a - 1); };
    string all = refTextMsg(c.d, c.h, *c.fs, c.b, T::ASCII, c.shortForm), body = bodyOf(k + 1); size_t at = k ? bodyOf(k).size() + 1 : 0; string cnt = std::to_string(n); PBT_CHECK(body.compare(at, cnt.size(), cnt) == 0, "count not found");
    string m = all.substr(0, all.find(';') + 1) + body.substr(0, at) + std::to_string(src.range(n + 1, f.arr)) + body.substr(at + cnt.size()); m += num("*%08x\r\n", crc32ref(m.substr(1)));
    ctx.feed(m); ctx.mark(true); ctx.note(defText(*c.fs)); ctx.label(string("last is ") + kindName(f.kind) + (n ? "" : " with no element"));
    oem::HeaderDecoder hd(c.d.db); oem::MessageDecoder dec(c.d.db); Exact buf(m); oem::MetaDataStruct md; md.eFormat = c.shortForm ? ne::HEADER_FORMAT::SHORT_ASCII : ne::HEADER_FORMAT::ASCII; md.uiLength = uint32_t(m.size()); Hdr h; PBT_EQ(int(hd.Decode(buf.data(), h, md)), 0, "header");
    ne::CompositeField cf; auto st = dec.Decode(buf.data() + md.uiHeaderLength, cf, md); PBT_EQ(int(st), int(ne::STATUS::MALFORMED_INPUT), "status of \"", pbt::esc(m), "\" with ", n, " elements in field ", k, " of ", defText(*c.fs));
}
