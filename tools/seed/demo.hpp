// Small helpers for the demonstrations; everything is computed independently of the library.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include "novatel_edie/common/crc.hpp"
#include "novatel_edie/common/fixed_buffer.hpp"
#include "novatel_edie/decoders/common/json_db_reader.hpp"
#include "novatel_edie/decoders/common/message_database.hpp"
#include "novatel_edie/decoders/common/framer_manager.hpp"
#include "novatel_edie/decoders/oem/commander.hpp"
#include "novatel_edie/decoders/oem/crc.hpp"
#include "novatel_edie/decoders/oem/encoder.hpp"
#include "novatel_edie/decoders/oem/file_parser.hpp"
#include "novatel_edie/decoders/oem/filter.hpp"
#include "novatel_edie/decoders/oem/framer.hpp"
#include "novatel_edie/decoders/oem/header_decoder.hpp"
#include "novatel_edie/decoders/oem/message_decoder.hpp"
#include "novatel_edie/decoders/oem/parser.hpp"
#include "novatel_edie/decoders/oem/rangecmp/channel_tracking_status.hpp"
#include "novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp"
#include "novatel_edie/decoders/oem/rxconfig/rxconfig_handler.hpp"
namespace ne = novatel::edie;
namespace oem = novatel::edie::oem;
using std::string;
using std::vector;
#define REQUIRE(c) do { if (!(c)) { std::printf("FAILED (line %d): %s\n", __LINE__, #c); std::fflush(stdout); std::_Exit(1); } } while (0)
inline string le(uint64_t v, int n) { string s; for (int i = 0; i < n; ++i) s += char(v >> (8 * i)); return s; }
template <class T> string raw(T v) { string s(sizeof v, 0); std::memcpy(&s[0], &v, sizeof v); return s; }
inline uint32_t crc(const string& s, uint32_t c = 0) { for (unsigned char x : s) { c ^= x; for (int i = 0; i < 8; ++i) c = (c & 1) ? (c >> 1) ^ 0xEDB88320u : c >> 1; } return c; }
inline string bin(unsigned id, const string& body, unsigned type = 0, unsigned defcrc = 0, unsigned port = 0x20, unsigned week = 2000, unsigned ms = 1000, unsigned status = 180)
{
    string m = string("\xAA\x44\x12\x1c", 4) + le(id, 2) + le(type, 1) + le(port, 1) + le(body.size(), 2) + le(0, 2) + le(0, 1) + le(status, 1) + le(week, 2) + le(ms, 4) + le(0, 4) + le(defcrc, 2) + le(0, 2) + body;
    return m + le(crc(m), 4);
}
inline string sbin(unsigned id, const string& body) { string m = string("\xAA\x44\x13", 3) + le(body.size(), 1) + le(id, 2) + le(2000, 2) + le(1000, 4) + body; return m + le(crc(m), 4); }
inline string asc(const string& s, char sync = '#') { char b[16]; std::snprintf(b, sizeof b, "*%08x\r\n", crc(s)); return sync + s + b; }
inline string nmea(const string& s) { unsigned x = 0; for (unsigned char c : s) x ^= c; char b[16]; std::snprintf(b, sizeof b, "*%02X\r\n", x); return "$" + s + b; }
struct Item { ne::STATUS st; string bytes; oem::MetaDataStruct meta; };
// feed the stream in pieces of n bytes, reading after each
inline vector<Item> frames(const string& s, size_t n = 1 << 20, bool json = false, uint32_t size = 32768)
{
    oem::Framer f; f.SetFrameJson(json); f.SetReportUnknownBytes(true); vector<Item> r; oem::MetaDataStruct m; std::unique_ptr<unsigned char[]> b(new unsigned char[size]);
    for (size_t i = 0; i < s.size(); i += n)
    {
        string p = s.substr(i, n); (void)!f.Write(reinterpret_cast<const unsigned char*>(p.data()), p.size());
        while (true) { ne::STATUS st = f.GetFrame(b.get(), size, m); if (st != ne::STATUS::SUCCESS && st != ne::STATUS::UNKNOWN) break; r.push_back({st, string((char*)b.get(), m.uiLength), m}); }
    }
    return r;
}
inline vector<string> messages(const vector<Item>& v) { vector<string> r; for (auto& i : v) if (i.st == ne::STATUS::SUCCESS) r.push_back(i.bytes); return r; }
inline ne::MessageDatabase::Ptr db(const string& messages, const string& enums = "")
{
    string base = R"([{"name":"Responses","_id":"r","enumerators":[{"value":1,"name":"OK","description":"OK"}]},{"name":"Commands","_id":"c","enumerators":[]},{"name":"PortAddress","_id":"p","enumerators":[{"value":0,"name":"NO_PORTS","description":""},{"value":32,"name":"COM1","description":""}]},{"name":"GPSTimeStatus","_id":"t","enumerators":[{"value":20,"name":"UNKNOWN","description":""},{"value":180,"name":"FINESTEERING","description":""}]})";
    return ne::ParseJsonDb("{\"meta\":{\"messageFamily\":\"OEM\"},\"enums\":" + base + (enums.empty() ? "" : "," + enums) + "],\"messages\":[" + messages + "]}");
}
inline string msg(const string& name, int id, const string& fields, unsigned crc = 1)
{ return "{\"name\":\"" + name + "\",\"description\":\"\",\"messageID\":" + std::to_string(id) + ",\"_id\":\"" + name + "\",\"latestMsgDefCrc\":\"" + std::to_string(crc) + "\",\"fields\":{\"" + std::to_string(crc) + "\":[" + fields + "]}}"; }
inline string fld(const string& name, const string& dt, int len, const string& conv, const string& type = "SIMPLE", const string& more = "")
{ return "{\"name\":\"" + name + "\",\"type\":\"" + type + "\",\"description\":\"\",\"conversionString\":" + (conv.empty() ? string("null") : "\"" + conv + "\"") + ",\"dataType\":{\"name\":\"" + dt + "\",\"length\":" + std::to_string(len) + ",\"description\":\"\"}" + more + "}"; }
struct Decoded { ne::STATUS st = ne::STATUS::FAILURE; oem::IntermediateHeader h; oem::MetaDataStruct m; ne::CompositeField body; };
inline Decoded decode(const ne::MessageDatabase::Ptr& d, const string& msg)
{
    Decoded r; oem::HeaderDecoder hd(d); oem::MessageDecoder md(d); auto* p = reinterpret_cast<const unsigned char*>(msg.c_str()); r.m.uiLength = uint32_t(msg.size());
    r.st = hd.Decode(p, r.h, r.m); if (r.st != ne::STATUS::SUCCESS) return r;
    r.st = md.Decode(p + r.m.uiHeaderLength, r.body, r.m); return r;
}
struct Encoded { ne::STATUS st; string all, header, body; };
inline Encoded encode(const ne::MessageDatabase::Ptr& d, Decoded& x, ne::ENCODE_FORMAT f, uint32_t size = 32768)
{
    oem::Encoder e(d); vector<unsigned char> b(size + 1); unsigned char* p = b.data(); ne::MessageDataStruct o; Encoded r;
    r.st = e.Encode(&p, size, x.h, x.body, o, x.m.eFormat, f); if (r.st != ne::STATUS::SUCCESS) return r;
    r.all.assign((char*)o.pucMessage, o.uiMessageLength); r.header.assign((char*)o.pucMessageHeader, o.uiMessageHeaderLength); r.body.assign((char*)o.pucMessageBody, o.uiMessageBodyLength); return r;
}
