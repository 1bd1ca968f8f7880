// Independent generators and validators for raw message frames (no repository code is used to build or judge them).
#pragma once
#include "pbt.hpp"
#include "novatel_edie/decoders/oem/common.hpp"
#include "novatel_edie/decoders/oem/framer.hpp"
#include <memory>

namespace fr {
using novatel::edie::STATUS;
using novatel::edie::HEADER_FORMAT;
using novatel::edie::oem::MetaDataStruct;
constexpr size_t MAXMSG = 0x8000;

inline uint32_t crc32(const std::string& s, size_t from, size_t to)
{
    uint32_t c = 0;
    for (size_t i = from; i < to; ++i) { c ^= static_cast<uint8_t>(s[i]); for (int k = 0; k < 8; ++k) c = (c & 1) ? (c >> 1) ^ 0xEDB88320u : c >> 1; }
    return c;
}
inline void put(std::string& s, uint64_t v, int n) { for (int i = 0; i < n; ++i) s += static_cast<char>(v >> (8 * i)); }
inline uint32_t get(const std::string& s, size_t p, int n) { uint32_t v = 0; for (int i = 0; i < n; ++i) v |= static_cast<uint32_t>(static_cast<uint8_t>(s[p + i])) << (8 * i); return v; }

enum Kind { BIN, SBIN, PROP, ASC, SASC, ABB, RESP, NMEA, JSON };
inline const char* kindName(int k) { static const char* n[] = {"binary", "short-binary", "proprietary", "ascii", "short-ascii", "abb-ascii", "response", "nmea", "json"}; return n[k]; }
inline HEADER_FORMAT fmtOf(Kind k)
{
    switch (k)
    {
    case BIN: return HEADER_FORMAT::BINARY; case SBIN: return HEADER_FORMAT::SHORT_BINARY; case PROP: return HEADER_FORMAT::PROPRIETARY_BINARY;
    case ASC: return HEADER_FORMAT::ASCII; case SASC: return HEADER_FORMAT::SHORT_ASCII; case ABB: case RESP: return HEADER_FORMAT::ABB_ASCII;
    case NMEA: return HEADER_FORMAT::NMEA; default: return HEADER_FORMAT::JSON;
    }
}
struct Frame { Kind kind; std::string bytes, payload; };

inline std::string crcHex(uint32_t c, bool upper = false) { char b[12]; std::snprintf(b, sizeof b, upper ? "%08X" : "%08x", c); return b; }

// 7-bit text; star: '*' allowed anywhere as long as it does not look like a CRC trailer
inline std::string text(pbt::Src& s, size_t n, bool star)
{
    static const std::string plain = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnop0123456789,.-;\" #$%{}<";
    std::string o;
    const bool wild = s.chance(1, 4);
    for (size_t i = 0; i < n; ++i)
    {
        uint64_t r = s.draw(999);
        if (star && r > 985) o += '*';
        else if (wild && r > 900) { char c = static_cast<char>(r % 128); o += (c == '*' && !star) ? 'x' : c; }
        else o += plain[r % plain.size()];
    }
    return o;
}
// no "*XXXXXXXX\r\n" inside
inline void noTrailer(std::string& b)
{
    for (size_t i = 0; i + 10 < b.size(); ++i) if (b[i] == '*' && b[i + 9] == '\r' && b[i + 10] == '\n') b[i] = '+';
}
inline std::string binary(pbt::Src& s, size_t payload, bool prop, const std::string* body = nullptr)
{
    std::string f = prop ? "\xAA\x45\x12" : "\xAA\x44\x12";
    f += static_cast<char>(28);
    put(f, s.bits(16), 2); put(f, s.byte(), 1); put(f, s.byte(), 1);
    put(f, payload, 2);
    f += s.bytes(18);
    f += body ? *body : s.bytes(payload);
    put(f, crc32(f, 0, f.size()), 4);
    return f;
}
inline std::string shortBinary(pbt::Src& s, size_t payload, const std::string* body = nullptr)
{
    std::string f = "\xAA\x44\x13"; put(f, payload, 1); put(f, s.bits(16), 2); put(f, s.bits(16), 2); put(f, s.bits(32), 4);
    f += body ? *body : s.bytes(payload);
    put(f, crc32(f, 0, f.size()), 4);
    return f;
}
// a frame of kind k; big: allow sizes up to the maximum message size
inline Frame frame(pbt::Src& s, Kind k, bool big = false)
{
    Frame f; f.kind = k;
    auto len = [&](size_t small, size_t max) -> size_t {
        if (big && s.chance(1, 3)) return s.coin() ? s.size(0, max) : max - s.size(0, std::min<size_t>(max, 3));
        return s.size(0, std::min(small, max)); };
    switch (k)
    {
    case BIN: case PROP: { size_t n = len(80, MAXMSG - 32); f.bytes = binary(s, n, k == PROP); f.payload = f.bytes.substr(28, n); break; }
    case SBIN: { size_t n = len(80, 255); f.bytes = shortBinary(s, n); f.payload = f.bytes.substr(12, n); break; }
    case ASC: case SASC: {
        size_t n = 1 + len(120, MAXMSG - 13);
        std::string b = text(s, n, true);
        if (k == ASC && n > 60 && s.chance(1, 6)) b.replace(20, 9, "*" + crcHex(s.bits(32))); // embedded CRC as in RXCONFIG
        if (k == ASC && n > 60 && s.chance(1, 6)) { b.resize(n - 9); b += "*" + crcHex(s.bits(32)); } // embedded CRC right before the outer one
        noTrailer(b);
        // the text in front of the real delimiter must not form a trailer together with it
        std::string full = (k == ASC ? "#" : "%") + b; const std::string crc = crcHex(crc32(full, 1, full.size()), s.chance(1, 8));
        std::string all = full + "*" + crc + "\r\n"; size_t L = full.size();
        for (size_t i = L > 10 ? L - 10 : 0; i < L; ++i) if (all[i] == '*' && i + 10 < all.size() && all[i + 9] == '\r' && all[i + 10] == '\n') { return frame(s, k, false); }
        // one framer treats "*XXXXXXXX*" as an embedded CRC whatever follows: keep the outer trailer unambiguous
        f.bytes = all; break;
    }
    case ABB: {
        std::string o = "<"; o += static_cast<char>('A' + s.draw(25));
        auto line = [&](size_t n) { std::string t = text(s, n, true); for (auto& c : t) if (c == '\r' || c == '\n') c = '_'; return t; };
        o += s.pick<std::string>({"NAME", "ESTPOS", "X", ""}) + " " + line(s.size(0, 60));
        if (o.compare(1, 2, "OK") == 0 || o.compare(1, 5, "ERROR") == 0) o[1] = 'B';
        o += "\r\n";
        size_t lines = s.size(1, 4); size_t room = (big && s.chance(1, 3)) ? (s.coin() ? MAXMSG - o.size() : s.size(40, MAXMSG - o.size())) : 300;
        std::string body;
        for (size_t i = 0; i < lines; ++i)
        {
            size_t left = room > body.size() + 4 ? room - body.size() - 4 : 0;
            if (i && left < 10) break;
            size_t n = i + 1 == lines && room > 1000 ? left : s.size(0, std::min<size_t>(left, 60));
            body += "< " + line(n) + "\r\n";
        }
        o += body; f.bytes = o; break;
    }
    case RESP: {
        std::string t = text(s, len(40, MAXMSG - 9), true); for (auto& c : t) if (c == '\r' || c == '\n') c = '_';
        f.bytes = (s.coin() ? std::string("<OK") : "<ERROR:" + t) + "\r\n"; break;
    }
    case NMEA: {
        size_t n = 6 + s.size(0, s.chance(1, 3) ? 244 : 60); std::string t = text(s, n, false); for (auto& c : t) if (c == '\n') c = '_';
        uint8_t x = 0; for (char c : t) x ^= static_cast<uint8_t>(c);
        char b[8]; std::snprintf(b, sizeof b, s.chance(1, 8) ? "*%02x\r\n" : "*%02X\r\n", x); f.bytes = "$" + t + b; break;
    }
    default: {
        std::function<std::string(int)> obj = [&](int d) {
            std::string o = "{"; size_t m = s.size(0, 3);
            for (size_t i = 0; i < m; ++i) { o += "\"k" + std::to_string(i) + "\": "; o += d < 3 && s.chance(1, 3) ? obj(d + 1) : "\"" + s.alnum(s.size(0, 8)) + "\""; if (i + 1 < m) o += ","; }
            return o + "}"; };
        f.bytes = obj(0); break;
    }
    }
    return f;
}
// bytes that cannot begin a message of any format and cannot continue an abbreviated-ASCII one; hi: with non-ASCII bytes
inline std::string inert(pbt::Src& s, size_t n, bool hi = true)
{
    static const std::string a = "abcdefghijklmnopqrstuvwxyz0123456789 ,;*\r\n}:=D\x12\x13\x45";
    std::string o;
    for (size_t i = 0; i < n; ++i)
    {
        uint64_t r = s.draw(299);
        if (hi && r > 230) { char c = static_cast<char>(128 + (r - 231) * 127 / 69); o += (static_cast<uint8_t>(c) == 0xAA) ? '\xAB' : c; }
        else o += a[r % a.size()];
    }
    return o;
}
// is `b` a frame of format `f`, judged only from the bytes?  Returns an empty string or the reason why not.
// lax: the single-format framers do not look at the character set of the text
inline std::string invalid(const std::string& b, HEADER_FORMAT f, bool response, bool lax = false)
{
    const size_t n = b.size();
    auto hexv = [](const std::string& t, uint32_t& v) { v = 0; for (char c : t) { int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; if (d < 0) return false; v = v * 16 + d; } return true; };
    if (n > MAXMSG && f != HEADER_FORMAT::JSON) return "longer than the maximum message size: " + std::to_string(n);
    uint32_t v = 0;
    switch (f)
    {
    case HEADER_FORMAT::BINARY: case HEADER_FORMAT::PROPRIETARY_BINARY:
        if (n < 32 || b[0] != '\xAA' || b[1] != (f == HEADER_FORMAT::BINARY ? '\x44' : '\x45') || b[2] != '\x12') return "sync";
        if (n != 32 + get(b, 8, 2)) return "length";
        if (crc32(b, 0, n - 4) != get(b, n - 4, 4)) return "crc";
        break;
    case HEADER_FORMAT::SHORT_BINARY:
        if (n < 16 || b[0] != '\xAA' || (b[1] != '\x44' && b[1] != '\x45') || b[2] != '\x13') return "sync";
        if (n != 16u + static_cast<uint8_t>(b[3])) return "length";
        if (crc32(b, 0, n - 4) != get(b, n - 4, 4)) return "crc";
        break;
    case HEADER_FORMAT::ASCII: case HEADER_FORMAT::SHORT_ASCII:
        if (n < 12 || b[0] != (f == HEADER_FORMAT::ASCII ? '#' : '%')) return "sync";
        if (b.compare(n - 2, 2, "\r\n") != 0 || b[n - 11] != '*') return "terminator";
        if (!hexv(b.substr(n - 10, 8), v)) return "checksum text";
        if (crc32(b, 1, n - 11) != v) return "crc";
        if (!lax) for (char c : b) if (c & 0x80) return "non-ASCII byte";
        break;
    case HEADER_FORMAT::NMEA: {
        size_t st = b.find('*');
        if (n < 5 || b[0] != '$' || b[n - 1] != '\n' || st == std::string::npos || st + 5 != n) return "shape";
        if (!hexv(b.substr(n - 4, 2), v)) return "checksum text";
        uint8_t x = 0; for (size_t i = 1; i < st; ++i) x ^= static_cast<uint8_t>(b[i]);
        if (x != v) return "checksum";
        break;
    }
    case HEADER_FORMAT::ABB_ASCII: {
        if (n < 4 || b[0] != '<' || (!lax && !std::isalpha(static_cast<unsigned char>(b[1]))) || b.compare(n - 2, 2, "\r\n") != 0) return "shape";
        const bool r = b.compare(1, 2, "OK") == 0 || b.compare(1, 5, "ERROR") == 0;
        if (r != response) return "response flag";
        size_t lines = 0;
        for (size_t i = 0; i + 3 < n; ++i) if (b[i] == '\r' && b[i + 1] == '\n') { ++lines; if (r || b[i + 2] != '<' || b[i + 3] != ' ') return "line structure"; }
        if (!r && lines == 0) return "no body line";
        break;
    }
    case HEADER_FORMAT::JSON: {
        int d = 0; if (b[0] != '{') return "sync";
        for (size_t i = 0; i < n; ++i) { d += b[i] == '{' ? 1 : b[i] == '}' ? -1 : 0; if (d == 0 && i + 1 != n) return "braces close early"; }
        if (d) return "braces"; break;
    }
    default: return "unknown format reported as a frame";
    }
    if (response && f != HEADER_FORMAT::ABB_ASCII) return "response flag";
    return "";
}
// a stream rich in syncs, truncations and mutations
inline std::string wildStream(pbt::Src& s, size_t segs, bool json, std::string* desc = nullptr)
{
    std::string o;
    for (size_t i = 0; i < segs; ++i)
    {
        switch (s.weighted({4, 3, 3, 3, 2, 1, 1}))
        {
        case 0: { Kind k = static_cast<Kind>(s.draw(json ? 8 : 7)); o += frame(s, k).bytes; if (desc) *desc += std::string(kindName(k)) + " "; break; }
        case 1: { auto b = frame(s, static_cast<Kind>(s.draw(json ? 8 : 7))).bytes; o += b.substr(0, s.size(0, b.size())); if (desc) *desc += "truncated "; break; }
        case 2: {
            auto b = frame(s, static_cast<Kind>(s.draw(json ? 8 : 7))).bytes; size_t k = s.size(1, 3);
            for (size_t j = 0; j < k; ++j) { size_t p = s.size(0, b.size() - 1); switch (s.draw(3)) { case 0: b[p] = static_cast<char>(b[p] ^ (1 << s.draw(7))); break; case 1: b[p] = static_cast<char>(s.byte()); break; case 2: b.erase(p, 1); if (b.empty()) b = "x"; break; default: b.insert(p, 1, s.pick<char>({'*', '\r', '\n', '#', '<', '\xAA', '{', '}', '$'})); } }
            o += b; if (desc) *desc += "mutated "; break;
        }
        case 3: o += s.pick<std::string>({"\xAA", "\xAA\x44", "\xAA\x44\x12", "\xAA\x44\x13", "\xAA\x45", "\xAA\x45\x12", "\xAA\x45\x13", "#", "%", "<", "< ", "<A", "<OK", "<ERROR", "<ERROR:x\r\n", "<OK\r\n", "$", "{", "}", "*", "*00000000\r\n", "*12345678", "\r\n", "\r", "\n", "\r\n< ", "*00\r\n", "$*00\r\n", "%a*", "#a*", "\x80"}); break;
        case 4: o += inert(s, s.size(0, 20)); break;
        case 5: o += s.bytes(s.size(0, 24)); break;
        default: { std::string h = s.coin() ? "\xAA\x44\x12\x1C" : "\xAA\x45\x12\x1C"; put(h, s.bits(16), 2); put(h, 0, 2); put(h, s.coin() ? s.edgy(16) : s.draw(60), 2); h += s.bytes(18); o += h.substr(0, s.size(4, h.size())); break; }
        }
    }
    return o;
}
// a split of n bytes into chunk lengths
inline std::vector<size_t> chunks(pbt::Src& s, size_t n)
{
    std::vector<size_t> c; size_t mode = s.draw(3);
    while (n)
    {
        size_t k = mode == 0 ? n : mode == 1 ? 1 : mode == 2 ? s.size(1, std::min<size_t>(n, 16)) : s.size(1, n);
        k = std::min(k, n); c.push_back(k); n -= k;
    }
    return c;
}
struct Item { bool frame; std::string bytes; HEADER_FORMAT fmt = HEADER_FORMAT::UNKNOWN; bool resp = false; uint32_t len = 0; };
inline std::string show(const std::vector<Item>& v)
{
    std::string o; for (auto& i : v) o += (i.frame ? "F" + std::to_string(static_cast<int>(i.fmt)) + (i.resp ? "r" : "") + "[" : "U[") + pbt::esc(i.bytes, 60) + "]" + std::to_string(i.bytes.size()) + " "; return o;
}
} // namespace fr
