// C06: nothing with a wrong checksum is delivered as valid; corrupted messages do not hide the next valid one.
#include "drain.hpp"
#include <string_view>
using namespace fr;
PBT_PROPERTY("C06", "wild streams and targeted corruptions (1-4 changed bytes, checksum text, length fields) of valid frames; every delivered frame is re-validated by an independent checker; "
                    "non-trivial = a corrupted checksummed frame was in the stream")
namespace {
std::vector<Item> frameAll(pbt::Src& src, const std::string& in, bool json)
{
    novatel::edie::oem::Framer f; f.SetFrameJson(json); MetaDataStruct md; std::vector<Item> out; size_t w = 0;
    static std::unique_ptr<unsigned char[]> buf(new unsigned char[1 << 18]);
    for (size_t c : chunks(src, in.size())) { PBT_EQ(f.Write(reinterpret_cast<const unsigned char*>(in.data()) + w, c), c, "write"); w += c; drainInto(f, md, buf.get(), 1 << 18, out, in.size() + 10); }
    return out;
}
void validate(const std::vector<Item>& v, const std::string& in)
{
    for (auto& i : v) if (i.frame) { std::string why = invalid(i.bytes, i.fmt, i.resp); PBT_CHECK(why.empty(), "frame delivered as format ", static_cast<int>(i.fmt), " is not valid: ", why, " | ", pbt::esc(i.bytes, 200), " | stream ", pbt::esc(in, 300)); }
}
}
PBT_GROUP(wild, 50000, 2000000)
{
    bool json = src.chance(1, 3); std::string in = wildStream(src, src.size(1, 10), json); if (in.empty()) throw pbt::Discard{};
    auto v = frameAll(src, in, json); validate(v, in); for (auto& i : v) ctx.mark(i.frame); ctx.feed(in); ctx.note(pbt::esc(in, 100));
}
PBT_GROUP(corrupted, 60000, 2000000)
{
    Kind k = src.pick<Kind>({BIN, SBIN, PROP, ASC, SASC, NMEA}); std::string good = frame(src, k).bytes, bad = good; const size_t n = good.size();
    switch (src.draw(3))
    {
    case 0: { size_t m = src.size(1, 4); for (size_t j = 0; j < m; ++j) bad[src.size(0, n - 1)] ^= static_cast<char>(1 << src.draw(7)); break; }
    case 1: { // checksum bytes
        size_t tail = k == NMEA ? 4 : k == ASC || k == SASC ? 10 : 4; size_t span = k == NMEA ? 2 : k == ASC || k == SASC ? 8 : 4; size_t p = n - tail + src.size(0, span - 1);
        bad[p] = k == BIN || k == SBIN || k == PROP ? static_cast<char>(src.byte()) : src.pick<char>({'0', '1', '9', 'a', 'F', 'g', 'G', ' ', '-', '+', 'x', '\r'}); break; }
    case 2: { // a plausible but different checksum: all zero / of a different range / shifted
        if (k == ASC || k == SASC) { bool sh = src.coin(); bad.replace(n - 10, 8, sh ? crcHex(crc32(good, 0, n - 11)) : "00000000"); }
        else if (k == NMEA) bad.replace(n - 4, 2, "00"); else { std::string c; put(c, src.coin() ? crc32(good, 3, n - 4) : 0, 4); bad.replace(n - 4, 4, c); }
        break; }
    default: { size_t p = src.size(1, n - 2); char c = bad[p]; bad[p] = bad[p + 1]; bad[p + 1] = c; }
    }
    std::string in = inert(src, src.size(0, 8)) + bad + inert(src, src.size(12, 40));
    auto v = frameAll(src, in, false); validate(v, in);
    const bool changed = bad != good && !(k == ASC || k == SASC || k == NMEA ? invalid(bad, fmtOf(k), false).empty() : false);
    if (changed) for (auto& i : v) PBT_CHECK(!(i.frame && i.bytes == bad), "corrupted frame delivered: ", pbt::esc(bad, 200), " original ", pbt::esc(good, 200));
    ctx.mark(changed); ctx.label(kindName(k)); ctx.feed(in); ctx.note(pbt::esc(bad, 100));
}
PBT_GROUP(checksum_text, 20000, 500000)
{
    // text checksums whose value has leading or trailing zeros, with digits replaced by non-digits: only eight (two) hexadecimal digits are a checksum
    const bool nm = src.coin(); std::string body, in; uint32_t crc = 0;
    if (nm) { body = "GPXX" + src.alnum(6); uint8_t x = 0; for (char c : body) x ^= static_cast<uint8_t>(c); char want = static_cast<char>(src.draw(9)); body += static_cast<char>('A'); x ^= 'A'; char fix = static_cast<char>(x ^ want); if ((fix & 0x80) || fix == '*' || fix == '\n') throw pbt::Discard{}; body += fix; crc = static_cast<uint8_t>(want); in = "$" + body + "*" + std::string(1, static_cast<char>('0' + want)) + src.pick<char>({'g', ' ', '\r', '.', '0'}) + "\r\n"; }
    else
    {   // force a CRC with leading zero digits by searching
        bool sh = src.coin(); std::string b = "ABCDEFGA," + src.alnum(4); uint64_t t = src.draw(100000); unsigned z = 1;
        for (uint64_t i = 0; i < 3000; ++i) { std::string c = b + std::to_string(t + i); crc = crc32(c, 0, c.size()); if ((crc >> 28) == 0) { body = c; if ((crc >> 24) == 0) z = 2; break; } }
        if (body.empty()) throw pbt::Discard{};
        std::string h = crcHex(crc).substr(z) + std::string(z, src.pick<char>({'g', ' ', 'x', '-', 'Z'})); in = std::string(sh ? "%" : "#") + body + "*" + h + "\r\n";
    }
    std::string st = in + "abcdefghijklmnop"; auto v = frameAll(src, st, false); validate(v, st); ctx.mark(true); ctx.label(nm ? "nmea" : "crc32"); ctx.feed(st); ctx.note(pbt::esc(in, 80));
}
PBT_GROUP(length_limit, 200, 4000)
{
    // messages whose delimiter comes at or just beyond the maximum size, with correct checksums
    std::string lead = src.pick<std::string>({"#", "%", "<OK", "<ERRORx", "<AB\r\n< ", "<AB\r\n< aaa\r\n< "}), in; const size_t total = MAXMSG - 6 + src.size(0, 14) + (src.chance(1, 6) ? 5000 : 0);
    const bool asc = lead == "#" || lead == "%"; const size_t trail = asc ? 11 : 2; in = lead + std::string(total - lead.size() - trail, src.pick<char>({'a', '*'}));
    if (asc) { noTrailer(in); in += "*" + crcHex(crc32(in, 1, in.size())); } in += "\r\n";
    const size_t msg = in.size(); std::string nxt = frame(src, BIN).bytes; in += "xx" + nxt + "xyz"; auto v = frameAll(src, in, false); validate(v, in);
    bool first = false, second = false; for (auto& i : v) { first |= i.frame && i.bytes == in.substr(0, msg); second |= i.frame && i.bytes == nxt; }
    PBT_EQ(first, msg <= MAXMSG, "message of ", msg, " bytes: ", lead); PBT_CHECK(second, "the message after it is lost"); ctx.mark(msg > MAXMSG); ctx.feed(msg); ctx.feed(lead);
}
PBT_GROUP(resync, 1500, 60000)
{
    // a corrupted message must not hide the valid message behind it, once enough bytes have arrived
    Kind k = src.pick<Kind>({BIN, SBIN, PROP, ASC, SASC, NMEA}), k2 = src.pick<Kind>({BIN, SBIN, PROP, ASC, SASC, NMEA});
    std::string bad = frame(src, k).bytes, good = frame(src, k2).bytes; for (auto& c : bad) if (c == '<') c = 'q';
    size_t p = src.size(0, bad.size() - 1); bad[p] = static_cast<char>(bad[p] ^ (1 + src.draw(126))); if (bad[p] == '<') bad[p] = 'q';
    if (src.chance(1, 4)) bad.resize(src.size(1, bad.size()));
    std::string in = bad + good + std::string(70000, 'x'); auto v = frameAll(src, in, false); validate(v, in); bool hit = false, sawBad = false;
    for (auto& i : v) { hit |= i.frame && i.bytes.find(good) != std::string::npos; sawBad |= i.frame && i.bytes != good; }
    PBT_CHECK(hit, "valid ", kindName(k2), " behind a corrupted ", kindName(k), " was not recovered: ", pbt::esc(bad, 150), " THEN ", pbt::esc(good, 150)); ctx.mark(true); ctx.feed(in);
}
PBT_GROUP(payload_only, 30000, 1000000)
{
    // payload-only framing delivers the bodies of exactly the messages that full framing delivers, checked frame by frame above
    std::string in; bool json = src.chance(1, 4);
    if (src.coin()) in = wildStream(src, src.size(1, 8), json);
    else
    {
        size_t n = src.size(1, 4);
        for (size_t i = 0; i < n; ++i)
        {
            std::string f = frame(src, src.pick<Kind>({BIN, SBIN, PROP, ASC, SASC, NMEA})).bytes;
            if (src.coin()) { size_t m = src.size(1, 3); for (size_t j = 0; j < m; ++j) f[src.size(0, f.size() - 1)] ^= static_cast<char>(1 << src.draw(7)); ctx.label("corrupted"); }
            in += f + inert(src, src.size(0, 6));
        }
    }
    in += inert(src, 40); if (in.empty()) throw pbt::Discard{};
    auto full = frameAll(src, in, json); validate(full, in);
    novatel::edie::oem::Framer f; f.SetFrameJson(json); f.SetPayloadOnly(true); MetaDataStruct md; std::vector<Item> got; static std::unique_ptr<unsigned char[]> buf(new unsigned char[1 << 18]); size_t w = 0;
    for (size_t c : chunks(src, in.size())) { PBT_EQ(f.Write(reinterpret_cast<const unsigned char*>(in.data()) + w, c), c, "write"); w += c; drainInto(f, md, buf.get(), 1 << 18, got, in.size() + 10); }
    std::vector<Item> want;
    for (auto i : full)
    {
        if (i.frame && (i.fmt == HEADER_FORMAT::BINARY || i.fmt == HEADER_FORMAT::PROPRIETARY_BINARY || i.fmt == HEADER_FORMAT::SHORT_BINARY)) { size_t h = i.fmt == HEADER_FORMAT::SHORT_BINARY ? 12 : 28; i.bytes = i.bytes.substr(h, i.bytes.size() - h - 4); }
        want.push_back(i);
    }
    auto e = same(want, got); PBT_CHECK(e.empty(), "payload-only framing: ", e, " | stream ", pbt::esc(in, 300));
    for (auto& i : full) ctx.mark(i.frame); ctx.feed(in); ctx.note(pbt::esc(in, 100));
}
