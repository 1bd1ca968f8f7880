// C03: framing conserves bytes and terminates.
#include "frames.hpp"
using namespace fr;
PBT_PROPERTY("C03", "streams of 1-12 segments (valid, truncated and mutated frames of every format, sync fragments, inert and random bytes) written in random chunks and drained between writes; "
                    "non-trivial = at least one sync byte was abandoned or one frame was delivered")
namespace {
void conserve(pbt::Src& src, pbt::Ctx& ctx, const std::string& in, bool json, bool report, size_t outSize, bool partial = false)
{
    novatel::edie::oem::Framer f; f.SetFrameJson(json); f.SetReportUnknownBytes(report);
    const size_t cap = f.GetAvailableSpace();
    std::unique_ptr<unsigned char[]> buf(new unsigned char[outSize]);
    MetaDataStruct md; std::string out; size_t frames = 0, unknown = 0, written = 0, pos = 0;
    auto buffered = [&] { return cap - f.GetAvailableSpace(); };
    auto drain = [&] {
        for (size_t calls = 0;; ++calls)
        {
            PBT_CHECK(calls < in.size() + 10, "more GetFrame calls than bytes");
            const size_t before = buffered();
            std::memset(buf.get(), 0x5A, std::min<size_t>(outSize, 512));
            STATUS st = f.GetFrame(buf.get(), static_cast<uint32_t>(outSize), md);
            const size_t taken = before - buffered();
            if (st == STATUS::BUFFER_EMPTY) { PBT_EQ(before, size_t{0}, "BUFFER_EMPTY with bytes buffered"); return; }
            if (st == STATUS::INCOMPLETE) { PBT_EQ(taken, size_t{0}, "INCOMPLETE consumed bytes"); PBT_CHECK(before > 0); return; }
            PBT_CHECK(st == STATUS::SUCCESS || st == STATUS::UNKNOWN, "unexpected status ", static_cast<int>(st));
            PBT_CHECK(taken > 0, "no progress with status ", static_cast<int>(st));
            PBT_EQ(static_cast<size_t>(md.uiLength), taken, "reported length vs bytes consumed, status ", static_cast<int>(st));
            PBT_CHECK(taken <= outSize, "delivered more than the buffer holds");
            if (st == STATUS::UNKNOWN) PBT_CHECK(md.eFormat == HEADER_FORMAT::UNKNOWN, "unknown bytes with a format");
            if (st == STATUS::SUCCESS || report) PBT_CHECK(std::memcmp(buf.get(), in.data() + pos, taken) == 0, "delivered bytes differ at ", pos, ": ", pbt::hex(buf.get(), taken, 80), " vs ", pbt::hex(in.substr(pos, taken), 80));
            pos += taken; (st == STATUS::SUCCESS ? frames : unknown)++;
        }
    };
    for (size_t c : chunks(src, in.size()))
    {
        PBT_EQ(f.Write(reinterpret_cast<const unsigned char*>(in.data()) + written, c), c, "write");
        written += c;
        if (src.chance(3, 4)) drain();
        if (partial && src.chance(1, 3) && buffered() > 0)
        {
            // a flush of any size takes the oldest bytes, tells how many, and framing goes on with the rest
            size_t b = buffered(), want = src.coin() ? src.size(0, 8) : src.size(0, b + 4), n = std::min(want, b);
            std::unique_ptr<unsigned char[]> fl(new unsigned char[want]);
            PBT_EQ(static_cast<size_t>(f.Flush(fl.get(), static_cast<uint32_t>(want))), n, "bytes flushed of ", b);
            PBT_EQ(b - buffered(), n, "bytes taken by a flush of ", want, " of ", b);
            if (report && n) PBT_CHECK(std::memcmp(fl.get(), in.data() + pos, n) == 0, "flushed bytes differ at ", pos);
            pos += n; if (n && n < b) ctx.label("partial flush");
            if (src.coin()) drain();
        }
    }
    drain();
    PBT_EQ(pos + buffered(), in.size(), "bytes lost or duplicated");
    std::unique_ptr<unsigned char[]> rest(new unsigned char[in.size() + 1]);
    size_t left = buffered();
    PBT_EQ(static_cast<size_t>(f.Flush(rest.get(), static_cast<uint32_t>(in.size() + 1))), left, "flush length");
    if (report) PBT_CHECK(std::memcmp(rest.get(), in.data() + pos, left) == 0, "flushed bytes differ");
    PBT_EQ(buffered(), size_t{0}, "flush left bytes");
    ctx.mark(frames > 0 || unknown > 1); if (frames) ctx.label("frames"); if (left) ctx.label("tail flushed");
    ctx.feed(in); ctx.note(pbt::esc(in, 120));
}
}
PBT_GROUP(wild, 80000, 2000000)
{
    bool json = src.coin(), report = !src.chance(1, 4);
    conserve(src, ctx, wildStream(src, src.size(1, 12), json), json, report, src.pick<size_t>({65536, 70000, 40000}), src.chance(1, 3));
}
PBT_GROUP(sync_soup, 80000, 2000000)
{
    std::string in = src.over("\xAA\x44\x12\x13\x45#%<$*{}\r\nA 0\x80OKE", src.size(1, 60)); bool json = src.coin();
    conserve(src, ctx, in, json, true, 70000, src.chance(1, 4));
}
PBT_GROUP(long_streams, 120, 3000)
{
    // streams around the maximum message size: overlong messages must be given up without losing a byte
    std::string in; size_t n = src.size(1, 3);
    for (size_t i = 0; i < n; ++i)
    {
        std::string lead = src.pick<std::string>({"#", "%", "<AB", "<ABC\r\n< ", "$", "<OK", "<ERROR", "\xAA\x44\x12\x1C\x01\x01\x01\x01\xFF\x7F"});
        std::string fill(src.pick<size_t>({0x7FF0, 0x8000, 0x8001, 0x9000}) + src.size(0, 16) - 8, src.pick<char>({'a', ' ', '*', '\r'}));
        in += lead + fill + src.pick<std::string>({"\r\n", "*00000000\r\n", "\r\nxx", "*", "\x80", ""});
    }
    conserve(src, ctx, in, false, true, 65536 * 2);
}
