// C04: valid messages are recovered intact, in order, with the right classification.
#include "frames.hpp"
using namespace fr;
PBT_PROPERTY("C04", "streams of 1-10 valid frames of random formats (sizes up to the maximum message size) separated by 0-40 inert bytes, random chunking, payload-only and report-unknown modes; "
                    "non-trivial = at least two frames of different formats")
namespace {
void recover(pbt::Src& src, pbt::Ctx& ctx, size_t nmax, bool big, bool payloadOnly)
{
    const bool json = src.chance(1, 3);
    novatel::edie::oem::Framer f; f.SetFrameJson(json); f.SetPayloadOnly(payloadOnly);
    std::string in; std::vector<Item> expect; std::vector<Frame> frames; size_t n = src.size(1, nmax); unsigned kinds = 0;
    auto unk = [&](const std::string& u) { if (u.empty()) return; in += u; if (!expect.empty() && !expect.back().frame) expect.back().bytes += u; else expect.push_back({false, u}); };
    for (size_t i = 0; i < n; ++i)
    {
        if (src.chance(2, 3)) unk(inert(src, src.size(0, 40)));
        Kind k = static_cast<Kind>(src.draw(json ? 8 : 7)); Frame fm = frame(src, k, big); kinds |= 1u << k;
        if (in.size() + fm.bytes.size() > 200000) break;
        in += fm.bytes;
        const bool bin = k == BIN || k == SBIN || k == PROP;
        expect.push_back({true, payloadOnly && bin ? fm.payload : fm.bytes, fmtOf(k), k == RESP}); ctx.label(kindName(k));
    }
    // enough inert bytes after the last message for the look-ahead
    unk(inert(src, src.size(3, 20)));
    std::vector<Item> got; std::unique_ptr<unsigned char[]> buf(new unsigned char[MAXMSG]); MetaDataStruct md; size_t w = 0;
    std::string pieces;
    auto drain = [&] {
        for (size_t calls = 0; calls < in.size() + 10; ++calls)
        {
            STATUS st = f.GetFrame(buf.get(), MAXMSG, md);
            if (st == STATUS::INCOMPLETE || st == STATUS::BUFFER_EMPTY) return;
            std::string b(reinterpret_cast<char*>(buf.get()), md.uiLength);
            if (st == STATUS::SUCCESS) got.push_back({true, b, md.eFormat, md.bResponse});
            else { PBT_CHECK(st == STATUS::UNKNOWN, "status ", static_cast<int>(st)); if (!got.empty() && !got.back().frame) got.back().bytes += b; else got.push_back({false, b}); }
        }
        pbt::fail("does not terminate");
    };
    for (size_t c : chunks(src, in.size())) { (void)!f.Write(reinterpret_cast<const unsigned char*>(in.data()) + w, c); w += c; drain(); }
    // what is still buffered can only be inert tail bytes
    std::string tail(64, '\0'); tail.resize(f.Flush(reinterpret_cast<unsigned char*>(tail.data()), 64));
    if (!tail.empty()) { if (!got.empty() && !got.back().frame) got.back().bytes += tail; else got.push_back({false, tail}); }
    for (size_t i = 0; i < std::max(got.size(), expect.size()); ++i)
    {
        if (i >= got.size() || i >= expect.size() || got[i].frame != expect[i].frame || got[i].bytes != expect[i].bytes || (got[i].frame && (got[i].fmt != expect[i].fmt || got[i].resp != expect[i].resp)))
            pbt::fail("item ", i, " differs | expected ", show(expect), "| got ", show(got), "| payloadOnly ", payloadOnly);
    }
    ctx.mark((kinds & (kinds - 1)) != 0); ctx.feed(in); ctx.note(pbt::esc(in, 120));
}
}
PBT_GROUP(small_frames, 60000, 2500000) { recover(src, ctx, 10, false, false); }
PBT_GROUP(payload_only, 15000, 600000) { recover(src, ctx, 6, false, true); }
PBT_GROUP(max_size_frames, 3000, 60000) { recover(src, ctx, 4, true, src.chance(1, 4)); }
