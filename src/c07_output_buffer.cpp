// C07: the framers respect the size of the caller's output buffer.
#include "drain.hpp"
#include "novatel_edie/decoders/common/framer_manager.hpp"
#include "novatel_edie/decoders/oem/framer_abb_ascii.hpp"
#include "novatel_edie/decoders/oem/framer_ascii.hpp"
#include "novatel_edie/decoders/oem/framer_ascii_short.hpp"
#include "novatel_edie/decoders/oem/framer_binary.hpp"
#include "novatel_edie/decoders/oem/framer_binary_short.hpp"
using namespace fr;
using namespace novatel::edie;
PBT_PROPERTY("C07", "streams of valid, truncated and mutated frames and unknown bytes, framed with a different output-buffer size (1..300 or around a frame length) on every call, in exactly sized heap blocks under AddressSanitizer; "
                    "the delivered items are compared with those obtained with an ample buffer; non-trivial = some frame did not fit at first or an unknown run was longer than the buffer")
namespace {
template <typename F> STATUS call(F& f, unsigned char* b, uint32_t n, MetaDataStruct& md, uint32_t& len, HEADER_FORMAT& fmt, bool& resp)
{
    if constexpr (std::is_same_v<F, FramerManager>) { MetaDataBase* p = &md; STATUS s = f.GetFrame(b, n, p); len = p->uiLength; fmt = p->eFormat; resp = p->bResponse; return s; }
    else { STATUS s = f.GetFrame(b, n, md); len = md.uiLength; fmt = md.eFormat; resp = md.bResponse; return s; }
}
template <typename F> void frameWith(F& f, pbt::Src* src, const std::string& in, size_t maxSize, std::vector<Item>& out, bool& tight)
{
    const size_t cap = f.GetAvailableSpace(); MetaDataStruct md; uint32_t len = 0; HEADER_FORMAT fmt; bool resp; size_t pos = 0;
    PBT_EQ(f.Write(reinterpret_cast<const unsigned char*>(in.data()), in.size()), in.size(), "write");
    size_t big = 0;
    for (size_t calls = 0;; ++calls)
    {
        PBT_CHECK(calls < 4 * in.size() + 20, "does not terminate");
        size_t n = !src ? 1 << 17 : big ? big : src->size(1, maxSize);
        std::unique_ptr<unsigned char[]> buf(new unsigned char[n]); const size_t before = cap - f.GetAvailableSpace();
        std::memset(buf.get(), 0xC7, std::min<size_t>(n, 4096));
        STATUS st = call(f, buf.get(), static_cast<uint32_t>(n), md, len, fmt, resp);
        const size_t taken = before - (cap - f.GetAvailableSpace());
        if (st == STATUS::BUFFER_FULL) { PBT_EQ(taken, size_t{0}, "BUFFER_FULL consumed bytes"); PBT_CHECK(!big && src, "an ample buffer is reported as too small"); big = 1 << 17; tight = true; continue; }
        big = 0;
        if (st == STATUS::INCOMPLETE || st == STATUS::BUFFER_EMPTY) { PBT_EQ(taken, size_t{0}); break; }
        PBT_CHECK(st == STATUS::SUCCESS || st == STATUS::UNKNOWN, "status ", static_cast<int>(st));
        PBT_CHECK(taken > 0, "no progress"); PBT_EQ(static_cast<size_t>(len), taken, "reported length vs consumed bytes, status ", static_cast<int>(st), " buffer ", n); PBT_CHECK(len <= n, "length ", len, " beyond the buffer of ", n);
        PBT_CHECK(std::memcmp(buf.get(), in.data() + pos, len) == 0, "delivered bytes differ at ", pos);
        if (taken == n) tight = true;
        if (st == STATUS::SUCCESS) out.push_back({true, in.substr(pos, taken), fmt, resp, len}); else addUnknown(out, in.substr(pos, taken));
        pos += taken;
    }
    addUnknown(out, flushAll(f, in.size()));
}
template <typename F> void compare(pbt::Src& src, pbt::Ctx& ctx, const std::string& in, bool wild, size_t maxSize, F& a, F& b)
{
    std::vector<Item> x, y; bool t = false, tight = false; frameWith(a, nullptr, in, 0, x, t); frameWith(b, &src, in, maxSize, y, tight);
    if (wild) { for (auto& i : y) if (i.frame) { std::string why = invalid(i.bytes, i.fmt, i.resp, !std::is_same_v<F, oem::Framer>); PBT_CHECK(why.empty(), "invalid frame: ", why, " ", pbt::esc(i.bytes, 200)); } }
    else { std::string e = same(x, y); PBT_CHECK(e.empty(), "ample vs small buffers: ", e, " | stream ", pbt::esc(in, 300)); }
    ctx.mark(tight); ctx.feed(in); ctx.feed(maxSize); ctx.note(pbt::esc(in, 100));
}
std::string stream(pbt::Src& src, bool json, bool& wild)
{
    if ((wild = src.coin())) return wildStream(src, src.size(1, 8), json);
    std::string in; size_t n = src.size(1, 5); for (size_t i = 0; i < n; ++i) { in += inert(src, src.size(0, src.chance(1, 5) ? 700 : 20)); in += frame(src, static_cast<Kind>(src.draw(json ? 8 : 7))).bytes; } return in + "xyz";
}
size_t bound(pbt::Src& src) { return src.pick<size_t>({1, 2, 3, 10, 11, 12, 27, 28, 31, 32, 60, 120, 300}); }
}
PBT_GROUP(oem_framer, 30000, 1000000) { bool json = src.chance(1, 3); bool wild = false; std::string in = stream(src, json, wild); if (in.empty()) throw pbt::Discard{}; oem::Framer a, b; a.SetFrameJson(json); b.SetFrameJson(json); compare(src, ctx, in, wild, bound(src), a, b); }
PBT_GROUP(split_framers, 30000, 1000000)
{
    bool wild = false; std::string in = stream(src, false, wild); if (in.empty()) throw pbt::Discard{}; size_t m = bound(src);
    switch (src.draw(4))
    {
    case 0: { oem::FramerAscii a, b; compare(src, ctx, in, wild, m, a, b); ctx.label("ascii"); break; }
    case 1: { oem::FramerAsciiShort a, b; compare(src, ctx, in, wild, m, a, b); ctx.label("ascii short"); break; }
    case 2: { oem::FramerBinary a, b; compare(src, ctx, in, wild, m, a, b); ctx.label("binary"); break; }
    case 3: { oem::FramerBinaryShort a, b; compare(src, ctx, in, wild, m, a, b); ctx.label("binary short"); break; }
    default: { oem::FramerAbbAscii a, b; compare(src, ctx, in, wild, m, a, b); ctx.label("abb ascii"); }
    }
}
PBT_GROUP(manager, 12000, 400000)
{
    bool wild = false; std::string in = stream(src, false, wild); if (in.empty()) throw pbt::Discard{}; static const std::vector<std::string> all = {"OEM", "OEM_ASCII", "OEM_ASCII_SHORT", "OEM_BINARY", "OEM_BINARY_SHORT", "OEM_ABB_ASCII"};
    std::vector<std::string> names; if (src.chance(1, 4)) names = {"OEM"}; else for (size_t i = 1; i < all.size(); ++i) if (src.chance(2, 3)) names.push_back(all[i]);
    FramerManager a(names), b(names); compare(src, ctx, in, wild, bound(src), a, b);
}
