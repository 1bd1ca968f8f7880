// C05: framing is independent of how the bytes arrive.
#include "drain.hpp"
using namespace fr;
PBT_PROPERTY("C05", "the same stream (1-12 valid/truncated/mutated/sync segments) framed in one write, byte by byte and in random chunks with random polling; the item sequences and the flushed tail are compared; "
                    "non-trivial = at least one frame was delivered and some chunk boundary fell inside it")
namespace {
Run run(const std::string& in, const std::vector<size_t>& ch, bool json, const std::vector<bool>& poll)
{
    novatel::edie::oem::Framer f; f.SetFrameJson(json); MetaDataStruct md; Run r; size_t w = 0, i = 0;
    static std::unique_ptr<unsigned char[]> buf(new unsigned char[1 << 17]);
    for (size_t c : ch)
    {
        PBT_EQ(f.Write(reinterpret_cast<const unsigned char*>(in.data()) + w, c), c, "write"); w += c;
        if (poll.empty() || poll[i++ % poll.size()]) drainInto(f, md, buf.get(), 1 << 17, r.items, in.size() + 10);
    }
    drainInto(f, md, buf.get(), 1 << 17, r.items, in.size() + 10);
    // asking again without new data changes nothing
    const size_t k = r.items.size(); drainInto(f, md, buf.get(), 1 << 17, r.items, in.size() + 10); PBT_EQ(r.items.size(), k, "polling again delivered more");
    r.tail = flushAll(f, in.size());
    return r;
}
void compare(pbt::Src& src, pbt::Ctx& ctx, const std::string& in, bool json)
{
    Run a = run(in, {in.size()}, json, {});
    std::vector<size_t> ch; std::vector<bool> poll;
    if (src.coin()) ch.assign(in.size(), 1); else ch = chunks(src, in.size());
    size_t np = src.draw(4); for (size_t i = 0; i < np; ++i) poll.push_back(src.coin()); 
    Run b = run(in, ch, json, poll);
    std::string d = same(a.items, b.items);
    // an abandoned candidate at the end may be handed back earlier or later, so the tail is compared together with trailing unknown bytes
    if (!d.empty() || a.tail != b.tail)
    {
        auto x = a.items, y = b.items; addUnknown(x, a.tail); addUnknown(y, b.tail); std::string e = same(x, y);
        PBT_CHECK(e.empty(), "one write vs chunks of ", ch.size() ? ch[0] : 0, "...: ", e, " | stream ", pbt::esc(in, 400));
    }
    size_t fc = 0; for (auto& i : a.items) fc += i.frame; ctx.mark(fc > 0 && ch.size() > 1); if (fc) ctx.label("frames"); ctx.label(ch.size() == in.size() ? "bytewise" : "chunked"); ctx.feed(in); ctx.feed(ch.size()); ctx.note(pbt::esc(in, 120));
}
}
PBT_GROUP(wild, 30000, 2000000) { bool json = src.chance(1, 3); std::string in = wildStream(src, src.size(1, 12), json); if (in.empty()) throw pbt::Discard{}; compare(src, ctx, in, json); }
PBT_GROUP(soup, 35000, 2000000) { std::string in = src.over("\xAA\x44\x12\x13\x45#%<$*{}\r\n\r\nA 0\x80OK", src.size(1, 50)); compare(src, ctx, in, src.coin()); }
PBT_GROUP(valid_frames, 20000, 800000)
{
    bool json = src.chance(1, 4); std::string in; size_t n = src.size(1, 6);
    for (size_t i = 0; i < n; ++i) { in += frame(src, static_cast<Kind>(src.draw(json ? 8 : 7))).bytes; if (src.coin()) in += inert(src, src.size(0, 12)); }
    compare(src, ctx, in, json);
}
PBT_GROUP(overlong, 100, 3000)
{
    std::string in = src.pick<std::string>({"#", "%", "<AB", "<ABC\r\n< ", "$", "<OK", "<ERROR"}) + std::string(0x8000 - 24 + src.size(0, 40), src.pick<char>({'a', '*', '\r'})) + src.pick<std::string>({"\r\n", "*00000000\r\n", "\r\nxx", "\x80"}) + frame(src, static_cast<Kind>(src.draw(7))).bytes + "xyz";
    Run a = run(in, {in.size()}, false, {}); auto ch = std::vector<size_t>{}; size_t left = in.size(); while (left) { size_t k = std::min<size_t>(left, left > 100 && in.size() - left < 0x7F00 ? 0x7F00 : src.size(1, 5)); ch.push_back(k); left -= k; }
    Run b = run(in, ch, false, {}); auto x = a.items, y = b.items; addUnknown(x, a.tail); addUnknown(y, b.tail); std::string e = same(x, y); PBT_CHECK(e.empty(), e);
    ctx.mark(true); ctx.feed(in);
}
