// C02: the framing byte buffer is a bounded FIFO under every operation history.
// LIBS: none
#include "pbt.hpp"
#include <memory>
#include <string>
#include "novatel_edie/common/fixed_buffer.hpp"

PBT_PROPERTY("C02", "random operation histories (10-120 steps: write / erase / read / search, capacity 1..96 or 256 KiB) on the buffer and on a plain string model; "
                    "every observable is compared after every step; non-trivial = at least one write after an erase that left data behind")
namespace {
size_t refSearch(const std::string& m, const std::string& pat, size_t start, size_t count)
{
    if (start >= m.size()) return static_cast<size_t>(-1);
    size_t end = start + std::min(count, m.size() - start);
    for (size_t i = start; i < end; ++i)
    {
        size_t k = std::min(pat.size(), end - i); bool ok = true;
        for (size_t j = 0; j < k; ++j) ok = ok && m[i + j] == pat[j];
        if (ok) return i;
    }
    return static_cast<size_t>(-1);
}
template <size_t M> size_t doSearch(const FixedBuffer<unsigned char>& b, const std::string& p, size_t s, size_t c, bool dflt)
{
    std::array<unsigned char, M> a; for (size_t i = 0; i < M; ++i) a[i] = static_cast<unsigned char>(p[i]);
    return dflt ? b.search_chars(a, s) : b.search_chars(a, s, c);
}
void history(pbt::Src& src, pbt::Ctx& ctx, size_t cap, size_t steps, size_t maxw, bool passCap)
{
    std::unique_ptr<FixedBuffer<unsigned char>> bp = passCap ? std::make_unique<FixedBuffer<unsigned char>>(cap) : std::make_unique<FixedBuffer<unsigned char>>();
    auto& b = *bp; const auto& cb = b;
    std::string m; bool erasedPartial = false, wrapped = false;
    for (size_t st = 0; st < steps; ++st)
    {
        switch (src.weighted({5, 4, 1, 2, 1, 1}))
        {
        case 0: {
            size_t n = src.chance(1, 12) ? cap - m.size() + src.draw(3) : src.size(0, maxw);
            std::string d = maxw > 300 ? src.bytes(n) : src.over("ABAB\xAA\x44\x12", n);
            const bool null = src.chance(1, 40);
            size_t r = b.write(null ? nullptr : reinterpret_cast<const unsigned char*>(d.data()), n);
            if (null || n > cap - m.size() || n == 0) { PBT_EQ(r, size_t{0}, "write of ", n, " into ", m.size(), "/", cap); }
            else { PBT_EQ(r, n, "write of ", n, " into ", m.size(), "/", cap); m += d; if (erasedPartial) wrapped = true; }
            break;
        }
        case 1: { size_t n = src.chance(1, 10) ? m.size() + src.draw(4) : src.size(0, std::max<size_t>(maxw, 1)); b.erase_begin(n); n = std::min(n, m.size()); m.erase(0, n); if (n && !m.empty()) erasedPartial = true; break; }
        case 2: {
            size_t n = src.size(0, m.size() + 3); std::string out(n + 2, '\x5A'); const std::string before = out;
            std::unique_ptr<unsigned char[]> ex(new unsigned char[std::min(n, m.size()) + 1]);
            b.copy_out(ex.get(), n); PBT_CHECK(std::memcmp(ex.get(), m.data(), std::min(n, m.size())) == 0, "copy_out ", n);
            b.copy_out(nullptr, n);
            break;
        }
        case 3: {
            std::string pat = src.over("AB\xAA\x44\x12", 4); size_t M = src.size(1, 4); size_t s = src.size(0, m.size() + 2), c = src.size(0, m.size() + 2); bool df = src.coin();
            size_t got = 0; const size_t cc = df ? static_cast<size_t>(-1) : c;
            switch (M) { case 1: got = doSearch<1>(cb, pat, s, c, df); break; case 2: got = doSearch<2>(cb, pat, s, c, df); break; case 3: got = doSearch<3>(cb, pat, s, c, df); break; default: got = doSearch<4>(cb, pat, s, c, df); }
            PBT_EQ(got, refSearch(m, pat.substr(0, M), s, cc), "search for ", pbt::hex(pat.substr(0, M)), " from ", s, " count ", cc, " in ", pbt::hex(m));
            if (M == 1) PBT_EQ((df ? cb.search_char(static_cast<unsigned char>(pat[0]), s) : cb.search_char(static_cast<unsigned char>(pat[0]), s, c)), got, "search_char");
            break;
        }
        case 4: {
            if (m.size() >= 8) { size_t i = src.size(0, m.size() - 8); uint16_t a; uint32_t e; uint64_t f; std::memcpy(&a, &m[i], 2); std::memcpy(&e, &m[i], 4); std::memcpy(&f, &m[i], 8);
                PBT_EQ(cb.template read_value<uint16_t>(i), a, "at ", i); PBT_EQ(cb.template read_value<uint32_t>(i), e, "at ", i); PBT_EQ(cb.template read_value<uint64_t>(i), f, "at ", i); }
            break;
        }
        default: if (!m.empty()) { size_t i = src.draw(m.size() - 1); unsigned char v = src.byte(); b[i] = v; m[i] = static_cast<char>(v); }
        }
        PBT_EQ(cb.size(), m.size(), "size after step ", st); PBT_EQ(cb.capacity(), cap, ""); PBT_EQ(cb.available_space(), cap - m.size(), ""); PBT_EQ(cb.empty(), m.empty(), ""); PBT_EQ(cb.full(), m.size() == cap, "");
        PBT_CHECK(m.empty() || std::memcmp(cb.data(), m.data(), m.size()) == 0, "contents after step ", st, ": got ", pbt::hex(cb.data(), cb.size()), " want ", pbt::hex(m));
        if (!m.empty()) { size_t i = src.draw(m.size() - 1); PBT_EQ(static_cast<int>(cb[i]), static_cast<int>(static_cast<unsigned char>(m[i])), "element ", i); }
    }
    ctx.feed(m); ctx.feed(cap); ctx.feed(src.log().size()); ctx.mark(wrapped); ctx.note("cap=" + std::to_string(cap) + " steps=" + std::to_string(steps) + " final=" + pbt::hex(m, 24));
}
} // namespace
PBT_GROUP(small_capacity, 360000, 1200000) { size_t cap = src.size(1, 96); history(src, ctx, cap, src.size(10, 120), std::max<size_t>(2, cap * 2 / 3), true); }
PBT_GROUP(default_capacity, 2400, 4000)
{
    history(src, ctx, 256u * 1024u, src.size(10, 40), 70000, false);
}
PBT_GROUP(wide_elements, 180000, 500000)
{ // element type wider than a byte: every count is in elements
    struct E { uint32_t a; uint16_t b; bool operator==(const E& o) const { return a == o.a && b == o.b; } };
    size_t cap = src.size(1, 40); FixedBuffer<E> b(cap); std::vector<E> m; bool after = false, er = false;
    for (size_t st = 0, n = src.size(5, 60); st < n; ++st)
    {
        if (src.coin())
        {
            std::vector<E> d(src.size(0, cap + 1)); for (auto& e : d) { e.a = static_cast<uint32_t>(src.bits(32)); e.b = static_cast<uint16_t>(src.bits(16)); }
            size_t r = b.write(d.data(), d.size());
            if (d.empty() || d.size() > cap - m.size()) PBT_EQ(r, size_t{0}, ""); else { PBT_EQ(r, d.size(), ""); m.insert(m.end(), d.begin(), d.end()); after = after || er; }
        }
        else { size_t k = src.size(0, cap / 2 + 1); b.erase_begin(k); k = std::min(k, m.size()); m.erase(m.begin(), m.begin() + static_cast<long>(k)); er = er || (k && !m.empty()); }
        PBT_EQ(b.size(), m.size(), ""); for (size_t i = 0; i < m.size(); ++i) PBT_CHECK(b[i] == m[i], "element ", i);
        std::unique_ptr<E[]> out(new E[m.size() + 1]); b.copy_out(out.get(), m.size() + 5); for (size_t i = 0; i < m.size(); ++i) PBT_CHECK(out[i] == m[i], "copied element ", i);
    }
    ctx.feed(src.log().data(), src.log().size() * 8); ctx.mark(after); ctx.note("cap=" + std::to_string(cap) + " size=" + std::to_string(m.size()));
}
