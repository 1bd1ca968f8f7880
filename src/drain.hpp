// Drive a framer over a stream in given chunks; collect frames and merged unknown runs.
#pragma once
#include "frames.hpp"
namespace fr {
struct Run { std::vector<Item> items; std::string tail; };
template <typename F, typename Md> void drainInto(F& f, Md& md, unsigned char* buf, uint32_t size, std::vector<Item>& out, size_t limit)
{
    for (size_t calls = 0; calls < limit; ++calls)
    {
        STATUS st = f.GetFrame(buf, size, md);
        if (st == STATUS::INCOMPLETE || st == STATUS::BUFFER_EMPTY) return;
        PBT_CHECK(st == STATUS::SUCCESS || st == STATUS::UNKNOWN, "unexpected status ", static_cast<int>(st));
        const novatel::edie::MetaDataBase& m = [&]() -> const novatel::edie::MetaDataBase& { if constexpr (std::is_pointer_v<Md>) return *md; else return md; }();
        std::string b(reinterpret_cast<char*>(buf), m.uiLength);
        if (st == STATUS::SUCCESS) out.push_back({true, b, m.eFormat, m.bResponse, m.uiLength});
        else if (!out.empty() && !out.back().frame) out.back().bytes += b;
        else out.push_back({false, b});
    }
    pbt::fail("framing does not terminate");
}
template <typename F> std::string flushAll(F& f, size_t n)
{
    // taken in pieces (1, 4, 16, then everything), so that a partial flush must leave the rest
    std::string all;
    for (size_t piece : {size_t{1}, size_t{4}, size_t{16}, n + 1})
    {
        std::string t(piece, '\0'); t.resize(f.Flush(reinterpret_cast<unsigned char*>(t.data()), static_cast<uint32_t>(t.size()))); all += t;
    }
    return all;
}
inline std::string same(const std::vector<Item>& a, const std::vector<Item>& b)
{
    for (size_t i = 0; i < std::max(a.size(), b.size()); ++i)
        if (i >= a.size() || i >= b.size() || a[i].frame != b[i].frame || a[i].bytes != b[i].bytes || (a[i].frame && (a[i].fmt != b[i].fmt || a[i].resp != b[i].resp)))
            return "item " + std::to_string(i) + ": " + (i < a.size() ? show({a[i]}) : "none") + " vs " + (i < b.size() ? show({b[i]}) : "none");
    return "";
}
inline void addUnknown(std::vector<Item>& v, const std::string& u) { if (u.empty()) return; if (!v.empty() && !v.back().frame) v.back().bytes += u; else v.push_back({false, u}); }
} // namespace fr
