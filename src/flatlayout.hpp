// Offsets of the flattened binary form, computed from the definition alone.
#pragma once
#include "model.hpp"
namespace model {
struct Layout { vector<size_t> off; vector<size_t> data; size_t size = 0; };
inline size_t alignUp(size_t p, size_t n) { size_t a = std::min<size_t>(4, n); return (p + a - 1) / a * a; }
inline Layout layoutOf(const Fields& fs)
{
    Layout L; size_t p = 0; 
    for (auto& f : fs)
    {
        p = alignUp(p, f.len);
        if ((f.kind == K::VAR || f.kind == K::ROWS) && f.lenRef.empty()) { p = alignUp(p, f.lenSize); L.off.push_back(p); p += f.lenSize; }
        else L.off.push_back(p);
        if (f.kind == K::ROWS)
        {
            if (allFixed(f.sub)) { L.data.push_back(p); p += f.arr * layoutOf(f.sub).size; }
            else { size_t n = layoutOf(f.sub).size; for (size_t i = 0; i < f.arr; ++i) { p = alignUp(p, f.len); if (!i) L.data.push_back(p); p += n; } }
            continue;
        }
        L.data.push_back(p);
        p += size_t(f.len) * (f.kind == K::SIMPLE || f.kind == K::ENUM ? 1 : f.arr);
        if (f.kind == K::STR) p = alignUp(p + 1, 4);
    }
    L.size = p; return L;
}
} // namespace model
