// C26: message containers return what was decoded or stored, writes change exactly one field, copies are equal and independent.
// LIBS: common dcommon oem
#include "casegen.hpp"
using namespace model;
PBT_PROPERTY("C26", "random definitions and messages; every field read through every accessor, and random histories of typed writes, element writes, row replacements, rejected writes, copies, moves and swaps over a pool of messages "
                    "against a model; non-trivial = the definition has a variable-length field or the history copies a message and later changes one of the two")
template <typename F> static void typed(const Fld& f, F&& fn)
{
    if (f.kind == K::ENUM) { if (f.len == 1) fn(int8_t{}); else if (f.len == 2) fn(int16_t{}); else fn(int32_t{}); return; }
    if (f.dt == "BOOL") fn(bool{});
    else if (f.dt == "CHAR") fn(int8_t{});
    else if (f.dt == "UCHAR" || f.dt == "HEXBYTE") fn(uint8_t{});
    else if (f.dt == "SHORT") fn(int16_t{});
    else if (f.dt == "USHORT") fn(uint16_t{});
    else if (f.dt == "INT" || f.dt == "LONG") fn(int32_t{});
    else if (f.dt == "UINT" || f.dt == "ULONG" || f.dt == "SATELLITEID") fn(uint32_t{});
    else if (f.dt == "LONGLONG") fn(int64_t{});
    else if (f.dt == "ULONGLONG") fn(uint64_t{});
    else if (f.dt == "FLOAT") fn(float{});
    else if (f.dt == "DOUBLE") fn(double{});
    else pbt::fail("model type ", f.dt);
}
template <typename X> static uint64_t bitsOf(X v) { uint64_t b = 0; memcpy(&b, &v, sizeof v); return b; }
template <typename X> static X fromBits(uint64_t b) { if constexpr (std::is_same_v<X, bool>) return b != 0; else { X v; memcpy(&v, &b, sizeof v); return v; } }
template <typename F> static bool threw(F&& fn) { try { fn(); } catch (const std::runtime_error&) { return true; } return false; }
static string wireOf(const Fld& f, const Val& v)
{
    string o; if (f.kind == K::STR) return v.s; if (f.kind == K::ROWS) { for (auto& r : v.rows) refBinary(o, f.sub, r, false); return o; }
    for (auto e : v.e) put(o, e, f.len); return o;
}
static size_t bytesOf(const Fld& f, const Val& v)
{
    if (f.kind == K::STR) return v.s.size();
    if (f.kind != K::ROWS) return v.e.size() * f.len;
    size_t n = 0; if (allFixed(f.sub)) return fixedStride(f.sub) * v.rows.size();
    for (auto& r : v.rows) for (size_t i = 0; i < f.sub.size(); ++i) n += bytesOf(f.sub[i], r[i]);
    return n;
}
#define AT " of field ", f.name, " (", f.dt, f.len, " ", f.conv, ") in ", defText(fs)
template <typename X> static void checkTyped(const Fields& fs, const Fld& f, const vector<uint64_t>& e, const ne::TypedBuffer<X>& tb)
{
    PBT_EQ(tb.size(), e.size(), "typed buffer size", AT); PBT_EQ(tb.empty(), e.empty(), "typed buffer empty", AT); size_t k = 0;
    for (X x : tb) { PBT_CHECK(k < e.size() && bitsOf(x) == e[k], "typed buffer element ", k, AT); PBT_CHECK(bitsOf(tb[k]) == e[k], "typed buffer index ", k, AT); ++k; }
    PBT_EQ(k, e.size(), "typed buffer iteration", AT); PBT_CHECK(threw([&] { (void)tb[e.size()]; }), "typed buffer read past its end", AT);
}
static void checkRead(Src& s, const ne::CompositeField& cf, const Fields& fs, const Body& b, const ne::FieldInfo& info)
{
    for (size_t i = 0; i < fs.size(); ++i)
    {
        auto& f = fs[i]; auto& v = b[i]; auto& def = *info.messageOrderedFields[i];
        PBT_EQ(def.name, f.name, "field order"); PBT_EQ(unsigned(def.dataType.length), f.len, "length", AT);
        auto byName = [&](auto tag, size_t k, uint64_t want) {
            using X = decltype(tag);
            if (cf.GetFieldInfo()) PBT_CHECK(bitsOf(cf.GetFieldValueByName<X>(f.name, k)) == want, "read by name, element ", k, AT);
            else PBT_CHECK(threw([&] { (void)cf.GetFieldValueByName<X>(f.name, k); }), "read by name without definition", AT); };
        auto var = cf.GetFieldValueVariant(def);
        switch (f.kind)
        {
        case K::SIMPLE: case K::ENUM:
            typed(f, [&](auto tag) { using X = decltype(tag); PBT_CHECK(bitsOf(cf.GetFieldValue<X>(def)) == v.e[0], "read", AT); byName(tag, 0, v.e[0]); PBT_CHECK(std::get_if<X>(&var) && bitsOf(std::get<X>(var)) == v.e[0], "variant", AT); });
            PBT_EQ(cf.GetFieldSize(def), size_t(1), "size", AT);
            break;
        case K::FIXED:
            typed(f, [&](auto tag) {
                using X = decltype(tag); checkTyped<X>(fs, f, v.e, cf.GetFieldValue<ne::TypedBuffer<X>>(def)); PBT_CHECK(std::get_if<ne::TypedBuffer<X>>(&var), "variant type", AT); checkTyped<X>(fs, f, v.e, std::get<ne::TypedBuffer<X>>(var));
                for (size_t k = 0; k < v.e.size(); k += 1 + v.e.size() / 16) { PBT_CHECK(bitsOf(cf.GetFieldValue<X>(def, k)) == v.e[k], "element ", k, AT); byName(tag, k, v.e[k]); }
                PBT_CHECK(threw([&] { (void)cf.GetFieldValue<X>(def, v.e.size() + s.draw(3)); }), "element read past the end", AT);
                auto var2 = cf.GetFieldValueVariant(dynamic_cast<const ne::ArrayField&>(def)); checkTyped<X>(fs, f, v.e, std::get<ne::TypedBuffer<X>>(var2)); });
            PBT_EQ(cf.GetFieldSize(def), size_t(f.arr), "size", AT);
            break;
        case K::VAR:
            typed(f, [&](auto tag) {
                using X = decltype(tag);
                if constexpr (!std::is_same_v<X, bool>)
                {
                    auto same = [&](const vector<X>& x) { bool ok = x.size() == v.e.size(); for (size_t k = 0; ok && k < x.size(); ++k) ok = bitsOf(x[k]) == v.e[k]; return ok; };
                    PBT_CHECK(same(cf.GetFieldValue<vector<X>>(def)), "array", AT); PBT_CHECK(std::get_if<vector<X>>(&var) && same(std::get<vector<X>>(var)), "variant", AT);
                    if (cf.GetFieldInfo()) PBT_CHECK(same(cf.GetFieldValueByName<vector<X>>(f.name)), "array by name", AT);
                    for (size_t k = 0; k < v.e.size(); k += 1 + v.e.size() / 16) { PBT_CHECK(bitsOf(cf.GetFieldValue<X>(def, k)) == v.e[k], "element ", k, AT); byName(tag, k, v.e[k]); }
                    PBT_CHECK(threw([&] { (void)cf.GetFieldValue<X>(def, v.e.size() + s.draw(3)); }), "element read past the end", AT);
                } });
            PBT_EQ(cf.GetFieldSize(def), v.e.size(), "size", AT);
            break;
        case K::STR:
            PBT_EQ(cf.GetFieldValue<string>(def), v.s, "string", AT); PBT_CHECK(std::get_if<string>(&var) && std::get<string>(var) == v.s, "variant", AT); PBT_EQ(cf.GetFieldSize(def), v.s.size(), "size", AT);
            if (cf.GetFieldInfo()) PBT_EQ(cf.GetFieldValueByName<string>(f.name), v.s, "string by name", AT);
            break;
        case K::ROWS: {
            auto& fad = dynamic_cast<const ne::FieldArrayField&>(def); auto& sub = *fad.fieldInfo; auto fa = cf.GetFieldValue<ne::FieldArray>(def);
            PBT_EQ(fa.size(), v.rows.size(), "rows", AT); PBT_EQ(fa.empty(), v.rows.empty(), "empty", AT); PBT_EQ(cf.GetFieldSize(def), v.rows.size(), "size", AT);
            size_t r = 0; const bool flat = std::holds_alternative<ne::FlatFieldArray>(var);
            auto rowRead = [&](const ne::FieldArrayRecordView& row, size_t rn) {
                for (size_t k = 0; k < f.sub.size(); ++k)
                {
                    auto& g = f.sub[k]; auto& w = v.rows[rn][k]; auto& gd = *sub.messageOrderedFields[k];
                    if (g.kind == K::SIMPLE || g.kind == K::ENUM) typed(g, [&](auto tag) { using X = decltype(tag); PBT_CHECK(bitsOf(row.GetFieldValue<X>(gd)) == w.e[0], "row ", rn, " ", g.name, AT); PBT_CHECK(bitsOf(row.GetFieldValueByName<X>(g.name)) == w.e[0], "row ", rn, " by name ", g.name, AT); PBT_CHECK(bitsOf(fa.GetFieldValue<X>(gd, rn)) == w.e[0] && bitsOf(fa.GetFieldValueByName<X>(g.name, rn)) == w.e[0], "row ", rn, " through the array ", g.name, AT); });
                    if (g.kind == K::FIXED) typed(g, [&](auto tag) { using X = decltype(tag); checkTyped<X>(fs, f, w.e, row.GetFieldValue<ne::TypedBuffer<X>>(gd)); size_t z = s.draw(w.e.size() - 1); PBT_CHECK(bitsOf(row.GetFieldValue<X>(gd, z)) == w.e[z] && bitsOf(fa.GetFieldValue<X>(gd, rn, z)) == w.e[z] && bitsOf(fa.GetFieldValueByName<X>(g.name, rn, z)) == w.e[z], "row ", rn, " element ", z, " of ", g.name, AT); PBT_CHECK(threw([&] { (void)row.GetFieldValue<X>(gd, w.e.size()); }), "row element read past the end", AT); });
                    if (g.kind == K::STR) PBT_EQ(row.GetFieldValue<string>(gd), w.s, "row string", AT);
                }
                PBT_CHECK(threw([&] { (void)row.GetFieldValueByName<uint32_t>("no such field"); }), "unknown field of a row", AT); };
            for (const auto& row : fa) { PBT_CHECK(r < v.rows.size(), "more rows than stored", AT); if (r < 6) rowRead(row, r); ++r; }
            PBT_EQ(r, v.rows.size(), "row iteration", AT);
            if (flat)
            {
                auto& ff = std::get<ne::FlatFieldArray>(var); PBT_EQ(ff.size(), v.rows.size(), "flat rows", AT); PBT_EQ(ff.ByteSize(), wireOf(f, v).size(), "flat bytes", AT); PBT_CHECK(!memcmp(ff.data(), wireOf(f, v).data(), ff.ByteSize()), "flat row bytes", AT);
                PBT_CHECK(ff.GetFieldInfo() == &sub, "definition of the rows", AT); size_t n = 0; for (const auto& row : ff) { if (n < 3) rowRead(row, n); ++n; } PBT_EQ(n, ff.size(), "flat iteration", AT);
                for (size_t k = 0; k < f.sub.size() && !v.rows.empty(); ++k) if (f.sub[k].kind == K::SIMPLE || f.sub[k].kind == K::ENUM) typed(f.sub[k], [&](auto tag) { using X = decltype(tag); size_t rn = s.draw(v.rows.size() - 1); PBT_CHECK(bitsOf(ff.GetFieldValue<X>(*sub.messageOrderedFields[k], rn)) == v.rows[rn][k].e[0] && bitsOf(ff.GetFieldValueByName<X>(f.sub[k].name, rn)) == v.rows[rn][k].e[0], "flat row field", AT); });
            }
            else
            {
                auto* ca = std::get_if<ne::CompositeFieldArray>(&var); PBT_CHECK(ca, "row storage", AT); auto cp = cf.GetFieldValue<ne::CompositeFieldArray>(def); PBT_EQ(cp.size(), v.rows.size(), "rows of the copy", AT);
                for (size_t n = 0; n < ca->size() && n < 4; ++n) checkRead(s, (*ca)[n], f.sub, v.rows[n], sub);
            }
            break;
        }
        }
        // raw bytes of the field
        bool rowsVar = f.kind == K::ROWS && !std::holds_alternative<ne::FlatFieldArray>(var);
        PBT_EQ(cf.GetFieldByteSize(def), bytesOf(f, v), "byte size", AT);
        if (!rowsVar)
        {
            string want = wireOf(f, v); const size_t slack = s.draw(2);
            std::unique_ptr<std::byte[]> buf(new std::byte[want.size() + slack]); memset(buf.get(), 0x5a, want.size() + slack);
            PBT_EQ(cf.WriteFieldToBuffer(def, buf.get(), want.size() + slack), want.size(), "bytes written", AT); PBT_CHECK(!memcmp(buf.get(), want.data(), want.size()), "written bytes", AT);
            for (size_t k = 0; k < slack; ++k) PBT_CHECK(buf[want.size() + k] == std::byte(0x5a), "bytes after the field were written", AT);
            auto* p = reinterpret_cast<unsigned char*>(buf.get()); uint32_t cap = uint32_t(want.size() + slack); auto* p0 = p; PBT_EQ(cf.WriteFieldToBuffer(def, &p, cap), want.size(), "bytes written", AT); PBT_CHECK(p == p0 + want.size() && cap == slack, "position after the write", AT);
            if (!want.empty())
            {
                size_t n = s.draw(want.size() - 1); std::unique_ptr<std::byte[]> sm(new std::byte[n ? n : 1]); memset(sm.get(), 0x5a, n ? n : 1); size_t wr = 0;
                if (!threw([&] { wr = cf.WriteFieldToBuffer(def, sm.get(), n); })) PBT_EQ(wr, size_t(0), "bytes written to a buffer that is too small", AT);
                for (size_t k = 0; k < n; ++k) PBT_CHECK(sm[k] == std::byte(0x5a), "a buffer that is too small was written", AT);
            }
        }
    }
    if (cf.GetFieldInfo())
    {
        size_t i = 0; for (const auto& [def, var] : cf) { PBT_CHECK(i < fs.size() && def.get() == info.messageOrderedFields[i].get(), "iteration"); Val v; auto& f = fs[i]; if (f.kind == K::ROWS) v = extractRows(var, f, *dynamic_cast<const ne::FieldArrayField&>(*def).fieldInfo); else { addVariant(v, var); if (f.kind == K::STR) v.e.clear(); } string df = diff({f}, {b[i]}, {v}); PBT_CHECK(df.empty(), "iterated value ", df, AT); ++i; }
        PBT_EQ(i, fs.size(), "number of fields iterated");
        PBT_CHECK(threw([&] { (void)cf.GetFieldValueByName<uint32_t>("no such field"); }), "unknown field name");
    }
}
PBT_GROUP(read, 60000, 200000)
{
    Case c; Opt o; o.boolArrays = false; o.maxFields = 7; genCase(src, c, o); ctx.feed(c.msg); ctx.note(defText(*c.fs)); ctx.mark(!allFixed(*c.fs)); for (auto& f : *c.fs) ctx.label(kindName(f.kind));
    oem::MetaDataStruct md; Hdr h; auto cf = decodeCase(c, md, h, src.draw(3));
    PBT_CHECK(cf.GetFieldInfo() != nullptr, "no field info"); checkRead(src, cf, *c.fs, c.b, *cf.GetFieldInfo());
}

// ---------------------------------------------------------------- histories of writes
struct Entry { ne::CompositeField cf; Body b; };
static ne::FieldValueVariant makeRows(Src& s, const Fld& f, const ne::FieldInfo& sub, const vector<Body>& rows);
static void store(Src& s, ne::CompositeField& cf, const Fld& f, const ne::BaseField& def, const Val& v)
{
    switch (f.kind)
    {
    case K::SIMPLE: case K::ENUM:
        typed(f, [&](auto tag) { using X = decltype(tag); X x = fromBits<X>(v.e[0]); switch (s.draw(2)) { case 0: cf.SetFieldValue<true>(def.index, x); break; case 1: cf.SetFieldValue<true>(def.index, &x, 1); break; default: cf.SetFieldValue(def, X(x)); } });
        break;
    case K::FIXED:
        typed(f, [&](auto tag) {
            using X = decltype(tag);
            if constexpr (!std::is_same_v<X, bool>)
            {
                vector<X> x; for (auto e : v.e) x.push_back(fromBits<X>(e));
                switch (s.draw(3))
                {
                case 0: cf.SetFieldValue<true>(def.index, x.data(), x.size()); break;
                case 1: cf.SetFieldValue<true>(def.index, vector<X>(x)); break;
                case 2: { vector<std::byte> raw(x.size() * sizeof(X) + 1); memcpy(raw.data() + 1, x.data(), x.size() * sizeof(X)); cf.SetFieldValue(def, ne::TypedBuffer<X>(raw.data() + 1, x.size())); break; }
                default: for (size_t k = 0; k < x.size(); ++k) cf.SetArrayElement(def, k, x[k]);
                }
            } });
        break;
    case K::VAR:
        typed(f, [&](auto tag) {
            using X = decltype(tag);
            if constexpr (!std::is_same_v<X, bool>)
            {
                vector<X> x; for (auto e : v.e) x.push_back(fromBits<X>(e));
                switch (s.draw(x.empty() ? 1 : 2))
                {
                case 0: cf.SetFieldValue(def, vector<X>(x)); break;
                case 1: cf.SetFieldValue<false>(def.index, vector<X>(x)); break;
                default: cf.SetFieldValue<false>(def.index, x.data(), x.size());
                }
            } });
        break;
    case K::STR: if (s.coin()) cf.SetFieldValue(def, string(v.s)); else cf.SetFieldValue<false>(def.index, string(v.s)); break;
    case K::ROWS: {
        auto var = makeRows(s, f, *dynamic_cast<const ne::FieldArrayField&>(def).fieldInfo, v.rows);
        if (auto* p = std::get_if<ne::FlatFieldArray>(&var)) { if (s.coin()) cf.SetFieldValue(def, *p); else cf.SetFieldValue(def, std::move(*p)); }
        else { auto& q = std::get<ne::CompositeFieldArray>(var); if (s.coin()) cf.SetFieldValue(def, q); else cf.SetFieldValue(def, std::move(q)); }
        break;
    }
    }
}
static ne::FieldValueVariant makeRows(Src& s, const Fld& f, const ne::FieldInfo& sub, const vector<Body>& rows)
{
    if (allFixed(f.sub) && s.coin())
    {
        if (s.chance(1, 4)) { string w; for (auto& r : rows) refBinary(w, f.sub, r, false); vector<std::byte> by(w.size()); if (!w.empty()) memcpy(by.data(), w.data(), w.size()); return ne::FlatFieldArray(std::move(by), &sub); }
        ne::FlatFieldArray a(rows.size(), &sub);
        for (size_t r = 0; r < rows.size(); ++r)
            for (size_t k = 0; k < f.sub.size(); ++k)
            {
                auto& g = f.sub[k]; auto& gd = *sub.messageOrderedFields[k];
                typed(g, [&](auto tag) {
                    using X = decltype(tag);
                    if (g.kind != K::FIXED) { X x = fromBits<X>(rows[r][k].e[0]); if (s.coin()) a.SetFieldValue(r, gd, x); else a.SetFieldValue(r, gd.index, x); }
                    else if constexpr (!std::is_same_v<X, bool>) { vector<X> x; for (auto e : rows[r][k].e) x.push_back(fromBits<X>(e)); switch (s.draw(2)) { case 0: a.SetFieldValue(r, gd.index, x.data(), x.size()); break; case 1: a.SetFieldValue(r, gd.index, vector<X>(x)); break; default: a.SetFieldValue(r, gd, vector<X>(x)); } } });
            }
        if (s.chance(1, 8)) { size_t n = rows.size(), bs = a.ByteSize(); PBT_CHECK(threw([&] { a.SetFieldValue(n, 0, uint8_t(1)); }) || !bs, "write past the last row accepted"); }
        return a;
    }
    ne::CompositeFieldArray a; ne::FieldInfo::ConstPtr own; 
    for (auto& r : rows)
    {
        ne::CompositeField row(sub.fixedFieldBytes, sub.varFieldCount);
        for (size_t k = 0; k < f.sub.size(); ++k) store(s, row, f.sub[k], *sub.messageOrderedFields[k], r[k]);
        a.push_back(row);
    }
    return a;
}
PBT_GROUP(history, 25000, 90000)
{
    Case c; Opt o; o.boolArrays = false; o.maxFields = 6; o.lenRefs = false; o.big = 60; genCase(src, c, o); auto& fs = *c.fs; ctx.note(defText(fs)); ctx.feed(c.msg);
    oem::MetaDataStruct md; Hdr h; vector<Entry> pool; ne::FieldInfo::ConstPtr info;
    { auto cf = decodeCase(c, md, h, 0); info = cf.GetFieldInfo(); pool.push_back({cf, c.b}); }
    { ne::CompositeField e(info); pool.push_back({e, emptyBody(fs)}); }
    bool copied = false, after = false; string hist;
    auto all = [&](const string& op) { hist += op + ";"; for (size_t k = 0; k < pool.size(); ++k) { string df = diff(fs, pool[k].b, extract(pool[k].cf, fs, *info)); PBT_CHECK(df.empty(), "message ", k, ": ", df, " after ", op, " (history ", hist, ") ", defText(fs)); PBT_CHECK(pool[k].cf.GetFieldInfo() == info, "definition of message ", k, " lost after ", op); } };
    all("construction");
    size_t n = src.size(1, 14);
    for (size_t step = 0; step < n; ++step)
    {
        size_t k = src.draw(pool.size() - 1); auto& E = pool[k]; string K_ = std::to_string(k);
        size_t fi = src.draw(fs.size() - 1); auto& f = fs[fi]; auto& def = *info->messageOrderedFields[fi];
        switch (src.weighted({8, 3, 2, 3, 2, 1, 1, 1, 1, 2}))
        {
        case 0: { Body nb = genBody(src, fs, o, c.d); store(src, E.cf, f, def, nb[fi]); E.b[fi] = nb[fi]; after = after || copied; all("set " + f.name + " of " + K_); break; }
        case 1: // one element
            if ((f.kind == K::FIXED || f.kind == K::VAR) && !E.b[fi].e.empty())
            {
                Body nb = genBody(src, fs, o, c.d); size_t i = src.draw(E.b[fi].e.size() - 1); uint64_t e = nb[fi].e.empty() ? 0 : nb[fi].e[src.draw(nb[fi].e.size() - 1)];
                typed(f, [&](auto tag) { using X = decltype(tag); X x = fromBits<X>(e); if (f.kind == K::FIXED) E.cf.SetArrayElement<true>(def, i, x); else E.cf.SetArrayElement<false>(def, i, x); });
                E.b[fi].e[i] = e; after = after || copied; all("set element " + std::to_string(i) + " of " + f.name + " of " + K_);
            }
            break;
        case 2: // rejected writes leave everything as it was
        {
            bool t = true;
            switch (src.draw(5))
            {
            case 0: if (f.kind == K::FIXED) typed(f, [&](auto tag) { using X = decltype(tag); t = threw([&] { E.cf.SetArrayElement<true>(def, f.arr + src.draw(2), X{}); }); });
                    else if (f.kind == K::VAR) typed(f, [&](auto tag) { using X = decltype(tag); t = threw([&] { E.cf.SetArrayElement<false>(def, E.b[fi].e.size() + src.draw(2), X{}); }); }); break;
            case 1: t = threw([&] { E.cf.SetFieldValue<true>(info->fixedFieldBytes - std::min<size_t>(info->fixedFieldBytes, src.draw(3)), uint32_t(0x11111111)); }); break;
            case 2: t = threw([&] { E.cf.SetFieldValue<false>(info->varFieldCount + src.draw(2), vector<uint16_t>{1, 2}); }); break;
            case 3: t = threw([&] { E.cf.SetFieldValue<false>(info->varFieldCount + src.draw(2), string("x")); }); break;
            case 4: { vector<uint8_t> big(info->fixedFieldBytes + 1 + src.draw(4), 0x33); t = threw([&] { E.cf.SetFieldValue<true>(0, big.data(), big.size()); }); break; }
            default: if (f.kind == K::STR || f.kind == K::VAR) t = threw([&] { E.cf.SetFieldValue(def, uint32_t(3)); }); else if (f.kind == K::ROWS) t = threw([&] { E.cf.SetFieldValue(def, string("x")); }); else t = threw([&] { E.cf.SetFieldValue(def, string("x")); });
            }
            PBT_CHECK(t, "an invalid write was accepted ", defText(fs)); all("rejected write to " + K_); break;
        }
        case 3: if (pool.size() < 6) { pool.push_back(Entry(E)); copied = true; all("copy of " + K_); } break;
        case 4: { size_t j = src.draw(pool.size() - 1); pool[j].cf = E.cf; pool[j].b = Body(E.b); copied = true; all("assign " + K_ + " to " + std::to_string(j)); break; }
        case 5: { ne::CompositeField t = std::move(E.cf); E.cf = std::move(t); all("moved away and back " + K_); break; }
        case 6: { size_t j = src.draw(pool.size() - 1); std::swap(pool[j].cf, E.cf); std::swap(pool[j].b, E.b); all("swap"); break; }
        case 7: if (pool.size() > 2) { pool.erase(pool.begin() + long(k)); all("erase " + K_); } break;
        case 8: { vector<Entry> cp = pool; pool.swap(cp); cp.clear(); copied = true; all("pool copied"); break; }
        default: // a row array taken out of one message and put, changed, into another
            if (f.kind == K::ROWS)
            {
                size_t j = src.draw(pool.size() - 1); auto var = E.cf.GetFieldValueVariant(def); auto rows = E.b[fi].rows; auto& sub = *dynamic_cast<const ne::FieldArrayField&>(def).fieldInfo;
                if (!rows.empty())
                {
                    size_t r = src.draw(rows.size() - 1), sk = src.draw(f.sub.size() - 1); auto& g = f.sub[sk]; Body nb = genBody(src, f.sub, o, c.d);
                    if (auto* p = std::get_if<ne::FlatFieldArray>(&var)) { if (g.kind != K::FIXED) typed(g, [&](auto tag) { using X = decltype(tag); p->SetFieldValue(r, *sub.messageOrderedFields[sk], fromBits<X>(nb[sk].e[0])); rows[r][sk] = nb[sk]; }); }
                    else { store(src, std::get<ne::CompositeFieldArray>(var)[r], g, *sub.messageOrderedFields[sk], nb[sk]); rows[r][sk] = nb[sk]; }
                }
                all("changed a copy of the rows of " + K_);
                if (auto* p = std::get_if<ne::FlatFieldArray>(&var)) pool[j].cf.SetFieldValue(def, *p); else pool[j].cf.SetFieldValue(def, std::get<ne::CompositeFieldArray>(var));
                pool[j].b[fi].rows = rows; after = after || copied; all("rows of " + K_ + " changed and stored in " + std::to_string(j));
            }
        }
    }
    ctx.mark(!allFixed(fs) || after); if (after) ctx.label("changed after copying"); ctx.label("steps " + std::to_string(n / 5 * 5));
    { size_t k = src.draw(pool.size() - 1); checkRead(src, pool[k].cf, fs, pool[k].b, *info); }
    oem::Encoder enc(c.d.db);
    for (auto& E : pool)
    {
        Hdr hh = h; auto e = encode(enc, hh, E.cf, ne::HEADER_FORMAT::BINARY, ne::ENCODE_FORMAT::BINARY, 60000); string want = refBinMsg(hh, fs, E.b, false, false);
        PBT_CHECK(e.st == ne::STATUS::SUCCESS && e.msg == want, "encoding of an edited message: ", int(e.st), " ", pbt::hex(e.msg, 120), " instead of ", pbt::hex(want, 120), " (history ", hist, ") ", defText(fs));
    }
    // the messages outlive the database they were decoded with
    std::weak_ptr<ne::MessageDatabase> w = c.d.db; c.d.db.reset(); info.reset();
    for (auto& E : pool) { string df = diff(fs, E.b, extract(E.cf, fs, *E.cf.GetFieldInfo())); PBT_CHECK(df.empty(), "without the database: ", df); }
}
