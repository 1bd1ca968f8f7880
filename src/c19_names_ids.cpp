// C19: message names, identifiers and enumerators translate consistently.
// LIBS: common dcommon oem
#include "casegen.hpp"
using namespace model;
PBT_PROPERTY("C19", "random identifiers packed and unpacked, random databases whose message names are translated to identifiers and back for every format, sibling and response flag, random enumerations translated both ways, and arbitrary name strings; "
                    "non-trivial = sibling or response present, several enumerators, or a name that is a variation of a defined one")
PBT_GROUP(pack, 300000, 4000000)
{
    uint32_t id = uint32_t(src.edgy(16)), sibl = uint32_t(src.draw(31)), fm = uint32_t(src.draw(3)), rs = uint32_t(src.draw(1)); ctx.mark(sibl || rs); ctx.feed(num("%u %u %u %u", id, sibl, fm, rs));
    uint32_t v = CreateMsgId(id, sibl, fm, rs); PBT_EQ(v, id | sibl << 16 | fm << 21 | rs << 23, "message number in bits 0-15, sibling in 16-20, format in 21-22, response in 23");
    uint16_t i2 = 0; uint32_t s2 = 0, f2 = 0, r2 = 0; UnpackMsgId(v, i2, s2, f2, r2); PBT_EQ(uint32_t(i2), id, "id"); PBT_EQ(s2, sibl, "sibling"); PBT_EQ(f2, fm, "format"); PBT_EQ(r2, rs, "response");
    PBT_EQ(unsigned(PackMsgType(sibl, fm, rs)), sibl | fm << 5 | rs << 7, "message type");
    uint32_t any = uint32_t(src.edgy(32)); UnpackMsgId(any, i2, s2, f2, r2); PBT_EQ(CreateMsgId(i2, s2, f2, r2), any & 0xffffff, "repacked");
}
static string suffixed(const string& name, unsigned fm, unsigned rs, unsigned sb) { return name + (rs ? "R" : fm == 0 ? "B" : fm == 1 ? "A" : "") + (sb ? "_" + std::to_string(sb) : ""); }
PBT_GROUP(names, 100000, 1000000)
{
    Opt o; o.maxFields = 1; o.depth = 0; Db d = genDb(src, o, src.size(1, 5)); string log;
    for (size_t k = 0; k < 12; ++k)
    {
        auto& m = d.msgs[src.draw(d.msgs.size() - 1)]; unsigned fm = unsigned(src.draw(2)), rs = src.chance(1, 4), sb = src.coin() ? unsigned(src.draw(31)) : 0;
        if (rs) fm = 1; // the name of a response does not tell its format
        uint32_t id = CreateMsgId(m.id, sb, fm, rs); string name = suffixed(m.name, fm, rs, sb); ctx.mark(sb || rs); log += name + " ";
        PBT_EQ(d.db->MsgIdToMsgName(id), name, "name of identifier ", id); PBT_EQ(d.db->MsgNameToMsgId(name), id, "identifier of name ", name);
        PBT_EQ(d.db->MsgNameToMsgId(d.db->MsgIdToMsgName(id)), id, "there and back");
        auto def = d.db->GetMsgDef(m.name); PBT_CHECK(def && def->logID == m.id && def == d.db->GetMsgDef(int32_t(m.id)), "definition of ", m.name);
    }
    // names that are not those of a defined message have no identifier
    auto& m = d.msgs[0]; string bad;
    switch (src.draw(8))
    {
    case 0: bad = m.name + "_"; break; case 1: bad = m.name + "_X"; break; case 2: bad = m.name + "AA"; break; case 3: bad = ""; break; case 4: bad = m.name + "A_1_2"; break;
    case 5: bad = m.name + "_123"; break; case 6: bad = "_" + std::to_string(src.draw(31)); break; case 7: bad = m.name + "_-1"; break; default: bad = src.over("ABR_0123456789", src.draw(8));
    }
    bool defined = false;
    for (auto& x : d.msgs)
    {
        string b = bad; size_t u = b.rfind('_'); if (u != string::npos && b.size() > u + 1 && b.size() <= u + 3 && b.find_first_not_of("0123456789", u + 1) == string::npos) b = b.substr(0, u);
        defined |= b == x.name || b == x.name + "A" || b == x.name + "B" || b == x.name + "R";
    }
    if (!defined) PBT_EQ(d.db->MsgNameToMsgId(bad), 0u, "identifier of the undefined name \"", bad, "\"");
    uint32_t un = uint32_t(src.draw(65535)); if (!d.byId(un)) PBT_EQ(d.db->MsgIdToMsgName(CreateMsgId(un, 0, 2, 0)), string("UNKNOWN"), "name of undefined id ", un);
    ctx.feed(log);
}
PBT_GROUP(enumerators, 200000, 2000000)
{ // every enumerator translates both ways, also after copying and moving the definition; others are reported as unknown
    size_t n = src.size(0, 12); vector<ne::EnumDataType> v; std::map<uint32_t, string> byV; std::map<string, uint32_t> byN, byD; uint32_t mx = 0;
    for (size_t i = 0; i < n; ++i)
    {
        uint32_t x = uint32_t(src.chance(1, 3) ? src.edgy(31) : src.draw(20)); if (x == 0x7fffffff) --x; string nm = src.alnum(src.size(1, 20)), de = src.alnum(src.draw(6));
        if (byV.count(x) || byN.count(nm) || byD.count(de)) continue; byV[x] = nm; byN[nm] = x; byD[de] = x; v.push_back({x, nm, de}); mx = std::max(mx, x);
    }
    auto def = std::make_shared<ne::EnumDefinition>("id", "Name", v);
    switch (src.draw(4))
    {
    case 0: { auto c = std::make_shared<ne::EnumDefinition>(*def); def = c; break; }
    case 1: { auto c = std::make_shared<ne::EnumDefinition>(std::move(*def)); def = c; break; }
    case 2: { auto c = std::make_shared<ne::EnumDefinition>("x", "Y", vector<ne::EnumDataType>{{1, "OLD", "OLD"}}); *c = *def; def = c; break; }
    case 3: { auto c = std::make_shared<ne::EnumDefinition>("x", "Y", vector<ne::EnumDataType>{{1, "OLD", "OLD"}}); *c = std::move(*def); def = c; break; }
    }
    PBT_CHECK(def->_id == "id" && def->name == "Name" && def->enumerators == v, "definition"); ne::EnumDefinition::ConstPtr cp = def; ctx.mark(v.size() > 1);
    for (auto& e : v)
    {
        PBT_EQ(string(GetEnumString(def.get(), e.value)), e.name, "name of ", e.value); PBT_EQ(string(GetEnumString(cp, e.value)), e.name, "name of ", e.value);
        PBT_EQ(uint32_t(GetEnumValue(def.get(), e.name)), e.value, "value of ", e.name); PBT_EQ(uint32_t(GetEnumValue(cp, e.name)), e.value, "value of ", e.name);
        PBT_EQ(uint32_t(GetResponseId(def.get(), e.description)), e.value, "value of description ", e.description); PBT_EQ(uint32_t(GetResponseId(cp, e.description)), e.value, "description");
        ctx.feed(e.name);
    }
    for (int k = 0; k < 4; ++k)
    {
        string u = src.coin() ? src.alnum(src.draw(4)) : v.empty() ? "" : v[0].name + src.over("X", src.draw(1)); uint32_t x = uint32_t(src.coin() ? src.draw(22) : src.edgy(32));
        if (!byN.count(u)) { auto g = uint32_t(GetEnumValue(cp, u)); PBT_CHECK(!byV.count(g), "the undefined name \"", u, "\" is given the value ", g, " of the enumerator ", byV.count(g) ? byV[g] : string()); PBT_EQ(g, mx + 1, "placeholder"); }
        if (!byV.count(x)) PBT_EQ(string(GetEnumString(cp, x)), string("UNKNOWN"), "name of undefined value ", x);
        if (!byD.count(u)) PBT_EQ(GetResponseId(cp, u), 0, "response id of undefined description");
    }
    ne::EnumDefinition::ConstPtr none; PBT_EQ(string(GetEnumString(none, 1)), string("UNKNOWN"), "no definition"); PBT_EQ(GetEnumValue(none, "A"), 0, "no definition"); PBT_EQ(GetResponseId(none, "A"), 0, "no definition");
}
PBT_GROUP(tables, 50, 200)
{ // the names of data types and field types
    for (auto& [n, t] : ne::DataTypeEnumLookup) { PBT_EQ(string(ne::DataTypeToString(t)), n, "data type name"); ne::BaseField f("x", ne::FIELD_TYPE::SIMPLE, "", t); PBT_EQ(size_t(f.dataType.length), ne::DataTypeSize(t), "length"); }
    for (auto& [n, t] : ne::FieldTypeEnumLookup) PBT_EQ(string(ne::FieldTypeToString(t)), n, "field type name");
    static const std::map<string, size_t> kSize = {{"BOOL", 4}, {"HEXBYTE", 1}, {"CHAR", 1}, {"UCHAR", 1}, {"SHORT", 2}, {"USHORT", 2}, {"INT", 4}, {"UINT", 4}, {"LONG", 4}, {"ULONG", 4}, {"LONGLONG", 8}, {"ULONGLONG", 8}, {"FLOAT", 4}, {"DOUBLE", 8}, {"SATELLITEID", 4}, {"UNKNOWN", 0}};
    PBT_EQ(kSize.size(), ne::DataTypeEnumLookup.size(), "number of data types"); for (auto& [n, s] : kSize) { auto it = ne::DataTypeEnumLookup.find(n); PBT_CHECK(it != ne::DataTypeEnumLookup.end() && ne::DataTypeSize(it->second) == s, "size of ", n); }
    ctx.mark(true); ctx.feed(num("%llu", (unsigned long long)src.draw(1000000)));
}
