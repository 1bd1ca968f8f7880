// C20: editing a message database behaves like editing a dictionary; layouts follow the message family however the database was assembled.
// LIBS: common dcommon oem
#include "casegen.hpp"
using namespace model;
PBT_PROPERTY("C20", "histories of append, remove, merge, set-family and copy operations over small pools of message and enumeration definitions with shared names and identifiers, every lookup compared with ordered lists after each step; "
                    "and binary messages decoded and re-encoded through databases assembled in different ways; non-trivial = history that replaced or removed a present definition / message with a field array or an enumeration");
struct MRec { uint32_t id; string name; uint32_t tag; }; // tag identifies the content of a definition
struct ERec { string id, name; uint32_t tag; };
static ne::EnumDefinition::ConstPtr mkEnum(const ERec& e) { return std::make_shared<const ne::EnumDefinition>(e.id, e.name, vector<ne::EnumDataType>{{0, "ZERO", "z"}, {e.tag + 1, "TAG" + std::to_string(e.tag), "t"}}); }
static uint32_t tagOf(const ne::EnumDefinition& e) { return e.enumerators.at(1).value - 1; }
static ne::MessageDefinition::ConstPtr mkMsg(const MRec& m, const string& enumId)
{
    auto mk = [&](bool more) {
        vector<ne::BaseField::Ptr> fs; fs.push_back(std::make_shared<ne::BaseField>("tag", ne::FIELD_TYPE::SIMPLE, "%hd", ne::DATA_TYPE::SHORT));
        auto ef = std::make_shared<ne::EnumField>("en", ne::FIELD_TYPE::ENUM, "%d", ne::DATA_TYPE::ULONG, enumId); fs.push_back(ef);
        if (more) { vector<ne::BaseField::Ptr> sub; sub.push_back(std::make_shared<ne::BaseField>("a", ne::FIELD_TYPE::SIMPLE, "%c", ne::DATA_TYPE::CHAR)); sub.push_back(std::make_shared<ne::EnumField>("b", ne::FIELD_TYPE::ENUM, "%d", ne::DATA_TYPE::ULONG, enumId));
            auto fa = std::make_shared<ne::FieldArrayField>("rows", ne::FIELD_TYPE::FIELD_ARRAY, "", ne::DATA_TYPE::UNKNOWN, 3, ne::BuildFieldInfo(sub)); fa->arrayLengthFieldSize = 4; fs.push_back(fa); }
        return ne::BuildFieldInfo(fs);
    };
    std::unordered_map<uint32_t, ne::FieldInfo::ConstPtr> fi; fi[m.tag] = mk(m.tag & 1); if (m.tag & 2) fi[m.tag + 1000] = mk(true);
    return std::make_shared<const ne::MessageDefinition>("m" + std::to_string(m.id), m.id, m.name, "about", m.tag, fi);
}
struct World { vector<MRec> ms; vector<ERec> es; std::map<uint32_t, int> dummy; };
static void check(const ne::MessageDatabase& db, const World& w, const vector<string>& mNames, const vector<string>& eNames, const vector<string>& eIds, bool mapped, const string& log, const string& which)
{
    auto at = " (" + which + ") after" + log;
    PBT_EQ(db.MessageDefinitions().size(), w.ms.size(), "number of messages", at); PBT_EQ(db.EnumDefinitions().size(), w.es.size(), "number of enumerations", at);
    for (size_t i = 0; i < w.ms.size(); ++i) { auto& m = *db.MessageDefinitions()[i]; PBT_CHECK(m.logID == w.ms[i].id && m.name == w.ms[i].name && m.latestMessageCrc == w.ms[i].tag, "message ", i, at); }
    for (size_t i = 0; i < w.es.size(); ++i) { auto& e = *db.EnumDefinitions()[i]; PBT_CHECK(e._id == w.es[i].id && e.name == w.es[i].name && tagOf(e) == w.es[i].tag, "enumeration ", i, at); }
    for (uint32_t id = 0; id < 8; ++id)
    {
        const MRec* want = nullptr; for (auto& m : w.ms) if (m.id == id) want = &m;
        auto got = db.GetMsgDef(int32_t(id)); PBT_CHECK(bool(got) == bool(want), "message ", id, want ? " is not found" : " is still found", at); if (got) PBT_CHECK(got->latestMessageCrc == want->tag && got->logID == id, "another definition is found for id ", id, at);
    }
    for (auto& n : mNames)
    {
        const MRec* want = nullptr; for (auto& m : w.ms) if (m.name == n) want = &m;
        auto got = db.GetMsgDef(n); PBT_CHECK(bool(got) == bool(want), "message ", n, want ? " is not found" : " is still found", at); if (got) PBT_CHECK(got->latestMessageCrc == want->tag && got->logID == want->id && got->name == n, "another definition is found for ", n, at);
        PBT_EQ(db.MsgNameToMsgId(n) & 0xffff, want ? want->id : 0, "identifier of ", n, at);
    }
    for (auto& n : eNames) { const ERec* want = nullptr; for (auto& e : w.es) if (e.name == n) want = &e; auto got = db.GetEnumDefName(n); PBT_CHECK(bool(got) == bool(want), "enumeration ", n, want ? " is not found" : " is still found", at); if (got) PBT_CHECK(tagOf(*got) == want->tag && got->name == n, "another enumeration is found for ", n, at); }
    for (auto& n : eIds) { const ERec* want = nullptr; for (auto& e : w.es) if (e.id == n) want = &e; auto got = db.GetEnumDefId(n); PBT_CHECK(bool(got) == bool(want), "enumeration id ", n, want ? " is not found" : " is still found", at); if (got) PBT_CHECK(tagOf(*got) == want->tag && got->_id == n, "another enumeration is found for id ", n, at); }
    if (!mapped) return;
    std::function<void(const ne::FieldInfo&)> fields = [&](const ne::FieldInfo& fi) {
        for (auto& f : fi.messageOrderedFields)
        {
            if (auto* ef = dynamic_cast<const ne::EnumField*>(f.get())) PBT_CHECK(ef->enumDef == db.GetEnumDefId(ef->enumId), "field ", ef->name, " refers to another enumeration than the one with its identifier", at);
            if (auto* fa = dynamic_cast<const ne::FieldArrayField*>(f.get())) fields(*fa->fieldInfo);
        }
    };
    for (auto& m : db.MessageDefinitions())
    {
        for (auto& [crc, fi] : m->fieldInfo) { fields(*fi); PBT_CHECK(&m->GetMsgDefFromCrc(crc) == fi.get(), "definition by checksum", at); }
        PBT_CHECK(&m->GetMsgDefFromCrc(77777) == m->fieldInfo.at(m->latestMessageCrc).get(), "an unknown checksum selects the latest definition", at);
    }
}
PBT_GROUP(history, 60000, 600000)
{
    const vector<string> mNames = {"AAX", "BBX", "CCX", "DDX"}, eNames = {"EnA", "EnB", "EnC"}, eIds = {"i1", "i2", "i3"};
    uint32_t tag = uint32_t(src.draw(3)); string log; bool touched = false;
    auto newM = [&] { MRec m{uint32_t(src.range(1, 6)), src.pick(mNames), 0}; tag += 1 + uint32_t(src.draw(3)); m.tag = tag; return m; }; auto newE = [&] { ERec e{src.pick(eIds), src.pick(eNames), 0}; e.tag = ++tag; return e; };
    auto appendM = [&](World& w, const MRec& m) { for (size_t i = 0; i < w.ms.size(); ++i) if (w.ms[i].id == m.id) { w.ms.erase(w.ms.begin() + long(i)); touched = true; break; } w.ms.push_back(m); };
    auto appendE = [&](World& w, const ERec& e) { for (size_t i = 0; i < w.es.size(); ++i) if (w.es[i].name == e.name) { w.es.erase(w.es.begin() + long(i)); touched = true; break; } w.es.push_back(e); };
    auto build = [&](World& w) { // initial contents: unique message ids and enumeration names
        vector<ne::MessageDefinition::ConstPtr> ms; vector<ne::EnumDefinition::ConstPtr> es; size_t a = src.draw(3), b = src.draw(3);
        for (size_t i = 0; i < a; ++i) { MRec m = newM(); bool dup = false; for (auto& x : w.ms) dup |= x.id == m.id; if (dup) continue; w.ms.push_back(m); ms.push_back(mkMsg(m, src.pick(eIds))); }
        for (size_t i = 0; i < b; ++i) { ERec e = newE(); bool dup = false; for (auto& x : w.es) dup |= x.name == e.name; if (dup) continue; w.es.push_back(e); es.push_back(mkEnum(e)); }
        return std::make_shared<ne::MessageDatabase>(ms, es);
    };
    World w; auto db = build(w); check(*db, w, mNames, eNames, eIds, true, log, "as constructed"); size_t n = src.size(1, 12);
    std::shared_ptr<ne::MessageDatabase> copy; World copyW;
    for (size_t k = 0; k < n; ++k)
    {
        bool mapped = true;
        switch (src.weighted({5, 4, 4, 3, 2, 1, 1}))
        {
        case 0: { vector<ne::MessageDefinition::ConstPtr> v; size_t c = src.size(1, 3); log += " append("; for (size_t i = 0; i < c; ++i) { MRec m = newM(); v.push_back(mkMsg(m, src.pick(eIds))); appendM(w, m); log += num("%u %s,", m.id, m.name.c_str()); } db->AppendMessages(v); log += ")"; v.clear(); break; }
        case 1: { vector<ne::EnumDefinition::ConstPtr> v; size_t c = src.size(1, 3); log += " appendEnums("; for (size_t i = 0; i < c; ++i) { ERec e = newE(); v.push_back(mkEnum(e)); appendE(w, e); log += e.id + " " + e.name + ","; } db->AppendEnumerations(v); log += ")"; break; }
        case 2: { uint32_t id = uint32_t(src.range(1, 6)); db->RemoveMessage(id); for (size_t i = 0; i < w.ms.size(); ++i) if (w.ms[i].id == id) { w.ms.erase(w.ms.begin() + long(i)); touched = true; break; } log += num(" remove(%u)", id); mapped = false; break; }
        case 3: { string nm = src.pick(eNames); db->RemoveEnumeration(nm); for (size_t i = 0; i < w.es.size(); ++i) if (w.es[i].name == nm) { w.es.erase(w.es.begin() + long(i)); touched = true; break; } log += " removeEnum(" + nm + ")"; mapped = false; break; }
        case 4: { World o; auto other = build(o); db->Merge(*other); for (auto& e : o.es) appendE(w, e); for (auto& m : o.ms) appendM(w, m); log += num(" merge(%zu messages,%zu enums)", o.ms.size(), o.es.size()); check(*other, o, mNames, eNames, eIds, false, log, "merged from"); break; }
        case 5: db->SetMessageFamily(src.pick({"OEM", "", "OTHER"})); log += " setFamily"; break;
        default: copy = std::make_shared<ne::MessageDatabase>(*db); copyW = w; log += " copy"; mapped = false; break;
        }
        check(*db, w, mNames, eNames, eIds, mapped, log, "edited");
        if (copy) check(*copy, copyW, mNames, eNames, eIds, false, log, "earlier copy");
    }
    ctx.feed(log); ctx.mark(touched);
}
static string noMeta(const string& j) { size_t a = j.find("\"meta\""), b = j.find("\"enums\""); PBT_CHECK(a != string::npos && b > a, "meta"); return j.substr(0, a) + j.substr(b); }
PBT_GROUP(assembled, 40000, 300000)
{ // the same definitions give the same decoding however they came into the database
    Opt o; Case c; genCase(src, c, o); string j = c.d.json(); auto direct = ne::ParseJsonDb(j); ne::MessageDatabase::Ptr db; string how;
    switch (src.draw(4))
    {
    case 0: db = ne::ParseJsonDb(noMeta(j)); db->SetMessageFamily("OEM"); how = "family set later"; break;
    case 1: { auto from = ne::ParseJsonDb(noMeta(j)); db = std::make_shared<ne::MessageDatabase>(vector<ne::MessageDefinition::ConstPtr>{}, vector<ne::EnumDefinition::ConstPtr>{}); db->SetMessageFamily("OEM"); db->Merge(*from); how = "merged from a database without family"; break; }
    case 2: { db = std::make_shared<ne::MessageDatabase>(); db->SetMessageFamily("OEM"); db->AppendMessages(direct->MessageDefinitions()); db->AppendEnumerations(direct->EnumDefinitions()); how = "messages appended before enumerations"; break; }
    case 3: db = std::make_shared<ne::MessageDatabase>(*direct); db->Merge(*ne::ParseJsonDb(noMeta(j))); how = "merged over itself"; break;
    default: { db = ne::ParseJsonDb(j); auto e = *db->GetEnumDefName(c.d.enums.back().name); db->RemoveEnumeration(e.name); db->AppendEnumerations({std::make_shared<const ne::EnumDefinition>(e)}); uint32_t id = c.m->id; auto m = db->GetMsgDef(int32_t(id)); db->RemoveMessage(id); PBT_CHECK(!db->GetMsgDef(int32_t(id)), "removed"); db->AppendMessages({m}); how = "removed and appended"; break; }
    }
    ctx.label(how); ctx.feed(c.msg); bool rich = false; for (auto& f : *c.fs) rich |= f.kind == K::ROWS || f.kind == K::ENUM; ctx.mark(rich);
    for (auto& def : direct->MessageDefinitions()) { auto g = db->GetMsgDef(int32_t(def->logID)); PBT_CHECK(g && *g == *def, "definition of ", def->name, " differs, ", how); }
    Db d2 = c.d; d2.db = db; Case c2 = c; c2.d.db = db; oem::MetaDataStruct md; Hdr h; auto cf = decodeCase(c2, md, h, 0); auto& fi = db->GetMsgDef(int32_t(c.m->id))->GetMsgDefFromCrc(md.uiMessageCrc);
    auto got = extract(cf, *c.fs, fi); PBT_CHECK(diff(*c.fs, c.b, got).empty(), "decoded values differ (", how, "): ", diff(*c.fs, c.b, got), " ", defText(*c.fs));
    oem::Encoder enc(db), enc0(direct); auto hf = c.shortForm ? ne::HEADER_FORMAT::SHORT_BINARY : ne::HEADER_FORMAT::BINARY; auto e = encode(enc, h, cf, hf, ne::ENCODE_FORMAT::BINARY);
    PBT_CHECK(e.st == ne::STATUS::SUCCESS && e.msg == c.msg, "re-encoded binary differs (", how, ")");
    Case c3 = c; c3.d.db = direct; oem::MetaDataStruct md3; Hdr h3; auto cf3 = decodeCase(c3, md3, h3, 0);
    for (auto ef : {ne::ENCODE_FORMAT::ASCII, ne::ENCODE_FORMAT::JSON}) { auto a = encode(enc, h, cf, hf, ef), b = encode(enc0, h3, cf3, hf, ef); PBT_CHECK(a.st == b.st && a.msg == b.msg, "text differs (", how, "): \"", pbt::esc(a.msg), "\" instead of \"", pbt::esc(b.msg), "\""); }
}
