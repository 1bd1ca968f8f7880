// C30: definitions and message records compare equal exactly when their content is equal, and copies are independent.
// LIBS: common dcommon oem
#include "model.hpp"
#include "novatel_edie/decoders/oem/common.hpp"
using namespace model;
PBT_PROPERTY("C30", "generated message definitions (nested field arrays, enumerations, several definition checksums), enumerations, metadata, headers and encoded-message records; each is copied, compared both ways, one attribute at a generated depth is changed and changed back; "
                    "non-trivial = the changed attribute belongs to a field (not to the message itself), to an enumeration with two enumerators, or to a record with a body")
namespace {
using F = ne::BaseField;
std::shared_ptr<F> mut(const F::ConstPtr& f) { return std::const_pointer_cast<F>(f); }
using Path = vector<std::pair<ne::FieldInfo*, size_t>>;
void collect(const ne::FieldInfo::ConstPtr& fi, vector<std::pair<ne::FieldInfo*, size_t>>& out)
{
    auto* p = const_cast<ne::FieldInfo*>(fi.get());
    for (size_t k = 0; k < p->messageOrderedFields.size(); ++k) { out.push_back({p, k}); if (auto a = std::dynamic_pointer_cast<const ne::FieldArrayField>(p->messageOrderedFields[k])) collect(a->fieldInfo, out); }
}
vector<std::pair<ne::FieldInfo*, size_t>> fieldsOf(const ne::MessageDefinition& m)
{
    vector<std::pair<ne::FieldInfo*, size_t>> v; vector<uint32_t> crcs; for (auto& [c, f] : m.fieldInfo) crcs.push_back(c);
    std::sort(crcs.begin(), crcs.end()); for (auto c : crcs) collect(m.fieldInfo.at(c), v); return v;
}
void same(const F& a, const F& b, const string& at)
{
    PBT_CHECK(typeid(a) == typeid(b), "the copy of ", at, a.name, " has another type");
    PBT_CHECK(a.name == b.name && a.type == b.type && a.description == b.description && a.conversion == b.conversion && a.conversionHash == b.conversionHash && a.width == b.width && a.precision == b.precision && a.isString == b.isString && a.isCsv == b.isCsv && a.dataType == b.dataType && a.index == b.index, "the copy of ", at, a.name, " differs");
    PBT_CHECK(&a != &b, "the copy of ", at, a.name, " is the original");
    if (auto* e = dynamic_cast<const ne::EnumField*>(&a)) { auto& o = static_cast<const ne::EnumField&>(b); PBT_CHECK(e->enumId == o.enumId && e->enumDef == o.enumDef, "the copy of ", at, a.name, " refers to another enumeration"); }
    if (auto* e = dynamic_cast<const ne::ArrayField*>(&a)) { auto& o = static_cast<const ne::ArrayField&>(b); PBT_CHECK(e->arrayLength == o.arrayLength && e->arrayLengthRef == o.arrayLengthRef && e->arrayLengthFieldSize == o.arrayLengthFieldSize, "the copy of ", at, a.name, " has other array attributes"); }
    if (auto* e = dynamic_cast<const ne::FieldArrayField*>(&a))
    {
        auto& o = static_cast<const ne::FieldArrayField&>(b); PBT_CHECK(e->fieldSize == o.fieldSize && e->fieldInfo != o.fieldInfo && e->fieldInfo->messageOrderedFields.size() == o.fieldInfo->messageOrderedFields.size() && e->fieldInfo->fixedFieldBytes == o.fieldInfo->fixedFieldBytes && e->fieldInfo->varFieldCount == o.fieldInfo->varFieldCount, "the copy of ", at, a.name, " has other elements");
        for (size_t k = 0; k < e->fieldInfo->messageOrderedFields.size(); ++k) same(*e->fieldInfo->messageOrderedFields[k], *o.fieldInfo->messageOrderedFields[k], at + a.name + ".");
    }
}
void equal(const ne::MessageDefinition& a, const ne::MessageDefinition& b, bool want, const string& what)
{
    PBT_CHECK((a == b) == want, what, want ? ": the definitions differ" : ": the definitions compare equal"); PBT_CHECK((b == a) == want, what, ": comparison is not symmetric"); PBT_CHECK((a != b) != want, what, ": == and != agree");
}
template <class T> void flip(T& x, const T& y, const std::function<void(bool)>& check) { T old = x; if (old == y) return; x = y; check(false); x = old; check(true); }
} // namespace
PBT_GROUP(definitions, 36000, 400000)
{
    Opt o; o.text = src.coin(); o.json = src.coin(); o.maxFields = 5; Db d = genDb(src, o, src.size(1, 3)); string text = d.json(); ctx.feed(text); d.load(); auto twin = ne::ParseJsonDb(text);
    const auto& defs = d.db->MessageDefinitions(); PBT_CHECK(!defs.empty(), "no definitions");
    for (auto& m : defs) { auto t = twin->GetMsgDef(int32_t(m->logID)); PBT_CHECK(bool(t), "a message is missing"); equal(*m, *t, true, "loaded twice"); for (auto& x : defs) equal(*m, *x, x == m, "messages " + m->name + " and " + x->name); }
    auto org = src.pick(defs); auto ref = twin->GetMsgDef(int32_t(org->logID));
    auto copy = std::make_shared<ne::MessageDefinition>(*org);
    if (src.coin()) { ne::MessageDefinition other(*src.pick(defs)); other = *org; auto* self = &other; other = *self; *copy = other; ne::MessageDefinition moved(std::move(other)); equal(moved, *org, true, "moved"); ctx.label("assigned"); }
    equal(*copy, *org, true, "copied");
    for (auto& [c, fi] : org->fieldInfo) { auto& g = copy->fieldInfo.at(c); PBT_CHECK(g != fi && g->fixedFieldBytes == fi->fixedFieldBytes && g->varFieldCount == fi->varFieldCount, "the copied definition ", c, " has other sizes"); for (size_t k = 0; k < fi->messageOrderedFields.size(); ++k) same(*fi->messageOrderedFields[k], *g->messageOrderedFields[k], org->name + "."); }
    auto check = [&](const string& what) { return [&, what](bool want) { equal(*copy, *org, want, what + (want ? " changed back" : " changed")); equal(*org, *ref, true, what + " of a copy changed, original"); }; };
    auto fs = fieldsOf(*copy); size_t n = src.size(1, 4);
    for (size_t k = 0; k < n; ++k)
    {
        if (fs.empty() || src.chance(1, 4))
        {
            switch (src.draw(5))
            {
            case 0: flip<string>(copy->_id, copy->_id + "x", check("_id")); break;
            case 1: flip<uint32_t>(copy->logID, uint32_t(src.draw(65535)), check("logID")); break;
            case 2: flip<string>(copy->name, src.coin() ? copy->name + "A" : "", check("name")); break;
            case 3: flip<string>(copy->description, copy->description + " ", check("description")); break;
            case 4: flip<uint32_t>(copy->latestMessageCrc, copy->latestMessageCrc ^ (1u << src.draw(31)), check("latestMessageCrc")); break;
            default: {
                auto old = copy->fieldInfo; uint32_t c = 0; vector<uint32_t> crcs; for (auto& [q, f] : old) { crcs.push_back(q); } std::sort(crcs.begin(), crcs.end()); c = src.pick(crcs);
                if (src.coin()) { copy->fieldInfo.erase(c); check("removed definition")(false); } else { copy->fieldInfo[c ^ 0x10] = copy->fieldInfo[c]; if (!old.count(c ^ 0x10)) { check("added definition")(false); copy->fieldInfo.erase(c); check("moved definition")(false); } }
                copy->fieldInfo = old; check("definitions")(true);
            }
            }
            ctx.label("message attribute"); continue;
        }
        ctx.mark(true); auto [fi, ix] = src.pick(fs); auto f = mut(fi->messageOrderedFields[ix]); string at = "field " + f->name + " "; ctx.label(fi == copy->fieldInfo.begin()->second.get() ? "field" : "field of another definition or element");
        switch (src.draw(11))
        {
        case 0: flip<string>(f->name, f->name + "_", check(at + "name")); break;
        case 1: flip<ne::FIELD_TYPE>(f->type, f->type == ne::FIELD_TYPE::UNKNOWN ? ne::FIELD_TYPE::SIMPLE : ne::FIELD_TYPE::UNKNOWN, check(at + "type")); break;
        case 2: flip<string>(f->description, f->description + "d", check(at + "description")); break;
        case 3: flip<string>(f->conversion, f->conversion == "%d" ? "%x" : "%d", check(at + "conversion")); break;
        case 4: flip<ne::DATA_TYPE>(f->dataType.name, f->dataType.name == ne::DATA_TYPE::INT ? ne::DATA_TYPE::UINT : ne::DATA_TYPE::INT, check(at + "data type")); break;
        case 5: flip<uint16_t>(f->dataType.length, uint16_t(f->dataType.length + 1), check(at + "data type length")); break;
        case 6: flip<string>(f->dataType.description, f->dataType.description + "d", check(at + "data type description")); break;
        case 7:
            if (auto a = std::dynamic_pointer_cast<ne::ArrayField>(f)) switch (src.draw(2)) { case 0: flip<uint32_t>(a->arrayLength, a->arrayLength + 1, check(at + "array length")); break; case 1: flip<string>(a->arrayLengthRef, a->arrayLengthRef + "r", check(at + "array length reference")); break; default: flip<uint8_t>(a->arrayLengthFieldSize, uint8_t(a->arrayLengthFieldSize + 1), check(at + "array length size")); }
            else if (auto e = std::dynamic_pointer_cast<ne::EnumField>(f)) flip<string>(e->enumId, e->enumId + "e", check(at + "enumeration"));
            break;
        case 8: { auto keep = fi->messageOrderedFields; fi->messageOrderedFields.erase(fi->messageOrderedFields.begin() + long(ix)); check(at + "removed")(false); fi->messageOrderedFields = keep; check(at)(true); break; }
        case 9: { auto keep = fi->messageOrderedFields; fi->messageOrderedFields.insert(fi->messageOrderedFields.begin() + long(ix), f->clone()); check(at + "repeated")(false); fi->messageOrderedFields = keep; check(at)(true); break; }
        case 10: { // another runtime type with the same attributes
            auto keep = fi->messageOrderedFields[ix]; std::shared_ptr<F> other; if (typeid(*f) == typeid(F)) other = std::make_shared<ne::EnumField>(); else other = std::make_shared<F>(); static_cast<F&>(*other) = static_cast<const F&>(*f); fi->messageOrderedFields[ix] = other; check(at + "class")(false); fi->messageOrderedFields[ix] = keep; check(at)(true); break; }
        default: // cached attributes do not count
            if (auto e = std::dynamic_pointer_cast<ne::EnumField>(f)) { auto keep = e->enumDef; e->enumDef = nullptr; equal(*copy, *org, true, at + "without resolved enumeration"); e->enumDef = keep; PBT_CHECK(keep != nullptr, at, "enumeration is not resolved in the copy"); }
            { auto c = f->clone(); same(*f, *c, at); PBT_CHECK(*c == *f && !(*c != *f), at, "clone differs"); c->name += "?"; PBT_CHECK(*c != *f, at, "changed clone compares equal"); }
        }
    }
    equal(*copy, *org, true, "all changed back");
}
PBT_GROUP(enumerations, 24000, 300000)
{
    using ET = ne::EnumDataType; vector<ET> es; size_t n = src.size(1, 6); std::set<uint32_t> vals; std::set<string> names;
    for (size_t k = 0; k < n; ++k) { ET e; e.value = uint32_t(src.coin() ? src.draw(40) : src.draw(0x7ffffffe)); e.name = src.alnum(src.size(1, src.coin() ? 4 : 40)); e.description = src.coin() ? "d" + e.name : src.alnum(src.size(1, 40)) + "#" + num("%zu", k); if (!vals.insert(e.value).second || !names.insert(e.name).second) continue; es.push_back(e); }
    string text; for (auto& e : es) text += e.name + "=" + num("%u ", e.value); ctx.feed(text); ctx.mark(es.size() >= 2); uint32_t top = 0; for (auto& e : es) top = std::max(top, e.value);
    auto verify = [&](const ne::EnumDefinition& d, const vector<ET>& want, const char* how) {
        PBT_CHECK(d.enumerators == want, how, ": other enumerators"); PBT_CHECK(d.nameValue.size() == want.size() && d.valueName.size() == want.size(), how, ": the lookup tables have other sizes"); uint32_t mx = 0;
        for (auto& e : want) { mx = std::max(mx, e.value); auto a = d.nameValue.find(e.name); PBT_CHECK(a != d.nameValue.end() && a->second == e.value, how, ": name ", e.name); auto b = d.valueName.find(e.value); PBT_CHECK(b != d.valueName.end() && b->second == e.name, how, ": value ", e.value); PBT_CHECK(d.descriptionValue.count(e.description), how, ": description ", e.description); }
        PBT_CHECK(d.unknownValue == mx + 1, how, ": unknown value ", d.unknownValue);
    };
    auto org = std::make_unique<ne::EnumDefinition>("id1", "name1", es); verify(*org, es, "constructed");
    auto copy = std::make_unique<ne::EnumDefinition>(*org); vector<ET> one{{7, "ONE", "one"}}; auto asg = std::make_unique<ne::EnumDefinition>("x", "y", one);
    if (src.coin()) { *asg = *org; auto& self = *asg; *asg = self; org.reset(); verify(*asg, es, "assigned"); PBT_CHECK(asg->_id == "id1" && asg->name == "name1", "assigned: other name"); ctx.label("assigned"); }
    else { org->enumerators[0].name = "CHANGED"; org->RebuildCaches(); org.reset(); }
    verify(*copy, es, "copied"); PBT_CHECK(copy->_id == "id1" && copy->name == "name1", "copied: other name");
    auto moved = std::make_unique<ne::EnumDefinition>(std::move(*copy)); copy.reset(); verify(*moved, es, "moved");
    ne::EnumDefinition target("x", "y", one); target = std::move(*moved); moved.reset(); verify(target, es, "moved by assignment");
    ET a = es[0], b = a; PBT_CHECK(a == b && !(a != b), "an enumerator differs from itself"); switch (src.draw(2)) { case 0: b.value ^= 1; break; case 1: b.name += "x"; break; default: b.description += "x"; } PBT_CHECK(a != b && !(a == b) && !(b == a), "changed enumerators compare equal");
    auto more = es; more[0].value = top + 1 < 0x7fffffff && !vals.count(top + 1) ? top + 1 : es[0].value; more[0].name = "N" + more[0].name + "_new"; target.enumerators = more; target.RebuildCaches(); verify(target, more, "rebuilt"); PBT_CHECK(!target.nameValue.count(es[0].name), "rebuilt: the earlier name is still found");
}
PBT_GROUP(records, 30000, 300000)
{
    // encoded messages
    size_t h = src.size(0, 30), b = src.size(0, 60), t = src.coin() ? h + b + 4 : src.size(0, 100); string m = src.bytes(h + b + 4 + t); ctx.mark(b > 0); ctx.feed(m);
    auto build = [&](Exact& x) { ne::MessageDataStruct s; s.pucMessageHeader = x.data(); s.uiMessageHeaderLength = uint32_t(h); s.pucMessageBody = x.data() + h; s.uiMessageBodyLength = uint32_t(b); s.pucMessage = x.data() + (t == h + b + 4 ? 0 : h + b + 4); s.uiMessageLength = uint32_t(t); return s; };
    Exact x(m), y(m); auto s = build(x), r = build(y); PBT_CHECK(s == r && r == s && !(s != r), "records over equal bytes differ");
    { size_t off = t == h + b + 4 ? 0 : h + b + 4; string z = m; size_t at = src.draw(m.empty() ? 0 : m.size() - 1); if (!z.empty()) { z[at] = char(z[at] ^ (1 << src.draw(7))); Exact q(z); auto c = build(q); bool inside = at < h + b || (at >= off && at < off + t); PBT_CHECK((s == c) == !inside && (c == s) == !inside && (s != c) == inside, "a changed byte ", at, inside ? " is not noticed" : " outside the record counts"); } }
    { auto c = r; switch (src.draw(2)) { case 0: if (h) { --c.uiMessageHeaderLength; PBT_CHECK(s != c && !(s == c) && !(c == s), "header lengths"); } break; case 1: if (b) { --c.uiMessageBodyLength; PBT_CHECK(s != c && !(c == s), "body lengths"); } break; default: if (t) { --c.uiMessageLength; PBT_CHECK(s != c && !(c == s), "message lengths"); } } }
    { ne::MessageDataStruct c(x.data(), uint32_t(h + b), uint32_t(h)); PBT_CHECK(c.pucMessage == x.data() && c.uiMessageLength == h + b && c.pucMessageHeader == x.data() && c.uiMessageHeaderLength == h && c.pucMessageBody == x.data() + h && c.uiMessageBodyLength == b, "the constructor splits the message elsewhere"); }
    // metadata
    oem::MetaDataStruct a; a.bResponse = src.coin(); a.eFormat = static_cast<ne::HEADER_FORMAT>(src.draw(10)); a.usWeek = uint16_t(src.draw(65535)); a.dMilliseconds = double(src.draw(604800000)); a.uiLength = uint32_t(src.draw(1000)); a.uiBinaryMsgLength = uint32_t(src.draw(1000)); a.uiHeaderLength = uint32_t(src.draw(100)); a.usMessageId = uint16_t(src.draw(65535)); a.uiMessageCrc = uint32_t(src.edgy(32)); a.messageName = src.alnum(src.size(0, 20)); a.ucSiblingId = uint8_t(src.draw(31)); a.eTimeStatus = static_cast<ne::TIME_STATUS>(20 * src.draw(10));
    oem::MetaDataStruct c = a; auto k = a.clone(); auto* kd = dynamic_cast<oem::MetaDataStruct*>(k.get()); PBT_CHECK(kd && *kd == a && kd->uiBinaryMsgLength == a.uiBinaryMsgLength, "the clone of metadata differs"); PBT_CHECK(c == a && a == c, "copied metadata differs"); const ne::MetaDataBase& base = a; PBT_CHECK(base == static_cast<const ne::MetaDataBase&>(c), "copied base metadata differs");
    bool baseOnly = true;
    switch (src.draw(10))
    {
    case 0: c.bResponse = !c.bResponse; break; case 1: c.eFormat = static_cast<ne::HEADER_FORMAT>(int(c.eFormat) + 1); break; case 2: c.usWeek ^= uint16_t(1u << src.draw(15)); break; case 3: c.dMilliseconds += double(src.range(1, 1000)) / 2; break; case 4: c.uiLength ^= 1u << src.draw(31); break;
    case 5: c.uiHeaderLength ^= 1u << src.draw(31); break; case 6: c.usMessageId ^= uint16_t(1u << src.draw(15)); break; case 7: c.uiMessageCrc ^= 1u << src.draw(31); break; case 8: c.messageName += "x"; break;
    case 9: c.ucSiblingId ^= 1; baseOnly = false; break; default: c.eTimeStatus = c.eTimeStatus == ne::TIME_STATUS::FINE ? ne::TIME_STATUS::COARSE : ne::TIME_STATUS::FINE; baseOnly = false; }
    PBT_CHECK(!(c == a) && !(a == c), "metadata with a changed attribute compares equal"); PBT_CHECK((base == static_cast<const ne::MetaDataBase&>(c)) == !baseOnly, "base metadata comparison");
    // binary headers
    oem::Oem4BinaryHeader bh; string raw = src.bytes(sizeof bh); memcpy(&bh, raw.data(), sizeof bh); oem::Oem4BinaryHeader bc = bh; PBT_CHECK(bh == bc, "equal headers differ"); { string w = raw; size_t at = src.draw(sizeof bh - 1); w[at] = char(w[at] ^ (1 << src.draw(7))); oem::Oem4BinaryHeader q; memcpy(&q, w.data(), sizeof q); PBT_CHECK(!(q == bh) && !(bh == q), "headers with a changed byte compare equal"); }
    SatelliteId si{uint16_t(src.draw(65535)), int16_t(src.range(-7, 13))}, sj = si; PBT_CHECK(si == sj, "equal satellites differ"); if (src.coin()) sj.usPrnOrSlot ^= uint16_t(1u << src.draw(15)); else sj.sFrequencyChannel = int16_t(sj.sFrequencyChannel + 1); PBT_CHECK(!(si == sj), "different satellites compare equal");
}
