FR="src/decoders/oem/src/framer.cpp"; MD="src/decoders/common/src/message_decoder.cpp"; EN="include/novatel_edie/decoders/common/encoder.hpp"; FM="src/decoders/common/src/framer_manager.cpp"; RD="src/decoders/oem/src/rangecmp/range_decompressor.cpp"
SEEDS=[
dict(id="b13-manager-silent-noise", property="C08", edits=[(FM,"    pclMyFixedBuffer->erase_begin(uiUnknownBytes_);\n    ResetAllFramerStates();","    pclMyFixedBuffer->erase_begin(uiUnknownBytes_);\n    if (bMyReportUnknownBytes || uiUnknownBytes_ == 0) { ResetAllFramerStates(); }")],
 demo=r'''#include "novatel_edie/decoders/oem/framer_binary.hpp"
#include "novatel_edie/decoders/oem/framer_ascii.hpp"
int main() { oem::Framer keep; for (bool report : {true, false}) { ne::FramerManager m({"OEM_BINARY", "OEM_ASCII"}); m.SetReportUnknownBytes(report); vector<string> in = {bin(1, "abcd"), asc("AA,COM1,0;1"), bin(2, "efgh")}; string s; for (auto& x : in) { auto y = bin(3, "ijkl"); y.back() ^= 0x55; s += "zab" + y + "zab" + x; } s += "zzzzzz";
 vector<string> got; vector<unsigned char> b(40000); for (size_t i = 0; i < 1; ++i) { (void)!m.Write(reinterpret_cast<const unsigned char*>(s.data()), s.size()); while (true) { ne::MetaDataBase* md = nullptr; auto st = m.GetFrame(b.data(), 40000, md); if (st == ne::STATUS::SUCCESS) got.emplace_back((char*)b.data(), md->uiLength); else if (st != ne::STATUS::UNKNOWN) break; } } REQUIRE(got == in); } }''',
 needs="a framer manager with reporting of unknown bytes switched off and unknown bytes between messages", breaks="messages after unknown bytes are lost when unknown bytes are not reported"),
dict(id="b14-family-stale-names", property="C20", edits=[("include/novatel_edie/decoders/common/message_database.hpp","        mMessageName.clear();\n        mMessageId.clear();\n        for","        mMessageId.clear();\n        for")], flags="-fsanitize=address",
 demo=r'''int main() { auto d = db(msg("ALONGMESSAGENAMEWHICHISONTHEHEAP", 9, fld("x", "ULONG", 4, "%lu")) + "," + msg("BB", 10, fld("x", "ULONG", 4, "%lu"))); d->SetMessageFamily("OEM"); for (int i = 0; i < 3; ++i) { d->SetMessageFamily("OEM"); REQUIRE(d->GetMsgDef("ALONGMESSAGENAMEWHICHISONTHEHEAP") && d->GetMsgDef("ALONGMESSAGENAMEWHICHISONTHEHEAP")->logID == 9); REQUIRE(d->GetMsgDef("BB") && d->GetMsgDef("BB") == d->GetMsgDef(10)); } }''',
 needs="the message family is set on a database which already holds messages", breaks="the name index refers to definitions that were freed"),
dict(id="b15-nested-layout", property="C21", edits=[("src/decoders/common/src/json_db_reader.cpp",'ParseFields(Member(j_, "fields"), stFieldInfo, alignFn_);','ParseFields(Member(j_, "fields"), stFieldInfo);')],
 demo=r'''int main() { string sub = fld("a", "UCHAR", 1, "%d") + "," + fld("b", "DOUBLE", 8, "%lf") ; auto d = db(msg("AA", 9, fld("r", "ULONG", 4, "", "FIELD_ARRAY", ",\"arrayLength\":4,\"fields\":[" + sub + "]")));
 auto f = std::dynamic_pointer_cast<const ne::FieldArrayField>(d->GetMsgDef("AA")->fieldInfo.at(1)->messageOrderedFields[0]); REQUIRE(f && f->fieldInfo->messageOrderedFields[1]->index == 4 && f->fieldInfo->fixedFieldBytes == 12); }''',
 needs="a field array whose element has a small field before a larger one", breaks="the element layout of the loaded definition ignores the alignment of the message family"),
dict(id="b16-locktime-second-saturation", property="C23", edits=[(RD,"    else if (stLockTimeInfo.bLockTimeSaturated) { stLockTimeInfo.bLockTimeSaturated = false; }","    else if (stLockTimeInfo.bLockTimeSaturated && uiLockTimeBits_ == 0) { stLockTimeInfo.bLockTimeSaturated = false; }")],
 demo=r'''static float lock(oem::RangeDecompressor& r, uint32_t bits, uint32_t ms) { uint64_t sat = (1ull << 60) | (0ull << 4) | (1000000ull << 10); string body = le(24, 4) + string("\x01\x05", 2) + string(0, 0); oem::rangecmp2::SatelliteBlock sb; sb.ucSvChanNumber = 1; sb.ucSatelliteIdentifier = 5; sb.ulCombinedField = sat; oem::rangecmp2::SignalBlock sg; sg.uiCombinedField1 = 1 | (bits << 8); sg.ullCombinedField2 = 0; 
 body = raw(sb) + raw(sg); body = le(body.size(), 4) + body; string m = bin(1273, body, 0, 0, 0x20, 2000, ms); vector<unsigned char> b(40000); std::memcpy(b.data(), m.data(), m.size()); oem::MetaDataStruct md; md.uiLength = uint32_t(m.size()); auto st = r.Decompress(b.data(), 40000, md, ne::ENCODE_FORMAT::BINARY); REQUIRE(st == ne::STATUS::SUCCESS); float f; std::memcpy(&f, b.data() + 28 + 4 + 36, 4); return f; }
int main() { auto d = db(msg("RANGECMP2", 1273, fld("x", "ULONG", 4, "%lu")) + "," + msg("RANGE", 43, fld("n", "UCHAR", 1, "%d", "FIXED_LENGTH_ARRAY", ",\"arrayLength\":48"))); oem::RangeDecompressor r(d); std::printf("%f\n", lock(r, 5000, 0)); REQUIRE(lock(r, 5000, 1000) == 5.0f); REQUIRE(lock(r, 131071, 2000) == 131.071f); REQUIRE(lock(r, 131071, 4000) == 133.071f); REQUIRE(lock(r, 7000, 9000) == 7.0f); REQUIRE(lock(r, 131071, 140000) == 131.071f); }''',
 needs="a signal whose lock time saturates, is lost, and saturates again", breaks="the lock time after the second saturation counts from the first one"),
dict(id="b17-geo-b2", property="C24", edits=[("src/decoders/oem/src/rangecmp/channel_tracking_status.cpp","        case SIGNAL_TYPE::BEIDOU_B2GEO: return CTS_SIGNAL::BEIDOU_B2ID2;","        case SIGNAL_TYPE::BEIDOU_B2GEO: return CTS_SIGNAL::BEIDOU_B2ID1;")],
 demo=r'''int main() { oem::rangecmp4::MeasurementSignalBlock b; for (auto s : {oem::rangecmp4::SIGNAL_TYPE::BEIDOU_B2I, oem::rangecmp4::SIGNAL_TYPE::BEIDOU_B2GEO}) { oem::ChannelTrackingStatus c(oem::SYSTEM::BEIDOU, s, b); unsigned sig = (c.GetAsWord() >> 21) & 31; REQUIRE(sig == (s == oem::rangecmp4::SIGNAL_TYPE::BEIDOU_B2I ? 1u : 5u)); } }''',
 needs="a BeiDou GEO satellite's B2 signal", breaks="the tracking status names the wrong signal"),
dict(id="b18-command-terminator", property="C22", flags="-fsanitize=address", edits=[("src/decoders/oem/src/commander.cpp","    if (eEncoderStatus != STATUS::SUCCESS) { return eEncoderStatus; }\n\n    // Null-terminate the command, if possible. Otherwise, the command will be the size of the buffer.\n    if (stMessageData.uiMessageLength < uiEncodeBufferSize_)","    if (eEncoderStatus != STATUS::SUCCESS) { return eEncoderStatus; }\n\n    // Null-terminate the command, if possible. Otherwise, the command will be the size of the buffer.\n    if (stMessageData.uiMessageLength <= uiEncodeBufferSize_)")],
 demo=r'''int main() { auto d = db(msg("AA", 9, fld("x", "ULONG", 4, "%lu") + "," + fld("y", "ULONG", 4, "%lu"))); oem::MessageDecoder md(d); oem::Encoder e(d); string c = "AA 5 7"; vector<char> big(500); uint32_t n = 500; REQUIRE(oem::Commander::Encode(*d, md, e, c.data(), c.size(), big.data(), n, ne::ENCODE_FORMAT::ASCII) == ne::STATUS::SUCCESS);
 for (uint32_t size = n; size < n + 70; ++size) { std::unique_ptr<char[]> b(new char[size]); uint32_t k = size; auto st = oem::Commander::Encode(*d, md, e, c.data(), c.size(), b.get(), k, ne::ENCODE_FORMAT::ASCII); REQUIRE(st != ne::STATUS::SUCCESS || (k == n && !memcmp(b.get(), big.data(), n))); } }''',
 needs="an output buffer which the command fills exactly", breaks="the terminator is written behind the caller's buffer"),
dict(id="b19-rxconfig-inner-length", property="C25", edits=[("src/decoders/oem/src/rxconfig/rxconfig_handler.cpp","stEmbeddedHeader.usLength = static_cast<uint16_t>(uiEmbeddedBodyLength);","stEmbeddedHeader.usLength = static_cast<uint8_t>(uiEmbeddedBodyLength);")],
 demo=r'''int main() { auto d = db(msg("AA", 9, fld("x", "ULONG", 4, "%lu", "FIXED_LENGTH_ARRAY", ",\"arrayLength\":30")) + "," + msg("BB", 10, fld("x", "ULONG", 4, "%lu", "FIXED_LENGTH_ARRAY", ",\"arrayLength\":100")) + "," + msg("RXCONFIG", 128, fld("msg", "UCHAR", 1, "%R", "VARIABLE_LENGTH_ARRAY", ",\"arrayLength\":30000"))); for (bool big : {false, true}) {
 string in = bin(big ? 10 : 9, string(big ? 400 : 120, 'a'), 0, 1); string core = in.substr(0, in.size() - 4); in = core + le(crc(core) ^ 0xFFFFFFFF, 4); string m = bin(128, in, 0, 1); oem::RxConfigHandler r(d); (void)!r.Write(reinterpret_cast<const unsigned char*>(m.data()), m.size()); ne::MessageDataStruct a, b; oem::MetaDataStruct am, bm; auto st = r.Convert(a, am, b, bm, ne::ENCODE_FORMAT::BINARY); REQUIRE(st == ne::STATUS::SUCCESS); REQUIRE(string((char*)a.pucMessage, a.uiMessageLength) == m); } }''',
 needs="an embedded command whose body is longer than 255 bytes, converted to binary", breaks="the embedded header carries the wrong body length"),
dict(id="b20-row-array-elements", property="C26", edits=[("include/novatel_edie/decoders/common/message_decoder.hpp","return LoadFixedFieldElement<T>(*ffRegion, elementIndex_, field_, rowOffset); }\n            else { return LoadFixedField<T>(*ffRegion, field_, rowOffset); }","return LoadFixedFieldElement<T>(*ffRegion, elementIndex_, field_, elementIndex_ == 0 ? rowOffset : rowOffset % 2); }\n            else { return LoadFixedField<T>(*ffRegion, field_, rowOffset); }")],
 demo=r'''int main() { string sub = fld("a", "ULONG", 4, "%lu", "FIXED_LENGTH_ARRAY", ",\"arrayLength\":2"); auto d = db(msg("AA", 9, fld("r", "ULONG", 4, "", "FIELD_ARRAY", ",\"arrayLength\":4,\"fields\":[" + sub + "]")));
 auto r = decode(d, bin(9, le(2, 4) + le(1, 4) + le(2, 4) + le(3, 4) + le(4, 4), 0, 1)); REQUIRE(r.st == ne::STATUS::SUCCESS); auto def = d->GetMsgDef("AA")->fieldInfo.at(1)->messageOrderedFields[0]; auto v = r.body.GetFieldValue<ne::FieldArray>(*def); unsigned want = 1; for (const auto& row : v) for (size_t j = 0; j < 2; ++j) REQUIRE(row.GetFieldValueByName<uint32_t>("a", j) == want++); REQUIRE(want == 5); }''',
 needs="a second or later element of a fixed array inside a second or later row, read through a view", breaks="the value of another row is returned"),
dict(id="b21-count-key-hash", property="C18", edits=[("src/decoders/oem/src/header_decoder.cpp","clMyMessageCounts.Increment({stInterHeader_.usMessageId, stMetaData_.eFormat, stMetaData_.ucSiblingId}); }","clMyMessageCounts.Increment({stInterHeader_.usMessageId, stMetaData_.eFormat, static_cast<uint8_t>(stMetaData_.ucSiblingId & 0x0F)}); }")],
 demo=r'''int main() { auto d = db(msg("AA", 9, fld("x", "ULONG", 4, "%lu"))); oem::HeaderDecoder h(d); for (unsigned sib : {1u, 17u, 1u}) { string m = bin(9, le(1, 4), sib); oem::IntermediateHeader ih; oem::MetaDataStruct md; md.uiLength = uint32_t(m.size()); REQUIRE(h.Decode(reinterpret_cast<const unsigned char*>(m.c_str()), ih, md) == ne::STATUS::SUCCESS); }
 auto c = h.GetMessageCounts(); REQUIRE(c.size() == 2 && c.at({9, ne::HEADER_FORMAT::BINARY, 1}) == 2 && c.at({9, ne::HEADER_FORMAT::BINARY, 17}) == 1); }''',
 needs="two siblings of a message which differ only in the upper sibling bit", breaks="the messages of sibling 17 are counted as those of sibling 1"),
dict(id="b22-binary-response-name", property="C19", edits=[("src/decoders/common/src/common.cpp","    uiResponse_ = (uiMessageId_ & static_cast<uint32_t>(MESSAGE_ID_MASK::RESPONSE)) >> 23;","    uiResponse_ = uiMsgFormat_ == 3U ? 0U : (uiMessageId_ & static_cast<uint32_t>(MESSAGE_ID_MASK::RESPONSE)) >> 23;")],
 demo=r'''int main() { for (uint32_t f = 0; f < 4; ++f) for (uint32_t r = 0; r < 2; ++r) { uint16_t id; uint32_t s, ff, rr; UnpackMsgId(CreateMsgId(77, 3, f, r), id, s, ff, rr); REQUIRE(id == 77 && s == 3 && ff == f && rr == r); } }''',
 needs="the reserved message format together with the response flag", breaks="unpacking an identifier does not return the response flag that was packed"),
dict(id="b23-hex-space", property="C14", flags="-fsanitize=address", edits=[(EN,"    if (uiBytesLeft_ < requiredSpace) { return false; }\n\n    auto [end, ec] = std::to_chars(*buffer_, *buffer_ + uiBytesLeft_, arg, 16);","    if (uiBytesLeft_ < maxDigits) { return false; }\n\n    auto [end, ec] = std::to_chars(*buffer_, *buffer_ + uiBytesLeft_, arg, 16);")],
 demo=r'''int main() { auto d = db(msg("AA", 9, fld("x", "ULONG", 4, "%s", "STRING", ",\"arrayLength\":4"))); auto r = decode(d, bin(9, string("\x01\0\0\0", 4), 0, 1)); REQUIRE(r.st == ne::STATUS::SUCCESS); auto w = encode(d, r, ne::ENCODE_FORMAT::JSON); REQUIRE(w.st == ne::STATUS::SUCCESS && w.all.find("\\u0001") != string::npos); oem::Encoder e(d);
 for (uint32_t size = 1; size < w.all.size() + 70; ++size) { std::unique_ptr<unsigned char[]> b(new unsigned char[size]); unsigned char* p = b.get(); ne::MessageDataStruct o; auto st = e.Encode(&p, size, r.h, r.body, o, r.m.eFormat, ne::ENCODE_FORMAT::JSON); REQUIRE(st == ne::STATUS::SUCCESS ? string((char*)o.pucMessage, o.uiMessageLength) == w.all : st == ne::STATUS::BUFFER_FULL); } }''',
 needs="a control character in a JSON string, with the buffer ending inside its escape sequence", breaks="padding is written behind the caller's buffer"),
dict(id="b24-json-too-many", property="C15", flags="-fsanitize=address", edits=[(MD,"                            if (array.size() > uiArraySize) { return STATUS::MALFORMED_INPUT; }\n                            std::vector<uint8_t> vDecodedValues(uiArraySize, 0);","                            if (array.size() > std::max<size_t>(uiArraySize, 16)) { return STATUS::MALFORMED_INPUT; }\n                            std::vector<uint8_t> vDecodedValues(uiArraySize, 0);")],
 demo=r'''int main() { auto d = db(msg("AA", 9, fld("x", "HEXBYTE", 1, "%Z", "FIXED_LENGTH_ARRAY", ",\"arrayLength\":4"))); auto r = decode(d, bin(9, "abcd", 0, 1)); REQUIRE(r.st == ne::STATUS::SUCCESS); auto j = encode(d, r, ne::ENCODE_FORMAT::JSON); REQUIRE(j.st == ne::STATUS::SUCCESS); auto at = j.all.rfind("]"); string t = j.all.substr(0, at) + ",1,2,3" + j.all.substr(at);
 oem::MessageDecoder md(d); ne::CompositeField cf; r.m.eFormat = ne::HEADER_FORMAT::JSON; r.m.uiHeaderLength = 0; r.m.uiLength = uint32_t(t.size()); REQUIRE(md.Decode(reinterpret_cast<const unsigned char*>(t.c_str()), cf, r.m) == ne::STATUS::MALFORMED_INPUT); }''',
 needs="a JSON message with more elements than a fixed byte array of less than 16 elements has", breaks="elements are stored behind the array"),
dict(id="b25-response-buffer", property="C07", flags="-fsanitize=address", edits=[(FR,"                    stMetaData_.bResponse = true;\n\n                    if (uiFrameBufferSize_ < stMetaData_.uiLength)","                    stMetaData_.bResponse = true;\n\n                    if (uiFrameBufferSize_ + 1 < stMetaData_.uiLength)")],
 demo=r'''int main() { string s = "<OK\r\n[COM1]abcdefghijk"; auto all = messages(frames(s)); REQUIRE(all == vector<string>{"<OK\r\n"}); oem::Framer f; (void)!f.Write(reinterpret_cast<const unsigned char*>(s.data()), s.size()); oem::MetaDataStruct m; for (uint32_t n = 1; n < 6; ++n) { std::unique_ptr<unsigned char[]> b(new unsigned char[n]); auto st = f.GetFrame(b.get(), n, m); REQUIRE(st == (n < 5 ? ne::STATUS::BUFFER_FULL : ne::STATUS::SUCCESS)); } }''',
 needs="an abbreviated response and an output buffer one byte smaller", breaks="a byte is written behind the caller's buffer"),
dict(id="b26-partial-flush", property="C03", edits=[("include/novatel_edie/decoders/common/framer.hpp","        HandleUnknownBytes(pucBuffer_, uiBytesToFlush);\n        return uiBytesToFlush;","        if (pucBuffer_ != nullptr && bMyReportUnknownBytes) { pclMyBuffer->copy_out(pucBuffer_, uiBytesToFlush); }\n        HandleUnknownBytes(nullptr, pclMyBuffer->size());\n        return uiBytesToFlush;")],
 demo=r'''int main() { for (unsigned n = 1; n < 12; ++n) { oem::Framer f; string s = "#AB,abcdefghij", got; (void)!f.Write(reinterpret_cast<const unsigned char*>(s.data()), s.size()); unsigned char b[32]; while (true) { auto k = f.Flush(b, n); if (!k) break; got.append((char*)b, k); } REQUIRE(got == s); } }''',
 needs="flushing with a buffer smaller than the bytes held", breaks="the last bytes are dropped"),
]
