FR="src/decoders/oem/src/framer.cpp"; MD="src/decoders/common/src/message_decoder.cpp"; EN="include/novatel_edie/decoders/common/encoder.hpp"; FI="src/decoders/oem/src/filter.cpp"
SEEDS=[
dict(id="b01-crc-chained-block", property="C01", sources="src/common/src", edits=[("include/novatel_edie/decoders/oem/crc.hpp","CalculateBlockCrc32Chorba(ucBuffer_, uiCount_, uiInitialCrc_)\n","CalculateBlockCrc32Chorba(ucBuffer_, uiCount_)\n")],
 demo=r'''int main() { string s(300, 'a'); for (size_t i = 0; i < s.size(); ++i) s[i] = char(i * 37); auto* p = reinterpret_cast<const unsigned char*>(s.data());
 for (uint32_t k : {5u, 100u, 250u}) { uint32_t c = oem::CalculateBlockCrc32(p, k); REQUIRE(oem::CalculateBlockCrc32(p + k, uint32_t(s.size()) - k, c) == crc(s)); } }''',
 needs="a checksum continued from a non-zero starting value over a second piece longer than 48 bytes", breaks="the CRC of a split byte string differs from that of the whole"),
dict(id="b02-buffer-compaction", property="C02", sources="src/common/src", flags="-fsanitize=address", edits=[("include/novatel_edie/common/fixed_buffer.hpp","if (head + sz + count > 2 * N)","if (head + count > 2 * N)")],
 demo=r'''int main() { FixedBuffer<unsigned char> b(16); string in, out; unsigned k = 0;
 for (int i = 0; i < 200; ++i) { string w; for (int j = 0; j < 7; ++j) w += char(k++); if (b.write(reinterpret_cast<const unsigned char*>(w.data()), w.size())) in += w; size_t r = i % 3 ? 5 : 8; unsigned char t[16]; r = std::min(r, b.size()); b.copy_out(t, r); out.append((char*)t, r); b.erase_begin(r); }
 unsigned char t[16]; size_t r = b.size(); b.copy_out(t, r); out.append((char*)t, r); REQUIRE(in == out); }''',
 needs="a history in which the read position has moved into the second half while enough unread bytes are held when a write arrives", breaks="bytes are written beyond the end of the storage"),
dict(id="b03-abbrev-crlf-at-chunk-end", property="C05", edits=[(FR,"if (stMetaData_.eFormat == HEADER_FORMAT::ABB_ASCII) { uiMyByteCount--; }","if (stMetaData_.eFormat == HEADER_FORMAT::ABB_ASCII && uiMyByteCount == 0) { uiMyByteCount--; }")],
 demo=r'''int main() { string s = "<LOG COM1 0 0.0 FINESTEERING 2000 1.000 00000000 0000 0\r\n<     1 2 3\r\n<     4 5 6\r\n" + bin(7, "abcd"); auto all = messages(frames(s));
 for (size_t n = 1; n < 60; ++n) REQUIRE(messages(frames(s, n)) == all); REQUIRE(all.size() == 2); }''',
 needs="the data available ends exactly at a line end of an abbreviated ASCII message when a frame is asked for", breaks="the message found depends on how the stream was divided into writes"),
dict(id="b04-payload-only-proprietary-crc", property="C06", edits=[(FR,"                if (uiMyCalculatedCrc32 == 0)\n","                if (uiMyCalculatedCrc32 == 0 || (bMyPayloadOnly && stMetaData_.eFormat == HEADER_FORMAT::PROPRIETARY_BINARY))\n")],
 demo=r"""int main() { string m = string("\xAA\x45\x12\x1c", 4) + string(4, 0) + le(6, 2) + string(18, 0) + "abcdef"; m += le(crc(m), 4); REQUIRE(messages(frames(m)) == vector<string>{m}); m[30] ^= 1; m += string(40, 'x');
 oem::Framer f; f.SetPayloadOnly(true); f.SetReportUnknownBytes(true); (void)!f.Write(reinterpret_cast<const unsigned char*>(m.data()), m.size()); unsigned char b[1000]; oem::MetaDataStruct meta; for (int i = 0; i < 100; ++i) { auto st = f.GetFrame(b, 1000, meta); REQUIRE(st != ne::STATUS::SUCCESS); if (st != ne::STATUS::UNKNOWN) break; } }""",
 needs="payload-only framing of a corrupted proprietary binary message", breaks="a message with a wrong checksum is delivered as valid"),
dict(id="b05-ascii-inner-star", property="C04", edits=[(FR,"                    || !IsAsciiCrc(uiMyByteCount))","                    || (!IsAsciiCrc(uiMyByteCount) && clInternalFrameBuffer[uiMyByteCount] != OEM4_ASCII_CRC_DELIMITER))")],
 demo=r'''int main() { vector<string> in = {asc("AA,COM1,0,1;1*2"), asc("AA,COM1,0,1;\"a**b\",2"), asc("BB,COM1,0,1;3")}; string s; for (auto& x : in) s += x; REQUIRE(messages(frames(s)) == in); }''',
 needs="an ASCII message with two consecutive asterisks in its body", breaks="a valid message is not recovered"),
dict(id="b06-short-header-time-status", property="C09", edits=[("src/decoders/oem/src/header_decoder.cpp","stInterHeader_.uiReceiverStatus = stBinaryHeader.uiStatus;","stInterHeader_.uiReceiverStatus = static_cast<uint16_t>(stBinaryHeader.uiStatus);")],
 demo=r'''int main() { auto d = db(msg("AA", 9, fld("x", "ULONG", 4, "%lu"))); string m = bin(9, le(5, 4)); m.resize(m.size() - 4); m.replace(20, 4, le(0x12345678, 4)); m += le(crc(m), 4); auto r = decode(d, m); REQUIRE(r.st == ne::STATUS::SUCCESS && r.h.uiReceiverStatus == 0x12345678); }''',
 needs="a binary header with receiver status bits above bit 15", breaks="the receiver status of a binary header is reported without its upper bits"),
dict(id="b07-nested-row-alignment", property="C10", edits=[(MD,"                    *ppucLogBuf_ +=\n                        fMyAlignmentFunc(fieldTypeLength, reinterpret_cast<uintptr_t>(pucTempStart), reinterpret_cast<uintptr_t>(*ppucLogBuf_));","                    *ppucLogBuf_ += i == 0 ? 0 :\n                        fMyAlignmentFunc(static_cast<uint8_t>(subFieldDefinitions->fieldInfo->messageOrderedFields.front()->dataType.length), reinterpret_cast<uintptr_t>(pucTempStart), reinterpret_cast<uintptr_t>(*ppucLogBuf_));")],
 demo=r'''int main() { string sub = fld("n", "UCHAR", 1, "%d", "VARIABLE_LENGTH_ARRAY", ",\"arrayLength\":8,\"arrayLengthFieldSize\":4");
 auto d = db(msg("AA", 9, fld("r", "ULONG", 4, "", "FIELD_ARRAY", ",\"arrayLength\":4,\"fields\":[" + sub + "]")));
 string body = le(2, 4) + le(3, 4) + "abc" + string(1, 0) + le(2, 4) + "de"; auto r = decode(d, bin(9, body, 0, 1)); REQUIRE(r.st == ne::STATUS::SUCCESS); auto e = encode(d, r, ne::ENCODE_FORMAT::BINARY); REQUIRE(e.st == ne::STATUS::SUCCESS && e.all == bin(9, body, 0, 1)); }''',
 needs="a field array of elements with variable-length fields in which an element does not end on the element's alignment", breaks="later elements are read from the wrong position"),
dict(id="b08-json-uchar-array", property="C12", edits=[(MD,'''        case 2: PushElement<uint16_t>(clCompField_, pstMessageDataType_, clJsonField_, elementIndex_, fixed_); return;
        case 4: PushElement<uint32_t>(clCompField_, pstMessageDataType_, clJsonField_, elementIndex_, fixed_); return;
        case 8: PushElement<uint64_t>(clCompField_, pstMessageDataType_, clJsonField_, elementIndex_, fixed_); return;
        default: throw std::runtime_error("invalid unsigned length");''','''        case 2: PushElement<uint16_t>(clCompField_, pstMessageDataType_, clJsonField_, elementIndex_, fixed_); return;
        case 4: PushElement<uint32_t>(clCompField_, pstMessageDataType_, clJsonField_, elementIndex_, fixed_); return;
        case 8: PushElement<int64_t>(clCompField_, pstMessageDataType_, clJsonField_, elementIndex_, fixed_); return;
        default: throw std::runtime_error("invalid unsigned length");''')],
 demo=r'''int main() { auto d = db(msg("AA", 9, fld("x", "ULONGLONG", 8, "%u"))); for (uint64_t v : {5ull, 0xF000000000000001ull}) { auto r = decode(d, bin(9, le(v, 8), 0, 1)); REQUIRE(r.st == ne::STATUS::SUCCESS); auto j = encode(d, r, ne::ENCODE_FORMAT::JSON); REQUIRE(j.st == ne::STATUS::SUCCESS);
 oem::MessageDecoder md(d); ne::CompositeField cf; r.m.eFormat = ne::HEADER_FORMAT::JSON; r.m.uiHeaderLength = 0; r.m.uiLength = uint32_t(j.all.size()); REQUIRE(md.Decode(reinterpret_cast<const unsigned char*>(j.all.c_str()), cf, r.m) == ne::STATUS::SUCCESS); REQUIRE(cf.GetFieldValueByName<uint64_t>("x") == v); } }''',
 needs="an eight byte unsigned field with the plain %u conversion and a value above the signed range, decoded from JSON", breaks="the value is not the one shown in the JSON text"),
dict(id="b09-filter-clear-lower", property="C16", edits=[(FI,"    bMyFilterLowerTime = false;\n    if (!bMyFilterUpperTime) { Remove(vMyFilterFunctions, &Filter::FilterTime); }","    bMyFilterLowerTime = false;\n    Remove(vMyFilterFunctions, &Filter::FilterTime);")],
 demo=r'''int main() { oem::Filter f; f.SetIncludeLowerTimeBound(100, 0); f.SetIncludeUpperTimeBound(200, 0); f.ClearLowerTimeBound(); oem::MetaDataStruct m; m.eFormat = ne::HEADER_FORMAT::BINARY; m.usWeek = 50; REQUIRE(f.DoFiltering(m)); m.usWeek = 300; REQUIRE(!f.DoFiltering(m)); }''',
 needs="both time bounds set, then only the lower one cleared", breaks="the upper time bound is silently dropped with the lower one"),
dict(id="b10-fileparser-final-abbrev", property="C17", edits=[("src/decoders/oem/src/parser.cpp","if ((pclMyUserFilter != nullptr) && (!pclMyUserFilter->DoFiltering(stMetaData_))) { continue; }","if ((pclMyUserFilter != nullptr) && !stMetaData_.bResponse && (!pclMyUserFilter->DoFiltering(stMetaData_))) { continue; }")],
 demo=r'''int main() { auto d = db(msg("AA", 9, fld("x", "ULONG", 4, "%lu"))); oem::Parser p(d); auto f = std::make_shared<oem::Filter>(); f->IncludeResponses(false); p.SetFilter(f); string s = bin(9, le(1, 4) + "OK", 0x80) + bin(9, le(7, 4)) + string(20, 'x'); (void)!p.Write(reinterpret_cast<const unsigned char*>(s.data()), s.size());
 ne::MessageDataStruct m; oem::MetaDataStruct meta; int n = 0; while (true) { auto st = p.Read(m, meta); if (st == ne::STATUS::BUFFER_EMPTY) break; if (st == ne::STATUS::SUCCESS) { REQUIRE(!meta.bResponse); ++n; } } REQUIRE(n == 1); }''',
 needs="a filter that rejects a response message", breaks="the parser delivers responses which its filter rejects"),
dict(id="b11-flatten-short-array", property="C13", edits=[(EN,"                            maxBytes = arrayFieldDef->arrayLength * fieldDef->dataType.length;\n","                            maxBytes = static_cast<uint8_t>(arrayFieldDef->arrayLength) * fieldDef->dataType.length;\n")],
 demo=r'''int main() { auto d = db(msg("AA", 9, fld("n", "UCHAR", 1, "%d", "VARIABLE_LENGTH_ARRAY", ",\"arrayLength\":300,\"arrayLengthFieldSize\":4") + "," + fld("x", "ULONG", 4, "%lu"))); size_t size = 0;
 for (int n : {0, 5, 299}) { string body = le(n, 4) + string(n, 'a'); while (body.size() % 4) body += char(0); body += le(77, 4); auto r = decode(d, bin(9, body, 0, 1)); REQUIRE(r.st == ne::STATUS::SUCCESS); auto e = encode(d, r, ne::ENCODE_FORMAT::FLATTENED_BINARY); REQUIRE(e.st == ne::STATUS::SUCCESS); if (!size) size = e.body.size(); REQUIRE(e.body.size() == size && e.body.substr(304, 4) == le(77, 4)); } }''',
 needs="an array whose maximum length is 256 or more", breaks="fields after the array move with its fill level in the flattened form"),
dict(id="b12-hexbyte-text-count", property="C11", edits=[(EN,"            if (!arrayFieldDef) { return false; }\n            auto count = fieldDefRef_.type == FIELD_TYPE::VARIABLE_LENGTH_ARRAY ? cf_.GetFieldSize(fieldDefRef_) : arrayFieldDef->arrayLength;\n\n            if","            if (!arrayFieldDef) { return false; }\n            auto count = fieldDefRef_.type == FIELD_TYPE::VARIABLE_LENGTH_ARRAY || fieldDefRef_.dataType.name == DATA_TYPE::HEXBYTE ? static_cast<uint8_t>(cf_.GetFieldSize(fieldDefRef_)) : arrayFieldDef->arrayLength;\n\n            if")],
 demo=r'''int main() { auto d = db(msg("AA", 9, fld("n", "HEXBYTE", 1, "%Z", "VARIABLE_LENGTH_ARRAY", ",\"arrayLength\":400,\"arrayLengthFieldSize\":4"))); 
 for (int n : {3, 255, 256, 300}) { auto r = decode(d, bin(9, le(n, 4) + string(n, '\x1f'), 0, 1)); REQUIRE(r.st == ne::STATUS::SUCCESS); auto e = encode(d, r, ne::ENCODE_FORMAT::ASCII); REQUIRE(e.st == ne::STATUS::SUCCESS); string want = std::to_string(n) + ","; for (int i = 0; i < n; ++i) want += "1f"; REQUIRE(e.body.substr(0, want.size()) == want); } }''',
 needs="a variable-length array with 256 or more elements written as text", breaks="the array count and elements are cut in the text form"),
]
