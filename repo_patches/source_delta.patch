From 86b4a2e2977e4c48a2e5dce45c400a6f03975cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:57 +0000
Subject: [PATCH 01/89] fix: payload-only framing drops the header, not header
 and twice the CRC

---
 src/decoders/oem/src/framer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/oem/src/framer.cpp b/src/decoders/oem/src/framer.cpp
index 0e363a0..9bc13a9 100644
--- a/src/decoders/oem/src/framer.cpp
+++ b/src/decoders/oem/src/framer.cpp
@@ -289,7 +289,7 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
                         stMetaData_.uiLength = uiMyExpectedPayloadLength;
                         if (!bMetadataOnly_)
                         {
-                            pclMyBuffer->erase_begin((uiMyExpectedMessageLength - uiMyExpectedPayloadLength) + OEM4_BINARY_CRC_LENGTH);
+                            pclMyBuffer->erase_begin((uiMyExpectedMessageLength - uiMyExpectedPayloadLength) - OEM4_BINARY_CRC_LENGTH);
                             pclMyBuffer->copy_out(pucFrameBuffer_, stMetaData_.uiLength);
                             pclMyBuffer->erase_begin(uiMyExpectedPayloadLength + OEM4_BINARY_CRC_LENGTH);
                         }
-- 
2.43.0


From 0c30a67b562af136f25f1a2873207a21afc405ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:57 +0000
Subject: [PATCH 02/89] fix: binary message after a proprietary one is framed
 as binary

---
 src/decoders/oem/src/framer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decoders/oem/src/framer.cpp b/src/decoders/oem/src/framer.cpp
index 9bc13a9..1bac245 100644
--- a/src/decoders/oem/src/framer.cpp
+++ b/src/decoders/oem/src/framer.cpp
@@ -149,8 +149,9 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
         case NovAtelFrameState::WAITING_FOR_BINARY_SYNC2:
             switch (ucDataByte)
             {
-            case OEM4_PROPRIETARY_BINARY_SYNC2: stMetaData_.eFormat = HEADER_FORMAT::PROPRIETARY_BINARY; [[fallthrough]];
+            case OEM4_PROPRIETARY_BINARY_SYNC2:
             case OEM4_BINARY_SYNC2:
+                stMetaData_.eFormat = ucDataByte == OEM4_PROPRIETARY_BINARY_SYNC2 ? HEADER_FORMAT::PROPRIETARY_BINARY : HEADER_FORMAT::BINARY;
                 CalculateCharacterCrc32(uiMyCalculatedCrc32, ucDataByte);
                 eMyFrameState = NovAtelFrameState::WAITING_FOR_BINARY_SYNC3;
                 break;
-- 
2.43.0


From 50e24fd81b4cf9a11a5d2f3f82c72a385ef7d609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:57 +0000
Subject: [PATCH 03/89] fix: do not underflow when a CRC delimiter arrives in a
 nearly empty buffer

---
 src/decoders/oem/src/framer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/oem/src/framer.cpp b/src/decoders/oem/src/framer.cpp
index 1bac245..5fb296e 100644
--- a/src/decoders/oem/src/framer.cpp
+++ b/src/decoders/oem/src/framer.cpp
@@ -319,7 +319,7 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
             if (ucDataByte == OEM4_ASCII_CRC_DELIMITER)
             {
                 // Need to be able to check for *12345678CRLF
-                if (uiMyByteCount > clInternalFrameBuffer.size() - OEM4_ASCII_CRC_LENGTH - 2)
+                if (uiMyByteCount + OEM4_ASCII_CRC_LENGTH + 2 > clInternalFrameBuffer.size())
                 {
                     uiMyByteCount--; // Rewind so that we reprocess the '*' delimiter after getting more bytes
                     return STATUS::INCOMPLETE;
-- 
2.43.0


From 54c8bdaa8bedf8f9efa1a7f2c0b8f029dc78e366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:18 +0000
Subject: [PATCH 04/89] fix: a text checksum must consist of hexadecimal digits
 only

---
 include/novatel_edie/decoders/oem/framer_ascii_base.hpp | 2 +-
 src/decoders/oem/src/framer.cpp                         | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/novatel_edie/decoders/oem/framer_ascii_base.hpp b/include/novatel_edie/decoders/oem/framer_ascii_base.hpp
index 8b84182..a6211d7 100644
--- a/include/novatel_edie/decoders/oem/framer_ascii_base.hpp
+++ b/include/novatel_edie/decoders/oem/framer_ascii_base.hpp
@@ -113,7 +113,7 @@ template <HEADER_FORMAT HeaderFormat, unsigned char SyncByte, size_t MaxMessageL
         auto result = std::from_chars(pCrcStart, pCrcStart + OEM4_ASCII_CRC_LENGTH, uiMessageCrc, 16);
         auto uiCalcCrc = CalculateBlockCrc32(clFrameBuffer.data() + OEM4_ASCII_SYNC_LENGTH,
                                              static_cast<uint32_t>(frameEnd - OEM4_ASCII_SYNC_LENGTH - OEM4_ASCII_CRC_LENGTH - 3));
-        return result.ec == std::errc() && uiCalcCrc == uiMessageCrc ? 0 : OEM4_ASCII_SYNC_LENGTH;
+        return result.ec == std::errc() && result.ptr == pCrcStart + OEM4_ASCII_CRC_LENGTH && uiCalcCrc == uiMessageCrc ? 0 : OEM4_ASCII_SYNC_LENGTH;
     }
 
     //----------------------------------------------------------------------------
diff --git a/src/decoders/oem/src/framer.cpp b/src/decoders/oem/src/framer.cpp
index 5fb296e..6c5b95d 100644
--- a/src/decoders/oem/src/framer.cpp
+++ b/src/decoders/oem/src/framer.cpp
@@ -469,7 +469,7 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
                 uint32_t uiMessageCrc;
                 auto result = std::from_chars(acCrc, acCrc + OEM4_ASCII_CRC_LENGTH, uiMessageCrc, 16);
 
-                if (result.ec == std::errc() && uiMyCalculatedCrc32 == uiMessageCrc)
+                if (result.ec == std::errc() && result.ptr == acCrc + OEM4_ASCII_CRC_LENGTH && uiMyCalculatedCrc32 == uiMessageCrc)
                 {
                     uiMyByteCount = 0;
 
@@ -530,7 +530,7 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
                 uint32_t uiMessageCrc;
                 auto result = std::from_chars(acCrc, acCrc + NMEA_CRC_LENGTH, uiMessageCrc, 16);
 
-                if (result.ec == std::errc() && uiMyCalculatedCrc32 == uiMessageCrc)
+                if (result.ec == std::errc() && result.ptr == acCrc + NMEA_CRC_LENGTH && uiMyCalculatedCrc32 == uiMessageCrc)
                 {
                     uiMyByteCount = 0;
 
-- 
2.43.0


From 4eea483a57a366afe16669ad77c9f114f36c2021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:20 +0000
Subject: [PATCH 05/89] fix: never frame a text message longer than the maximum
 message size

---
 src/decoders/oem/src/framer.cpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/decoders/oem/src/framer.cpp b/src/decoders/oem/src/framer.cpp
index 6c5b95d..75ce975 100644
--- a/src/decoders/oem/src/framer.cpp
+++ b/src/decoders/oem/src/framer.cpp
@@ -316,7 +316,13 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
             break;
 
         case NovAtelFrameState::WAITING_FOR_ASCII_HEADER_AND_BODY:
-            if (ucDataByte == OEM4_ASCII_CRC_DELIMITER)
+            if (uiMyByteCount >= MAX_ASCII_MESSAGE_LENGTH)
+            {
+                uiMyByteCount = OEM4_ASCII_SYNC_LENGTH;
+                uiMyExpectedPayloadLength = 0;
+                ResetState();
+            }
+            else if (ucDataByte == OEM4_ASCII_CRC_DELIMITER)
             {
                 // Need to be able to check for *12345678CRLF
                 if (uiMyByteCount + OEM4_ASCII_CRC_LENGTH + 2 > clInternalFrameBuffer.size())
@@ -340,19 +346,19 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
                 {
                     CalculateCharacterCrc32(uiMyCalculatedCrc32, ucDataByte);
                 }
+                else if (uiMyByteCount + OEM4_ASCII_CRC_LENGTH + 2 > MAX_ASCII_MESSAGE_LENGTH)
+                {
+                    uiMyByteCount = OEM4_ASCII_SYNC_LENGTH;
+                    uiMyExpectedPayloadLength = 0;
+                    ResetState();
+                }
                 else { eMyFrameState = NovAtelFrameState::WAITING_FOR_ASCII_CRC; }
             }
-            else if (uiMyByteCount >= MAX_ASCII_MESSAGE_LENGTH)
-            {
-                uiMyByteCount = OEM4_ASCII_SYNC_LENGTH;
-                uiMyExpectedPayloadLength = 0;
-                ResetState();
-            }
             else { CalculateCharacterCrc32(uiMyCalculatedCrc32, ucDataByte); }
             break;
 
         case NovAtelFrameState::WAITING_FOR_ABB_ASCII_HEADER:
-            if (IsCrlf(uiMyByteCount - 1))
+            if (uiMyByteCount < MAX_ASCII_MESSAGE_LENGTH && IsCrlf(uiMyByteCount - 1))
             {
                 if (IsAbbrevAsciiResponse())
                 {
@@ -419,7 +425,7 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
             }
 
             // End of Abbrev
-            if (IsCrlf(uiMyByteCount - 1) &&
+            if (uiMyByteCount < MAX_ABB_ASCII_RESPONSE_LENGTH && IsCrlf(uiMyByteCount - 1) &&
                 (clInternalFrameBuffer[uiMyByteCount + 1] != OEM4_ABBREV_ASCII_SYNC ||     // Next line is not an abb ASCII log
                  clInternalFrameBuffer[uiMyByteCount + 2] != OEM4_ABBREV_ASCII_SEPARATOR)) // Next line is a new abb ASCII log
             {
-- 
2.43.0


From 13bcd7b304b645376d2851c22733690c4044a8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:39 +0000
Subject: [PATCH 06/89] fix: unknown bytes never exceed the caller's frame
 buffer

---
 src/decoders/common/src/framer.cpp         |  1 +
 src/decoders/common/src/framer_manager.cpp |  1 +
 src/decoders/oem/src/framer.cpp            | 13 +++++++------
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/decoders/common/src/framer.cpp b/src/decoders/common/src/framer.cpp
index 66d3d06..534b818 100644
--- a/src/decoders/common/src/framer.cpp
+++ b/src/decoders/common/src/framer.cpp
@@ -38,6 +38,7 @@ using namespace novatel::edie;
 
     // Helper to set metadata and handle unknown bytes
     auto handleUnknown = [&](uint32_t length) -> STATUS {
+        length = std::min(length, uiFrameBufferSize_);
         stMetaData_.eFormat = HEADER_FORMAT::UNKNOWN;
         stMetaData_.uiLength = length;
         if (!bMetadataOnly_) { HandleUnknownBytes(pucFrameBuffer_, length); }
diff --git a/src/decoders/common/src/framer_manager.cpp b/src/decoders/common/src/framer_manager.cpp
index 8fb41bb..f76c5d4 100644
--- a/src/decoders/common/src/framer_manager.cpp
+++ b/src/decoders/common/src/framer_manager.cpp
@@ -152,6 +152,7 @@ STATUS FramerManager::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameB
         if (bestFramerIndex == registrySize)
         {
             assert(bestOffset > 0 && bestOffset <= static_cast<uint32_t>(pclMyFixedBuffer->size()));
+            bestOffset = std::min(bestOffset, uiFrameBufferSize_);
             HandleUnknownBytes(pucFrameBuffer_, bestOffset);
             stMyMetaData.uiLength = bestOffset;
             stMyMetaData.eFormat = HEADER_FORMAT::UNKNOWN;
diff --git a/src/decoders/oem/src/framer.cpp b/src/decoders/oem/src/framer.cpp
index 75ce975..0632d99 100644
--- a/src/decoders/oem/src/framer.cpp
+++ b/src/decoders/oem/src/framer.cpp
@@ -26,6 +26,7 @@
 
 #include "novatel_edie/decoders/oem/framer.hpp"
 
+#include <algorithm>
 #include <charconv>
 
 #include "novatel_edie/decoders/common/framer_registration.hpp"
@@ -68,11 +69,11 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
             }
 
             stMetaData_.eFormat = HEADER_FORMAT::UNKNOWN;
-            stMetaData_.uiLength = uiMyByteCount;
+            stMetaData_.uiLength = std::min(uiMyByteCount, uiFrameBufferSize_);
 
             if (uiMyByteCount == 0) { return STATUS::BUFFER_EMPTY; }
 
-            if (!bMetadataOnly_) { HandleUnknownBytes(pucFrameBuffer_, uiMyByteCount); }
+            if (!bMetadataOnly_) { HandleUnknownBytes(pucFrameBuffer_, stMetaData_.uiLength); }
             return STATUS::UNKNOWN;
         }
 
@@ -133,15 +134,15 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
             if (eMyFrameState != NovAtelFrameState::WAITING_FOR_SYNC && uiMyByteCount > 1)
             {
                 stMetaData_.eFormat = HEADER_FORMAT::UNKNOWN;
-                stMetaData_.uiLength = uiMyByteCount - 1;
-                if (!bMetadataOnly_) { HandleUnknownBytes(pucFrameBuffer_, uiMyByteCount - 1); }
+                stMetaData_.uiLength = std::min(uiMyByteCount - 1, uiFrameBufferSize_);
+                if (!bMetadataOnly_) { HandleUnknownBytes(pucFrameBuffer_, stMetaData_.uiLength); }
                 return STATUS::UNKNOWN;
             }
             if (uiMyByteCount > uiFrameBufferSize_)
             {
                 stMetaData_.eFormat = HEADER_FORMAT::UNKNOWN;
-                stMetaData_.uiLength = uiMyByteCount - 1;
-                if (!bMetadataOnly_) { HandleUnknownBytes(pucFrameBuffer_, uiFrameBufferSize_); }
+                stMetaData_.uiLength = uiFrameBufferSize_;
+                if (!bMetadataOnly_) { HandleUnknownBytes(pucFrameBuffer_, stMetaData_.uiLength); }
                 return STATUS::UNKNOWN;
             }
             break;
-- 
2.43.0


From 0fd6bfc1026db9ec148fceb5286fdd78d9dbf0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:39 +0000
Subject: [PATCH 07/89] fix: abbreviated ASCII response is complete only with
 its line feed

---
 src/decoders/oem/src/framer_abb_ascii.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/decoders/oem/src/framer_abb_ascii.cpp b/src/decoders/oem/src/framer_abb_ascii.cpp
index 6563a8b..2b9515f 100644
--- a/src/decoders/oem/src/framer_abb_ascii.cpp
+++ b/src/decoders/oem/src/framer_abb_ascii.cpp
@@ -73,6 +73,9 @@ FramerAbbAscii::FramerAbbAscii(std::shared_ptr<UCharFixedBuffer> buffer) : Frame
     const size_t headerCrlfIndex = clFrameBuffer.search_chars(crlf, 0, MAX_ASCII_MESSAGE_LENGTH);
     if (headerCrlfIndex == UCharFixedBuffer::npos) { return midLineIncomplete(); }
 
+    // The search also matches a '\r' that ends the buffered data, in which case the '\n' has not arrived yet
+    if (clFrameBuffer.size() < headerCrlfIndex + 2) { return Result{ReturnStatus::INCOMPLETE, HEADER_FORMAT::ABB_ASCII, headerCrlfIndex}; }
+
     if (IsAbbrevAsciiResponse()) { return Result{ReturnStatus::RESPONSE, HEADER_FORMAT::ABB_ASCII, headerCrlfIndex + 2}; }
 
     // If we reach this point, then the message is not a response
-- 
2.43.0


From 66e2aca9dcbbf3f426f97f3360306888364fa9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:03 +0000
Subject: [PATCH 08/89] fix: single-format text framers enforce the maximum
 message size

---
 include/novatel_edie/decoders/oem/framer_ascii_base.hpp | 4 ++++
 src/decoders/oem/src/framer_abb_ascii.cpp               | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/include/novatel_edie/decoders/oem/framer_ascii_base.hpp b/include/novatel_edie/decoders/oem/framer_ascii_base.hpp
index a6211d7..b84ffdb 100644
--- a/include/novatel_edie/decoders/oem/framer_ascii_base.hpp
+++ b/include/novatel_edie/decoders/oem/framer_ascii_base.hpp
@@ -93,6 +93,10 @@ template <HEADER_FORMAT HeaderFormat, unsigned char SyncByte, size_t MaxMessageL
             return uiBufferSize >= MaxMessageLength ? Result{Result::Status::INVALID, HEADER_FORMAT::UNKNOWN, OEM4_ASCII_SYNC_LENGTH}
                                                     : Result{Result::Status::INCOMPLETE, HeaderFormat, uiBufferSize};
         }
+        if (uiCrcDelimIndex + uiCrcTrailerLength > MaxMessageLength)
+        {
+            return {Result::Status::INVALID, HEADER_FORMAT::UNKNOWN, OEM4_ASCII_SYNC_LENGTH};
+        }
         if (uiBufferSize - uiCrcDelimIndex < uiCrcTrailerLength) { return {Result::Status::INCOMPLETE, HeaderFormat, uiCrcDelimIndex}; }
         return {Result::Status::COMPLETE, HeaderFormat, uiCrcDelimIndex + uiCrcTrailerLength};
     }
diff --git a/src/decoders/oem/src/framer_abb_ascii.cpp b/src/decoders/oem/src/framer_abb_ascii.cpp
index 2b9515f..f752930 100644
--- a/src/decoders/oem/src/framer_abb_ascii.cpp
+++ b/src/decoders/oem/src/framer_abb_ascii.cpp
@@ -73,6 +73,9 @@ FramerAbbAscii::FramerAbbAscii(std::shared_ptr<UCharFixedBuffer> buffer) : Frame
     const size_t headerCrlfIndex = clFrameBuffer.search_chars(crlf, 0, MAX_ASCII_MESSAGE_LENGTH);
     if (headerCrlfIndex == UCharFixedBuffer::npos) { return midLineIncomplete(); }
 
+    const auto tooLong = Result{ReturnStatus::INVALID, HEADER_FORMAT::UNKNOWN, OEM4_ASCII_SYNC_LENGTH};
+    if (headerCrlfIndex + 2 > MAX_ASCII_MESSAGE_LENGTH) { return tooLong; }
+
     // The search also matches a '\r' that ends the buffered data, in which case the '\n' has not arrived yet
     if (clFrameBuffer.size() < headerCrlfIndex + 2) { return Result{ReturnStatus::INCOMPLETE, HEADER_FORMAT::ABB_ASCII, headerCrlfIndex}; }
 
@@ -96,6 +99,8 @@ FramerAbbAscii::FramerAbbAscii(std::shared_ptr<UCharFixedBuffer> buffer) : Frame
 
     if (uiCrlfIndex == UCharFixedBuffer::npos) { return midLineIncomplete(); }
 
+    if (uiCrlfIndex + 2 > MAX_ASCII_MESSAGE_LENGTH) { return tooLong; }
+
     if (clFrameBuffer.size() <= uiCrlfIndex + 3) { return Result{ReturnStatus::INCOMPLETE, HEADER_FORMAT::ABB_ASCII, uiCrlfIndex}; }
 
     return Result{ReturnStatus::COMPLETE, HEADER_FORMAT::ABB_ASCII, uiCrlfIndex + 2};
-- 
2.43.0


From c20fedb843174c7a0d9277c96636c4c6deaceb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:59 +0000
Subject: [PATCH 09/89] fix: NMEA checksum must directly follow its delimiter

---
 src/decoders/oem/src/framer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/decoders/oem/src/framer.cpp b/src/decoders/oem/src/framer.cpp
index 0632d99..443a122 100644
--- a/src/decoders/oem/src/framer.cpp
+++ b/src/decoders/oem/src/framer.cpp
@@ -537,7 +537,9 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
                 uint32_t uiMessageCrc;
                 auto result = std::from_chars(acCrc, acCrc + NMEA_CRC_LENGTH, uiMessageCrc, 16);
 
-                if (result.ec == std::errc() && result.ptr == acCrc + NMEA_CRC_LENGTH && uiMyCalculatedCrc32 == uiMessageCrc)
+                // The checksum directly follows its delimiter: anything between them would not be covered by it.
+                if (clInternalFrameBuffer[crcStartIndexInBuffer - 1] == OEM4_ASCII_CRC_DELIMITER && result.ec == std::errc() &&
+                    result.ptr == acCrc + NMEA_CRC_LENGTH && uiMyCalculatedCrc32 == uiMessageCrc)
                 {
                     uiMyByteCount = 0;
 
@@ -561,7 +563,7 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
                     ResetState();
                 }
             }
-            else if (uiMyByteCount >= MAX_NMEA_MESSAGE_LENGTH)
+            else if (uiMyByteCount >= MAX_NMEA_MESSAGE_LENGTH || ucDataByte == OEM4_ASCII_CRC_DELIMITER)
             {
                 uiMyByteCount = NMEA_SYNC_LENGTH;
                 uiMyExpectedPayloadLength = 0;
-- 
2.43.0


From 6baf7aa29183bbb49532d246eea9f11a7dc7fb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:26 +0000
Subject: [PATCH 10/89] fix: header decoder loads a 28-byte header from
 messages that are shorter than that

---
 src/decoders/oem/src/header_decoder.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/decoders/oem/src/header_decoder.cpp b/src/decoders/oem/src/header_decoder.cpp
index 55a5a2d..c25505d 100644
--- a/src/decoders/oem/src/header_decoder.cpp
+++ b/src/decoders/oem/src/header_decoder.cpp
@@ -284,10 +284,10 @@ STATUS HeaderDecoder::Decode(const unsigned char* pucLogBuf_, IntermediateHeader
     if (pclMyMsgDb == nullptr) { return STATUS::NO_DATABASE; }
 
     const auto* pcTempBuf = reinterpret_cast<const char*>(pucLogBuf_);
-    auto stBinaryHeader = LoadValueFromBuffer<Oem4BinaryHeader>(pucLogBuf_);
 
+    // Only the sync bytes are common to every format, the rest of the header is loaded once the format is known
     stMetaData_.eFormat = [&] {
-        switch (stBinaryHeader.ucSync1)
+        switch (pucLogBuf_[0])
         {
         case OEM4_ASCII_SYNC: return HEADER_FORMAT::ASCII;
         case OEM4_SHORT_ASCII_SYNC: return HEADER_FORMAT::SHORT_ASCII;
@@ -295,7 +295,7 @@ STATUS HeaderDecoder::Decode(const unsigned char* pucLogBuf_, IntermediateHeader
         case NMEA_SYNC: return HEADER_FORMAT::NMEA;
         case '{': return HEADER_FORMAT::JSON;
         case OEM4_BINARY_SYNC1:
-            switch (stBinaryHeader.ucSync3)
+            switch (pucLogBuf_[2])
             {
             case OEM4_BINARY_SYNC3: return HEADER_FORMAT::BINARY;
             case OEM4_SHORT_BINARY_SYNC3: return HEADER_FORMAT::SHORT_BINARY;
@@ -367,7 +367,8 @@ STATUS HeaderDecoder::Decode(const unsigned char* pucLogBuf_, IntermediateHeader
         }
         break;
 
-    case HEADER_FORMAT::BINARY:
+    case HEADER_FORMAT::BINARY: {
+        auto stBinaryHeader = LoadValueFromBuffer<Oem4BinaryHeader>(pucLogBuf_);
         stInterHeader_.usMessageId = stBinaryHeader.usMsgNumber;
         stInterHeader_.ucMessageType = stBinaryHeader.ucMsgType;
         stInterHeader_.uiPortAddress = stBinaryHeader.ucPort;
@@ -382,6 +383,7 @@ STATUS HeaderDecoder::Decode(const unsigned char* pucLogBuf_, IntermediateHeader
         stInterHeader_.uiMessageDefinitionCrc = stBinaryHeader.usMsgDefCrc;
         pcTempBuf += sizeof(Oem4BinaryHeader);
         break;
+    }
 
     case HEADER_FORMAT::SHORT_BINARY: {
         // Reset the IntermediateHeader ucMessageType because can incorrectly set ucSiblingId and bResponse if it isn't
-- 
2.43.0


From fd56b6ae5c77c509d4d1de8af4d8459acceed013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:33 +0000
Subject: [PATCH 11/89] fix: decoding into a reused body keeps values of the
 previous message, and fields a message ends before hold a value of the wrong
 type

---
 src/decoders/common/src/message_decoder.cpp | 37 +++++++++++++++++----
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index cdfb43b..923c50e 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -250,6 +250,31 @@ void MessageDecoderBase::InitFieldMaps()
     jsonFieldMap[CalculateBlockCrc32("X")] = jsonFieldMap[CalculateBlockCrc32("x")];
 }
 
+// -------------------------------------------------------------------------------------------------------
+// Discard any previous content of a CompositeField and give each of its variable-length fields an empty value of its own type, so that the
+// fields which a message ends before are neither stale nor of the wrong type
+static void ResetCompositeField(CompositeField& clCompField_, const FieldInfo& clFieldInfo_)
+{
+    clCompField_ = CompositeField(clFieldInfo_.fixedFieldBytes, clFieldInfo_.varFieldCount);
+    for (const auto& field : clFieldInfo_.messageOrderedFields)
+    {
+        switch (field->type)
+        {
+        case FIELD_TYPE::RESPONSE_STR: [[fallthrough]];
+        case FIELD_TYPE::STRING: clCompField_.SetFieldValue<false>(field->index, std::string()); break;
+        case FIELD_TYPE::VARIABLE_LENGTH_ARRAY:
+            SimpleTypeVisitor(*field, [&](auto&& arg) {
+                using T = std::decay_t<decltype(arg)>;
+                using StoredType = std::conditional_t<std::is_same_v<T, bool>, uint8_t, T>;
+                clCompField_.SetFieldValue<false>(field->index, std::vector<StoredType>());
+            });
+            break;
+        case FIELD_TYPE::FIELD_ARRAY: clCompField_.SetFieldValue(*field, CompositeFieldArray()); break;
+        default: break;
+        }
+    }
+}
+
 // -------------------------------------------------------------------------------------------------------
 template <bool Fixed>
 void MessageDecoderBase::DecodeBinaryField(const BaseField& pstMessageDataType_, const unsigned char** ppucLogBuf_, CompositeField& clCompField_,
@@ -350,8 +375,7 @@ MessageDecoderBase::DecodeBinary(const FieldInfo& vMsgDefFields_, const unsigned
                 {
                     *ppucLogBuf_ +=
                         fMyAlignmentFunc(fieldTypeLength, reinterpret_cast<uintptr_t>(pucTempStart), reinterpret_cast<uintptr_t>(*ppucLogBuf_));
-                    vFieldArrayContainer[i] =
-                        CompositeField(subFieldDefinitions->fieldInfo->fixedFieldBytes, subFieldDefinitions->fieldInfo->varFieldCount);
+                    ResetCompositeField(vFieldArrayContainer[i], *subFieldDefinitions->fieldInfo);
                     vFieldArrayContainer[i].SetFieldInfo(subFieldDefinitions->fieldInfo);
                     STATUS eStatus = DecodeBinary(*subFieldDefinitions->fieldInfo, ppucLogBuf_, vFieldArrayContainer[i],
                                                   uiMessageLength_ - static_cast<uint32_t>(*ppucLogBuf_ - pucTempStart));
@@ -669,8 +693,7 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
 
             for (uint32_t i = 0; i < uiArraySize; ++i)
             {
-                pvFieldArrayContainer[i] =
-                    CompositeField(subFieldDefinitions->fieldInfo->fixedFieldBytes, subFieldDefinitions->fieldInfo->varFieldCount);
+                ResetCompositeField(pvFieldArrayContainer[i], *subFieldDefinitions->fieldInfo);
                 pvFieldArrayContainer[i].SetFieldInfo(subFieldDefinitions->fieldInfo);
                 STATUS eStatus = DecodeAscii<Abbreviated>(*subFieldDefinitions->fieldInfo, ppcLogBuf_, pvFieldArrayContainer[i], pcBufEnd_);
                 if (eStatus != STATUS::SUCCESS) { return eStatus; }
@@ -867,8 +890,8 @@ STATUS MessageDecoderBase::DecodeJson(const FieldInfo& vMsgDefFields_, simdjson:
 
             for (simdjson::dom::element element : array)
             {
-                vFieldArrayContainer.emplace_back(subFieldDefinitions->fieldInfo->fixedFieldBytes, subFieldDefinitions->fieldInfo->varFieldCount);
-                auto& stSubMessageBody = vFieldArrayContainer.back();
+                auto& stSubMessageBody = vFieldArrayContainer.emplace_back();
+                ResetCompositeField(stSubMessageBody, *subFieldDefinitions->fieldInfo);
                 stSubMessageBody.SetFieldInfo(subFieldDefinitions->fieldInfo);
 
                 // Recursively decode the subfields
@@ -930,7 +953,7 @@ MessageDecoderBase::Decode(const unsigned char* pucMessage_, CompositeField& stI
     const uint32_t uiMessageCrc = stMetaData_.bResponse ? 0 : stMetaData_.uiMessageCrc;
     const FieldInfo& msgFieldInfo = pclMsgDef->GetMsgDefFromCrc(uiMessageCrc);
 
-    stInterMessage_.resize(msgFieldInfo.fixedFieldBytes, msgFieldInfo.varFieldCount);
+    ResetCompositeField(stInterMessage_, msgFieldInfo);
     stInterMessage_.SetFieldInfo(pclMsgDef, uiMessageCrc);
 
     // Decode the detected format
-- 
2.43.0


From 4d9fda3457a273509e60c09160eedaea16480281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:56 +0000
Subject: [PATCH 12/89] fix: binary encoder leaves the alignment gaps of a body
 uninitialised

---
 include/novatel_edie/decoders/common/encoder.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/novatel_edie/decoders/common/encoder.hpp b/include/novatel_edie/decoders/common/encoder.hpp
index 46affe8..0d8311a 100644
--- a/include/novatel_edie/decoders/common/encoder.hpp
+++ b/include/novatel_edie/decoders/common/encoder.hpp
@@ -334,10 +334,7 @@ template <typename Derived> class EncoderBase
         const auto alignPtr = [this](uint16_t fieldTypeLength_, const unsigned char* startBuf, unsigned char** ppucOutBuf_,
                                      uint32_t& uiBytesLeft_) -> bool {
             auto align = this->fMyAlignmentFunc(fieldTypeLength_, reinterpret_cast<uintptr_t>(startBuf), reinterpret_cast<uintptr_t>(*ppucOutBuf_));
-            if (align > uiBytesLeft_) { return false; }
-            *ppucOutBuf_ += align;
-            uiBytesLeft_ -= static_cast<uint32_t>(align);
-            return true;
+            return SetInBuffer(ppucOutBuf_, uiBytesLeft_, 0, static_cast<uint32_t>(align));
         };
 
         // Fast path: all-fixed message — single memcpy of the fixedFields blob
-- 
2.43.0


From cb5d420e1d2e20de75fed439e743d12fbb2090d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:56 +0000
Subject: [PATCH 13/89] fix: binary encoder does not align the elements of a
 field array that the decoder aligns

---
 include/novatel_edie/decoders/common/encoder.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/novatel_edie/decoders/common/encoder.hpp b/include/novatel_edie/decoders/common/encoder.hpp
index 0d8311a..b321502 100644
--- a/include/novatel_edie/decoders/common/encoder.hpp
+++ b/include/novatel_edie/decoders/common/encoder.hpp
@@ -414,6 +414,8 @@ template <typename Derived> class EncoderBase
                         {
                             for (const auto& element : fieldVector)
                             {
+                                // Every element is aligned, see MessageDecoderBase::DecodeBinary()
+                                if (!alignPtr(fieldDefRef.dataType.length, startBuf, ppucOutBuf_, uiBytesLeft_)) { return false; }
                                 if (!EncodeBinaryBody<Flatten>(element, fieldArrayFieldDef->fieldInfo->messageOrderedFields, ppucOutBuf_,
                                                                uiBytesLeft_))
                                 {
-- 
2.43.0


From dfec17d57ee142b2bb25b4f4b23c0bebe1087bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:56 +0000
Subject: [PATCH 14/89] fix: binary encoding of a string depends on the address
 of the output buffer

---
 include/novatel_edie/decoders/common/encoder.hpp | 10 ++++++++--
 include/novatel_edie/decoders/oem/encoder.hpp    |  6 ++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/novatel_edie/decoders/common/encoder.hpp b/include/novatel_edie/decoders/common/encoder.hpp
index b321502..277c471 100644
--- a/include/novatel_edie/decoders/common/encoder.hpp
+++ b/include/novatel_edie/decoders/common/encoder.hpp
@@ -316,6 +316,8 @@ template <typename Derived> class EncoderBase
     //----------------------------------------------------------------------------
     //! \brief Add padding after binary string fields to maintain alignment.
     //
+    //! \param[in] pucStart_ The start of the body being encoded, which alignment
+    //!     is relative to.
     //! \param[in, out] ptr_ A pointer to the encode buffer pointer to be padded
     //!     if necessary. Updated in place.
     //! \param[in, out] uiBytesLeft_ The number of bytes left in the buffer.
@@ -325,7 +327,11 @@ template <typename Derived> class EncoderBase
     //!     there was not enough space in the buffer.
     //! \see MessageDecoderBase::AddStringFieldPadding() for the corresponding decoder method.
     //----------------------------------------------------------------------------
-    virtual bool AddStringFieldPadding([[maybe_unused]] unsigned char** ptr, [[maybe_unused]] uint32_t& uiBytesLeft_) const { return true; }
+    virtual bool AddStringFieldPadding([[maybe_unused]] const unsigned char* pucStart_, [[maybe_unused]] unsigned char** ptr,
+                                       [[maybe_unused]] uint32_t& uiBytesLeft_) const
+    {
+        return true;
+    }
 
     template <bool Flatten>
     [[nodiscard]] bool EncodeBinaryBody(const CompositeField& stInterMessage_, const std::vector<BaseField::ConstPtr>& fieldDefinitions_,
@@ -437,7 +443,7 @@ template <typename Derived> class EncoderBase
                             if (remaining > 0 && !SetInBuffer(ppucOutBuf_, uiBytesLeft_, 0, remaining)) { return false; }
                         }
 
-                        if constexpr (std::is_same_v<ValueType, std::string>) { return AddStringFieldPadding(ppucOutBuf_, uiBytesLeft_); }
+                        if constexpr (std::is_same_v<ValueType, std::string>) { return AddStringFieldPadding(startBuf, ppucOutBuf_, uiBytesLeft_); }
                         return true;
                     },
                     stInterMessage_.GetVarFields()[fieldDefRef.index]);
diff --git a/include/novatel_edie/decoders/oem/encoder.hpp b/include/novatel_edie/decoders/oem/encoder.hpp
index 6b4d0a8..e88d3a4 100644
--- a/include/novatel_edie/decoders/oem/encoder.hpp
+++ b/include/novatel_edie/decoders/oem/encoder.hpp
@@ -52,6 +52,8 @@ class Encoder : public EncoderBase<Encoder>
     //! \brief Add padding after binary string fields to maintain alignment. OEM
     //!     strings maintain 4-byte alignment.
     //
+    //! \param[in] pucStart_ The start of the body being encoded, which alignment
+    //!     is relative to.
     //! \param[in, out] ptr_ A pointer to the encode buffer pointer to be padded
     //!     if necessary. Updated in place.
     //! \param[in, out] uiBytesLeft_ The number of bytes left in the buffer.
@@ -61,9 +63,9 @@ class Encoder : public EncoderBase<Encoder>
     //!     there was not enough space in the buffer.
     //! \see MessageDecoder::AddStringFieldPadding() for the corresponding decoder method.
     //----------------------------------------------------------------------------
-    bool AddStringFieldPadding(unsigned char** ptr, uint32_t& uiBytesLeft_) const override
+    bool AddStringFieldPadding(const unsigned char* pucStart_, unsigned char** ptr, uint32_t& uiBytesLeft_) const override
     {
-        if (!SetInBuffer(ptr, uiBytesLeft_, 0, 4 - (reinterpret_cast<uintptr_t>(*ptr) % 4))) return false;
+        if (!SetInBuffer(ptr, uiBytesLeft_, 0, 4 - static_cast<uint32_t>((*ptr - pucStart_) % 4))) return false;
         return true;
     }
 
-- 
2.43.0


From c417eea7f8208612d3052be9c7213ca0df3c7c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:44 +0000
Subject: [PATCH 15/89] fix: encoding text from CHAR arrays and CHAR characters
 reads them as the wrong type

---
 .../novatel_edie/decoders/common/encoder.hpp    | 12 ++++++++++--
 src/decoders/oem/src/encoder.cpp                | 17 ++++++++---------
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/include/novatel_edie/decoders/common/encoder.hpp b/include/novatel_edie/decoders/common/encoder.hpp
index 277c471..76bc2e8 100644
--- a/include/novatel_edie/decoders/common/encoder.hpp
+++ b/include/novatel_edie/decoders/common/encoder.hpp
@@ -271,6 +271,14 @@ template <typename BufferType, typename... Args>
     return success;
 }
 
+// -------------------------------------------------------------------------------------------------------
+//! \brief Get one element of a single-byte field (CHAR, UCHAR or HEXBYTE) as a character.
+inline char GetCharValue(const BaseField& fd_, const CompositeField& cf_, size_t index_)
+{
+    return fd_.dataType.name == DATA_TYPE::CHAR ? static_cast<char>(cf_.GetFieldValue<int8_t>(fd_, index_))
+                                                : static_cast<char>(cf_.GetFieldValue<uint8_t>(fd_, index_));
+}
+
 // -------------------------------------------------------------------------------------------------------
 template <typename T>
 std::function<bool(const BaseField&, const CompositeField&, char**, uint32_t&, const MessageDatabase&, size_t)> BasicIntMapEntry()
@@ -558,7 +566,7 @@ template <typename Derived> class EncoderBase
             for (size_t i = 0; i < count; i++)
             {
                 if (fieldDefRef_.isString && (fieldDefRef_.dataType.name == DATA_TYPE::CHAR || fieldDefRef_.dataType.name == DATA_TYPE::UCHAR) &&
-                    cf_.GetFieldValue<uint8_t>(*arrayFieldDef, i) == 0)
+                    GetCharValue(*arrayFieldDef, cf_, i) == 0)
                 {
                     break;
                 }
@@ -739,7 +747,7 @@ template <typename Derived> class EncoderBase
             for (size_t i = 0; i < count; i++)
             {
                 if (fieldDefRef_.isString && (fieldDefRef_.dataType.name == DATA_TYPE::CHAR || fieldDefRef_.dataType.name == DATA_TYPE::UCHAR) &&
-                    cf_.GetFieldValue<uint8_t>(*arrayFieldDef, i) == 0)
+                    GetCharValue(*arrayFieldDef, cf_, i) == 0)
                 {
                     break;
                 }
diff --git a/src/decoders/oem/src/encoder.cpp b/src/decoders/oem/src/encoder.cpp
index 5f50735..49c9d9b 100644
--- a/src/decoders/oem/src/encoder.cpp
+++ b/src/decoders/oem/src/encoder.cpp
@@ -98,9 +98,7 @@ void Encoder::InitFieldMaps()
 
     asciiFieldMap[CalculateBlockCrc32("s")] = [](const BaseField& fd_, const CompositeField& cf_, char** ppcOutBuf_, uint32_t& uiBytesLeft_,
                                                  const MessageDatabase&, size_t offset) {
-        return fd_.dataType.name == DATA_TYPE::UCHAR
-                   ? CopyToBuffer(ppcOutBuf_, uiBytesLeft_, static_cast<char>(cf_.GetFieldValue<uint8_t>(fd_, offset)))
-                   : CopyToBuffer(ppcOutBuf_, uiBytesLeft_, static_cast<char>(cf_.GetFieldValue<int8_t>(fd_, offset)));
+        return CopyToBuffer(ppcOutBuf_, uiBytesLeft_, GetCharValue(fd_, cf_, offset));
     };
 
     asciiFieldMap[CalculateBlockCrc32("m")] = [](const BaseField& fd_, const CompositeField& cf_, char** ppcOutBuf_, uint32_t& uiBytesLeft_,
@@ -179,7 +177,7 @@ void Encoder::InitFieldMaps()
 
     asciiFieldMap[CalculateBlockCrc32("c")] = [](const BaseField& fd_, const CompositeField& cf_, char** ppcOutBuf_, uint32_t& uiBytesLeft_,
                                                  const MessageDatabase&, size_t offset) {
-        if (fd_.dataType.length == 1) { return CopyToBuffer(ppcOutBuf_, uiBytesLeft_, static_cast<char>(cf_.GetFieldValue<uint8_t>(fd_, offset))); }
+        if (fd_.dataType.length == 1) { return CopyToBuffer(ppcOutBuf_, uiBytesLeft_, GetCharValue(fd_, cf_, offset)); }
         if (fd_.dataType.length == 4 && fd_.dataType.name == DATA_TYPE::ULONG)
         {
             return CopyToBuffer(ppcOutBuf_, uiBytesLeft_, static_cast<char>(cf_.GetFieldValue<uint32_t>(fd_, offset)));
@@ -190,7 +188,10 @@ void Encoder::InitFieldMaps()
     // =========================================================
     // Json Field Mapping
     // =========================================================
-    jsonFieldMap[CalculateBlockCrc32("P")] = BasicIntMapEntry<uint8_t>();
+    jsonFieldMap[CalculateBlockCrc32("P")] = [](const BaseField& fd_, const CompositeField& cf_, char** ppcOutBuf_, uint32_t& uiBytesLeft_,
+                                                const MessageDatabase&, size_t offset) {
+        return WriteIntToBuffer(ppcOutBuf_, uiBytesLeft_, static_cast<uint8_t>(GetCharValue(fd_, cf_, offset)));
+    };
 
     jsonFieldMap[CalculateBlockCrc32("T")] = [](const BaseField& fd_, const CompositeField& cf_, char** ppcOutBuf_, uint32_t& uiBytesLeft_,
                                                 const MessageDatabase&, size_t offset) {
@@ -260,16 +261,14 @@ void Encoder::InitFieldMaps()
 
     jsonFieldMap[CalculateBlockCrc32("s")] = [](const BaseField& fd_, const CompositeField& cf_, char** ppcOutBuf_, uint32_t& uiBytesLeft_,
                                                 const MessageDatabase&, size_t offset) {
-        return CopyToBuffer(ppcOutBuf_, uiBytesLeft_,
-                            fd_.dataType.name == DATA_TYPE::UCHAR ? static_cast<char>(cf_.GetFieldValue<uint8_t>(fd_, offset))
-                                                                  : static_cast<char>(cf_.GetFieldValue<int8_t>(fd_, offset)));
+        return CopyToBuffer(ppcOutBuf_, uiBytesLeft_, GetCharValue(fd_, cf_, offset));
     };
 
     jsonFieldMap[CalculateBlockCrc32("c")] = [](const BaseField& fd_, const CompositeField& cf_, char** ppcOutBuf_, uint32_t& uiBytesLeft_,
                                                 const MessageDatabase&, size_t offset) {
         if (fd_.dataType.length == 1)
         {
-            return CopyAllToBuffer(ppcOutBuf_, uiBytesLeft_, '"', static_cast<char>(cf_.GetFieldValue<uint8_t>(fd_, offset)), '"');
+            return CopyAllToBuffer(ppcOutBuf_, uiBytesLeft_, '"', GetCharValue(fd_, cf_, offset), '"');
         }
         if (fd_.dataType.length == 4 && fd_.dataType.name == DATA_TYPE::ULONG)
         {
-- 
2.43.0


From e047096d28538427c59b5f941ec6d9f598318390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:22 +0000
Subject: [PATCH 16/89] fix: JSON encoder does not escape the characters of
 strings

---
 .../novatel_edie/decoders/common/encoder.hpp  | 25 ++++++++++++++++++-
 src/decoders/oem/src/encoder.cpp              | 17 +++++++------
 2 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/include/novatel_edie/decoders/common/encoder.hpp b/include/novatel_edie/decoders/common/encoder.hpp
index 76bc2e8..1b4c6e8 100644
--- a/include/novatel_edie/decoders/common/encoder.hpp
+++ b/include/novatel_edie/decoders/common/encoder.hpp
@@ -226,6 +226,25 @@ template <typename BufferType> [[nodiscard]] inline bool CopyToBuffer(BufferType
     return true;
 }
 
+// -------------------------------------------------------------------------------------------------------
+//! \brief Copy the characters of a JSON string to the buffer, escaping those which may not appear in one as they are.
+template <typename BufferType> [[nodiscard]] inline bool CopyJsonStringToBuffer(BufferType* buffer_, uint32_t& uiBytesLeft_, std::string_view sv)
+{
+    for (const char c : sv)
+    {
+        if (c == '"' || c == '\\')
+        {
+            if (!CopyToBuffer(buffer_, uiBytesLeft_, '\\') || !CopyToBuffer(buffer_, uiBytesLeft_, c)) { return false; }
+        }
+        else if (static_cast<unsigned char>(c) < 0x20)
+        {
+            if (!CopyToBuffer(buffer_, uiBytesLeft_, "\\u") || !WriteHexToBuffer(buffer_, uiBytesLeft_, static_cast<uint8_t>(c), 4)) { return false; }
+        }
+        else if (!CopyToBuffer(buffer_, uiBytesLeft_, c)) { return false; }
+    }
+    return true;
+}
+
 // -------------------------------------------------------------------------------------------------------
 template <typename BufferType, typename... Args> [[nodiscard]] bool CopyAllToBuffer(BufferType* buffer_, uint32_t& uiBytesLeft_, Args&&... args_)
 {
@@ -839,7 +858,11 @@ template <typename Derived> class EncoderBase
             case FIELD_TYPE::STRING: {
                 const auto value = clCompField_.GetVarFields()[fieldDefRef.index];
                 const auto& str = std::get<std::string>(value);
-                if (!CopyAllToBuffer(ppcOutBuf_, uiBytesLeft_, '"', std::string_view(fieldDefRef.name), R"(": ")", str, "\",")) { return false; }
+                if (!CopyAllToBuffer(ppcOutBuf_, uiBytesLeft_, '"', std::string_view(fieldDefRef.name), R"(": ")") ||
+                    !CopyJsonStringToBuffer(ppcOutBuf_, uiBytesLeft_, str) || !CopyToBuffer(ppcOutBuf_, uiBytesLeft_, "\","))
+                {
+                    return false;
+                }
                 break;
             }
             case FIELD_TYPE::VARIABLE_LENGTH_ARRAY: [[fallthrough]];
diff --git a/src/decoders/oem/src/encoder.cpp b/src/decoders/oem/src/encoder.cpp
index 49c9d9b..8911b29 100644
--- a/src/decoders/oem/src/encoder.cpp
+++ b/src/decoders/oem/src/encoder.cpp
@@ -261,20 +261,21 @@ void Encoder::InitFieldMaps()
 
     jsonFieldMap[CalculateBlockCrc32("s")] = [](const BaseField& fd_, const CompositeField& cf_, char** ppcOutBuf_, uint32_t& uiBytesLeft_,
                                                 const MessageDatabase&, size_t offset) {
-        return CopyToBuffer(ppcOutBuf_, uiBytesLeft_, GetCharValue(fd_, cf_, offset));
+        const char cValue = GetCharValue(fd_, cf_, offset);
+        return CopyJsonStringToBuffer(ppcOutBuf_, uiBytesLeft_, std::string_view(&cValue, 1));
     };
 
     jsonFieldMap[CalculateBlockCrc32("c")] = [](const BaseField& fd_, const CompositeField& cf_, char** ppcOutBuf_, uint32_t& uiBytesLeft_,
                                                 const MessageDatabase&, size_t offset) {
-        if (fd_.dataType.length == 1)
+        char cValue;
+        if (fd_.dataType.length == 1) { cValue = GetCharValue(fd_, cf_, offset); }
+        else if (fd_.dataType.length == 4 && fd_.dataType.name == DATA_TYPE::ULONG)
         {
-            return CopyAllToBuffer(ppcOutBuf_, uiBytesLeft_, '"', GetCharValue(fd_, cf_, offset), '"');
+            cValue = static_cast<char>(cf_.GetFieldValue<uint32_t>(fd_, offset));
         }
-        if (fd_.dataType.length == 4 && fd_.dataType.name == DATA_TYPE::ULONG)
-        {
-            return CopyAllToBuffer(ppcOutBuf_, uiBytesLeft_, '"', static_cast<char>(cf_.GetFieldValue<uint32_t>(fd_, offset)), '"');
-        }
-        return false;
+        else { return false; }
+        return CopyToBuffer(ppcOutBuf_, uiBytesLeft_, '"') && CopyJsonStringToBuffer(ppcOutBuf_, uiBytesLeft_, std::string_view(&cValue, 1)) &&
+               CopyToBuffer(ppcOutBuf_, uiBytesLeft_, '"');
     };
 }
 
-- 
2.43.0


From 6eeab90e7e0227e8b946e1913085cb1e09af0999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:06 +0000
Subject: [PATCH 17/89] fix: array fields without a conversion string are
 encoded without separators between their elements

---
 src/decoders/common/src/json_db_reader.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/decoders/common/src/json_db_reader.cpp b/src/decoders/common/src/json_db_reader.cpp
index 61b9bb2..a52ebfd 100644
--- a/src/decoders/common/src/json_db_reader.cpp
+++ b/src/decoders/common/src/json_db_reader.cpp
@@ -133,6 +133,7 @@ void ParseBaseField(element j_, BaseField& f_)
     const auto itrFieldTypeMapping = FieldTypeEnumLookup.find(std::string(AsStringView(Member(j_, "type"))));
     f_.type = itrFieldTypeMapping != FieldTypeEnumLookup.end() ? itrFieldTypeMapping->second : FIELD_TYPE::UNKNOWN;
 
+    f_.ComputeStringFlags(); // A field need not have a conversion string
     element conversionString;
     if (j_["conversionString"].get(conversionString) == simdjson::SUCCESS)
     {
-- 
2.43.0


From 42ab604a06a8c6d15572dac567966e4948b945e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:55 +0000
Subject: [PATCH 18/89] fix: text encoders render enumerators above the signed
 range of a narrow ENUM field as UNKNOWN

---
 .../novatel_edie/decoders/common/encoder.hpp  | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/include/novatel_edie/decoders/common/encoder.hpp b/include/novatel_edie/decoders/common/encoder.hpp
index 1b4c6e8..8d5bd96 100644
--- a/include/novatel_edie/decoders/common/encoder.hpp
+++ b/include/novatel_edie/decoders/common/encoder.hpp
@@ -298,6 +298,19 @@ inline char GetCharValue(const BaseField& fd_, const CompositeField& cf_, size_t
                                                 : static_cast<char>(cf_.GetFieldValue<uint8_t>(fd_, index_));
 }
 
+// -------------------------------------------------------------------------------------------------------
+//! \brief Get the value of an ENUM field. Enumerator values are unsigned, whatever the width of the field.
+inline uint32_t GetEnumFieldValue(const BaseField& fd_, const CompositeField& cf_)
+{
+    switch (fd_.dataType.length)
+    {
+    case 1: return static_cast<uint8_t>(cf_.GetFieldValue<int8_t>(fd_));
+    case 2: return static_cast<uint16_t>(cf_.GetFieldValue<int16_t>(fd_));
+    case 4: return static_cast<uint32_t>(cf_.GetFieldValue<int32_t>(fd_));
+    default: throw std::runtime_error("GetEnumFieldValue(): unsupported enum width");
+    }
+}
+
 // -------------------------------------------------------------------------------------------------------
 template <typename T>
 std::function<bool(const BaseField&, const CompositeField&, char**, uint32_t&, const MessageDatabase&, size_t)> BasicIntMapEntry()
@@ -558,11 +571,7 @@ template <typename Derived> class EncoderBase
         {
             auto enumFieldPtr = dynamic_cast<const EnumField*>(&fieldDefRef_);
             if (!enumFieldPtr) return false;
-            std::string_view enumString;
-            SimpleTypeVisitor(fieldDefRef_, [&](auto&& arg) {
-                enumString =
-                    GetEnumString(enumFieldPtr->enumDef, static_cast<uint32_t>(cf_.GetFieldValue<std::decay_t<decltype(arg)>>(fieldDefRef_)));
-            });
+            const std::string_view enumString = GetEnumString(enumFieldPtr->enumDef, GetEnumFieldValue(fieldDefRef_, cf_));
             return CopyAllToBuffer(ppcOutBuf_, uiBytesLeft_, enumString, separator);
         }
 
@@ -739,11 +748,7 @@ template <typename Derived> class EncoderBase
         {
             auto enumFieldPtr = dynamic_cast<const EnumField*>(&fieldDefRef_);
             if (!enumFieldPtr) return false;
-            std::string_view enumString;
-            SimpleTypeVisitor(fieldDefRef_, [&](auto&& arg) {
-                enumString =
-                    GetEnumString(enumFieldPtr->enumDef, static_cast<uint32_t>(cf_.GetFieldValue<std::decay_t<decltype(arg)>>(fieldDefRef_)));
-            });
+            const std::string_view enumString = GetEnumString(enumFieldPtr->enumDef, GetEnumFieldValue(fieldDefRef_, cf_));
             return CopyAllToBuffer(ppcOutBuf_, uiBytesLeft_, '"', enumString, "\",");
         }
 
-- 
2.43.0


From 4fa52219c186938c569c4f039d098b94e0b12abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:33 +0000
Subject: [PATCH 19/89] fix: a conversion string width above 15 makes the
 encoder read past the end of its table of powers

---
 include/novatel_edie/decoders/common/encoder.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/novatel_edie/decoders/common/encoder.hpp b/include/novatel_edie/decoders/common/encoder.hpp
index 8d5bd96..7230be2 100644
--- a/include/novatel_edie/decoders/common/encoder.hpp
+++ b/include/novatel_edie/decoders/common/encoder.hpp
@@ -29,6 +29,7 @@
 
 #include <array>
 #include <charconv>
+#include <cmath>
 #include <cstdarg>
 #include <functional>
 #include <optional>
@@ -94,9 +95,12 @@ template <typename T> inline std::chars_format FloatingPointFormat(const BaseFie
 
     const auto width = fd_.width.value();
     const auto absVal = std::abs(val_);
+    const bool inLookup = static_cast<size_t>(width) < powLookup.size();
+    const double upperBound = inLookup ? powLookup[width] : std::pow(10.0, width);
+    const double lowerBound = inLookup ? npowLookup[width] : 1.0 / upperBound;
 
-    return absVal >= std::numeric_limits<T>::min() && (absVal > powLookup[width] || absVal < npowLookup[width]) ? std::chars_format::scientific
-                                                                                                                : std::chars_format::fixed;
+    return absVal >= std::numeric_limits<T>::min() && (absVal > upperBound || absVal < lowerBound) ? std::chars_format::scientific
+                                                                                                   : std::chars_format::fixed;
 }
 
 // -------------------------------------------------------------------------------------------------------
-- 
2.43.0


From 96da395898aed115830ce6af9ab918e50ee0f2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:33 +0000
Subject: [PATCH 20/89] fix: encoding a response as JSON throws

---
 include/novatel_edie/decoders/common/encoder.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/novatel_edie/decoders/common/encoder.hpp b/include/novatel_edie/decoders/common/encoder.hpp
index 7230be2..9a830fa 100644
--- a/include/novatel_edie/decoders/common/encoder.hpp
+++ b/include/novatel_edie/decoders/common/encoder.hpp
@@ -877,6 +877,7 @@ template <typename Derived> class EncoderBase
             case FIELD_TYPE::VARIABLE_LENGTH_ARRAY: [[fallthrough]];
             case FIELD_TYPE::FIXED_LENGTH_ARRAY: [[fallthrough]];
             case FIELD_TYPE::ENUM: [[fallthrough]];
+            case FIELD_TYPE::RESPONSE_ID: [[fallthrough]];
             case FIELD_TYPE::SIMPLE:
                 if (!EncodeJsonField(fieldDefRef, clCompField_, ppcOutBuf_, uiBytesLeft_)) { return false; }
                 break;
-- 
2.43.0


From 75f09fb43629b22d8fd16098de180a7463093b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:33 +0000
Subject: [PATCH 21/89] fix: text encoders overwrite the delimiter before the
 body of a message that has no fields

---
 include/novatel_edie/decoders/common/encoder.hpp | 3 ++-
 src/decoders/oem/src/encoder.cpp                 | 6 +++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/novatel_edie/decoders/common/encoder.hpp b/include/novatel_edie/decoders/common/encoder.hpp
index 9a830fa..c6e5488 100644
--- a/include/novatel_edie/decoders/common/encoder.hpp
+++ b/include/novatel_edie/decoders/common/encoder.hpp
@@ -885,7 +885,8 @@ template <typename Derived> class EncoderBase
             }
         }
 
-        *(*ppcOutBuf_ - 1) = '}';
+        if (fieldDefinitions_.empty()) { return CopyToBuffer(ppcOutBuf_, uiBytesLeft_, '}'); }
+        *(*ppcOutBuf_ - 1) = '}'; // Replace the last delimiter ','
         return true;
     }
 
diff --git a/src/decoders/oem/src/encoder.cpp b/src/decoders/oem/src/encoder.cpp
index 8911b29..a8067a8 100644
--- a/src/decoders/oem/src/encoder.cpp
+++ b/src/decoders/oem/src/encoder.cpp
@@ -554,7 +554,11 @@ Encoder::EncodeBody(unsigned char* const* ppucBuffer_, uint32_t uiBufferSize_, c
     case ENCODE_FORMAT::ASCII: {
         auto* pcTempBuffer = reinterpret_cast<char*>(pucTempBuffer);
         if (!EncodeAsciiBody<false>(stMessage_, fieldDefinitions, &pcTempBuffer, uiBufferSize_)) { return STATUS::BUFFER_FULL; }
-        pcTempBuffer--; // Remove last delimiter ','
+        if (!fieldDefinitions.empty()) // Remove last delimiter ','
+        {
+            pcTempBuffer--;
+            uiBufferSize_++;
+        }
         const uint32_t uiCrc = CalculateBlockCrc32(stMessageData_.pucMessageHeader + 1,
                                                    reinterpret_cast<unsigned char*>(pcTempBuffer) - stMessageData_.pucMessageHeader - 1);
         if (!CopyAllToBuffer(&pcTempBuffer, uiBufferSize_, '*', HexValue<uint32_t>{uiCrc, 8}, "\r\n")) { return STATUS::BUFFER_FULL; }
-- 
2.43.0


From aba5772ab62d92d8c7dd38c466adf7c22df886e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:33 +0000
Subject: [PATCH 22/89] fix: encoder writes past the end of the output buffer
 by up to the length of what it already wrote

---
 src/decoders/oem/src/encoder.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/decoders/oem/src/encoder.cpp b/src/decoders/oem/src/encoder.cpp
index a8067a8..3c3f1a6 100644
--- a/src/decoders/oem/src/encoder.cpp
+++ b/src/decoders/oem/src/encoder.cpp
@@ -451,8 +451,9 @@ Encoder::Encode(unsigned char* const* ppucBuffer_, uint32_t uiBufferSize_, const
     }
 
     STATUS eStatus = EncodeHeader(&pucTempEncodeBuffer, uiBufferSize_, stHeader_, stMessageData_, eHeaderFormat_, eFormat_);
-    pucTempEncodeBuffer += stMessageData_.uiMessageHeaderLength;
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
+    pucTempEncodeBuffer += stMessageData_.uiMessageHeaderLength;
+    uiBufferSize_ -= stMessageData_.uiMessageHeaderLength;
 
     if (eFormat_ == ENCODE_FORMAT::JSON)
     {
@@ -463,6 +464,7 @@ Encoder::Encode(unsigned char* const* ppucBuffer_, uint32_t uiBufferSize_, const
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
 
     pucTempEncodeBuffer += stMessageData_.uiMessageBodyLength;
+    uiBufferSize_ -= stMessageData_.uiMessageBodyLength;
 
     if (eFormat_ == ENCODE_FORMAT::JSON)
     {
-- 
2.43.0


From b43d926cea146ff8657ee155fa39ce7d753225ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:33 +0000
Subject: [PATCH 23/89] fix: binary encoder truncates the length of a body that
 the header length field cannot hold

---
 src/decoders/oem/src/encoder.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/decoders/oem/src/encoder.cpp b/src/decoders/oem/src/encoder.cpp
index 3c3f1a6..49a1321 100644
--- a/src/decoders/oem/src/encoder.cpp
+++ b/src/decoders/oem/src/encoder.cpp
@@ -587,6 +587,10 @@ Encoder::EncodeBody(unsigned char* const* ppucBuffer_, uint32_t uiBufferSize_, c
         // MessageData must have a valid MessageHeader pointer to populate the length field.
         if (stMessageData_.pucMessageHeader == nullptr) { return STATUS::FAILURE; }
         // Go back and set the length field in the header.
+        if (pucTempBuffer - *ppucBuffer_ > (IsShortHeaderFormat(eHeaderFormat_) ? std::numeric_limits<uint8_t>::max() : std::numeric_limits<uint16_t>::max()))
+        {
+            return STATUS::FAILURE; // The header cannot hold the length of this body
+        }
         // TODO: this block of code below is what's blocking us from moving this function to common (can solve this with dynamic casting or CRTP?)
         if (!IsShortHeaderFormat(eHeaderFormat_))
         {
-- 
2.43.0


From c6c3a594dd08434bda54f54e5bd4b94e0bc4fc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:33 +0000
Subject: [PATCH 24/89] fix: encoding an abbreviated ASCII response leaves the
 header and body pointers unset

---
 src/decoders/oem/src/encoder.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/decoders/oem/src/encoder.cpp b/src/decoders/oem/src/encoder.cpp
index 49a1321..ec36668 100644
--- a/src/decoders/oem/src/encoder.cpp
+++ b/src/decoders/oem/src/encoder.cpp
@@ -437,6 +437,7 @@ Encoder::Encode(unsigned char* const* ppucBuffer_, uint32_t uiBufferSize_, const
     if (eFormat_ == ENCODE_FORMAT::ABBREV_ASCII && ((stHeader_.ucMessageType & static_cast<uint8_t>(MESSAGE_TYPE_MASK::RESPONSE)) != 0))
     {
         if (!CopyToBuffer(&pucTempEncodeBuffer, uiBufferSize_, "<")) { return STATUS::BUFFER_FULL; }
+        stMessageData_.pucMessageHeader = *ppucBuffer_;
         stMessageData_.uiMessageHeaderLength = 1;
 
         if (fieldDefinitions.size() <= 1) { return STATUS::MALFORMED_INPUT; }
@@ -445,6 +446,7 @@ Encoder::Encode(unsigned char* const* ppucBuffer_, uint32_t uiBufferSize_, const
         if (!CopyToBuffer(&pucTempEncodeBuffer, uiBufferSize_, "\r\n")) { return STATUS::BUFFER_FULL; }
         stMessageData_.pucMessage = *ppucBuffer_;
         stMessageData_.uiMessageLength = pucTempEncodeBuffer - *ppucBuffer_;
+        stMessageData_.pucMessageBody = stMessageData_.pucMessage + stMessageData_.uiMessageHeaderLength;
         stMessageData_.uiMessageBodyLength = stMessageData_.uiMessageLength - stMessageData_.uiMessageHeaderLength;
 
         return STATUS::SUCCESS;
-- 
2.43.0


From 1e7936c67a9950549096da4590f8c68fe3309d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:42 +0000
Subject: [PATCH 25/89] fix: message decoder constructed with a database never
 loads its enumerations nor validates its family

---
 include/novatel_edie/decoders/common/message_decoder.hpp | 3 +--
 src/decoders/common/src/message_decoder.cpp              | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/novatel_edie/decoders/common/message_decoder.hpp b/include/novatel_edie/decoders/common/message_decoder.hpp
index c1d772d..f9ba791 100644
--- a/include/novatel_edie/decoders/common/message_decoder.hpp
+++ b/include/novatel_edie/decoders/common/message_decoder.hpp
@@ -1730,8 +1730,7 @@ class MessageDecoderBase
     //----------------------------------------------------------------------------
     MessageDecoderBase(std::string expectedMessageFamily_, MessageDatabase::Ptr pclMessageDb_ = nullptr,
                        std::function<size_t(const size_t, const uintptr_t, const uintptr_t)> fAlignmentFunc_ = MessageDatabase::NoAlign)
-        : sMyExpectedMessageFamily(std::move(expectedMessageFamily_)), fMyAlignmentFunc(std::move(fAlignmentFunc_)),
-          pclMyMsgDb(std::move(pclMessageDb_))
+        : sMyExpectedMessageFamily(std::move(expectedMessageFamily_)), fMyAlignmentFunc(std::move(fAlignmentFunc_))
     {
         InitFieldMaps();
         if (pclMessageDb_ != nullptr) { LoadJsonDb(std::move(pclMessageDb_)); }
diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index 923c50e..acd85f1 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -35,7 +35,7 @@ using namespace novatel::edie;
 // -------------------------------------------------------------------------------------------------------
 void MessageDecoderBase::LoadJsonDb(MessageDatabase::Ptr pclMessageDb_)
 {
-    ValidateMessageDatabaseFamily(pclMyMsgDb, sMyExpectedMessageFamily, pclMyLogger);
+    ValidateMessageDatabaseFamily(pclMessageDb_, sMyExpectedMessageFamily, pclMyLogger);
     pclMyMsgDb = std::move(pclMessageDb_);
     InitEnumDefinitions();
 }
-- 
2.43.0


From 9d2b2297b62a656d069c2b8c01bddc859b36ea57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:42 +0000
Subject: [PATCH 26/89] fix: binary decoder reads past the end of messages
 shorter than their definition

---
 .../decoders/common/message_decoder.hpp       | 10 +++---
 src/decoders/common/src/message_decoder.cpp   | 36 +++++++++++++------
 2 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/include/novatel_edie/decoders/common/message_decoder.hpp b/include/novatel_edie/decoders/common/message_decoder.hpp
index f9ba791..ca79520 100644
--- a/include/novatel_edie/decoders/common/message_decoder.hpp
+++ b/include/novatel_edie/decoders/common/message_decoder.hpp
@@ -1661,8 +1661,9 @@ class MessageDecoderBase
     }
 
     // -------------------------------------------------------------------------------------------------------
-    uint32_t GetArrayLength(const unsigned char* pucTempStart, const unsigned char** ppucLogBuf_, const ArrayField& arrayDef,
-                            const CompositeField& clCompField_) const
+    //! \return The number of elements of an array, or std::nullopt if the message does not hold a valid one.
+    std::optional<uint32_t> GetArrayLength(const unsigned char* pucTempStart, const unsigned char* pucEnd_, const unsigned char** ppucLogBuf_,
+                                           const ArrayField& arrayDef, const CompositeField& clCompField_) const
     {
         if (arrayDef.arrayLengthRef.empty())
         {
@@ -1671,6 +1672,7 @@ class MessageDecoderBase
                 throw std::runtime_error("GetArrayLength: Unsupported length size; must be 1,2 or 4");
 
             *ppucLogBuf_ += fMyAlignmentFunc(lenBytes, reinterpret_cast<uintptr_t>(pucTempStart), reinterpret_cast<uintptr_t>(*ppucLogBuf_));
+            if (*ppucLogBuf_ >= pucEnd_ || static_cast<size_t>(pucEnd_ - *ppucLogBuf_) < lenBytes) { return std::nullopt; }
 
             uint32_t uiArrayLength = 0;
             for (std::size_t i = 0; i < lenBytes; ++i) { uiArrayLength |= static_cast<uint32_t>((*ppucLogBuf_)[i]) << (8 * i); }
@@ -1682,7 +1684,7 @@ class MessageDecoderBase
         // Traverse the decoded fields to find the arrayLengthRef field by its name.
         if (auto arrLengthRefDef = clCompField_.GetFieldInfo()->GetFieldDefByName(arrayDef.arrayLengthRef))
         {
-            const auto arraySize = std::visit(
+            return std::visit(
                 [](const auto& value) -> std::optional<uint32_t> {
                     using T = std::decay_t<decltype(value)>;
                     if constexpr (std::is_integral_v<T>)
@@ -1700,8 +1702,6 @@ class MessageDecoderBase
                     return std::nullopt;
                 },
                 clCompField_.GetFieldValueVariant(*arrLengthRefDef));
-
-            if (arraySize) { return *arraySize; }
         }
 
         throw std::runtime_error("GetArrayLength(): No matching field found for arrayLengthRef");
diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index acd85f1..4f86511 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -299,16 +299,23 @@ MessageDecoderBase::DecodeBinary(const FieldInfo& vMsgDefFields_, const unsigned
                                  const uint32_t uiMessageLength_) const
 {
     const unsigned char* pucTempStart = *ppucLogBuf_;
+    const unsigned char* const pucEnd = pucTempStart + uiMessageLength_;
+    const auto bytesLeft = [&] { return *ppucLogBuf_ < pucEnd ? static_cast<size_t>(pucEnd - *ppucLogBuf_) : 0; };
 
     for (const auto& field : vMsgDefFields_.messageOrderedFields)
     {
         auto fieldTypeLength = static_cast<uint8_t>(field->dataType.length);
         *ppucLogBuf_ += fMyAlignmentFunc(fieldTypeLength, reinterpret_cast<uintptr_t>(pucTempStart), reinterpret_cast<uintptr_t>(*ppucLogBuf_));
+        if (*ppucLogBuf_ >= pucEnd) { return STATUS::SUCCESS; } // The message ends before this field
 
         switch (field->type)
         {
-        case FIELD_TYPE::SIMPLE: DecodeBinaryField<true>(*field, ppucLogBuf_, clCompField_, 1); break;
+        case FIELD_TYPE::SIMPLE:
+            if (bytesLeft() < field->dataType.length) { return STATUS::MALFORMED_INPUT; }
+            DecodeBinaryField<true>(*field, ppucLogBuf_, clCompField_, 1);
+            break;
         case FIELD_TYPE::ENUM:
+            if (bytesLeft() < field->dataType.length) { return STATUS::MALFORMED_INPUT; }
             switch (field->dataType.length)
             {
             case 1: clCompField_.SetFieldValue<true>(field->index, LoadValueFromBuffer<uint8_t>(*ppucLogBuf_)); break;
@@ -321,11 +328,12 @@ MessageDecoderBase::DecodeBinary(const FieldInfo& vMsgDefFields_, const unsigned
             *ppucLogBuf_ += field->dataType.length;
             break;
         case FIELD_TYPE::RESPONSE_ID:
+            if (bytesLeft() < sizeof(int32_t)) { return STATUS::MALFORMED_INPUT; }
             clCompField_.SetFieldValue<true>(field->index, LoadValueFromBuffer<int32_t>(*ppucLogBuf_));
             *ppucLogBuf_ += sizeof(int32_t);
             break;
         case FIELD_TYPE::RESPONSE_STR: {
-            std::string_view sTemp(reinterpret_cast<const char*>(*ppucLogBuf_), uiMessageLength_ - sizeof(int32_t)); // Remove CRC
+            std::string_view sTemp(reinterpret_cast<const char*>(*ppucLogBuf_), bytesLeft()); // All that follows the response id
             clCompField_.SetFieldValue<false>(field->index, std::string(sTemp));
             // Binary response string is not null terminated or 4 byte aligned
             *ppucLogBuf_ += sTemp.size();
@@ -333,17 +341,20 @@ MessageDecoderBase::DecodeBinary(const FieldInfo& vMsgDefFields_, const unsigned
         }
         case FIELD_TYPE::FIXED_LENGTH_ARRAY: {
             const uint32_t uiArraySize = dynamic_cast<const ArrayField*>(field.get())->arrayLength;
+            if (bytesLeft() < static_cast<size_t>(uiArraySize) * field->dataType.length) { return STATUS::MALFORMED_INPUT; }
             DecodeBinaryField<true>(*field, ppucLogBuf_, clCompField_, uiArraySize);
             break;
         }
         case FIELD_TYPE::VARIABLE_LENGTH_ARRAY: {
-            const uint32_t uiArraySize = GetArrayLength(pucTempStart, ppucLogBuf_, dynamic_cast<const ArrayField&>(*field), clCompField_);
-            DecodeBinaryField<false>(*field, ppucLogBuf_, clCompField_, uiArraySize);
+            const auto uiArraySize = GetArrayLength(pucTempStart, pucEnd, ppucLogBuf_, dynamic_cast<const ArrayField&>(*field), clCompField_);
+            if (!uiArraySize || bytesLeft() < static_cast<size_t>(*uiArraySize) * field->dataType.length) { return STATUS::MALFORMED_INPUT; }
+            DecodeBinaryField<false>(*field, ppucLogBuf_, clCompField_, *uiArraySize);
             break;
         }
         case FIELD_TYPE::STRING: {
             // This version of a string is different. It is hopefully null terminated.
-            std::string_view sTemp(reinterpret_cast<const char*>(*ppucLogBuf_));
+            std::string_view sTemp(reinterpret_cast<const char*>(*ppucLogBuf_), bytesLeft());
+            sTemp = sTemp.substr(0, sTemp.find('\0'));
             clCompField_.SetFieldValue<false>(field->index, std::string(sTemp));
             *ppucLogBuf_ += sTemp.size() + 1; // + 1 to consume the NULL at the end of the string.
             AddStringFieldPadding(pucTempStart, ppucLogBuf_);
@@ -357,11 +368,15 @@ MessageDecoderBase::DecodeBinary(const FieldInfo& vMsgDefFields_, const unsigned
                 return STATUS::MALFORMED_INPUT;
             }
             const auto* subFieldDefinitions = fieldArrayDef.get();
-            const uint32_t uiArraySize = GetArrayLength(pucTempStart, ppucLogBuf_, *subFieldDefinitions, clCompField_);
+            const auto arraySize = GetArrayLength(pucTempStart, pucEnd, ppucLogBuf_, *subFieldDefinitions, clCompField_);
+            // Every element takes at least one byte
+            if (!arraySize || *arraySize > bytesLeft()) { return STATUS::MALFORMED_INPUT; }
+            const uint32_t uiArraySize = *arraySize;
 
             if (subFieldDefinitions->fieldInfo->varFieldCount == 0)
             {
-                const size_t totalBytes = uiArraySize * subFieldDefinitions->fieldInfo->fixedFieldBytes;
+                const size_t totalBytes = static_cast<size_t>(uiArraySize) * subFieldDefinitions->fieldInfo->fixedFieldBytes;
+                if (bytesLeft() < totalBytes) { return STATUS::MALFORMED_INPUT; }
                 // Store flat FIELD_ARRAY directly as std::vector<std::byte>
                 std::vector<std::byte> flatFieldData(reinterpret_cast<const std::byte*>(*ppucLogBuf_),
                                                      reinterpret_cast<const std::byte*>(*ppucLogBuf_) + totalBytes);
@@ -375,10 +390,11 @@ MessageDecoderBase::DecodeBinary(const FieldInfo& vMsgDefFields_, const unsigned
                 {
                     *ppucLogBuf_ +=
                         fMyAlignmentFunc(fieldTypeLength, reinterpret_cast<uintptr_t>(pucTempStart), reinterpret_cast<uintptr_t>(*ppucLogBuf_));
+                    if (bytesLeft() == 0) { return STATUS::MALFORMED_INPUT; }
                     ResetCompositeField(vFieldArrayContainer[i], *subFieldDefinitions->fieldInfo);
                     vFieldArrayContainer[i].SetFieldInfo(subFieldDefinitions->fieldInfo);
                     STATUS eStatus = DecodeBinary(*subFieldDefinitions->fieldInfo, ppucLogBuf_, vFieldArrayContainer[i],
-                                                  uiMessageLength_ - static_cast<uint32_t>(*ppucLogBuf_ - pucTempStart));
+                                                  static_cast<uint32_t>(bytesLeft()));
                     if (eStatus != STATUS::SUCCESS) { return eStatus; }
                 }
                 clCompField_.SetFieldValue(*field, std::move(vFieldArrayContainer));
@@ -389,8 +405,6 @@ MessageDecoderBase::DecodeBinary(const FieldInfo& vMsgDefFields_, const unsigned
             SPDLOG_LOGGER_CRITICAL(pclMyLogger, "DecodeBinary(): Unknown field type\n");
             throw std::runtime_error("DecodeBinary(): Unknown field type\n");
         }
-
-        if (*ppucLogBuf_ - pucTempStart >= static_cast<int32_t>(uiMessageLength_)) { return STATUS::SUCCESS; }
     }
     return STATUS::SUCCESS;
 }
@@ -975,7 +989,7 @@ MessageDecoderBase::Decode(const unsigned char* pucMessage_, CompositeField& stI
     }
     case HEADER_FORMAT::BINARY: [[fallthrough]];
     case HEADER_FORMAT::SHORT_BINARY:
-        if (msgFieldInfo.varFieldCount == 0)
+        if (msgFieldInfo.varFieldCount == 0 && stMetaData_.uiBinaryMsgLength >= msgFieldInfo.fixedFieldBytes)
         {
             // Fast path: if there are no variable-length fields, copy the entire message to the fixed region
             stInterMessage_.SetFieldValue<true>(0, reinterpret_cast<const std::byte*>(pucTempInData), msgFieldInfo.fixedFieldBytes);
-- 
2.43.0


From 72ca6700c8f2bef1a7c8462cd781b82476f6424a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:36 +0000
Subject: [PATCH 27/89] fix: ASCII decoder reads past the end of the message
 and lets exceptions escape for malformed fields

---
 .../decoders/common/message_decoder.hpp       |   2 +-
 src/decoders/common/src/message_decoder.cpp   | 122 +++++++++++-------
 src/decoders/oem/src/message_decoder.cpp      |   3 +-
 3 files changed, 80 insertions(+), 47 deletions(-)

diff --git a/include/novatel_edie/decoders/common/message_decoder.hpp b/include/novatel_edie/decoders/common/message_decoder.hpp
index ca79520..cc0f6a1 100644
--- a/include/novatel_edie/decoders/common/message_decoder.hpp
+++ b/include/novatel_edie/decoders/common/message_decoder.hpp
@@ -1602,7 +1602,7 @@ class MessageDecoderBase
         // As of 6/26/2025 spaces may appear within ascii fields of OUTPUTDATUM and SETALIGNMENTVEL as they use conversion strings with width
         // values. EDIE supports decoding of this data but will never pad fields with spaces during encoding.
         uint32_t offset = 0;
-        while ((token[offset] == ' ') && (offset < tokenLength - 1)) { ++offset; }
+        while ((token[offset] == ' ') && (offset + 1 < tokenLength)) { ++offset; }
 
         if constexpr (std::is_integral_v<T>) { result = std::from_chars(token + offset, token + tokenLength, value, R); }
         else if constexpr (std::is_floating_point_v<T>) { result = std::from_chars(token + offset, token + tokenLength, value); }
diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index 4f86511..2fc4728 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -26,6 +26,7 @@
 
 #include "novatel_edie/decoders/common/message_decoder.hpp"
 
+#include <algorithm>
 #include <cassert>
 
 #include <simdjson.h>
@@ -419,40 +420,56 @@ void MessageDecoderBase::DecodeAsciiField(const BaseField& field_, const char**
 }
 
 // -------------------------------------------------------------------------------------------------------
+// The number of characters before the first delimiter (or NULL character), or before the end of the data if there is none
+static size_t TokenLength(const char* pcBegin_, const char* pcEnd_, std::string_view svDelimiters_)
+{
+    if (pcBegin_ >= pcEnd_) { return 0; }
+    return std::find_if(pcBegin_, pcEnd_, [svDelimiters_](char c) { return c == '\0' || svDelimiters_.find(c) != std::string_view::npos; }) - pcBegin_;
+}
+
+// Decode a byte from two hexadecimal digits
+static STATUS DecodeHexByte(uint8_t& ucValue_, const char** ppcLogBuf_, const char* pcBufEnd_)
+{
+    if (pcBufEnd_ - *ppcLogBuf_ < 2 || std::from_chars(*ppcLogBuf_, *ppcLogBuf_ + 2, ucValue_, 16).ec != std::errc()) { return STATUS::MALFORMED_INPUT; }
+    *ppcLogBuf_ += 2;
+    return STATUS::SUCCESS;
+}
+
 // Decode an ASCII array formatted with the %Z conversion string
-static STATUS DecodeZConversionStringAsciiArray(std::vector<uint8_t>& vDecodedValues_, const char** ppcLogBuf_, uint32_t uiArraySize_)
+static STATUS DecodeZConversionStringAsciiArray(std::vector<uint8_t>& vDecodedValues_, const char** ppcLogBuf_, const char* pcBufEnd_,
+                                                uint32_t uiArraySize_)
 {
     vDecodedValues_.resize(uiArraySize_);
     for (uint32_t i = 0; i < uiArraySize_; ++i)
     {
-        uint32_t uiValueRead = 0;
-        if (sscanf(*ppcLogBuf_, "%02x", &uiValueRead) != 1) { return STATUS::MALFORMED_INPUT; }
-        *ppcLogBuf_ += 2;
-        vDecodedValues_[i] = static_cast<uint8_t>(uiValueRead);
+        STATUS eStatus = DecodeHexByte(vDecodedValues_[i], ppcLogBuf_, pcBufEnd_);
+        if (eStatus != STATUS::SUCCESS) { return eStatus; }
     }
 
     return STATUS::SUCCESS;
 }
 
 // Decode an ASCII array field that is not comma separated, e.g. a raw ASCII value or hex representation
-template <typename CharType> static STATUS DecodeNonCommaSeparatedAsciiArrayField(CharType& cValue_, const char** ppcLogBuf_)
+template <typename CharType> static STATUS DecodeNonCommaSeparatedAsciiArrayField(CharType& cValue_, const char** ppcLogBuf_, const char* pcBufEnd_)
 {
+    if (*ppcLogBuf_ >= pcBufEnd_) { return STATUS::MALFORMED_INPUT; }
+    const std::string_view svNext(*ppcLogBuf_, std::min<size_t>(2, pcBufEnd_ - *ppcLogBuf_));
+
     // Escaped '\' character
-    if (strncmp("\\\\", *ppcLogBuf_, 2) == 0)
+    if (svNext == "\\\\")
     {
         *ppcLogBuf_ += 1;
         cValue_ = static_cast<CharType>(**ppcLogBuf_);
         *ppcLogBuf_ += 1; // Consume 1 char
     }
     // Non-ascii char in hex e.g. \x0C
-    else if (strncmp("\\x", *ppcLogBuf_, 2) == 0)
+    else if (svNext == "\\x")
     {
         *ppcLogBuf_ += 2; // Consume the '\x' that signifies hex without a char representation
-        uint32_t uiValueRead = 0;
-        if (sscanf(*ppcLogBuf_, "%02x", &uiValueRead) != 1) { return STATUS::MALFORMED_INPUT; }
-
-        cValue_ = static_cast<CharType>(uiValueRead);
-        *ppcLogBuf_ += 2;
+        uint8_t ucValueRead = 0;
+        STATUS eStatus = DecodeHexByte(ucValueRead, ppcLogBuf_, pcBufEnd_);
+        if (eStatus != STATUS::SUCCESS) { return eStatus; }
+        cValue_ = static_cast<CharType>(ucValueRead);
     }
     // Ascii character
     else
@@ -465,13 +482,13 @@ template <typename CharType> static STATUS DecodeNonCommaSeparatedAsciiArrayFiel
 
 // Decode an ASCII array made up of non-comma separated values, e.g. a raw ASCII values or hex representations
 template <typename CharType>
-static STATUS DecodeNonCommaSeparatedAsciiArray(CompositeField& clCompField_, const char** ppcLogBuf_, const BaseField::ConstPtr& field_,
-                                                uint32_t uiArraySize_, bool fixed_)
+static STATUS DecodeNonCommaSeparatedAsciiArray(CompositeField& clCompField_, const char** ppcLogBuf_, const char* pcBufEnd_,
+                                                const BaseField::ConstPtr& field_, uint32_t uiArraySize_, bool fixed_)
 {
     std::vector<CharType> vDecodedValues(uiArraySize_);
     for (uint32_t i = 0; i < uiArraySize_; ++i)
     {
-        STATUS eStatus = DecodeNonCommaSeparatedAsciiArrayField(vDecodedValues[i], ppcLogBuf_);
+        STATUS eStatus = DecodeNonCommaSeparatedAsciiArrayField(vDecodedValues[i], ppcLogBuf_, pcBufEnd_);
         if (eStatus != STATUS::SUCCESS) { return eStatus; }
     }
     if (fixed_) { clCompField_.SetFieldValue<true>(field_->index, std::move(vDecodedValues)); }
@@ -480,24 +497,24 @@ static STATUS DecodeNonCommaSeparatedAsciiArray(CompositeField& clCompField_, co
 }
 
 // Decode an ASCII array which is formatted like a string with opening and closing quotes, e.g. "string value"
-static STATUS DecodeStringAsciiArray(std::string& sDecodedValue_, const char** ppcLogBuf_, uint32_t uiArraySize_)
+static STATUS DecodeStringAsciiArray(std::string& sDecodedValue_, const char** ppcLogBuf_, const char* pcBufEnd_, uint32_t uiArraySize_)
 {
     sDecodedValue_.assign(uiArraySize_, '\0');
 
     // Look for opening double-quote
-    if (**ppcLogBuf_ != '\"') { return STATUS::MALFORMED_INPUT; }
+    if (*ppcLogBuf_ >= pcBufEnd_ || **ppcLogBuf_ != '\"') { return STATUS::MALFORMED_INPUT; }
     *ppcLogBuf_ += 1;
 
     for (uint32_t i = 0; i < uiArraySize_; ++i)
     {
-        if (**ppcLogBuf_ == '\"') { break; }
+        if (*ppcLogBuf_ < pcBufEnd_ && **ppcLogBuf_ == '\"') { break; }
 
-        STATUS eStatus = DecodeNonCommaSeparatedAsciiArrayField(sDecodedValue_[i], ppcLogBuf_);
+        STATUS eStatus = DecodeNonCommaSeparatedAsciiArrayField(sDecodedValue_[i], ppcLogBuf_, pcBufEnd_);
         if (eStatus != STATUS::SUCCESS) { return eStatus; }
     }
 
     // Look for closing double-quote
-    if (**ppcLogBuf_ != '\"') { return STATUS::MALFORMED_INPUT; }
+    if (*ppcLogBuf_ >= pcBufEnd_ || **ppcLogBuf_ != '\"') { return STATUS::MALFORMED_INPUT; }
     *ppcLogBuf_ += 1;
 
     return STATUS::SUCCESS;
@@ -510,11 +527,14 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
     constexpr char fieldDelim = Abbreviated ? ' ' : ',';
     constexpr char endDelim = Abbreviated ? '\r' : '*';
 
-    // Null-terminated C-strings for strcspn
-    constexpr std::array<char, 3> tokenDelimiters = {fieldDelim, endDelim, '\0'};
-    constexpr std::array<char, 3> unquotedStringDelimiters = {fieldDelim, endDelim, '\0'};
-    constexpr std::array<char, 3> quotedStringDelimiters = {'\"', endDelim, '\0'};
-    constexpr std::array<char, 2> responseDelimiters = {endDelim, '\0'};
+    constexpr std::array<char, 2> tokenDelimiters = {fieldDelim, endDelim};
+    constexpr std::array<char, 2> unquotedStringDelimiters = {fieldDelim, endDelim};
+    constexpr std::array<char, 2> quotedStringDelimiters = {'\"', endDelim};
+    constexpr std::array<char, 1> responseDelimiters = {endDelim};
+
+    const auto tokenLengthFrom = [&pcBufEnd_](const char* pcBegin_, const auto& delimiters_) {
+        return TokenLength(pcBegin_, pcBufEnd_, std::string_view(delimiters_.data(), delimiters_.size()));
+    };
 
     if (pcBufEnd_ == nullptr) { pcBufEnd_ = static_cast<const char*>(std::memchr(*ppcLogBuf_, '\0', MAX_ASCII_MESSAGE_LENGTH)); }
 
@@ -522,12 +542,15 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
     {
         if (*ppcLogBuf_ >= pcBufEnd_) { return STATUS::MALFORMED_INPUT; } // We encountered the end of the buffer unexpectedly
 
-        if constexpr (Abbreviated) { ConsumeAbbrevFormatting(ppcLogBuf_); }
+        if constexpr (Abbreviated)
+        {
+            while (*ppcLogBuf_ < pcBufEnd_ && std::string_view("< \r\n").find(**ppcLogBuf_) != std::string_view::npos) { ++*ppcLogBuf_; }
+        }
 
-        size_t tokenLength = strcspn(*ppcLogBuf_, tokenDelimiters.data());
+        size_t tokenLength = tokenLengthFrom(*ppcLogBuf_, tokenDelimiters);
         if (tokenLength == 0) { return STATUS::MALFORMED_INPUT; }
 
-        bool bEarlyEndOfMessage = (*(*ppcLogBuf_ + tokenLength) == endDelim);
+        bool bEarlyEndOfMessage = (*ppcLogBuf_ + tokenLength < pcBufEnd_ && *(*ppcLogBuf_ + tokenLength) == endDelim);
 
         switch (field->type)
         {
@@ -536,7 +559,7 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
             {
                 DecodeAsciiField(*field, ppcLogBuf_, tokenLength, clCompField_);
             }
-            catch (const std::runtime_error&)
+            catch (const std::exception&)
             {
                 SPDLOG_LOGGER_CRITICAL(pclMyLogger, "DecodeAsciiField(): Exception when decoding field. Malformed Input\n");
                 return STATUS::MALFORMED_INPUT;
@@ -566,10 +589,10 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
                 break;
             case '"':
                 // If a field delimiter character is in the string, the previous tokenLength value is invalid.
-                tokenLength = strcspn(*ppcLogBuf_ + 1, quotedStringDelimiters.data()); // Look for LAST '"' character, skipping past the first.
+                tokenLength = tokenLengthFrom(*ppcLogBuf_ + 1, quotedStringDelimiters); // Look for LAST '"' character, skipping past the first.
                 clCompField_.SetFieldValue<false>(field->index, std::string(*ppcLogBuf_ + 1, tokenLength)); // + 1 to pass opening double-quote.
                 // Skip past the first '"', string token and the remaining characters ('"' and ',').
-                *ppcLogBuf_ += tokenLength + strcspn(*ppcLogBuf_ + tokenLength + 1, unquotedStringDelimiters.data()) + 2;
+                *ppcLogBuf_ += tokenLength + tokenLengthFrom(*ppcLogBuf_ + tokenLength + 1, unquotedStringDelimiters) + 2;
                 break;
             default:
                 // Unquoted string: initial tokenLength is the length of the string
@@ -580,18 +603,18 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
             break;
         case FIELD_TYPE::RESPONSE_ID: {
             // Ensure we get the whole response (skip over delimiters in responses)
-            tokenLength = strcspn(*ppcLogBuf_, responseDelimiters.data());
+            tokenLength = tokenLengthFrom(*ppcLogBuf_, responseDelimiters);
             std::string_view sResponse(*ppcLogBuf_, tokenLength);
             if (sResponse == "OK") { clCompField_.SetFieldValue<true>(field->index, static_cast<int32_t>(1)); }
             // Note: This won't match responses with format specifiers in them (%d, %s, etc.), they will be given id=0
-            else { clCompField_.SetFieldValue<true>(field->index, GetResponseId(vMyResponseDefinitions, sResponse.substr(svErrorPrefix.length()))); }
+            else { clCompField_.SetFieldValue<true>(field->index, GetResponseId(vMyResponseDefinitions, sResponse.substr(std::min(svErrorPrefix.length(), sResponse.length())))); }
             // Do not advance buffer, need to reprocess this field for the following RESPONSE_STR.
             bEarlyEndOfMessage = false;
             break;
         }
         case FIELD_TYPE::RESPONSE_STR:
             // Response strings aren't surrounded by double quotes, ensure we get the whole response (skip over certain delimiters in responses)
-            tokenLength = strcspn(*ppcLogBuf_, responseDelimiters.data());
+            tokenLength = tokenLengthFrom(*ppcLogBuf_, responseDelimiters);
             clCompField_.SetFieldValue<false>(field->index, std::string(*ppcLogBuf_, tokenLength));
             *ppcLogBuf_ += tokenLength + 1;
             break;
@@ -602,7 +625,7 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
             if (fixed) { uiArraySize = dynamic_cast<const ArrayField*>(field.get())->arrayLength; }
             else
             {
-                auto result = std::from_chars(*ppcLogBuf_, *ppcLogBuf_ + tokenLength + 1, uiArraySize);
+                auto result = std::from_chars(*ppcLogBuf_, *ppcLogBuf_ + tokenLength, uiArraySize);
                 if (result.ec != std::errc())
                 {
                     SPDLOG_LOGGER_CRITICAL(pclMyLogger, "DecodeAscii()::VARIABLE_LENGTH_ARRAY: Array length not valid number. Malformed Input\n");
@@ -616,7 +639,7 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
                 }
 
                 *ppcLogBuf_ += tokenLength + 1;
-                tokenLength = strcspn(*ppcLogBuf_, unquotedStringDelimiters.data());
+                tokenLength = tokenLengthFrom(*ppcLogBuf_, unquotedStringDelimiters);
             }
 
             STATUS eStatus = STATUS::SUCCESS;
@@ -624,7 +647,7 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
             {
                 assert(field->dataType.name == DATA_TYPE::UCHAR || field->dataType.name == DATA_TYPE::HEXBYTE);
                 std::vector<uint8_t> vDecodedValues;
-                eStatus = DecodeZConversionStringAsciiArray(vDecodedValues, ppcLogBuf_, uiArraySize);
+                eStatus = DecodeZConversionStringAsciiArray(vDecodedValues, ppcLogBuf_, pcBufEnd_, uiArraySize);
                 if (eStatus == STATUS::SUCCESS)
                 {
                     if (fixed)
@@ -638,7 +661,7 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
             else if (field->isString)
             {
                 std::string sDecodedValue;
-                eStatus = DecodeStringAsciiArray(sDecodedValue, ppcLogBuf_, uiArraySize);
+                eStatus = DecodeStringAsciiArray(sDecodedValue, ppcLogBuf_, pcBufEnd_, uiArraySize);
                 if (eStatus != STATUS::SUCCESS) { return eStatus; }
                 if (fixed) { clCompField_.SetFieldValue<true>(field->index, std::move(sDecodedValue)); }
                 else { clCompField_.SetFieldValue<false>(field->index, std::move(sDecodedValue)); }
@@ -647,8 +670,8 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
             else if (!field->isCsv)
             {
                 eStatus = field->dataType.name == DATA_TYPE::CHAR
-                              ? DecodeNonCommaSeparatedAsciiArray<int8_t>(clCompField_, ppcLogBuf_, field, uiArraySize, fixed)
-                              : DecodeNonCommaSeparatedAsciiArray<uint8_t>(clCompField_, ppcLogBuf_, field, uiArraySize, fixed);
+                              ? DecodeNonCommaSeparatedAsciiArray<int8_t>(clCompField_, ppcLogBuf_, pcBufEnd_, field, uiArraySize, fixed)
+                              : DecodeNonCommaSeparatedAsciiArray<uint8_t>(clCompField_, ppcLogBuf_, pcBufEnd_, field, uiArraySize, fixed);
                 if (eStatus != STATUS::SUCCESS) { return eStatus; }
                 *ppcLogBuf_ += 1;
             }
@@ -664,8 +687,17 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
                 }
                 for (uint32_t i = 0; i < uiArraySize; ++i)
                 {
-                    tokenLength = strcspn(*ppcLogBuf_, unquotedStringDelimiters.data());
-                    DecodeAsciiField(*field, ppcLogBuf_, tokenLength, clCompField_, i, fixed);
+                    tokenLength = tokenLengthFrom(*ppcLogBuf_, unquotedStringDelimiters);
+                    if (*ppcLogBuf_ >= pcBufEnd_) { return STATUS::MALFORMED_INPUT; }
+                    try
+                    {
+                        DecodeAsciiField(*field, ppcLogBuf_, tokenLength, clCompField_, i, fixed);
+                    }
+                    catch (const std::exception&)
+                    {
+                        SPDLOG_LOGGER_CRITICAL(pclMyLogger, "DecodeAsciiField(): Exception when decoding array element. Malformed Input\n");
+                        return STATUS::MALFORMED_INPUT;
+                    }
                     *ppcLogBuf_ += tokenLength + 1;
                 }
             }
@@ -679,7 +711,7 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
         }
         case FIELD_TYPE::FIELD_ARRAY: {
             uint32_t uiArraySize;
-            auto result = std::from_chars(*ppcLogBuf_, *ppcLogBuf_ + tokenLength + 1, uiArraySize);
+            auto result = std::from_chars(*ppcLogBuf_, *ppcLogBuf_ + tokenLength, uiArraySize);
             if (result.ec != std::errc())
             {
                 SPDLOG_LOGGER_CRITICAL(pclMyLogger, "DecodeAscii()::FIELD_ARRAY: Field Array length not valid number. Malformed Input\n");
@@ -790,7 +822,7 @@ STATUS MessageDecoderBase::DecodeJson(const FieldInfo& vMsgDefFields_, simdjson:
                 if (sResponse == "OK") { clCompField_.SetFieldValue<true>(field->index, 1); }
                 else
                 {
-                    clCompField_.SetFieldValue<true>(field->index, GetResponseId(vMyResponseDefinitions, sResponse.substr(svErrorPrefix.length())));
+                    clCompField_.SetFieldValue<true>(field->index, GetResponseId(vMyResponseDefinitions, sResponse.substr(std::min(svErrorPrefix.length(), sResponse.length()))));
                 }
             }
             break;
diff --git a/src/decoders/oem/src/message_decoder.cpp b/src/decoders/oem/src/message_decoder.cpp
index 9a8f371..6fad883 100644
--- a/src/decoders/oem/src/message_decoder.cpp
+++ b/src/decoders/oem/src/message_decoder.cpp
@@ -72,7 +72,7 @@ void MessageDecoder::InitOemFieldMaps()
     asciiFieldMap[CalculateBlockCrc32("ucb")] = [](CompositeField& clCompField_, const BaseField& pstMessageDataType_, const char** ppcToken_,
                                                    [[maybe_unused]] const size_t tokenLength_, const size_t elementIndex_, const bool fixed_,
                                                    [[maybe_unused]] MessageDatabase& pclMsgDb_) {
-        const uint32_t value = static_cast<uint32_t>(std::bitset<8>(*ppcToken_).to_ulong());
+        const uint32_t value = static_cast<uint32_t>(std::bitset<8>(std::string(*ppcToken_, tokenLength_)).to_ulong());
         if (fixed_) { clCompField_.SetArrayElement<true>(pstMessageDataType_, elementIndex_, value); }
         else { clCompField_.SetArrayElement<false>(pstMessageDataType_, elementIndex_, value); }
     };
@@ -127,6 +127,7 @@ void MessageDecoder::InitOemFieldMaps()
                                                  [[maybe_unused]] const size_t tokenLength_, const size_t elementIndex_, const bool fixed_,
                                                  [[maybe_unused]] MessageDatabase& pclMsgDb_) {
         // RXCONFIG in ASCII is always #COMMANDNAMEA
+        if (tokenLength_ < 2) { throw std::runtime_error("Failed to parse command name"); }
         MessageDefinition::ConstPtr pclMessageDef = pclMsgDb_.GetMsgDef(std::string_view(*ppcToken_ + 1, tokenLength_ - 2)); // + 1 to Skip the '#'
         const uint32_t value = pclMessageDef != nullptr ? CreateMsgId(pclMessageDef->logID, 0, 1, 0) : 0;
         if (fixed_) { clCompField_.SetArrayElement<true>(pstMessageDataType_, elementIndex_, value); }
-- 
2.43.0


From 8a89c162f1a922eb3c8f68bb069b2853b956646e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:30 +0000
Subject: [PATCH 28/89] fix: binary decoder must still reject a field of
 unknown type where the message ends

---
 src/decoders/common/src/message_decoder.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index 2fc4728..76a33f9 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -305,6 +305,12 @@ MessageDecoderBase::DecodeBinary(const FieldInfo& vMsgDefFields_, const unsigned
 
     for (const auto& field : vMsgDefFields_.messageOrderedFields)
     {
+        if (field->type == FIELD_TYPE::UNKNOWN || (field->type == FIELD_TYPE::SIMPLE && field->dataType.name == DATA_TYPE::UNKNOWN))
+        {
+            SPDLOG_LOGGER_CRITICAL(pclMyLogger, "DecodeBinary(): Unknown field type\n");
+            throw std::runtime_error("DecodeBinary(): Unknown field type\n");
+        }
+
         auto fieldTypeLength = static_cast<uint8_t>(field->dataType.length);
         *ppucLogBuf_ += fMyAlignmentFunc(fieldTypeLength, reinterpret_cast<uintptr_t>(pucTempStart), reinterpret_cast<uintptr_t>(*ppucLogBuf_));
         if (*ppucLogBuf_ >= pucEnd) { return STATUS::SUCCESS; } // The message ends before this field
-- 
2.43.0


From 0d56d76a8241b710a76c63b19f3733c5fc869b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:42 +0000
Subject: [PATCH 29/89] fix: framer reports the format of a binary message
 before its sync is complete

---
 src/decoders/oem/src/framer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/oem/src/framer.cpp b/src/decoders/oem/src/framer.cpp
index 443a122..b9c546e 100644
--- a/src/decoders/oem/src/framer.cpp
+++ b/src/decoders/oem/src/framer.cpp
@@ -152,7 +152,7 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
             {
             case OEM4_PROPRIETARY_BINARY_SYNC2:
             case OEM4_BINARY_SYNC2:
-                stMetaData_.eFormat = ucDataByte == OEM4_PROPRIETARY_BINARY_SYNC2 ? HEADER_FORMAT::PROPRIETARY_BINARY : HEADER_FORMAT::BINARY;
+                stMetaData_.eFormat = ucDataByte == OEM4_PROPRIETARY_BINARY_SYNC2 ? HEADER_FORMAT::PROPRIETARY_BINARY : HEADER_FORMAT::UNKNOWN;
                 CalculateCharacterCrc32(uiMyCalculatedCrc32, ucDataByte);
                 eMyFrameState = NovAtelFrameState::WAITING_FOR_BINARY_SYNC3;
                 break;
-- 
2.43.0


From d664c86e628a3d03349cdc9cad0ee9f0059680e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:03 +0000
Subject: [PATCH 30/89] fix: binary encoder aligns the elements of a field
 array of fixed-size elements that was decoded from text

---
 include/novatel_edie/decoders/common/encoder.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/novatel_edie/decoders/common/encoder.hpp b/include/novatel_edie/decoders/common/encoder.hpp
index c6e5488..933c7b6 100644
--- a/include/novatel_edie/decoders/common/encoder.hpp
+++ b/include/novatel_edie/decoders/common/encoder.hpp
@@ -464,8 +464,9 @@ template <typename Derived> class EncoderBase
                         {
                             for (const auto& element : fieldVector)
                             {
-                                // Every element is aligned, see MessageDecoderBase::DecodeBinary()
-                                if (!alignPtr(fieldDefRef.dataType.length, startBuf, ppucOutBuf_, uiBytesLeft_)) { return false; }
+                                // Elements with variable-length fields are aligned, see MessageDecoderBase::DecodeBinary()
+                                if (fieldArrayFieldDef->fieldInfo->varFieldCount != 0 &&
+                                    !alignPtr(fieldDefRef.dataType.length, startBuf, ppucOutBuf_, uiBytesLeft_)) { return false; }
                                 if (!EncodeBinaryBody<Flatten>(element, fieldArrayFieldDef->fieldInfo->messageOrderedFields, ppucOutBuf_,
                                                                uiBytesLeft_))
                                 {
-- 
2.43.0


From 194229605ad25f89b7428ce11d176e92733832c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:03 +0000
Subject: [PATCH 31/89] fix: flattened binary gives a field array a size that
 depends on its number of elements

---
 .../novatel_edie/decoders/common/encoder.hpp  | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/novatel_edie/decoders/common/encoder.hpp b/include/novatel_edie/decoders/common/encoder.hpp
index 933c7b6..f8e3f7b 100644
--- a/include/novatel_edie/decoders/common/encoder.hpp
+++ b/include/novatel_edie/decoders/common/encoder.hpp
@@ -426,7 +426,7 @@ template <typename Derived> class EncoderBase
                             {
                                 throw std::runtime_error("Expected field definition of type FieldArrayField for FIELD_ARRAY field");
                             }
-                            maxBytes = fieldArrayFieldDef->fieldSize;
+                            maxBytes = static_cast<size_t>(fieldArrayFieldDef->arrayLength) * fieldArrayFieldDef->fieldInfo->fixedFieldBytes;
                             count = fieldVector.size();
                         }
                         else if constexpr (std::is_same_v<ValueType, std::string> || is_specialization_of_v<ValueType, std::vector>)
@@ -473,6 +473,23 @@ template <typename Derived> class EncoderBase
                                     return false;
                                 }
                             }
+                            if constexpr (Flatten)
+                            {
+                                // Elements with variable-length fields have no fixed number of bytes, so encode an empty one for each that is absent
+                                if (fieldArrayFieldDef->fieldInfo->varFieldCount != 0 && count < fieldArrayFieldDef->arrayLength)
+                                {
+                                    const CompositeField emptyElement(fieldArrayFieldDef->fieldInfo);
+                                    for (size_t i = count; i < fieldArrayFieldDef->arrayLength; ++i)
+                                    {
+                                        if (!alignPtr(fieldDefRef.dataType.length, startBuf, ppucOutBuf_, uiBytesLeft_)) { return false; }
+                                        if (!EncodeBinaryBody<Flatten>(emptyElement, fieldArrayFieldDef->fieldInfo->messageOrderedFields, ppucOutBuf_,
+                                                                       uiBytesLeft_))
+                                        {
+                                            return false;
+                                        }
+                                    }
+                                }
+                            }
                         }
                         // VARIABLE_LENGTH_ARRAY, STRING, and flat FIELD_ARRAY
                         else
-- 
2.43.0


From 92951acc2576094402f6572c4cf4a0fd63a0e5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:05 +0000
Subject: [PATCH 32/89] fix: ASCII decoder takes a delimiter inside a quoted
 string for the end of the message, or the checksum for a field

---
 src/decoders/common/src/message_decoder.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index 76a33f9..10979de 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -599,6 +599,8 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
                 clCompField_.SetFieldValue<false>(field->index, std::string(*ppcLogBuf_ + 1, tokenLength)); // + 1 to pass opening double-quote.
                 // Skip past the first '"', string token and the remaining characters ('"' and ',').
                 *ppcLogBuf_ += tokenLength + tokenLengthFrom(*ppcLogBuf_ + tokenLength + 1, unquotedStringDelimiters) + 2;
+                // The delimiter after the string, not one inside of it, tells whether the message ends here
+                bEarlyEndOfMessage = *ppcLogBuf_ <= pcBufEnd_ && *(*ppcLogBuf_ - 1) == endDelim;
                 break;
             default:
                 // Unquoted string: initial tokenLength is the length of the string
-- 
2.43.0


From aff4e189e0e84b5d35e4325f98a7f301c31eff2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:05 +0000
Subject: [PATCH 33/89] fix: variable-length character array decoded from text
 loses its length when encoded to binary

---
 src/decoders/common/src/message_decoder.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index 10979de..2d7b6cc 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -526,6 +526,14 @@ static STATUS DecodeStringAsciiArray(std::string& sDecodedValue_, const char** p
     return STATUS::SUCCESS;
 }
 
+// Store text in an array of characters, as elements of the type that the array has in every other format
+static void SetCharacterArray(CompositeField& clCompField_, const BaseField& field_, std::string&& sValue_, bool fixed_)
+{
+    if (fixed_) { clCompField_.SetFieldValue<true>(field_.index, std::move(sValue_)); }
+    else if (field_.dataType.name == DATA_TYPE::CHAR) { clCompField_.SetFieldValue<false>(field_.index, std::vector<int8_t>(sValue_.begin(), sValue_.end())); }
+    else { clCompField_.SetFieldValue<false>(field_.index, std::vector<uint8_t>(sValue_.begin(), sValue_.end())); }
+}
+
 template <bool Abbreviated>
 STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const char** ppcLogBuf_, CompositeField& clCompField_,
                                        const char* pcBufEnd_) const
@@ -671,8 +679,7 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
                 std::string sDecodedValue;
                 eStatus = DecodeStringAsciiArray(sDecodedValue, ppcLogBuf_, pcBufEnd_, uiArraySize);
                 if (eStatus != STATUS::SUCCESS) { return eStatus; }
-                if (fixed) { clCompField_.SetFieldValue<true>(field->index, std::move(sDecodedValue)); }
-                else { clCompField_.SetFieldValue<false>(field->index, std::move(sDecodedValue)); }
+                SetCharacterArray(clCompField_, *field, std::move(sDecodedValue), fixed);
                 *ppcLogBuf_ += 1;
             }
             else if (!field->isCsv)
@@ -847,14 +854,13 @@ STATUS MessageDecoderBase::DecodeJson(const FieldInfo& vMsgDefFields_, simdjson:
                 std::string_view strValue;
                 if (clField.get(strValue) == simdjson::SUCCESS)
                 {
+                    std::string sDecodedValue(strValue);
                     if (fixed)
                     {
                         if (strValue.size() > uiArraySize) { return STATUS::MALFORMED_INPUT; }
-                        std::vector<uint8_t> vDecodedValues(uiArraySize, 0);
-                        for (size_t i = 0; i < strValue.size(); ++i) { vDecodedValues[i] = static_cast<uint8_t>(strValue[i]); }
-                        if (!vDecodedValues.empty()) { clCompField_.SetFieldValue<true>(field->index, vDecodedValues.data(), vDecodedValues.size()); }
+                        sDecodedValue.resize(uiArraySize);
                     }
-                    else { clCompField_.SetFieldValue<false>(field->index, std::string(strValue)); }
+                    SetCharacterArray(clCompField_, *field, std::move(sDecodedValue), fixed);
                 }
             }
             else
-- 
2.43.0


From 28a7f1411584ffc7e197af9f68334c81f0051718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:05 +0000
Subject: [PATCH 34/89] fix: JSON decoder rejects arrays of numbers

---
 src/decoders/common/src/message_decoder.cpp | 51 +++++++++++----------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index 2d7b6cc..a42ce8a 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -901,36 +901,39 @@ STATUS MessageDecoderBase::DecodeJson(const FieldInfo& vMsgDefFields_, simdjson:
                     }
                     else if (field->conversionHash == CalculateBlockCrc32("P"))
                     {
-                        if (fixed)
+                        if (arrayField == nullptr || array.size() > arrayField->arrayLength) { return STATUS::MALFORMED_INPUT; }
+                        std::string sDecodedValue;
+                        for (simdjson::dom::element it : array)
+                        {
+                            int64_t value;
+                            if (it.get(value) != simdjson::SUCCESS) { return STATUS::MALFORMED_INPUT; }
+                            sDecodedValue.push_back(static_cast<char>(value));
+                        }
+                        if (fixed) { sDecodedValue.resize(uiArraySize); }
+                        SetCharacterArray(clCompField_, *field, std::move(sDecodedValue), fixed);
+                    }
+                    else
+                    {
+                        if (arrayField == nullptr || array.size() > arrayField->arrayLength) { return STATUS::MALFORMED_INPUT; }
+                        if (!fixed)
+                        {
+                            SimpleTypeVisitor(*field, [&](auto&& arg) {
+                                using T = std::decay_t<decltype(arg)>;
+                                using StoredType = std::conditional_t<std::is_same_v<T, bool>, uint8_t, T>;
+                                clCompField_.SetFieldValue<false>(field->index, std::vector<StoredType>(array.size()));
+                            });
+                        }
+                        try
                         {
-                            if (array.size() > uiArraySize) { return STATUS::MALFORMED_INPUT; }
-                            std::vector<int8_t> vDecodedValues(uiArraySize, 0);
                             size_t i = 0;
-                            for (simdjson::dom::element it : array)
-                            {
-                                int64_t value;
-                                if (it.get(value) != simdjson::SUCCESS) { return STATUS::MALFORMED_INPUT; }
-                                vDecodedValues[i++] = static_cast<int8_t>(value);
-                            }
-                            if (!vDecodedValues.empty())
-                            {
-                                clCompField_.SetFieldValue<true>(field->index, vDecodedValues.data(), vDecodedValues.size());
-                            }
+                            for (simdjson::dom::element it : array) { DecodeJsonField(*field, it, clCompField_, i++, fixed); }
                         }
-                        else
+                        catch (const std::exception&)
                         {
-                            std::vector<int8_t> vDecodedValues;
-                            vDecodedValues.reserve(array.size());
-                            for (simdjson::dom::element it : array)
-                            {
-                                int64_t value;
-                                if (it.get(value) != simdjson::SUCCESS) { return STATUS::MALFORMED_INPUT; }
-                                vDecodedValues.emplace_back(static_cast<int8_t>(value));
-                            }
-                            clCompField_.SetFieldValue<false>(field->index, std::move(vDecodedValues));
+                            SPDLOG_LOGGER_CRITICAL(pclMyLogger, "DecodeJsonField(): Exception when decoding array element. Malformed Input\n");
+                            return STATUS::MALFORMED_INPUT;
                         }
                     }
-                    else { return STATUS::MALFORMED_INPUT; }
                 }
             }
             break;
-- 
2.43.0


From 40adfb6841423f17a14790901cf421aebfb20c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:05 +0000
Subject: [PATCH 35/89] fix: JSON decoder lets exceptions escape for malformed
 fields

---
 src/decoders/common/src/message_decoder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index a42ce8a..a28cb84 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -799,7 +799,7 @@ STATUS MessageDecoderBase::DecodeJson(const FieldInfo& vMsgDefFields_, simdjson:
             {
                 DecodeJsonField(*field, clField, clCompField_);
             }
-            catch (const std::runtime_error&)
+            catch (const std::exception&)
             {
                 SPDLOG_LOGGER_CRITICAL(pclMyLogger, "DecodeJsonField(): Exception when decoding field. Malformed Input\n");
                 return STATUS::MALFORMED_INPUT;
-- 
2.43.0


From 3093ef2b1c302ed7294fd9443c75d85b94b73892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:05 +0000
Subject: [PATCH 36/89] fix: JSON decoder reads past the end of the message

---
 src/decoders/common/src/message_decoder.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index a28cb84..1626993 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -1049,7 +1049,10 @@ MessageDecoderBase::Decode(const unsigned char* pucMessage_, CompositeField& stI
         simdjson::dom::parser parser;
         simdjson::dom::element clJsonFields;
 
-        std::string_view jsonStringView(reinterpret_cast<const char*>(pucTempInData)); // Assumes null-terminated data
+        const auto* pcTempInData = reinterpret_cast<const char*>(pucTempInData);
+        std::string_view jsonStringView = stMetaData_.uiLength > stMetaData_.uiHeaderLength
+                                              ? std::string_view(pcTempInData, stMetaData_.uiLength - stMetaData_.uiHeaderLength)
+                                              : std::string_view(pcTempInData); // Assumes null-terminated data
 
         auto error = parser.parse(jsonStringView).get(clJsonFields);
         if (error)
-- 
2.43.0


From d8b3f36ab34c0471d3b2173407723d1cf9db4077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:31 +0000
Subject: [PATCH 37/89] fix: header decoder looks for the delimiter of a header
 field past the end of the message

---
 src/decoders/oem/src/header_decoder.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/decoders/oem/src/header_decoder.cpp b/src/decoders/oem/src/header_decoder.cpp
index c25505d..71afabe 100644
--- a/src/decoders/oem/src/header_decoder.cpp
+++ b/src/decoders/oem/src/header_decoder.cpp
@@ -74,9 +74,10 @@ bool HeaderDecoder::DecodeAsciiHeaderField(IntermediateHeader& stInterHeader_, c
         return false;
     }
 
-    // Find next delimiter
-    const char* pcNextDelimiter = strchr(*ppcLogBuf_, pcDelimiter[0]);
-    if (pcNextDelimiter == nullptr)
+    // Find next delimiter, which is always before the end of the line
+    constexpr char acEndOfField[] = {pcDelimiter[0], '\r', '\n', '\0'};
+    const char* pcNextDelimiter = *ppcLogBuf_ + strcspn(*ppcLogBuf_, acEndOfField);
+    if (*pcNextDelimiter != pcDelimiter[0])
     {
         SPDLOG_LOGGER_ERROR(pclMyLogger, "Message header could not be decoded as the expected field delimiter could not be found.");
         return false;
-- 
2.43.0


From 879634e78ff4ee6b02494c45b437f1bacbf51426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:31 +0000
Subject: [PATCH 38/89] fix: header decoder keeps fields of the previously
 decoded header

---
 src/decoders/oem/src/header_decoder.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/decoders/oem/src/header_decoder.cpp b/src/decoders/oem/src/header_decoder.cpp
index 71afabe..433e5d8 100644
--- a/src/decoders/oem/src/header_decoder.cpp
+++ b/src/decoders/oem/src/header_decoder.cpp
@@ -286,6 +286,9 @@ STATUS HeaderDecoder::Decode(const unsigned char* pucLogBuf_, IntermediateHeader
 
     const auto* pcTempBuf = reinterpret_cast<const char*>(pucLogBuf_);
 
+    // Not every format has every field, so none may be left over from a previous header
+    stInterHeader_ = IntermediateHeader();
+
     // Only the sync bytes are common to every format, the rest of the header is loaded once the format is known
     stMetaData_.eFormat = [&] {
         switch (pucLogBuf_[0])
@@ -327,6 +330,9 @@ STATUS HeaderDecoder::Decode(const unsigned char* pucLogBuf_, IntermediateHeader
         {
             stMetaData_.bResponse = true;
             stMetaData_.messageName = "UNKNOWN";
+            stMetaData_.usMessageId = 0;
+            stMetaData_.uiMessageCrc = 0;
+            stMetaData_.ucSiblingId = 0;
             stMetaData_.uiHeaderLength = static_cast<uint32_t>(pcTempBuf - reinterpret_cast<const char*>(pucLogBuf_));
             stInterHeader_.ucMessageType = static_cast<uint8_t>(MESSAGE_TYPE_MASK::RESPONSE);
 
-- 
2.43.0


From e86610bcf082b72ccb5c597562a827e4bee40f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:31 +0000
Subject: [PATCH 39/89] fix: header decoder reads past the end of a JSON
 message and succeeds when it is malformed

---
 include/novatel_edie/decoders/oem/header_decoder.hpp |  2 +-
 src/decoders/oem/src/header_decoder.cpp              | 12 ++++++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/novatel_edie/decoders/oem/header_decoder.hpp b/include/novatel_edie/decoders/oem/header_decoder.hpp
index 14500bc..3ebd3cc 100644
--- a/include/novatel_edie/decoders/oem/header_decoder.hpp
+++ b/include/novatel_edie/decoders/oem/header_decoder.hpp
@@ -87,7 +87,7 @@ class HeaderDecoder
     [[nodiscard]] bool DecodeAsciiHeaderField(IntermediateHeader& stInterHeader_, const char** ppcLogBuf_) const;
     template <const char pcDelimiter[], ASCII_HEADER... eFields>
     [[nodiscard]] bool DecodeAsciiHeaderFields(IntermediateHeader& stInterHeader_, const char** ppcLogBuf_) const;
-    void DecodeJsonHeader(std::string_view pcTempBuf_, IntermediateHeader& stInterHeader_) const;
+    bool DecodeJsonHeader(std::string_view pcTempBuf_, IntermediateHeader& stInterHeader_) const;
 
   public:
     //----------------------------------------------------------------------------
diff --git a/src/decoders/oem/src/header_decoder.cpp b/src/decoders/oem/src/header_decoder.cpp
index 433e5d8..030b70e 100644
--- a/src/decoders/oem/src/header_decoder.cpp
+++ b/src/decoders/oem/src/header_decoder.cpp
@@ -201,7 +201,7 @@ bool HeaderDecoder::DecodeAsciiHeaderFields(IntermediateHeader& stInterHeader_,
 }
 
 // -------------------------------------------------------------------------------------------------------
-void HeaderDecoder::DecodeJsonHeader(std::string_view pcTempBuf_, IntermediateHeader& stInterHeader_) const
+bool HeaderDecoder::DecodeJsonHeader(std::string_view pcTempBuf_, IntermediateHeader& stInterHeader_) const
 {
     simdjson::dom::parser parser;
     simdjson::dom::element doc;
@@ -210,7 +210,7 @@ void HeaderDecoder::DecodeJsonHeader(std::string_view pcTempBuf_, IntermediateHe
     if (error)
     {
         std::cerr << "JSON parsing error: " << error << '\n';
-        return;
+        return false;
     }
 
     // Access the "header" object
@@ -218,7 +218,7 @@ void HeaderDecoder::DecodeJsonHeader(std::string_view pcTempBuf_, IntermediateHe
     if (doc["header"].get(clJsonHeader_) != simdjson::SUCCESS)
     {
         std::cerr << "Error: JSON does not contain a 'header' object\n";
-        return;
+        return false;
     }
 
     // Decode the fields
@@ -269,6 +269,8 @@ void HeaderDecoder::DecodeJsonHeader(std::string_view pcTempBuf_, IntermediateHe
     {
         stInterHeader_.uiMessageDefinitionCrc = static_cast<uint32_t>(messageDefinitionCrc);
     }
+
+    return true;
 }
 
 // -------------------------------------------------------------------------------------------------------
@@ -407,7 +409,9 @@ STATUS HeaderDecoder::Decode(const unsigned char* pucLogBuf_, IntermediateHeader
     case HEADER_FORMAT::JSON:
         try
         {
-            DecodeJsonHeader(pcTempBuf, stInterHeader_);
+            const std::string_view message =
+                stMetaData_.uiLength > 0 ? std::string_view(pcTempBuf, stMetaData_.uiLength) : std::string_view(pcTempBuf);
+            if (!DecodeJsonHeader(message, stInterHeader_)) { return STATUS::FAILURE; }
         }
         catch (std::exception& e)
         {
-- 
2.43.0


From f05d1f6813b04bc5774ab65a79cd63a06a10cc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:31 +0000
Subject: [PATCH 40/89] fix: header time decoded from text is a millisecond
 early when its seconds have no exact representation

---
 include/novatel_edie/decoders/oem/common.hpp | 4 ++--
 src/decoders/oem/src/header_decoder.cpp      | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/novatel_edie/decoders/oem/common.hpp b/include/novatel_edie/decoders/oem/common.hpp
index 2fe8bc8..9ae1937 100644
--- a/include/novatel_edie/decoders/oem/common.hpp
+++ b/include/novatel_edie/decoders/oem/common.hpp
@@ -208,7 +208,7 @@ struct Oem4BinaryShortHeader
         ucLength = 0; // Will be filled in following the payload encoding
         usMessageId = stInterHeader_.usMessageId;
         usWeekNo = stInterHeader_.usWeek;
-        uiWeekMSec = static_cast<uint32_t>(stInterHeader_.dMilliseconds);
+        uiWeekMSec = static_cast<uint32_t>(std::llround(stInterHeader_.dMilliseconds));
     }
 };
 
@@ -252,7 +252,7 @@ struct Oem4BinaryHeader
         ucIdleTime = stInterHeader_.ucIdleTime;
         ucTimeStatus = static_cast<uint8_t>(stInterHeader_.uiTimeStatus & 0xFF);
         usWeekNo = stInterHeader_.usWeek;
-        uiWeekMSec = static_cast<uint32_t>(stInterHeader_.dMilliseconds);
+        uiWeekMSec = static_cast<uint32_t>(std::llround(stInterHeader_.dMilliseconds));
         uiStatus = stInterHeader_.uiReceiverStatus;
         usMsgDefCrc = static_cast<uint16_t>(stInterHeader_.uiMessageDefinitionCrc & 0xFFFF);
         usReceiverSwVersion = stInterHeader_.usReceiverSwVersion;
diff --git a/src/decoders/oem/src/header_decoder.cpp b/src/decoders/oem/src/header_decoder.cpp
index 030b70e..2f7ac26 100644
--- a/src/decoders/oem/src/header_decoder.cpp
+++ b/src/decoders/oem/src/header_decoder.cpp
@@ -430,7 +430,7 @@ STATUS HeaderDecoder::Decode(const unsigned char* pucLogBuf_, IntermediateHeader
     stMetaData_.bResponse =
         static_cast<uint32_t>(MESSAGE_TYPE_MASK::RESPONSE) == (stInterHeader_.ucMessageType & static_cast<uint32_t>(MESSAGE_TYPE_MASK::RESPONSE));
     stMetaData_.usWeek = static_cast<uint32_t>(stInterHeader_.usWeek);
-    stMetaData_.dMilliseconds = static_cast<uint32_t>(stInterHeader_.dMilliseconds);
+    stMetaData_.dMilliseconds = static_cast<uint32_t>(std::llround(stInterHeader_.dMilliseconds));
     stMetaData_.usMessageId = static_cast<uint32_t>(stInterHeader_.usMessageId);
     stMetaData_.uiMessageCrc = stInterHeader_.uiMessageDefinitionCrc;
     stMetaData_.uiHeaderLength = static_cast<uint32_t>(pcTempBuf - reinterpret_cast<const char*>(pucLogBuf_));
-- 
2.43.0


From 13e8bf82e9e8bfdae22572188e987b358e5b1dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:31 +0000
Subject: [PATCH 41/89] fix: JSON header decoder loses the sibling id of the
 message

---
 include/novatel_edie/decoders/oem/common.hpp |  1 +
 src/decoders/oem/src/header_decoder.cpp      | 11 +++++++++++
 2 files changed, 12 insertions(+)

diff --git a/include/novatel_edie/decoders/oem/common.hpp b/include/novatel_edie/decoders/oem/common.hpp
index 9ae1937..01683b2 100644
--- a/include/novatel_edie/decoders/oem/common.hpp
+++ b/include/novatel_edie/decoders/oem/common.hpp
@@ -27,6 +27,7 @@
 #ifndef NOVATEL_COMMON_HPP
 #define NOVATEL_COMMON_HPP
 
+#include <cmath>
 #include <cstdint>
 
 #include "novatel_edie/decoders/common/common.hpp"
diff --git a/src/decoders/oem/src/header_decoder.cpp b/src/decoders/oem/src/header_decoder.cpp
index 2f7ac26..135333a 100644
--- a/src/decoders/oem/src/header_decoder.cpp
+++ b/src/decoders/oem/src/header_decoder.cpp
@@ -225,6 +225,17 @@ bool HeaderDecoder::DecodeJsonHeader(std::string_view pcTempBuf_, IntermediateHe
     int64_t messageId;
     if (clJsonHeader_["id"].get(messageId) == simdjson::SUCCESS) { stInterHeader_.usMessageId = static_cast<uint16_t>(messageId); }
 
+    std::string_view messageName;
+    if (clJsonHeader_["message"].get(messageName) == simdjson::SUCCESS && !messageName.empty())
+    {
+        uint16_t usLogId = 0;
+        uint32_t uiSiblingId = NULL_SIBLING_ID;
+        uint32_t uiMsgFormat = 0;
+        uint32_t uiResponse = 0;
+        UnpackMsgId(pclMyMsgDb->MsgNameToMsgId(std::string(messageName)), usLogId, uiSiblingId, uiMsgFormat, uiResponse);
+        stInterHeader_.ucMessageType = PackMsgType(uiSiblingId, static_cast<uint32_t>(MESSAGE_FORMAT::BINARY), 0U);
+    }
+
     std::string_view port;
     if (clJsonHeader_["port"].get(port) == simdjson::SUCCESS)
     {
-- 
2.43.0


From 265a7f279408ffdbdb0fc989d03f22cd449b9889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:57 +0000
Subject: [PATCH 42/89] fix: JSON decoder stores a double with a %e conversion
 as a float

---
 src/decoders/common/src/message_decoder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index 1626993..5d7a909 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -196,7 +196,6 @@ void MessageDecoderBase::InitFieldMaps()
     jsonFieldMap[CalculateBlockCrc32("UB")] = SimpleJsonMapEntry<uint8_t>();
     jsonFieldMap[CalculateBlockCrc32("XB")] = SimpleJsonMapEntry<uint8_t>();
     jsonFieldMap[CalculateBlockCrc32("lf")] = SimpleJsonMapEntry<double>();
-    jsonFieldMap[CalculateBlockCrc32("e")] = SimpleJsonMapEntry<float>();
     jsonFieldMap[CalculateBlockCrc32("le")] = SimpleJsonMapEntry<double>();
     jsonFieldMap[CalculateBlockCrc32("g")] = SimpleJsonMapEntry<float>();
     jsonFieldMap[CalculateBlockCrc32("lg")] = SimpleJsonMapEntry<double>();
@@ -212,6 +211,8 @@ void MessageDecoderBase::InitFieldMaps()
         }
     };
 
+    jsonFieldMap[CalculateBlockCrc32("e")] = jsonFieldMap[CalculateBlockCrc32("f")];
+
     jsonFieldMap[CalculateBlockCrc32("d")] = [](CompositeField& clCompField_, const BaseField& pstMessageDataType_,
                                                 simdjson::dom::element clJsonField_, const size_t elementIndex_, const bool fixed_,
                                                 [[maybe_unused]] MessageDatabase& pclMsgDb_) {
-- 
2.43.0


From 543a6b059686b470d2ce38ad2371b96e8c505e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:57 +0000
Subject: [PATCH 43/89] fix: character fields of one byte are decoded from text
 as four bytes, and from JSON as numbers

---
 src/decoders/oem/src/message_decoder.cpp | 30 ++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/decoders/oem/src/message_decoder.cpp b/src/decoders/oem/src/message_decoder.cpp
index 6fad883..941a402 100644
--- a/src/decoders/oem/src/message_decoder.cpp
+++ b/src/decoders/oem/src/message_decoder.cpp
@@ -45,6 +45,21 @@ const bool kRegisteredOemAlignment = [] {
 }();
 } // namespace
 
+// -------------------------------------------------------------------------------------------------------
+// Store a character in a field of the type that the message definition gives it
+static void SetCharacter(novatel::edie::CompositeField& clCompField_, const novatel::edie::BaseField& stField_, const char cValue_,
+                         const size_t elementIndex_, const bool fixed_)
+{
+    const auto set = [&](const auto value_) {
+        if (fixed_) { clCompField_.SetArrayElement<true>(stField_, elementIndex_, value_); }
+        else { clCompField_.SetArrayElement<false>(stField_, elementIndex_, value_); }
+    };
+
+    if (stField_.dataType.length != 1) { set(static_cast<uint32_t>(static_cast<unsigned char>(cValue_))); }
+    else if (stField_.dataType.name == novatel::edie::DATA_TYPE::CHAR) { set(static_cast<int8_t>(cValue_)); }
+    else { set(static_cast<uint8_t>(cValue_)); }
+}
+
 // -------------------------------------------------------------------------------------------------------
 MessageDecoder::MessageDecoder(const MessageDatabase::Ptr& pclMessageDb_) : MessageDecoderBase("OEM", pclMessageDb_, OemAlignmentFunction)
 {
@@ -62,9 +77,7 @@ void MessageDecoder::InitOemFieldMaps()
                                                  [[maybe_unused]] MessageDatabase& pclMsgDb_) {
         // TODO: check that the character is printable
         // if (!isprint(**ppcToken_)) { throw ... }
-        const auto value = static_cast<uint32_t>(static_cast<unsigned char>(**ppcToken_));
-        if (fixed_) { clCompField_.SetArrayElement<true>(pstMessageDataType_, elementIndex_, value); }
-        else { clCompField_.SetArrayElement<false>(pstMessageDataType_, elementIndex_, value); }
+        SetCharacter(clCompField_, pstMessageDataType_, **ppcToken_, elementIndex_, fixed_);
     };
     asciiFieldMap[CalculateBlockCrc32("k")] = SimpleAsciiMapEntry<float>();
     asciiFieldMap[CalculateBlockCrc32("lk")] = SimpleAsciiMapEntry<double>();
@@ -137,7 +150,16 @@ void MessageDecoder::InitOemFieldMaps()
     // =========================================================
     // Json Field Mapping
     // =========================================================
-    jsonFieldMap[CalculateBlockCrc32("c")] = SimpleJsonMapEntry<uint32_t>();
+    jsonFieldMap[CalculateBlockCrc32("c")] = [](CompositeField& clCompField_, const BaseField& pstMessageDataType_,
+                                                simdjson::dom::element clJsonField_, const size_t elementIndex_, const bool fixed_,
+                                                [[maybe_unused]] MessageDatabase& pclMsgDb_) {
+        std::string_view sValue;
+        if (clJsonField_.get(sValue) != simdjson::SUCCESS || sValue.size() != 1)
+        {
+            throw std::runtime_error("Failed to decode JSON field '" + pstMessageDataType_.name + "'");
+        }
+        SetCharacter(clCompField_, pstMessageDataType_, sValue.front(), elementIndex_, fixed_);
+    };
     jsonFieldMap[CalculateBlockCrc32("k")] = SimpleJsonMapEntry<float>();
     jsonFieldMap[CalculateBlockCrc32("lk")] = SimpleJsonMapEntry<double>();
 
-- 
2.43.0


From 9970302a0670f59f3f0b96e15b4656eca0ec17d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:57 +0000
Subject: [PATCH 44/89] fix: lowest satellite frequency channel cannot be
 decoded from text

---
 src/decoders/oem/src/message_decoder.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/decoders/oem/src/message_decoder.cpp b/src/decoders/oem/src/message_decoder.cpp
index 941a402..e82407c 100644
--- a/src/decoders/oem/src/message_decoder.cpp
+++ b/src/decoders/oem/src/message_decoder.cpp
@@ -122,13 +122,11 @@ void MessageDecoder::InitOemFieldMaps()
         int16_t sFreq = 0;
         if (pcDelimiter != nullptr)
         {
-            const char* start = pcDelimiter + 1;
+            const char* start = *pcDelimiter == '-' ? pcDelimiter : pcDelimiter + 1; // Negative numbers include their sign
             const char* end = *ppcToken_ + tokenLength_;
 
             result = std::from_chars(start, end, sFreq);
             if (result.ec != std::errc()) { throw std::runtime_error("Failed to parse sFreq"); }
-
-            if (*pcDelimiter == '-') { sFreq = -sFreq; }
         }
 
         const uint32_t uiSatId = usSlot | (sFreq << 16);
@@ -227,14 +225,12 @@ void MessageDecoder::InitOemFieldMaps()
             }
 
             // Parse the frequency part
-            std::string_view freqView = sTemp.substr(sDelimiter + 1);
+            std::string_view freqView = sTemp.substr(sTemp[sDelimiter] == '-' ? sDelimiter : sDelimiter + 1); // Negative numbers include their sign
             result = std::from_chars(freqView.data(), freqView.data() + freqView.size(), sFreq);
             if (result.ec != std::errc() || result.ptr != freqView.data() + freqView.size())
             {
                 throw std::invalid_argument("Invalid frequency value in id field");
             }
-
-            if (sTemp[sDelimiter] == '-') { sFreq = -sFreq; }
         }
         else
         {
-- 
2.43.0


From 4cd3939a4073b0e45fac9e95ae2a01eb55e2ad4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:57 +0000
Subject: [PATCH 45/89] fix: looking up the id of an empty message name is
 undefined behaviour

---
 src/decoders/common/src/message_database.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/common/src/message_database.cpp b/src/decoders/common/src/message_database.cpp
index d516881..655112c 100644
--- a/src/decoders/common/src/message_database.cpp
+++ b/src/decoders/common/src/message_database.cpp
@@ -80,7 +80,7 @@ uint32_t MessageDatabase::MsgNameToMsgId(std::string sMsgName_) const
         return CreateMsgId(pclMessageDef->logID, uiSiblingId, uiMsgFormat, uiResponse);
     }
 
-    switch (sMsgName_.back())
+    switch (sMsgName_.empty() ? '\0' : sMsgName_.back())
     {
     case 'R': // ASCII Response
         uiResponse = static_cast<uint32_t>(true);
-- 
2.43.0


From 4a7a1c3247239be820ee88b8c1fd3de5ed9a1614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:26 +0000
Subject: [PATCH 46/89] fix: response without text cannot be encoded to binary

---
 include/novatel_edie/decoders/common/encoder.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/novatel_edie/decoders/common/encoder.hpp b/include/novatel_edie/decoders/common/encoder.hpp
index f8e3f7b..77f3baf 100644
--- a/include/novatel_edie/decoders/common/encoder.hpp
+++ b/include/novatel_edie/decoders/common/encoder.hpp
@@ -514,7 +514,8 @@ template <typename Derived> class EncoderBase
             else
             {
                 // All other fields (SIMPLE, ENUM, RESPONSE_ID, RESPONSE_STR, FIXED_LENGTH_ARRAY): copy bytes directly
-                // Note: the following check assumes none of the aforementioned field types can be empty
+                // Note: of the aforementioned field types, only RESPONSE_STR can be empty
+                if (fieldDefRef.type == FIELD_TYPE::RESPONSE_STR && stInterMessage_.GetFieldSize(fieldDefRef) == 0) { continue; }
                 if (!stInterMessage_.WriteFieldToBuffer(fieldDefRef, ppucOutBuf_, uiBytesLeft_)) { return false; }
             }
         }
-- 
2.43.0


From 84a3a6c37765d59317341b5c000879983cafe467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:06 +0000
Subject: [PATCH 47/89] fix: sibling ids above nine are lost when a message
 name is decoded

---
 src/decoders/common/src/message_database.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/decoders/common/src/message_database.cpp b/src/decoders/common/src/message_database.cpp
index 655112c..dd26356 100644
--- a/src/decoders/common/src/message_database.cpp
+++ b/src/decoders/common/src/message_database.cpp
@@ -26,6 +26,8 @@
 
 #include "novatel_edie/decoders/common/message_database.hpp"
 
+#include <algorithm>
+#include <cctype>
 #include <unordered_set>
 
 #include "novatel_edie/decoders/common/common.hpp"
@@ -63,11 +65,13 @@ uint32_t MessageDatabase::MsgNameToMsgId(std::string sMsgName_) const
     uint32_t uiMsgFormat;
     uint32_t uiResponse;
 
-    // Ingest the sibling information, i.e. the _1 from LOGNAMEA_1
-    if (sMsgName_.find_last_of('_') != std::string::npos && sMsgName_.find_last_of('_') == sMsgName_.size() - 2)
+    // Ingest the sibling information, i.e. the _1 from LOGNAMEA_1, or the _12 from LOGNAMEA_12
+    const size_t uiSeparator = sMsgName_.find_last_of('_');
+    if (uiSeparator != std::string::npos && sMsgName_.size() > uiSeparator + 1 && sMsgName_.size() <= uiSeparator + 3 &&
+        std::all_of(sMsgName_.begin() + uiSeparator + 1, sMsgName_.end(), [](const unsigned char c) { return std::isdigit(c) != 0; }))
     {
-        uiSiblingId = static_cast<uint32_t>(ToDigit(sMsgName_.back()));
-        sMsgName_.resize(sMsgName_.size() - 2);
+        uiSiblingId = static_cast<uint32_t>(std::stoul(sMsgName_.substr(uiSeparator + 1)));
+        sMsgName_.resize(uiSeparator);
     }
 
     // If this is an abbrev msg (no format information), we will be able to find the MsgDef
-- 
2.43.0


From 8326796305789adef40152c4f0f4097585943188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:24 +0000
Subject: [PATCH 48/89] fix: encoding a short text header of a message that is
 not in the database dereferences a null pointer

---
 src/decoders/oem/src/encoder.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/decoders/oem/src/encoder.cpp b/src/decoders/oem/src/encoder.cpp
index ec36668..0a54dd2 100644
--- a/src/decoders/oem/src/encoder.cpp
+++ b/src/decoders/oem/src/encoder.cpp
@@ -346,7 +346,8 @@ bool Encoder::EncodeAsciiShortHeader(const IntermediateHeader& stInterHeader_, c
 {
     if (!CopyToBuffer(ppcOutBuf_, uiBytesLeft_, OEM4_SHORT_ASCII_SYNC)) { return false; }
 
-    std::string sMsgName(pclMyMsgDb->GetMsgDef(stInterHeader_.usMessageId)->name);
+    MessageDefinition::ConstPtr pclMessageDef = pclMyMsgDb->GetMsgDef(stInterHeader_.usMessageId);
+    std::string sMsgName(pclMessageDef != nullptr ? pclMessageDef->name : GetEnumString(vMyCommandDefinitions, stInterHeader_.usMessageId));
     const uint32_t uiResponse = (stInterHeader_.ucMessageType & static_cast<uint32_t>(MESSAGE_TYPE_MASK::RESPONSE)) >> 7;
     sMsgName.push_back(uiResponse != 0U ? 'R' : 'A'); // Append 'A' for ascii, or 'R' for ascii response
     AppendSiblingId(sMsgName, stInterHeader_);
@@ -364,7 +365,8 @@ bool Encoder::EncodeAbbrevAsciiShortHeader(const IntermediateHeader& stInterHead
 {
     if (!CopyToBuffer(ppcOutBuf_, uiBytesLeft_, OEM4_ABBREV_ASCII_SYNC)) { return false; }
 
-    std::string sMsgName(pclMyMsgDb->GetMsgDef(stInterHeader_.usMessageId)->name);
+    MessageDefinition::ConstPtr pclMessageDef = pclMyMsgDb->GetMsgDef(stInterHeader_.usMessageId);
+    std::string sMsgName(pclMessageDef != nullptr ? pclMessageDef->name : GetEnumString(vMyCommandDefinitions, stInterHeader_.usMessageId));
     AppendSiblingId(sMsgName, stInterHeader_);
 
     return CopyAllToBufferSeparated(ppcOutBuf_, uiBytesLeft_, OEM4_ABBREV_ASCII_SEPARATOR,                                 //
-- 
2.43.0


From e5a3997aae07ecc90019dd7238f6a85717ea3c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:40 +0000
Subject: [PATCH 49/89] fix: filter times given in seconds are a millisecond
 early when they have no exact representation

---
 src/decoders/oem/src/filter.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/decoders/oem/src/filter.cpp b/src/decoders/oem/src/filter.cpp
index fecf1d6..1b32d53 100644
--- a/src/decoders/oem/src/filter.cpp
+++ b/src/decoders/oem/src/filter.cpp
@@ -27,6 +27,7 @@
 #include "novatel_edie/decoders/oem/filter.hpp"
 
 #include <algorithm>
+#include <cmath>
 
 using namespace novatel::edie;
 using namespace novatel::edie::oem;
@@ -55,7 +56,7 @@ void Filter::SetIncludeLowerTimeBound(uint32_t uiWeek_, double dSec_)
 {
     bMyFilterLowerTime = true;
     uiMyLowerWeek = uiWeek_;
-    uiMyLowerMSec = static_cast<uint32_t>(dSec_ * 1000.0);
+    uiMyLowerMSec = static_cast<uint32_t>(std::llround(dSec_ * 1000.0));
     PushUnique(vMyFilterFunctions, &Filter::FilterTime);
 }
 
@@ -63,7 +64,7 @@ void Filter::SetIncludeUpperTimeBound(uint32_t uiWeek_, double dSec_)
 {
     bMyFilterUpperTime = true;
     uiMyUpperWeek = uiWeek_;
-    uiMyUpperMSec = static_cast<uint32_t>(dSec_ * 1000.0);
+    uiMyUpperMSec = static_cast<uint32_t>(std::llround(dSec_ * 1000.0));
     PushUnique(vMyFilterFunctions, &Filter::FilterTime);
 }
 
@@ -88,7 +89,7 @@ void Filter::ClearTimeBounds()
 // -------------------------------------------------------------------------------------------------------
 void Filter::SetIncludeDecimation(double dPeriodSec_)
 {
-    SetIncludeDecimationMs(static_cast<uint32_t>(dPeriodSec_ * 1000.0)); // Convert provided seconds to MSec
+    SetIncludeDecimationMs(static_cast<uint32_t>(std::llround(dPeriodSec_ * 1000.0))); // Convert provided seconds to MSec
 }
 
 void Filter::SetIncludeDecimationMs(uint32_t dPeriodMSec_)
-- 
2.43.0


From 019e8ef092e2e72174fe19d43d354eeec6a5604e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:40 +0000
Subject: [PATCH 50/89] fix: a decimation period of zero divides by zero

---
 src/decoders/oem/src/filter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decoders/oem/src/filter.cpp b/src/decoders/oem/src/filter.cpp
index 1b32d53..0c569a0 100644
--- a/src/decoders/oem/src/filter.cpp
+++ b/src/decoders/oem/src/filter.cpp
@@ -288,7 +288,8 @@ bool Filter::FilterMessage(const MetaDataStruct& stMetaData_) const
 // -------------------------------------------------------------------------------------------------------
 bool Filter::FilterDecimation(const MetaDataStruct& stMetaData_) const
 {
-    return !bMyDecimate || bMyInvertDecimation == static_cast<bool>(static_cast<uint32_t>(stMetaData_.dMilliseconds) % uiMyDecimationPeriodMilliSec);
+    // A period of zero does not decimate
+    return !bMyDecimate || uiMyDecimationPeriodMilliSec == 0 || bMyInvertDecimation == static_cast<bool>(static_cast<uint32_t>(stMetaData_.dMilliseconds) % uiMyDecimationPeriodMilliSec);
 }
 
 // -------------------------------------------------------------------------------------------------------
-- 
2.43.0


From 20fbed927ea04d5d0c5e001d04cc39027e7f0bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:53 +0000
Subject: [PATCH 51/89] fix: removing a definition loses the lookup of others
 with the same name or identifier

---
 src/decoders/common/src/message_database.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/decoders/common/src/message_database.cpp b/src/decoders/common/src/message_database.cpp
index dd26356..7a81256 100644
--- a/src/decoders/common/src/message_database.cpp
+++ b/src/decoders/common/src/message_database.cpp
@@ -41,8 +41,15 @@ void MessageDatabase::RemoveMessage(const uint32_t iMsgId_)
 
     if (iTer != vMessageDefinitions.end())
     {
-        RemoveMessageMapping(**iTer);
+        const MessageDefinition::ConstPtr pclRemoved = *iTer;
+        RemoveMessageMapping(*pclRemoved);
         vMessageDefinitions.erase(iTer);
+
+        // Another definition may share the name
+        for (const auto& msg : vMessageDefinitions)
+        {
+            if (msg->name == pclRemoved->name) { mMessageName[msg->name] = msg; }
+        }
     }
 }
 
@@ -53,8 +60,16 @@ void MessageDatabase::RemoveEnumeration(std::string_view strEnumeration_)
 
     if (iTer != vEnumDefinitions.end())
     {
-        RemoveEnumerationMapping(**iTer);
+        const EnumDefinition::ConstPtr pclRemoved = *iTer;
+        RemoveEnumerationMapping(*pclRemoved);
         vEnumDefinitions.erase(iTer);
+
+        // Another definition may share the name or the identifier
+        for (const auto& enm : vEnumDefinitions)
+        {
+            if (enm->name == pclRemoved->name) { mEnumName[enm->name] = enm; }
+            if (enm->_id == pclRemoved->_id) { mEnumId[enm->_id] = enm; }
+        }
     }
 }
 
-- 
2.43.0


From 3ed309f9ed57d678750ba4766bb3e5813fc00e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:53 +0000
Subject: [PATCH 52/89] fix: messages keep using an enumeration after it was
 replaced, or none if it was appended later

---
 include/novatel_edie/decoders/common/message_database.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/novatel_edie/decoders/common/message_database.hpp b/include/novatel_edie/decoders/common/message_database.hpp
index 0b78fa2..d42a9ab 100644
--- a/include/novatel_edie/decoders/common/message_database.hpp
+++ b/include/novatel_edie/decoders/common/message_database.hpp
@@ -803,6 +803,7 @@ class MessageDatabase
             mEnumName[enmDef->name] = enmDef;
             mEnumId[enmDef->_id] = enmDef;
         }
+        GenerateMessageMappings(); // Fields of existing messages may refer to the new enumerations
     }
 
     //----------------------------------------------------------------------------
-- 
2.43.0


From 2fa65dd485d460a0af60725aec73cb30b4e98fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:53 +0000
Subject: [PATCH 53/89] fix: changing the message family of a database leaves
 the layout of its field arrays unchanged

---
 .../decoders/common/message_database.hpp      | 24 ++++++++++++++-----
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/novatel_edie/decoders/common/message_database.hpp b/include/novatel_edie/decoders/common/message_database.hpp
index d42a9ab..fda0ef9 100644
--- a/include/novatel_edie/decoders/common/message_database.hpp
+++ b/include/novatel_edie/decoders/common/message_database.hpp
@@ -776,12 +776,7 @@ class MessageDatabase
             // Rebuild FieldInfo to ensure field indices match our message family
             for (const auto& [crc, fields] : copy->fieldInfo)
             {
-                // BaseFields were already deep-copied by the MessageDefinition copy constructor, but we need to
-                // cast off constness to rebuild field definitions with this DB's message family.
-                std::vector<BaseField::Ptr> fieldVec;
-                fieldVec.reserve(fields->messageOrderedFields.size());
-                for (const auto& f : fields->messageOrderedFields) { fieldVec.emplace_back(std::const_pointer_cast<BaseField>(f)); }
-                copy->fieldInfo[crc] = BuildFieldInfo(std::move(fieldVec), pDbMetadata ? pDbMetadata->messageFamily : "");
+                copy->fieldInfo[crc] = RebuildFieldInfo(*fields, pDbMetadata ? pDbMetadata->messageFamily : "");
             }
 
             vMessageDefinitions.push_back(copy);
@@ -948,6 +943,23 @@ class MessageDatabase
     }
 
   private:
+    static FieldInfo::ConstPtr RebuildFieldInfo(const FieldInfo& fields_, const std::string& messageFamily_)
+    {
+        // BaseFields were already deep-copied by the MessageDefinition copy constructor, but we need to
+        // cast off constness to rebuild field definitions with this DB's message family.
+        std::vector<BaseField::Ptr> fieldVec;
+        fieldVec.reserve(fields_.messageOrderedFields.size());
+        for (const auto& f : fields_.messageOrderedFields)
+        {
+            fieldVec.emplace_back(std::const_pointer_cast<BaseField>(f));
+            if (const auto fieldArrayField = std::dynamic_pointer_cast<FieldArrayField>(fieldVec.back()))
+            {
+                fieldArrayField->fieldInfo = RebuildFieldInfo(*fieldArrayField->fieldInfo, messageFamily_);
+            }
+        }
+        return BuildFieldInfo(std::move(fieldVec), messageFamily_);
+    }
+
     void MapMessageEnumFields(const std::vector<BaseField::ConstPtr>& vMsgDefFields_)
     {
         for (const auto& field : vMsgDefFields_)
-- 
2.43.0


From 7a90ab364bd87d0ed04d6064c4463ef27d4aedc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:53 +0000
Subject: [PATCH 54/89] fix: conversion strings with leading zeros in the width
 or precision are misread or rejected

---
 include/novatel_edie/decoders/common/message_database.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/novatel_edie/decoders/common/message_database.hpp b/include/novatel_edie/decoders/common/message_database.hpp
index fda0ef9..a3a71ca 100644
--- a/include/novatel_edie/decoders/common/message_database.hpp
+++ b/include/novatel_edie/decoders/common/message_database.hpp
@@ -370,7 +370,7 @@ struct BaseField
         if (std::isdigit(*sConvertString))
         {
             newWidth = std::stoi(sConvertString);
-            sConvertString += std::to_string(*newWidth).length();
+            while (std::isdigit(*sConvertString)) { ++sConvertString; }
         }
 
         if (*sConvertString == '.') { ++sConvertString; }
@@ -379,7 +379,7 @@ struct BaseField
         if (std::isdigit(*sConvertString))
         {
             newPrecision = std::stoi(sConvertString);
-            sConvertString += std::to_string(*newPrecision).length();
+            while (std::isdigit(*sConvertString)) { ++sConvertString; }
         }
 
         if (!std::isalpha(*sConvertString)) { throw std::runtime_error("Conversion string must contain a character"); }
-- 
2.43.0


From 4fd12f41f22e2cf562591eb75b707f2a33a398a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:14 +0000
Subject: [PATCH 55/89] fix: a field whose data type has no length divides by
 zero when it is aligned

---
 include/novatel_edie/decoders/oem/common.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/novatel_edie/decoders/oem/common.hpp b/include/novatel_edie/decoders/oem/common.hpp
index 01683b2..91c9085 100644
--- a/include/novatel_edie/decoders/oem/common.hpp
+++ b/include/novatel_edie/decoders/oem/common.hpp
@@ -132,6 +132,7 @@ enum class CONSTELLATION
 //-----------------------------------------------------------------------
 inline size_t OemAlignmentFunction(const size_t size, const uintptr_t start, const uintptr_t ptr)
 {
+    if (size == 0) { return 0; }
     size_t alignment = std::min(size_t{4}, size);
     size_t offset = (ptr - start) % alignment;
     return offset == 0 ? 0 : alignment - offset;
-- 
2.43.0


From b463550c839070e9e33e8a12ccb132d73886d532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:59 +0000
Subject: [PATCH 56/89] fix: text that is cut off at the end of a stream is
 decoded past its end

---
 include/novatel_edie/decoders/oem/parser.hpp | 2 +-
 src/decoders/oem/src/parser.cpp              | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/novatel_edie/decoders/oem/parser.hpp b/include/novatel_edie/decoders/oem/parser.hpp
index c470ea8..3142c56 100644
--- a/include/novatel_edie/decoders/oem/parser.hpp
+++ b/include/novatel_edie/decoders/oem/parser.hpp
@@ -68,7 +68,7 @@ class Parser
 
     std::unique_ptr<unsigned char[]> pcMyEncodeBuffer{std::make_unique<unsigned char[]>(uiParserInternalBufferSize)};
     unsigned char* pucMyEncodeBufferPointer{nullptr};
-    std::unique_ptr<unsigned char[]> pcMyFrameBuffer{std::make_unique<unsigned char[]>(uiParserInternalBufferSize)};
+    std::unique_ptr<unsigned char[]> pcMyFrameBuffer{std::make_unique<unsigned char[]>(uiParserInternalBufferSize + 1)};
     unsigned char* pucMyFrameBufferPointer{nullptr};
 
     // Configuration options
diff --git a/src/decoders/oem/src/parser.cpp b/src/decoders/oem/src/parser.cpp
index f7164de..42e77ac 100644
--- a/src/decoders/oem/src/parser.cpp
+++ b/src/decoders/oem/src/parser.cpp
@@ -114,6 +114,7 @@ Parser::ReadIntermediate(MessageDataStruct& stMessageData_, IntermediateHeader&
             uint32_t uiFlushSize = clMyFramer.Flush(pucMyFrameBufferPointer, uiParserInternalBufferSize);
             if (uiFlushSize > 0)
             {
+                pucMyFrameBufferPointer[uiFlushSize] = '\0'; // The text may be cut off anywhere, so the decoders need an end to stop at
                 eStatus = STATUS::SUCCESS;
                 stMetaData_.uiLength = uiFlushSize;
             }
-- 
2.43.0


From a1a0b2cb68a4fd312fa5de208bf0e56a6803b0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:59 +0000
Subject: [PATCH 57/89] fix: a reset file parser keeps bytes of the previous
 pass beyond the size of one message

---
 include/novatel_edie/decoders/common/file_parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/novatel_edie/decoders/common/file_parser.hpp b/include/novatel_edie/decoders/common/file_parser.hpp
index 5e4aaae..eda32e2 100644
--- a/include/novatel_edie/decoders/common/file_parser.hpp
+++ b/include/novatel_edie/decoders/common/file_parser.hpp
@@ -302,7 +302,7 @@ template <typename ParserT, typename FilterT, typename MetaDataT, typename Inter
     //----------------------------------------------------------------------------
     bool Reset()
     {
-        Flush();
+        while (Flush() > 0) {} // Each call discards at most the size of one message
         ResetMessageCounts();
         if (pclMyInputStream != nullptr)
         {
-- 
2.43.0


From a9e54d03c2692c5b866406ac22493beef4416ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:56 +0000
Subject: [PATCH 58/89] fix: an abbreviated ASCII response keeps the time of
 the message before it

---
 src/decoders/oem/src/header_decoder.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/decoders/oem/src/header_decoder.cpp b/src/decoders/oem/src/header_decoder.cpp
index 135333a..4842e6b 100644
--- a/src/decoders/oem/src/header_decoder.cpp
+++ b/src/decoders/oem/src/header_decoder.cpp
@@ -346,6 +346,10 @@ STATUS HeaderDecoder::Decode(const unsigned char* pucLogBuf_, IntermediateHeader
             stMetaData_.usMessageId = 0;
             stMetaData_.uiMessageCrc = 0;
             stMetaData_.ucSiblingId = 0;
+            stMetaData_.eTimeStatus = TIME_STATUS::UNKNOWN;
+            stMetaData_.usWeek = 0;
+            stMetaData_.dMilliseconds = 0.0;
+            stMetaData_.uiBinaryMsgLength = 0;
             stMetaData_.uiHeaderLength = static_cast<uint32_t>(pcTempBuf - reinterpret_cast<const char*>(pucLogBuf_));
             stInterHeader_.ucMessageType = static_cast<uint8_t>(MESSAGE_TYPE_MASK::RESPONSE);
 
-- 
2.43.0


From 146fa9b3d424962c88257e1e9011363944245122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:55 +0000
Subject: [PATCH 59/89] fix: RANGECMP5 Doppler is sign extended from the wrong
 bit

---
 include/novatel_edie/decoders/oem/rangecmp/common.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/novatel_edie/decoders/oem/rangecmp/common.hpp b/include/novatel_edie/decoders/oem/rangecmp/common.hpp
index 03265ab..4a10603 100644
--- a/include/novatel_edie/decoders/oem/rangecmp/common.hpp
+++ b/include/novatel_edie/decoders/oem/rangecmp/common.hpp
@@ -379,7 +379,7 @@ constexpr uint32_t RBLK_PHR_SIGNEXT_MASK = 0xFF800000;
 constexpr std::array<uint32_t, 2> RBLK_PSR_BITS = {37, 20};
 constexpr uint32_t RBLK_PHR_BITS = 23;
 constexpr std::array<uint32_t, 2> RBLK_DOPPLER_BITS = {28, 16};
-constexpr std::array<uint32_t, 2> RBLK_DOPPLER_SIGNEXT_MASK = {0xFC000000, 0xFFFFC000};
+constexpr std::array<uint32_t, 2> RBLK_DOPPLER_SIGNEXT_MASK = {0xF0000000, 0xFFFF0000};
 constexpr std::array<int64_t, 2> RBLK_INVALID_PSR = {137438953471, -524288};
 
 } // namespace rangecmp5
-- 
2.43.0


From 27c81c2c7bc0322c1198063da7c3c6bed67ec699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:55 +0000
Subject: [PATCH 60/89] fix: RANGECMP adds the GLONASS frequency offset twice
 when resolving ADR roll-overs

The message carries the frequency number with its offset of 7 already applied, as
the RANGE message it is copied to does, and GetSignalWavelength() takes it so.
---
 src/decoders/oem/src/rangecmp/range_decompressor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/oem/src/rangecmp/range_decompressor.cpp b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
index ffee0d2..08896c1 100644
--- a/src/decoders/oem/src/rangecmp/range_decompressor.cpp
+++ b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
@@ -397,7 +397,7 @@ void RangeDecompressor::RangeCmpToRange(const rangecmp::RangeCmp& stRangeCmpMess
         stRangeData.fCNo = GetBitfield<uint32_t, CNO_MASK>(stRangeCmpData.uiLockTimeCNoGloFreq) + CNO_SCALE_OFFSET;
         stRangeData.sGlonassFrequency = GetBitfield<int16_t, GLONASS_FREQUENCY_MASK>(stRangeCmpData.uiLockTimeCNoGloFreq);
 
-        double dWavelength = stCtStatus.GetSignalWavelength(stRangeData.sGlonassFrequency + GLONASS_FREQUENCY_NUMBER_OFFSET);
+        double dWavelength = stCtStatus.GetSignalWavelength(stRangeData.sGlonassFrequency);
         stRangeData.dAdr = stRangeCmpData.uiAdr / ADR_SCALE_FACTOR;
         double dAdrRolls = (stRangeData.dPsr / dWavelength + stRangeData.dAdr) / MAX_VALUE;
         stRangeData.dAdr -= MAX_VALUE * static_cast<uint64_t>(std::round(dAdrRolls));
-- 
2.43.0


From faff0b58af1cf05e8e3d3e2b41ff2b158ec7b263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:55 +0000
Subject: [PATCH 61/89] fix: RANGECMP2 GPS L2P Doppler is divided by zero

---
 include/novatel_edie/decoders/oem/rangecmp/common.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/novatel_edie/decoders/oem/rangecmp/common.hpp b/include/novatel_edie/decoders/oem/rangecmp/common.hpp
index 4a10603..de7ef62 100644
--- a/include/novatel_edie/decoders/oem/rangecmp/common.hpp
+++ b/include/novatel_edie/decoders/oem/rangecmp/common.hpp
@@ -576,6 +576,7 @@ constexpr double SignalScaling(SYSTEM system, SIGNAL_TYPE signal)
         case SIGNAL_TYPE::GPS_L1C: [[fallthrough]];
         case SIGNAL_TYPE::GPS_L1CA: return 1.0;
         case SIGNAL_TYPE::GPS_L2Y: [[fallthrough]];
+        case SIGNAL_TYPE::GPS_L2P: [[fallthrough]];
         case SIGNAL_TYPE::GPS_L2CM: return 154.0 / 120.0;
         case SIGNAL_TYPE::GPS_L5Q: return 154.0 / 115.0;
         default: return 0.0;
-- 
2.43.0


From 166fe629d07e849d4503bae10c212c383572173c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:40 +0000
Subject: [PATCH 62/89] fix: the keys of range observations do not hold every
 satellite number

Satellite 64 of a RANGECMP4 message and a RANGECMP2 GLONASS slot plus its offset
of 37 exceed the bits (and the asserted limit) that the keys had for them.
---
 include/novatel_edie/decoders/oem/rangecmp/common.hpp     | 4 ++--
 src/decoders/oem/src/rangecmp/channel_tracking_status.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/novatel_edie/decoders/oem/rangecmp/common.hpp b/include/novatel_edie/decoders/oem/rangecmp/common.hpp
index de7ef62..525da1a 100644
--- a/include/novatel_edie/decoders/oem/rangecmp/common.hpp
+++ b/include/novatel_edie/decoders/oem/rangecmp/common.hpp
@@ -764,8 +764,8 @@ struct LockTimeInfo
 
 constexpr uint64_t MakeKey(SYSTEM system, uint32_t satellite, SIGNAL_TYPE signal, MEASUREMENT_SOURCE source)
 {
-    assert(static_cast<uint64_t>(system) < 16 && satellite < 64 && static_cast<uint64_t>(signal) < 16 && static_cast<uint64_t>(source) < 2);
-    return static_cast<uint64_t>(system) << 11 | satellite << 5 | static_cast<uint64_t>(signal) << 1 | static_cast<uint64_t>(source);
+    assert(static_cast<uint64_t>(system) < 16 && satellite < 128 && static_cast<uint64_t>(signal) < 16 && static_cast<uint64_t>(source) < 2);
+    return static_cast<uint64_t>(system) << 12 | satellite << 5 | static_cast<uint64_t>(signal) << 1 | static_cast<uint64_t>(source);
 }
 
 } // namespace rangecmp4
diff --git a/src/decoders/oem/src/rangecmp/channel_tracking_status.cpp b/src/decoders/oem/src/rangecmp/channel_tracking_status.cpp
index e1c3b78..193076c 100644
--- a/src/decoders/oem/src/rangecmp/channel_tracking_status.cpp
+++ b/src/decoders/oem/src/rangecmp/channel_tracking_status.cpp
@@ -32,8 +32,8 @@ using namespace novatel::edie::oem;
 //------------------------------------------------------------------------------
 uint64_t ChannelTrackingStatus::MakeKey(const uint32_t prn, const MEASUREMENT_SOURCE source) const
 {
-    assert(static_cast<uint64_t>(eSatelliteSystem) < 16 && prn < 256 && static_cast<uint64_t>(eSignalType) < 32 && static_cast<uint64_t>(source) < 2);
-    return static_cast<uint64_t>(eSatelliteSystem) << 14 | prn << 6 | static_cast<uint64_t>(eSignalType) << 1 | static_cast<uint64_t>(source);
+    assert(static_cast<uint64_t>(eSatelliteSystem) < 16 && prn < 512 && static_cast<uint64_t>(eSignalType) < 32 && static_cast<uint64_t>(source) < 2);
+    return static_cast<uint64_t>(eSatelliteSystem) << 15 | prn << 6 | static_cast<uint64_t>(eSignalType) << 1 | static_cast<uint64_t>(source);
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 97b41d7d7ef9c3f7e335b7d65ff4af8118e5ecf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:51 +0000
Subject: [PATCH 63/89] fix: RANGECMP4 differences are applied to reference
 blocks that are gone

A dead reference block was kept as one of zeros with reference ID 0, which a
differential block with that ID was added to, and Reset() kept the blocks of the
previous data set.
---
 .../decoders/oem/rangecmp/range_decompressor.hpp             | 1 +
 src/decoders/oem/src/rangecmp/range_decompressor.cpp         | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp b/include/novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp
index 84e2b26..8b617ad 100644
--- a/include/novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp
+++ b/include/novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp
@@ -60,6 +60,7 @@ class RangeDecompressor
     {
         for (auto& it : mMyRangeCmp2LockTimes) { it.second = {}; }
         for (auto& it : mMyRangeCmp4LockTimes) { it.second = {}; }
+        mMyReferenceBlocks.clear();
     }
 
     //! Decompresses a RANGECMP message provided in a buffer and overwrites it with the equivalent RANGE message.
diff --git a/src/decoders/oem/src/rangecmp/range_decompressor.cpp b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
index 08896c1..ffc425d 100644
--- a/src/decoders/oem/src/rangecmp/range_decompressor.cpp
+++ b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
@@ -488,9 +488,10 @@ void RangeDecompressor::RangeCmp4ToRange(unsigned char* pucData_, Range& stRange
     // Clear any dead reference blocks on the whole second. We should be storing new ones.
     if (std::abs(dSecondOffset) < std::numeric_limits<double>::epsilon())
     {
-        for (auto& it : mMyReferenceBlocks)
+        for (auto it = mMyReferenceBlocks.begin(); it != mMyReferenceBlocks.end();)
         {
-            if (static_cast<MEASUREMENT_SOURCE>(it.first & 1) == eSource) { it.second = {}; }
+            if (static_cast<MEASUREMENT_SOURCE>(it->first & 1) == eSource) { it = mMyReferenceBlocks.erase(it); }
+            else { ++it; }
         }
     }
 
-- 
2.43.0


From 795e336900c5dc95b4edb1aa79a58e81b015882e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:22 +0000
Subject: [PATCH 64/89] fix: RANGECMP4 marks observations of another satellite
 as grouped

When differential blocks are skipped for want of reference data, the grouping bit
was set on as many observations before them as there were signals.
---
 src/decoders/oem/src/rangecmp/range_decompressor.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/decoders/oem/src/rangecmp/range_decompressor.cpp b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
index ffc425d..9fcedf8 100644
--- a/src/decoders/oem/src/rangecmp/range_decompressor.cpp
+++ b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
@@ -550,6 +550,7 @@ void RangeDecompressor::RangeCmp4ToRange(unsigned char* pucData_, Range& stRange
 
             const uint32_t prn = PopLsb(satellites) + 1;
             const uint32_t uiIncludedSignalCount = PopCount(includedSignals[uiPrnIndex]);
+            const uint32_t uiFirstObservation = stRangeMessage_.uiNumberOfObservations;
             bool bPrimaryBlock = true;
             double primaryPseudorange{};
             double primaryDoppler{};
@@ -614,11 +615,12 @@ void RangeDecompressor::RangeCmp4ToRange(unsigned char* pucData_, Range& stRange
             }
 
             // Update the grouping bit in the status word if multiple signals for this PRN are counted.
-            if (uiIncludedSignalCount > 1 && uiIncludedSignalCount <= stRangeMessage_.uiNumberOfObservations)
+            // Signals that were skipped for want of reference data have no observation.
+            if (uiIncludedSignalCount > 1)
             {
-                for (uint32_t uiIndex = uiIncludedSignalCount; uiIndex > 0; uiIndex--)
+                for (uint32_t uiIndex = uiFirstObservation; uiIndex < stRangeMessage_.uiNumberOfObservations; uiIndex++)
                 {
-                    stRangeMessage_.astRangeData[stRangeMessage_.uiNumberOfObservations - uiIndex].uiChannelTrackingStatus |= CTS_GROUPING_MASK;
+                    stRangeMessage_.astRangeData[uiIndex].uiChannelTrackingStatus |= CTS_GROUPING_MASK;
                 }
             }
         }
-- 
2.43.0


From 91efad9ec024d7e964119670ba6ea22cc6993300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:18 +0000
Subject: [PATCH 65/89] fix: range lock times become negative when a log
 crosses a week boundary

---
 .../oem/src/rangecmp/range_decompressor.cpp   | 24 +++++++++++++------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/decoders/oem/src/rangecmp/range_decompressor.cpp b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
index 9fcedf8..eb61e6c 100644
--- a/src/decoders/oem/src/rangecmp/range_decompressor.cpp
+++ b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
@@ -58,6 +58,14 @@ void RangeDecompressor::LoadJsonDb(MessageDatabase::Ptr pclJsonDb_)
     clMyEncoder.LoadJsonDb(pclJsonDb_);
 }
 
+//------------------------------------------------------------------------------
+// Times are compared across week boundaries.
+static double GetElapsedMilliseconds(const MetaDataStruct& stMetaData_)
+{
+    constexpr double millisecondsPerWeek = static_cast<double>(SECS_IN_WEEK) * SEC_TO_MILLI_SEC;
+    return stMetaData_.usWeek * millisecondsPerWeek + stMetaData_.dMilliseconds;
+}
+
 //------------------------------------------------------------------------------
 // The lock time can only report up to 131071ms (0x1FFFF). If this value is
 // reached, the lock time must continue to increment. Once the saturated value
@@ -81,11 +89,11 @@ double RangeDecompressor::GetRangeCmp2LockTime(const MetaDataStruct& stMetaData_
     if (uiLockTimeBits_ == SIG_LOCKTIME_MASK >> Lsb(SIG_LOCKTIME_MASK))
     {
         // If the lock time was already saturated, use the stored time to add the missing offset.
-        if (stLockTimeInfo.bLockTimeSaturated) { dLockTimeMilliseconds += stMetaData_.dMilliseconds - stLockTimeInfo.dLockTimeSaturatedMilliseconds; }
+        if (stLockTimeInfo.bLockTimeSaturated) { dLockTimeMilliseconds += GetElapsedMilliseconds(stMetaData_) - stLockTimeInfo.dLockTimeSaturatedMilliseconds; }
         // If the lock time is not already saturated, store this information if this observation is seen again.
         else
         {
-            stLockTimeInfo.dLockTimeSaturatedMilliseconds = stMetaData_.dMilliseconds;
+            stLockTimeInfo.dLockTimeSaturatedMilliseconds = GetElapsedMilliseconds(stMetaData_);
             stLockTimeInfo.bLockTimeSaturated = true;
         }
     }
@@ -167,6 +175,8 @@ double RangeDecompressor::GetRangeCmp4LockTime(const MetaDataStruct& stMetaData_
 
     using namespace rangecmp4;
 
+    const double dElapsedMilliseconds = GetElapsedMilliseconds(stMetaData_);
+
     // Store the lock time if it is different from the once we have currently.
     LockTimeInfo& stLockTimeInfo = mMyRangeCmp4LockTimes[key_];
 
@@ -187,7 +197,7 @@ double RangeDecompressor::GetRangeCmp4LockTime(const MetaDataStruct& stMetaData_
         }
 
         // Record the last bit change and the bitfield that was changed to.
-        stLockTimeInfo.dLastBitfieldChangeMilliseconds = stMetaData_.dMilliseconds;
+        stLockTimeInfo.dLastBitfieldChangeMilliseconds = dElapsedMilliseconds;
         stLockTimeInfo.ucBits = ucLockTimeBits_;
     }
     // If the lock time is absolute and the lock time bits have decreased, there was likely an outage.
@@ -195,7 +205,7 @@ double RangeDecompressor::GetRangeCmp4LockTime(const MetaDataStruct& stMetaData_
     {
         // In the event of an outage of any kind, reset the lock time to relative.
         stLockTimeInfo.bAbsolute = false;
-        stLockTimeInfo.dLastBitfieldChangeMilliseconds = stMetaData_.dMilliseconds;
+        stLockTimeInfo.dLastBitfieldChangeMilliseconds = dElapsedMilliseconds;
         stLockTimeInfo.ucBits = ucLockTimeBits_;
 
         pclMyLogger->warn("Detected a lock time slip (perhaps caused by an outage) of {}ms at time {}w, {}ms.",
@@ -203,12 +213,12 @@ double RangeDecompressor::GetRangeCmp4LockTime(const MetaDataStruct& stMetaData_
     }
     // If the lock time is absolute and the bitfield hasn't changed within the expected time, reset the last change time
     else if (stLockTimeInfo.bAbsolute && ucLockTimeBits_ < 15 &&
-             stMetaData_.dMilliseconds - stLockTimeInfo.dLastBitfieldChangeMilliseconds > lockTime[ucLockTimeBits_ + 1])
+             dElapsedMilliseconds - stLockTimeInfo.dLastBitfieldChangeMilliseconds > lockTime[ucLockTimeBits_ + 1])
     {
-        stLockTimeInfo.dLastBitfieldChangeMilliseconds = stMetaData_.dMilliseconds;
+        stLockTimeInfo.dLastBitfieldChangeMilliseconds = dElapsedMilliseconds;
         pclMyLogger->warn("Expected a bit change much sooner at time {}w, {}ms.", stMetaData_.usWeek, stMetaData_.dMilliseconds);
     }
-    stLockTimeInfo.dMilliseconds = stMetaData_.dMilliseconds - stLockTimeInfo.dLastBitfieldChangeMilliseconds + lockTime[stLockTimeInfo.ucBits];
+    stLockTimeInfo.dMilliseconds = dElapsedMilliseconds - stLockTimeInfo.dLastBitfieldChangeMilliseconds + lockTime[stLockTimeInfo.ucBits];
     return stLockTimeInfo.dMilliseconds / SEC_TO_MILLI_SEC;
 }
 
-- 
2.43.0


From de5d79da49d376a5f01c5ad11a3a2532f0ce527a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:09 +0000
Subject: [PATCH 66/89] fix: a damaged range message is decompressed from and
 into memory it does not own

The decompressor read as many observation blocks as the body's counters
announced, wherever the body ended, and wrote its RANGE message past the end of
the buffer it was given. Reads are bounded by the length of the message and
writes by the size of the buffer; what does not fit is reported as
MALFORMED_INPUT or BUFFER_FULL.
---
 .../oem/rangecmp/range_decompressor.hpp       |  4 +-
 .../oem/src/rangecmp/range_decompressor.cpp   | 73 +++++++++++++++----
 2 files changed, 62 insertions(+), 15 deletions(-)

diff --git a/include/novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp b/include/novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp
index 8b617ad..0aed4f5 100644
--- a/include/novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp
+++ b/include/novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp
@@ -105,10 +105,10 @@ class RangeDecompressor
     void RangeCmp2ToRange(const rangecmp2::RangeCmp& stRangeCmpMessage_, Range& stRangeMessage_, const MetaDataStruct& stMetaData_);
 
     //! Convert a RANGECMP4 message into RANGE message.
-    void RangeCmp4ToRange(unsigned char* pucData_, Range& stRangeMessage_, const MetaDataStruct& pstMetaData_);
+    void RangeCmp4ToRange(unsigned char* pucData_, uint32_t uiDataLength_, Range& stRangeMessage_, const MetaDataStruct& pstMetaData_);
 
     //! Convert a RANGECMP5 message into RANGE message.
-    void RangeCmp5ToRange(unsigned char* pucData_, Range& stRangeMessage_, const MetaDataStruct& pstMetaData_);
+    void RangeCmp5ToRange(unsigned char* pucData_, uint32_t uiDataLength_, Range& stRangeMessage_, const MetaDataStruct& pstMetaData_);
 
     Filter clMyRangeCmpFilter;
     HeaderDecoder clMyHeaderDecoder;
diff --git a/src/decoders/oem/src/rangecmp/range_decompressor.cpp b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
index eb61e6c..533f6ba 100644
--- a/src/decoders/oem/src/rangecmp/range_decompressor.cpp
+++ b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
@@ -58,6 +58,31 @@ void RangeDecompressor::LoadJsonDb(MessageDatabase::Ptr pclJsonDb_)
     clMyEncoder.LoadJsonDb(pclJsonDb_);
 }
 
+//------------------------------------------------------------------------------
+// Load a message of which not all array elements need to be present.
+template <typename T> static T LoadMessage(const unsigned char* pucData_, uint32_t uiDataLength_)
+{
+    T stMessage;
+    memcpy(&stMessage, pucData_, std::min<size_t>(uiDataLength_, sizeof(T)));
+    return stMessage;
+}
+
+//------------------------------------------------------------------------------
+static uint32_t LoadRangeDataSize(const unsigned char* pucData_, uint32_t uiDataLength_)
+{
+    if (uiDataLength_ < sizeof(uint32_t)) { throw std::runtime_error("Range data size is missing."); }
+    const auto uiSize = LoadValueFromBuffer<uint32_t>(pucData_);
+    if (uiSize > uiDataLength_ - sizeof(uint32_t)) { throw std::runtime_error("Range data is incomplete."); }
+    return uiSize;
+}
+
+//------------------------------------------------------------------------------
+static RangeData& AddRangeData(Range& stRangeMessage_)
+{
+    if (stRangeMessage_.uiNumberOfObservations >= RANGE_RECORD_MAX) { throw std::runtime_error("Too many observations for a RANGE message."); }
+    return stRangeMessage_.astRangeData[stRangeMessage_.uiNumberOfObservations++];
+}
+
 //------------------------------------------------------------------------------
 // Times are compared across week boundaries.
 static double GetElapsedMilliseconds(const MetaDataStruct& stMetaData_)
@@ -381,6 +406,7 @@ void RangeDecompressor::RangeCmpToRange(const rangecmp::RangeCmp& stRangeCmpMess
     constexpr std::array<double, 16> stdDevPsrScaling = {0.050, 0.075, 0.113, 0.169, 0.253,  0.380,  0.570,  0.854,
                                                          1.281, 2.375, 4.750, 9.500, 19.000, 38.000, 76.000, 152.000};
 
+    if (stRangeCmpMessage_.uiNumberOfObservations > RANGE_RECORD_MAX) { throw std::runtime_error("Too many observations for a RANGE message."); }
     stRangeMessage_.uiNumberOfObservations = stRangeCmpMessage_.uiNumberOfObservations;
 
     // Decompress each field from the RangeCmpData and put it into the respective RangeData.
@@ -437,8 +463,13 @@ void RangeDecompressor::RangeCmp2ToRange(const rangecmp2::RangeCmp& stRangeCmpMe
 
     stRangeMessage_.uiNumberOfObservations = 0;
     uint32_t uiRangeDataBytesDecompressed = 0;
+    if (stRangeCmpMessage_.uiNumberOfRangeDataBytes > sizeof(stRangeCmpMessage_.aucRangeData)) { throw std::runtime_error("Too much range data."); }
+    const auto checkRemaining = [&](size_t uiBlockSize_) {
+        if (stRangeCmpMessage_.uiNumberOfRangeDataBytes - uiRangeDataBytesDecompressed < uiBlockSize_) { throw std::runtime_error("Block is incomplete."); }
+    };
     while (uiRangeDataBytesDecompressed < stRangeCmpMessage_.uiNumberOfRangeDataBytes)
     {
+        checkRemaining(sizeof(SatelliteBlock));
         auto stSatBlock = LoadValueFromBuffer<SatelliteBlock>(&stRangeCmpMessage_.aucRangeData[uiRangeDataBytesDecompressed]);
 
         const auto eSystem = GetBitfield<SYSTEM, SAT_SATELLITE_SYSTEM_ID_MASK>(stSatBlock.ulCombinedField);
@@ -455,6 +486,7 @@ void RangeDecompressor::RangeCmp2ToRange(const rangecmp2::RangeCmp& stRangeCmpMe
         for (uint8_t ucSignalBlockIndex = 0; ucSignalBlockIndex < ucSignalBlockCount; ucSignalBlockIndex++)
         {
             // Decompress the signal block
+            checkRemaining(sizeof(SignalBlock));
             auto stSigBlock = LoadValueFromBuffer<SignalBlock>(&stRangeCmpMessage_.aucRangeData[uiRangeDataBytesDecompressed]);
 
             const auto eSignalType = GetBitfield<SIGNAL_TYPE, SIG_SIGNAL_TYPE_MASK>(stSigBlock.uiCombinedField1);
@@ -469,7 +501,7 @@ void RangeDecompressor::RangeCmp2ToRange(const rangecmp2::RangeCmp& stRangeCmpMe
             ChannelTrackingStatus stCtStatus(stSatBlock, stSigBlock);
 
             // Construct the decompressed range data
-            RangeData& stRangeData = stRangeMessage_.astRangeData[stRangeMessage_.uiNumberOfObservations++];
+            RangeData& stRangeData = AddRangeData(stRangeMessage_);
             stRangeData.usPrn = usPrn;
             stRangeData.sGlonassFrequency = GetBitfield<int16_t, SAT_GLONASS_FREQUENCY_ID_MASK>(stSatBlock.ulCombinedField);
             stRangeData.dPsr = iPsrBase + GetBitfield<uint64_t, SIG_PSR_DIFF_MASK>(stSigBlock.ullCombinedField2) / SIG_PSR_DIFF_SCALE_FACTOR;
@@ -489,7 +521,7 @@ void RangeDecompressor::RangeCmp2ToRange(const rangecmp2::RangeCmp& stRangeCmpMe
 }
 
 //------------------------------------------------------------------------------
-void RangeDecompressor::RangeCmp4ToRange(unsigned char* pucData_, Range& stRangeMessage_, const MetaDataStruct& stMetaData_)
+void RangeDecompressor::RangeCmp4ToRange(unsigned char* pucData_, uint32_t uiDataLength_, Range& stRangeMessage_, const MetaDataStruct& stMetaData_)
 {
     using namespace rangecmp4;
 
@@ -507,7 +539,7 @@ void RangeDecompressor::RangeCmp4ToRange(unsigned char* pucData_, Range& stRange
 
     stRangeMessage_.uiNumberOfObservations = 0;
     uint32_t uiBitOffset = 0;
-    auto uiBytesLeft = LoadValueFromBuffer<uint32_t>(pucData_);
+    auto uiBytesLeft = LoadRangeDataSize(pucData_, uiDataLength_);
     pucData_ += sizeof(uint32_t);
 
     auto systems = ExtractBitfield<uint16_t, SATELLITE_SYSTEMS_BITS>(&pucData_, uiBytesLeft, uiBitOffset);
@@ -517,6 +549,7 @@ void RangeDecompressor::RangeCmp4ToRange(unsigned char* pucData_, Range& stRange
     // can be read correctly.
     const auto skipDBlock = [&uiBytesLeft, &uiBitOffset, &pucData_](bool& primary) {
         const uint32_t uiBitsToSkip = primary ? SIG_DBLK_PRIMARY_BITS : SIG_DBLK_SECONDARY_BITS;
+        if (uiBitsToSkip > uiBytesLeft * 8 - uiBitOffset) { throw std::runtime_error("Not enough bytes remaining in the buffer."); }
         uiBytesLeft -= (uiBitsToSkip + uiBitOffset) / 8;
         pucData_ += (uiBitsToSkip + uiBitOffset) / 8;
         uiBitOffset = (uiBitsToSkip + uiBitOffset) % 8;
@@ -594,8 +627,7 @@ void RangeDecompressor::RangeCmp4ToRange(unsigned char* pucData_, Range& stRange
                             else { DecompressDifferentialBlock<true>(&pucData_, uiBytesLeft, uiBitOffset, stBlock, stRb.second, dSecondOffset); }
 
                             ChannelTrackingStatus stCtStatus(system, signal, stBlock);
-                            PopulateNextRangeData(stRangeMessage_.astRangeData[stRangeMessage_.uiNumberOfObservations++], stBlock, stMetaData_,
-                                                  stCtStatus, prn, stRb.first.cGlonassFrequency);
+                            PopulateNextRangeData(AddRangeData(stRangeMessage_), stBlock, stMetaData_, stCtStatus, prn, stRb.first.cGlonassFrequency);
                         }
                         else
                         {
@@ -616,7 +648,7 @@ void RangeDecompressor::RangeCmp4ToRange(unsigned char* pucData_, Range& stRange
                     else { DecompressReferenceBlock<true>(&pucData_, uiBytesLeft, uiBitOffset, stBlock, primaryPseudorange, primaryDoppler); }
 
                     ChannelTrackingStatus stCtStatus(system, signal, stBlock);
-                    RangeData& stRangeData = stRangeMessage_.astRangeData[stRangeMessage_.uiNumberOfObservations++];
+                    RangeData& stRangeData = AddRangeData(stRangeMessage_);
                     PopulateNextRangeData(stRangeData, stBlock, stMetaData_, stCtStatus, prn, stMbHeader.cGlonassFrequency);
 
                     // Always store reference blocks.
@@ -668,13 +700,13 @@ void RangeDecompressor::DecompressBlock(unsigned char** ppucData_, uint32_t& uiB
 }
 
 //------------------------------------------------------------------------------
-void RangeDecompressor::RangeCmp5ToRange(unsigned char* pucData_, Range& stRangeMessage_, const MetaDataStruct& stMetaData_)
+void RangeDecompressor::RangeCmp5ToRange(unsigned char* pucData_, uint32_t uiDataLength_, Range& stRangeMessage_, const MetaDataStruct& stMetaData_)
 {
     using namespace rangecmp5;
 
     stRangeMessage_.uiNumberOfObservations = 0;
     uint32_t uiBitOffset = 0;
-    auto uiBytesLeft = LoadValueFromBuffer<uint32_t>(pucData_);
+    auto uiBytesLeft = LoadRangeDataSize(pucData_, uiDataLength_);
     pucData_ += sizeof(uint32_t);
 
     auto systems = ExtractBitfield<uint16_t, SATELLITE_SYSTEMS_BITS>(&pucData_, uiBytesLeft, uiBitOffset);
@@ -735,7 +767,7 @@ void RangeDecompressor::RangeCmp5ToRange(unsigned char* pucData_, Range& stRange
                 else { DecompressBlock<true>(&pucData_, uiBytesLeft, uiBitOffset, stBlock, primaryPseudorange, primaryDoppler); }
 
                 ChannelTrackingStatus stCtStatus(system, signal, stBlock);
-                RangeData& stRangeData = stRangeMessage_.astRangeData[stRangeMessage_.uiNumberOfObservations++];
+                RangeData& stRangeData = AddRangeData(stRangeMessage_);
                 PopulateNextRangeData(stRangeData, stBlock, stMetaData_, stCtStatus, prn, stMbHeader.cGlonassFrequency);
             }
 
@@ -770,6 +802,7 @@ STATUS RangeDecompressor::Decompress(unsigned char* pucBuffer_, uint32_t uiBuffe
 
     HEADER_FORMAT eFormat = stMetaData_.eFormat;
     pucTempMessagePointer += stMetaData_.uiHeaderLength;
+    uint32_t uiDataLength = stMetaData_.uiBinaryMsgLength;
     // If the message is not in binary format, we need to ensure that it is encoded to binary so that it can be decompressed.
     if (eFormat != HEADER_FORMAT::BINARY)
     {
@@ -781,24 +814,38 @@ STATUS RangeDecompressor::Decompress(unsigned char* pucBuffer_, uint32_t uiBuffe
         if (eStatus != STATUS::SUCCESS) { return eStatus; }
 
         pucTempMessagePointer = stMessageData.pucMessageBody;
+        uiDataLength = stMessageData.uiMessageBodyLength - OEM4_BINARY_CRC_LENGTH;
     }
 
+    const auto uiDataOffset = static_cast<size_t>(pucTempMessagePointer - pucBuffer_);
+    if (uiDataOffset > uiBufferSize_ || uiDataLength > uiBufferSize_ - uiDataOffset) { return STATUS::DECOMPRESSION_FAILURE; }
+
     // Convert the RANGECMP* message to a RANGE message.
     try
     {
         Range stRange;
         switch (stMetaData_.usMessageId)
         {
-        case RANGECMP_MSG_ID: RangeCmpToRange(LoadValueFromBuffer<rangecmp::RangeCmp>(pucTempMessagePointer), stRange); break;
-        case RANGECMP2_MSG_ID: RangeCmp2ToRange(LoadValueFromBuffer<rangecmp2::RangeCmp>(pucTempMessagePointer), stRange, stMetaData_); break;
+        case RANGECMP_MSG_ID: {
+            const auto stRangeCmp = LoadMessage<rangecmp::RangeCmp>(pucTempMessagePointer, uiDataLength);
+            const uint64_t ullRequiredLength = sizeof(uint32_t) + uint64_t{stRangeCmp.uiNumberOfObservations} * sizeof(rangecmp::RangeCmpData);
+            if (ullRequiredLength > uiDataLength) { return STATUS::DECOMPRESSION_FAILURE; }
+            RangeCmpToRange(stRangeCmp, stRange);
+            break;
+        }
+        case RANGECMP2_MSG_ID:
+            LoadRangeDataSize(pucTempMessagePointer, uiDataLength);
+            RangeCmp2ToRange(LoadMessage<rangecmp2::RangeCmp>(pucTempMessagePointer, uiDataLength), stRange, stMetaData_);
+            break;
         case RANGECMP3_MSG_ID: [[fallthrough]];
-        case RANGECMP4_MSG_ID: RangeCmp4ToRange(pucTempMessagePointer, stRange, stMetaData_); break;
-        case RANGECMP5_MSG_ID: RangeCmp5ToRange(pucTempMessagePointer, stRange, stMetaData_); break;
+        case RANGECMP4_MSG_ID: RangeCmp4ToRange(pucTempMessagePointer, uiDataLength, stRange, stMetaData_); break;
+        case RANGECMP5_MSG_ID: RangeCmp5ToRange(pucTempMessagePointer, uiDataLength, stRange, stMetaData_); break;
         default: return STATUS::UNSUPPORTED;
         }
 
         // Set the binary message length in the metadata for decoding purposes.
         stMetaData_.uiBinaryMsgLength = sizeof(stRange.uiNumberOfObservations) + stRange.uiNumberOfObservations * sizeof(RangeData);
+        if (stMetaData_.uiBinaryMsgLength > uiBufferSize_ - uiDataOffset) { return STATUS::BUFFER_FULL; }
         memcpy(pucTempMessagePointer, &stRange, stMetaData_.uiBinaryMsgLength);
     }
     catch (...)
-- 
2.43.0


From 6bc1b379b457be51c368a9e5f22d408087b5a02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:03 +0000
Subject: [PATCH 67/89] fix: RXCONFIG encoder writes past the end of the output
 buffer

The size left was not reduced by the headers and the embedded message already
written.
---
 src/decoders/oem/src/rxconfig/rxconfig_handler.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
index 2cf6ff6..495c684 100644
--- a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
+++ b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
@@ -219,6 +219,7 @@ STATUS RxConfigHandler::EncodeJSON(unsigned char* const* ppucBuffer_, uint32_t u
     eStatus = clMyEncoder.EncodeHeader(&pucTempEncodeBuffer, uiBufferSize_, stHeader_, stMessageData_, HEADER_FORMAT::BINARY, ENCODE_FORMAT::JSON);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
     pucTempEncodeBuffer += stMessageData_.uiMessageHeaderLength;
+    uiBufferSize_ -= stMessageData_.uiMessageHeaderLength;
 
     // -- Encode RXConfig Body --
     if (!CopyToBuffer(&pucTempEncodeBuffer, uiBufferSize_, R"(,"body": )")) { return STATUS::BUFFER_FULL; }
@@ -229,6 +230,7 @@ STATUS RxConfigHandler::EncodeJSON(unsigned char* const* ppucBuffer_, uint32_t u
                                  stEmbeddedMetaData_.eFormat, ENCODE_FORMAT::JSON);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
     pucTempEncodeBuffer += stEmbeddedMessageData_.uiMessageLength;
+    uiBufferSize_ -= stEmbeddedMessageData_.uiMessageLength;
     stMessageData_.uiMessageBodyLength = pucTempEncodeBuffer - stMessageData_.pucMessageBody;
 
     if (!CopyToBuffer(&pucTempEncodeBuffer, uiBufferSize_, '}')) { return STATUS::BUFFER_FULL; }
@@ -254,6 +256,7 @@ STATUS RxConfigHandler::EncodeAbbrevAscii(unsigned char* const* ppucBuffer_, uin
         clMyEncoder.EncodeHeader(&pucTempEncodeBuffer, uiBufferSize_, stHeader_, stMessageData_, HEADER_FORMAT::BINARY, ENCODE_FORMAT::ABBREV_ASCII);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
     pucTempEncodeBuffer += stMessageData_.uiMessageHeaderLength;
+    uiBufferSize_ -= stMessageData_.uiMessageHeaderLength;
 
     // -- Encode Embedded Header --
     stEmbeddedMessageData_.pucMessage = pucTempEncodeBuffer;
@@ -268,6 +271,7 @@ STATUS RxConfigHandler::EncodeAbbrevAscii(unsigned char* const* ppucBuffer_, uin
                                        ENCODE_FORMAT::ABBREV_ASCII);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
     pucTempEncodeBuffer += stEmbeddedMessageData_.uiMessageHeaderLength;
+    uiBufferSize_ -= stEmbeddedMessageData_.uiMessageHeaderLength;
 
     // remove sync byte at start of embedded message header
     stEmbeddedMessageData_.pucMessageHeader[0] = ' ';
@@ -311,6 +315,7 @@ STATUS RxConfigHandler::EncodeAscii(unsigned char* const* ppucBuffer_, uint32_t
         clMyEncoder.EncodeHeader(&pucTempEncodeBuffer, uiBufferSize_, stHeader_, stMessageData_, stEmbeddedMetaData_.eFormat, ENCODE_FORMAT::ASCII);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
     pucTempEncodeBuffer += stMessageData_.uiMessageHeaderLength;
+    uiBufferSize_ -= stMessageData_.uiMessageHeaderLength;
 
     // -- Encode Embedded Message --
     stMessageData_.pucMessageBody = pucTempEncodeBuffer;
@@ -318,6 +323,7 @@ STATUS RxConfigHandler::EncodeAscii(unsigned char* const* ppucBuffer_, uint32_t
                                  stEmbeddedMetaData_.eFormat, ENCODE_FORMAT::ASCII);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
     pucTempEncodeBuffer += stEmbeddedMessageData_.uiMessageLength;
+    uiBufferSize_ -= stEmbeddedMessageData_.uiMessageLength;
 
     // -- Write CRC --
 
@@ -362,6 +368,7 @@ STATUS RxConfigHandler::EncodeBinary(unsigned char* const* ppucBuffer_, uint32_t
         clMyEncoder.EncodeHeader(&pucTempEncodeBuffer, uiBufferSize_, stHeader_, stMessageData_, stEmbeddedMetaData_.eFormat, ENCODE_FORMAT::BINARY);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
     pucTempEncodeBuffer += stMessageData_.uiMessageHeaderLength;
+    uiBufferSize_ -= stMessageData_.uiMessageHeaderLength;
 
     // -- Encode Embedded Message --
     stMessageData_.pucMessageBody = pucTempEncodeBuffer;
@@ -369,6 +376,7 @@ STATUS RxConfigHandler::EncodeBinary(unsigned char* const* ppucBuffer_, uint32_t
                                  stEmbeddedMetaData_.eFormat, ENCODE_FORMAT::BINARY);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
     pucTempEncodeBuffer += stEmbeddedMessageData_.uiMessageLength;
+    uiBufferSize_ -= stEmbeddedMessageData_.uiMessageLength;
 
     // -- Write CRC --
     // Backtrack over CRC
-- 
2.43.0


From e6c4379e434bc5cdc7263f35c06cd6d4c3d28dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:50 +0000
Subject: [PATCH 68/89] fix: the checksum of the message decoded from an
 RXCONFIG is not the one of that message

The ASCII form lost leading zeros, leaving indeterminate characters, and the
binary form had its bytes in reverse order.
---
 src/decoders/oem/src/rxconfig/rxconfig_handler.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
index 495c684..dbba296 100644
--- a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
+++ b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
@@ -172,19 +172,18 @@ STATUS RxConfigHandler::Decode(const unsigned char* pucMessage_, CompositeField&
     case HEADER_FORMAT::ASCII: {
         // invert ascii crc
         const uint32_t uiCRC = strtoul(reinterpret_cast<const char*>(pucTempMessagePointer), nullptr, 16) ^ 0xFFFFFFFF;
-        char pucCRC[OEM4_ASCII_CRC_LENGTH];
-        std::to_chars(pucCRC, pucCRC + OEM4_ASCII_CRC_LENGTH, uiCRC, 16);
-        for (auto c : pucCRC) { stEmbeddedMessageData.emplace_back(static_cast<uint8_t>(c)); }
+        // The CRC is always written with all of its digits
+        for (int32_t iShift = 28; iShift >= 0; iShift -= 4) { stEmbeddedMessageData.emplace_back("0123456789abcdef"[(uiCRC >> iShift) & 0xF]); }
         stEmbeddedMessageData.emplace_back(static_cast<uint8_t>('\r'));
         stEmbeddedMessageData.emplace_back(static_cast<uint8_t>('\n'));
         break;
     }
     case HEADER_FORMAT::BINARY: {
         auto uiCRC = LoadValueFromBuffer<uint32_t>(pucTempMessagePointer) ^ 0xFFFFFFFF;
-        stEmbeddedMessageData.emplace_back(static_cast<uint8_t>(uiCRC >> 24));
-        stEmbeddedMessageData.emplace_back(static_cast<uint8_t>(uiCRC >> 16));
-        stEmbeddedMessageData.emplace_back(static_cast<uint8_t>(uiCRC >> 8));
         stEmbeddedMessageData.emplace_back(static_cast<uint8_t>(uiCRC));
+        stEmbeddedMessageData.emplace_back(static_cast<uint8_t>(uiCRC >> 8));
+        stEmbeddedMessageData.emplace_back(static_cast<uint8_t>(uiCRC >> 16));
+        stEmbeddedMessageData.emplace_back(static_cast<uint8_t>(uiCRC >> 24));
         break;
     }
     default: break;
-- 
2.43.0


From 3cf560fce49a1600a0e33ee3042d0f682f0225f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:57 +0000
Subject: [PATCH 69/89] fix: a damaged message inside an RXCONFIG is decoded
 past its end

The lengths of the payload and of the embedded message were taken from the
message without comparing them with each other, so a short or damaged one was
read far beyond its end. Such messages are reported as MALFORMED_INPUT.
---
 .../oem/src/rxconfig/rxconfig_handler.cpp     | 29 +++++++++++++++----
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
index dbba296..7880195 100644
--- a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
+++ b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
@@ -123,6 +123,7 @@ STATUS RxConfigHandler::Decode(const unsigned char* pucMessage_, CompositeField&
 
     const unsigned char* pucTempMessagePointer = pucMessage_;
     std::vector<uint8_t> stEmbeddedMessageData;
+    if (stRxConfigMetaData_.uiLength < stRxConfigMetaData_.uiHeaderLength) { return STATUS::MALFORMED_INPUT; }
     uint32_t uiTotalPayloadSize = stRxConfigMetaData_.uiLength - stRxConfigMetaData_.uiHeaderLength;
     stInterMessage_ = CompositeField(0, 1);
     stInterMessage_.SetFieldInfo(pclMyMsgDb != nullptr ? pclMyMsgDb->GetMsgDef(stRxConfigMetaData_.usMessageId) : nullptr,
@@ -135,20 +136,24 @@ STATUS RxConfigHandler::Decode(const unsigned char* pucMessage_, CompositeField&
     {
     case HEADER_FORMAT::ABB_ASCII: {
         // Fix embedded header indentation
-        const auto* pcTempBuffer = reinterpret_cast<const char*>(pucTempMessagePointer);
-        ConsumeAbbrevFormatting(&pcTempBuffer);
-        pucTempMessagePointer = reinterpret_cast<const unsigned char*>(pcTempBuffer);
+        const std::string_view svPayload(reinterpret_cast<const char*>(pucMessage_), uiTotalPayloadSize);
+        const size_t uiFormattingBytes = svPayload.find_first_not_of("< \r\n");
+        if (uiFormattingBytes == std::string_view::npos) { return STATUS::MALFORMED_INPUT; }
+        pucTempMessagePointer += uiFormattingBytes;
         stEmbeddedMessageData.emplace_back(static_cast<uint8_t>(OEM4_ABBREV_ASCII_SYNC));
-        uiCopyableEmbeddedMsgBytes = uiTotalPayloadSize - (pucTempMessagePointer - pucMessage_);
+        uiCopyableEmbeddedMsgBytes = uiTotalPayloadSize - static_cast<uint32_t>(uiFormattingBytes);
         break;
     }
     case HEADER_FORMAT::ASCII: {
         // Ignore {CRC}*{CRC}\r\n at end of buffer
-        uiCopyableEmbeddedMsgBytes = uiTotalPayloadSize - OEM4_ASCII_CRC_LENGTH - 1 - OEM4_ASCII_CRC_LENGTH - 2;
+        constexpr uint32_t uiTrailerBytes = OEM4_ASCII_CRC_LENGTH + 1 + OEM4_ASCII_CRC_LENGTH + 2;
+        if (uiTotalPayloadSize < uiTrailerBytes) { return STATUS::MALFORMED_INPUT; }
+        uiCopyableEmbeddedMsgBytes = uiTotalPayloadSize - uiTrailerBytes;
         break;
     }
     case HEADER_FORMAT::BINARY: {
         // Ignore CRCs at end of buffer
+        if (uiTotalPayloadSize < 2 * OEM4_BINARY_CRC_LENGTH) { return STATUS::MALFORMED_INPUT; }
         uiCopyableEmbeddedMsgBytes = uiTotalPayloadSize - 2 * OEM4_BINARY_CRC_LENGTH;
         break;
     }
@@ -425,11 +430,23 @@ STATUS RxConfigHandler::Encode(unsigned char* const* ppucBuffer_, uint32_t uiBuf
     if (stMessage_.GetFieldInfo() == nullptr) { return STATUS::MALFORMED_INPUT; }
     const auto& fieldDefinitions = stMessage_.GetFieldInfo()->messageOrderedFields;
     if (fieldDefinitions.empty()) { return STATUS::MALFORMED_INPUT; }
-    const auto fieldValue = stMessage_.GetFieldValue<std::vector<uint8_t>>(*fieldDefinitions.at(0));
+    auto fieldValue = stMessage_.GetFieldValue<std::vector<uint8_t>>(*fieldDefinitions.at(0));
+    const auto uiEmbeddedDataSize = static_cast<uint32_t>(fieldValue.size());
+    fieldValue.push_back('\0'); // Text that is cut off must not be read past its end
     const auto* pucEmbeddedDataBuffer = reinterpret_cast<const unsigned char*>(fieldValue.data());
 
+    // The embedded message ends where its data does, whatever it says about itself
+    const bool bIsBinary = uiEmbeddedDataSize > 0 && pucEmbeddedDataBuffer[0] == OEM4_BINARY_SYNC1;
+    if (uiEmbeddedDataSize < (bIsBinary ? OEM4_BINARY_HEADER_LENGTH + OEM4_BINARY_CRC_LENGTH : 1)) { return STATUS::MALFORMED_INPUT; }
+    stEmbeddedMetaData_.uiLength = uiEmbeddedDataSize;
+
     eStatus = clMyHeaderDecoder.Decode(pucEmbeddedDataBuffer, stEmbeddedHeader, stEmbeddedMetaData_);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
+    if (uiEmbeddedDataSize <= stEmbeddedMetaData_.uiHeaderLength) { return STATUS::MALFORMED_INPUT; }
+    if (bIsBinary && stEmbeddedMetaData_.uiBinaryMsgLength + OEM4_BINARY_CRC_LENGTH > uiEmbeddedDataSize - stEmbeddedMetaData_.uiHeaderLength)
+    {
+        return STATUS::MALFORMED_INPUT;
+    }
 
     eStatus = clMyMessageDecoder.Decode(pucEmbeddedDataBuffer + stEmbeddedMetaData_.uiHeaderLength, stEmbeddedMessage, stEmbeddedMetaData_);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
-- 
2.43.0


From 5ee46e8aba85c76e60bad96159929911568dab5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:08 +0000
Subject: [PATCH 70/89] fix: a long command overflows the stack of the
 commander

The parameters were copied into an array of MAX_ASCII_MESSAGE_LENGTH bytes
whatever their length; the string they are in can be decoded itself.
---
 src/decoders/oem/src/commander.cpp | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/decoders/oem/src/commander.cpp b/src/decoders/oem/src/commander.cpp
index 7974972..25b03ba 100644
--- a/src/decoders/oem/src/commander.cpp
+++ b/src/decoders/oem/src/commander.cpp
@@ -67,11 +67,6 @@ STATUS Commander::Encode(const char* pcAbbrevAsciiCommand_, const uint32_t uiAbb
     const std::string strCmdName = strAbbrevAsciiCommand.substr(0, ullPos);
     const std::string strCmdParams = strAbbrevAsciiCommand.substr(ullPos + 1);
 
-    char acCmdParams[MAX_ASCII_MESSAGE_LENGTH];
-    char* pcCmdParams = acCmdParams;
-    std::copy(strCmdParams.begin(), strCmdParams.end(), acCmdParams);
-    acCmdParams[strCmdParams.size()] = '\0';
-
     if (pclMyMsgDb == nullptr) { return STATUS::NO_DATABASE; }
 
     MessageDefinition::ConstPtr pclMessageDef = pclMyMsgDb->GetMsgDef(strCmdName);
@@ -87,7 +82,7 @@ STATUS Commander::Encode(const char* pcAbbrevAsciiCommand_, const uint32_t uiAbb
     stMetaData.usMessageId = static_cast<uint16_t>(pclMessageDef->logID);
     stMetaData.uiMessageCrc = static_cast<uint32_t>(pclMessageDef->fieldInfo.begin()->first);
 
-    STATUS eStatus = clMyMessageDecoder.Decode(reinterpret_cast<unsigned char*>(pcCmdParams), stIntermediateMessage, stMetaData);
+    STATUS eStatus = clMyMessageDecoder.Decode(reinterpret_cast<const unsigned char*>(strCmdParams.c_str()), stIntermediateMessage, stMetaData);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
 
     // Prime the intermediate header with information we already know
@@ -124,11 +119,6 @@ STATUS Commander::Encode(const MessageDatabase& clJsonDb_, const MessageDecoder&
     const std::string strCmdName = strAbbrevAsciiCommand.substr(0, ullPos);
     const std::string strCmdParams = strAbbrevAsciiCommand.substr(ullPos + 1);
 
-    unsigned char acCmdParams[MAX_ASCII_MESSAGE_LENGTH];
-    unsigned char* pucCmdParams = acCmdParams;
-    std::copy(strCmdParams.begin(), strCmdParams.end(), acCmdParams);
-    acCmdParams[strCmdParams.size()] = '\0';
-
     MessageDefinition::ConstPtr pclMessageDef = clJsonDb_.GetMsgDef(strCmdName);
     if (!pclMessageDef) { return STATUS::NO_DEFINITION; }
 
@@ -142,7 +132,7 @@ STATUS Commander::Encode(const MessageDatabase& clJsonDb_, const MessageDecoder&
     stMetaData.usMessageId = static_cast<uint16_t>(pclMessageDef->logID);
     stMetaData.uiMessageCrc = static_cast<uint32_t>(pclMessageDef->fieldInfo.begin()->first);
 
-    const STATUS eDecoderStatus = clMessageDecoder_.Decode(pucCmdParams, stIntermediateMessage, stMetaData);
+    const STATUS eDecoderStatus = clMessageDecoder_.Decode(reinterpret_cast<const unsigned char*>(strCmdParams.c_str()), stIntermediateMessage, stMetaData);
     if (eDecoderStatus != STATUS::SUCCESS) { return eDecoderStatus; }
 
     // Prime the intermediate header with information we already know
-- 
2.43.0


From 6ade66fc6860ce6fa5a9cef0e14f0fcda2a712cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:08 +0000
Subject: [PATCH 71/89] fix: the name of a command without parameters is taken
 as its parameters

A command that is only a name was decoded as if the name were its first
parameter, and one that ends its line after the name was not found.
---
 src/decoders/oem/src/commander.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/decoders/oem/src/commander.cpp b/src/decoders/oem/src/commander.cpp
index 25b03ba..4196908 100644
--- a/src/decoders/oem/src/commander.cpp
+++ b/src/decoders/oem/src/commander.cpp
@@ -63,9 +63,9 @@ STATUS Commander::Encode(const char* pcAbbrevAsciiCommand_, const uint32_t uiAbb
     if (eEncodeFormat_ != ENCODE_FORMAT::ASCII && eEncodeFormat_ != ENCODE_FORMAT::BINARY) { return STATUS::UNSUPPORTED; }
 
     const auto strAbbrevAsciiCommand = std::string(pcAbbrevAsciiCommand_, uiAbbrevAsciiCommandLength_);
-    const size_t ullPos = strAbbrevAsciiCommand.find_first_of(' ');
+    const size_t ullPos = strAbbrevAsciiCommand.find_first_of(" \r\n");
     const std::string strCmdName = strAbbrevAsciiCommand.substr(0, ullPos);
-    const std::string strCmdParams = strAbbrevAsciiCommand.substr(ullPos + 1);
+    const std::string strCmdParams = ullPos != std::string::npos ? strAbbrevAsciiCommand.substr(ullPos + 1) : std::string();
 
     if (pclMyMsgDb == nullptr) { return STATUS::NO_DATABASE; }
 
@@ -115,9 +115,9 @@ STATUS Commander::Encode(const MessageDatabase& clJsonDb_, const MessageDecoder&
     if (eEncodeFormat_ != ENCODE_FORMAT::ASCII && eEncodeFormat_ != ENCODE_FORMAT::BINARY) { return STATUS::UNSUPPORTED; }
 
     const auto strAbbrevAsciiCommand = std::string(pcAbbrevAsciiCommand_, uiAbbrevAsciiCommandLength_);
-    const size_t ullPos = strAbbrevAsciiCommand.find_first_of(' ');
+    const size_t ullPos = strAbbrevAsciiCommand.find_first_of(" \r\n");
     const std::string strCmdName = strAbbrevAsciiCommand.substr(0, ullPos);
-    const std::string strCmdParams = strAbbrevAsciiCommand.substr(ullPos + 1);
+    const std::string strCmdParams = ullPos != std::string::npos ? strAbbrevAsciiCommand.substr(ullPos + 1) : std::string();
 
     MessageDefinition::ConstPtr pclMessageDef = clJsonDb_.GetMsgDef(strCmdName);
     if (!pclMessageDef) { return STATUS::NO_DEFINITION; }
-- 
2.43.0


From 8a023bd7566a541f7a5b406eb387520a62238888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:08 +0000
Subject: [PATCH 72/89] fix: the commander keeps decoding and encoding with the
 database it was constructed with

LoadJsonDb replaced the database commands are looked up in, but not the one of
the decoder and the encoder.
---
 src/decoders/oem/src/commander.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/decoders/oem/src/commander.cpp b/src/decoders/oem/src/commander.cpp
index 4196908..5ea6561 100644
--- a/src/decoders/oem/src/commander.cpp
+++ b/src/decoders/oem/src/commander.cpp
@@ -41,6 +41,8 @@ Commander::Commander(MessageDatabase::Ptr pclMessageDb_) : clMyMessageDecoder(pc
 void Commander::LoadJsonDb(MessageDatabase::Ptr pclMessageDb_)
 {
     pclMyMsgDb = pclMessageDb_;
+    clMyMessageDecoder.LoadJsonDb(pclMessageDb_);
+    clMyEncoder.LoadJsonDb(pclMessageDb_);
     InitEnumDefinitions();
 }
 
-- 
2.43.0


From bfdf167ef566cd0a77c9ab17f2e7026a0f6f9475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:08 +0000
Subject: [PATCH 73/89] fix: commands are encoded by an arbitrary one of their
 definitions

The first entry of an unordered map was used; the latest definition is the one
in effect.
---
 src/decoders/oem/src/commander.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/decoders/oem/src/commander.cpp b/src/decoders/oem/src/commander.cpp
index 5ea6561..f78945d 100644
--- a/src/decoders/oem/src/commander.cpp
+++ b/src/decoders/oem/src/commander.cpp
@@ -72,7 +72,7 @@ STATUS Commander::Encode(const char* pcAbbrevAsciiCommand_, const uint32_t uiAbb
     if (pclMyMsgDb == nullptr) { return STATUS::NO_DATABASE; }
 
     MessageDefinition::ConstPtr pclMessageDef = pclMyMsgDb->GetMsgDef(strCmdName);
-    if (!pclMessageDef) { return STATUS::NO_DEFINITION; }
+    if (!pclMessageDef || pclMessageDef->fieldInfo.empty()) { return STATUS::NO_DEFINITION; }
 
     MessageDataStruct stMessageData;
     MetaDataStruct stMetaData;
@@ -82,7 +82,8 @@ STATUS Commander::Encode(const char* pcAbbrevAsciiCommand_, const uint32_t uiAbb
     // Prime the metadata with information we already know
     stMetaData.eFormat = HEADER_FORMAT::ABB_ASCII;
     stMetaData.usMessageId = static_cast<uint16_t>(pclMessageDef->logID);
-    stMetaData.uiMessageCrc = static_cast<uint32_t>(pclMessageDef->fieldInfo.begin()->first);
+    const auto itLatest = pclMessageDef->fieldInfo.find(pclMessageDef->latestMessageCrc);
+    stMetaData.uiMessageCrc = itLatest != pclMessageDef->fieldInfo.end() ? itLatest->first : pclMessageDef->fieldInfo.begin()->first;
 
     STATUS eStatus = clMyMessageDecoder.Decode(reinterpret_cast<const unsigned char*>(strCmdParams.c_str()), stIntermediateMessage, stMetaData);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
@@ -122,7 +123,7 @@ STATUS Commander::Encode(const MessageDatabase& clJsonDb_, const MessageDecoder&
     const std::string strCmdParams = ullPos != std::string::npos ? strAbbrevAsciiCommand.substr(ullPos + 1) : std::string();
 
     MessageDefinition::ConstPtr pclMessageDef = clJsonDb_.GetMsgDef(strCmdName);
-    if (!pclMessageDef) { return STATUS::NO_DEFINITION; }
+    if (!pclMessageDef || pclMessageDef->fieldInfo.empty()) { return STATUS::NO_DEFINITION; }
 
     MessageDataStruct stMessageData;
     MetaDataStruct stMetaData;
@@ -132,7 +133,8 @@ STATUS Commander::Encode(const MessageDatabase& clJsonDb_, const MessageDecoder&
     // Prime the metadata with information we already know
     stMetaData.eFormat = HEADER_FORMAT::ABB_ASCII;
     stMetaData.usMessageId = static_cast<uint16_t>(pclMessageDef->logID);
-    stMetaData.uiMessageCrc = static_cast<uint32_t>(pclMessageDef->fieldInfo.begin()->first);
+    const auto itLatest = pclMessageDef->fieldInfo.find(pclMessageDef->latestMessageCrc);
+    stMetaData.uiMessageCrc = itLatest != pclMessageDef->fieldInfo.end() ? itLatest->first : pclMessageDef->fieldInfo.begin()->first;
 
     const STATUS eDecoderStatus = clMessageDecoder_.Decode(reinterpret_cast<const unsigned char*>(strCmdParams.c_str()), stIntermediateMessage, stMetaData);
     if (eDecoderStatus != STATUS::SUCCESS) { return eDecoderStatus; }
-- 
2.43.0


From 1f8a9a3d3fe17f6c303a856e2827910a1bb29bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:57 +0000
Subject: [PATCH 74/89] fix: constructing a flat field array from rows without
 fields divides by zero

---
 include/novatel_edie/decoders/common/message_decoder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/novatel_edie/decoders/common/message_decoder.hpp b/include/novatel_edie/decoders/common/message_decoder.hpp
index cc0f6a1..7711a47 100644
--- a/include/novatel_edie/decoders/common/message_decoder.hpp
+++ b/include/novatel_edie/decoders/common/message_decoder.hpp
@@ -514,7 +514,7 @@ class FlatFieldArray
     FlatFieldArray(std::vector<std::byte>&& data_, const FieldInfo* fieldInfo_) : fields(std::move(data_)), fieldInfo(fieldInfo_)
     {
         CheckFieldInfo(fieldInfo_);
-        if (fields.size() % fieldInfo_->fixedFieldBytes != 0)
+        if (fieldInfo_->fixedFieldBytes == 0 ? fields.size() != 0 : fields.size() % fieldInfo_->fixedFieldBytes != 0)
         {
             throw std::runtime_error("FlatFieldArray(): data size must be a multiple of fixed field bytes");
         }
-- 
2.43.0


From e03377a68b9ce953d77f10400f9c76cd008ad9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:57 +0000
Subject: [PATCH 75/89] fix: a default response has no string for its response
 text

---
 include/novatel_edie/decoders/common/message_decoder.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/novatel_edie/decoders/common/message_decoder.hpp b/include/novatel_edie/decoders/common/message_decoder.hpp
index 7711a47..a0d55f7 100644
--- a/include/novatel_edie/decoders/common/message_decoder.hpp
+++ b/include/novatel_edie/decoders/common/message_decoder.hpp
@@ -820,6 +820,7 @@ class CompositeField
                         varFields[fieldDef->index] = std::vector<ValueT>{};
                     });
                     break;
+                case FIELD_TYPE::RESPONSE_STR: [[fallthrough]];
                 case FIELD_TYPE::STRING: varFields[fieldDef->index] = std::string{}; break;
                 case FIELD_TYPE::ENUM:
                     switch (fieldDef->dataType.length)
-- 
2.43.0


From af25a4f515e3b83bc04757b200178aa3ad75f365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:11 +0000
Subject: [PATCH 76/89] fix: setting a fixed-length array field from a typed
 buffer stores the buffer's pointer instead of its elements

---
 include/novatel_edie/decoders/common/message_decoder.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/novatel_edie/decoders/common/message_decoder.hpp b/include/novatel_edie/decoders/common/message_decoder.hpp
index a0d55f7..8f243f1 100644
--- a/include/novatel_edie/decoders/common/message_decoder.hpp
+++ b/include/novatel_edie/decoders/common/message_decoder.hpp
@@ -1239,7 +1239,12 @@ class CompositeField
             else { throw std::runtime_error("SetFieldValue<T>(): incorrect type given for FIELD_ARRAY"); }
             break;
         default:
-            if constexpr (std::is_trivially_copyable_v<ValueT> || is_specialization_of_v<ValueT, TypedBuffer>)
+            if constexpr (is_specialization_of_v<ValueT, TypedBuffer>)
+            {
+                size_t element = 0;
+                for (const auto arrayValue : value_) { SetArrayElement<true>(fieldDef_, element++, arrayValue); }
+            }
+            else if constexpr (std::is_trivially_copyable_v<ValueT>)
             {
                 SetFieldValue<true>(fieldDef_.index, std::forward<T>(value_));
             }
-- 
2.43.0


From 232cba7009f7ad40494935259b13b2e5a9728dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:11 +0000
Subject: [PATCH 77/89] fix: SetArrayElement writes past the end of a
 fixed-length array into the neighbouring field

---
 .../novatel_edie/decoders/common/message_decoder.hpp   | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/novatel_edie/decoders/common/message_decoder.hpp b/include/novatel_edie/decoders/common/message_decoder.hpp
index 8f243f1..39395c6 100644
--- a/include/novatel_edie/decoders/common/message_decoder.hpp
+++ b/include/novatel_edie/decoders/common/message_decoder.hpp
@@ -1271,7 +1271,15 @@ class CompositeField
     {
         using StoredType = std::conditional_t<std::is_same_v<T, bool>, uint8_t, T>;
 
-        if constexpr (Fixed) { SetFieldValue<true>(fieldDef_.index + (elementIndex_ * sizeof(StoredType)), static_cast<StoredType>(value_)); }
+        if constexpr (Fixed)
+        {
+            const auto* arrayField = fieldDef_.type == FIELD_TYPE::FIXED_LENGTH_ARRAY ? dynamic_cast<const ArrayField*>(&fieldDef_) : nullptr;
+            if (arrayField != nullptr && elementIndex_ >= arrayField->arrayLength)
+            {
+                throw std::runtime_error("SetArrayElement(): element index exceeds fixed array length");
+            }
+            SetFieldValue<true>(fieldDef_.index + (elementIndex_ * sizeof(StoredType)), static_cast<StoredType>(value_));
+        }
         else
         {
             if (fieldDef_.index >= varFields.size()) { throw std::runtime_error("SetArrayElement(): varFields index is out of range"); }
-- 
2.43.0


From fcaee9f1ee99c5ad032b5ceb85ed88987386af0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:52 +0000
Subject: [PATCH 78/89] fix: the parser reports the length of the compressed
 message for a decompressed range message

---
 src/decoders/oem/src/parser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/decoders/oem/src/parser.cpp b/src/decoders/oem/src/parser.cpp
index 42e77ac..1afbb7a 100644
--- a/src/decoders/oem/src/parser.cpp
+++ b/src/decoders/oem/src/parser.cpp
@@ -148,7 +148,11 @@ Parser::ReadIntermediate(MessageDataStruct& stMessageData_, IntermediateHeader&
                 if (clMyRangeCmpFilter.DoFiltering(stMetaData_) && bMyDecompressRangeCmp)
                 {
                     eStatus = clMyRangeDecompressor.Decompress(pucMyFrameBufferPointer, uiParserInternalBufferSize, stMetaData_);
-                    if (eStatus == STATUS::SUCCESS) { stHeader_.usMessageId = stMetaData_.usMessageId; }
+                    if (eStatus == STATUS::SUCCESS)
+                    {
+                        stHeader_.usMessageId = stMetaData_.usMessageId;
+                        stMessageData_.uiMessageLength = stMetaData_.uiLength; // The buffer now holds the decompressed message
+                    }
                     else
                     {
                         pclMyLogger->info("RangeDecompressor returned status {}", eStatus);
-- 
2.43.0


From f0ef09865d3b115c02698500e59e8ba0764555b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:52 +0000
Subject: [PATCH 79/89] fix: the message data of a message read by
 ReadIntermediate has no header (or that of an earlier message)

---
 src/decoders/oem/src/parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/decoders/oem/src/parser.cpp b/src/decoders/oem/src/parser.cpp
index 1afbb7a..e3d6041 100644
--- a/src/decoders/oem/src/parser.cpp
+++ b/src/decoders/oem/src/parser.cpp
@@ -161,6 +161,8 @@ Parser::ReadIntermediate(MessageDataStruct& stMessageData_, IntermediateHeader&
                     // Continue if we succeeded.
                 }
 
+                stMessageData_.pucMessageHeader = pucMyFrameBufferPointer;
+                stMessageData_.uiMessageHeaderLength = stMetaData_.uiHeaderLength;
                 pucMyFrameBufferPointer += stMetaData_.uiHeaderLength;
                 stMessageData_.pucMessageBody = pucMyFrameBufferPointer;
                 stMessageData_.uiMessageBodyLength = stMetaData_.uiLength - stMetaData_.uiHeaderLength;
@@ -175,7 +177,9 @@ Parser::ReadIntermediate(MessageDataStruct& stMessageData_, IntermediateHeader&
                 pclMyLogger->info("MessageDecoder returned status {}", eStatus);
                 if (bMyReturnUnknownBytes)
                 {
+                    stMessageData_.pucMessageHeader = nullptr;
                     stMessageData_.pucMessageBody = nullptr;
+                    stMessageData_.uiMessageHeaderLength = 0;
                     stMessageData_.uiMessageBodyLength = 0;
                     return STATUS::UNKNOWN;
                 }
-- 
2.43.0


From 93925fc9e4c97aef2d19d3937f833907b7f359f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:52 +0000
Subject: [PATCH 80/89] fix: reading an element of a fixed-length BOOL array
 throws in debug builds

---
 include/novatel_edie/decoders/common/message_decoder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/novatel_edie/decoders/common/message_decoder.hpp b/include/novatel_edie/decoders/common/message_decoder.hpp
index 39395c6..837acee 100644
--- a/include/novatel_edie/decoders/common/message_decoder.hpp
+++ b/include/novatel_edie/decoders/common/message_decoder.hpp
@@ -421,7 +421,7 @@ template <typename T>
         if constexpr (std::is_same_v<T, bool>)
         {
 #ifndef NDEBUG
-            AssertFixedFieldType<uint8_t>(field_);
+            AssertFixedFieldType<bool>(field_);
 #endif
             return static_cast<bool>(region_.Load<uint8_t>(baseIndex_ + field_.index + elemIndex_));
         }
-- 
2.43.0


From 85f24c25ae8f020d6a8c1896f2e90583676d567c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:08 +0000
Subject: [PATCH 81/89] fix: after LoadJsonDb responses are decoded with the
 response definition of the earlier database

---
 src/decoders/oem/src/message_decoder.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/decoders/oem/src/message_decoder.cpp b/src/decoders/oem/src/message_decoder.cpp
index e82407c..da8c528 100644
--- a/src/decoders/oem/src/message_decoder.cpp
+++ b/src/decoders/oem/src/message_decoder.cpp
@@ -267,13 +267,18 @@ novatel::edie::MessageDefinition::ConstPtr MessageDecoder::GetMessageDefinition(
 {
     if (stMetaData_.bResponse)
     {
-        if (pResponseDefinition != nullptr) { return pResponseDefinition; }
+        auto responsesEnum = pclMyMsgDb->GetEnumDefName("Responses");
+
+        // The definition built earlier is only good for the database it was built from
+        if (pResponseDefinition != nullptr)
+        {
+            const auto* responseId = dynamic_cast<const EnumField*>(pResponseDefinition->fieldInfo.at(0)->messageOrderedFields.front().get());
+            if (responseId != nullptr && responseId->enumDef == responsesEnum) { return pResponseDefinition; }
+        }
 
         auto responseDefinition = std::make_shared<MessageDefinition>();
         responseDefinition->name = "response";
 
-        auto responsesEnum = pclMyMsgDb->GetEnumDefName("Responses");
-
         SimpleDataType responseIdDataType;
         responseIdDataType.description = "Response as numerical id";
         responseIdDataType.length = 4;
-- 
2.43.0


From 1aaa15da8577ec2ca5de82499cb9d020ca0adf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:43 +0000
Subject: [PATCH 82/89] fix: structs generated by gen_flat_cpp_structs.py do
 not have the layout of the flattened messages

---
 scripts/gen_flat_cpp_structs.py | 105 +++++++++++++++++++++++++-------
 1 file changed, 83 insertions(+), 22 deletions(-)

diff --git a/scripts/gen_flat_cpp_structs.py b/scripts/gen_flat_cpp_structs.py
index 2769504..57fbf51 100644
--- a/scripts/gen_flat_cpp_structs.py
+++ b/scripts/gen_flat_cpp_structs.py
@@ -47,7 +47,7 @@ WEBSITE_LOGS = ['ALIGNBSLNENU', 'ALIGNBSLNXYZ', 'ALIGNDOP', 'ALMANAC', 'AUTHCODE
 
 NOVATEL_TO_CTYPES = {
     # c++ standard data type conversion
-    'BOOL': 'bool',
+    'BOOL': 'uint{bits}_t',
     'BOOLCHAR': 'unsigned char',
     'CHAR': 'char',
     'UCHAR': 'uint8_t',
@@ -57,7 +57,7 @@ NOVATEL_TO_CTYPES = {
     'UINT': 'uint32_t',
     'LONG': 'int32_t',
     'ULONG': 'uint32_t',
-    'ENUM': 'int32_t',
+    'ENUM': 'uint{bits}_t',
     'FLOAT': 'float',
     'DOUBLE': 'double',
     'LDOUBLE': 'long double',
@@ -67,7 +67,7 @@ NOVATEL_TO_CTYPES = {
 
     # NovAtel specific data type conversion
     'HEXBYTE': 'uint8_t',
-    'SatelliteId': 'uint32_t',
+    'SATELLITEID': 'uint32_t',
     'RTCMV3_CHAR8': 'int8_t',
     'RTCMV3_UINT8': 'uint8_t',
     'RTCMV3_INT16': 'int16_t'
@@ -89,7 +89,10 @@ def gen_flat_structs(msg_database: dict, out_file: str = 'novatel_message_defini
         if not all_logs and msg['name'] not in WEBSITE_LOGS:
             continue
 
-        gen_field_defs(msg['fields'][msg['latestMsgDefCrc']], msg['name'])
+        try:
+            gen_field_defs(msg['fields'][msg['latestMsgDefCrc']], msg['name'])
+        except LayoutError:
+            print(f'{msg["name"]} cannot be expressed as a struct')
 
     with open(out_file, 'w') as fp:
         fp.write('#ifndef NOVATEL_MESSAGE_DEFINITIONS_HPP\n#define NOVATEL_MESSAGE_DEFINITIONS_HPP\n\n')
@@ -108,36 +111,94 @@ def gen_flat_structs(msg_database: dict, out_file: str = 'novatel_message_defini
         fp.write('\n\n#endif //NOVATEL_MESSAGE_DEFINITIONS_HPP\n')
 
 
-def gen_field_defs(fields: dict, msg_name: str):
+def cpp_type(name: str, length: int):
+    return NOVATEL_TO_CTYPES[name].format(bits=8 * length)
+
+
+def align_up(offset: int, length: int):
+    alignment = max(1, min(4, length))
+    return (offset + alignment - 1) // alignment * alignment
+
+
+def is_fixed_size(fields: list):
+    return all(field['type'] in ('SIMPLE', 'ENUM', 'FIXED_LENGTH_ARRAY') for field in fields)
+
+
+class LayoutError(Exception):
+    """The flattened layout of the message cannot be expressed as a C++ struct."""
+
+
+class FlatStruct:
+    """The members of a packed struct. Gaps in the flattened layout become explicit padding members."""
+    def __init__(self):
+        self.members = []
+        self.end = 0     # end of the members emitted so far
+        self.offset = 0  # end of the fields in the flattened layout
+        self.paddings = 0
+
+    def align(self, length: int):
+        self.offset = align_up(self.offset, length)
+
+    def pad(self):
+        if self.end > self.offset:
+            raise LayoutError()
+        if self.end < self.offset:
+            self.members.append(f'uint8_t padding{self.paddings}_[{self.offset - self.end}]')
+            self.paddings += 1
+            self.end = self.offset
+
+    def add(self, member: str, size: int, flat_size: int = None):
+        self.pad()
+        self.members.append(member)
+        self.end += size
+        self.offset += size if flat_size is None else flat_size
+
+
+def gen_field_defs(fields: list, msg_name: str, alignment: int = 1):
+    """Generate the struct of a message or of an element of a field array. Returns the size of its flattened form and the size
+    of the struct, which is a multiple of the alignment."""
     global CPP_MSG_DEFS
-    msg_fields = []
+    struct = FlatStruct()
 
     for field in fields:
-        if field['name'] in RESERVED_CPP_NAMES:
-            field['name'] = RESERVED_CPP_NAMES[field['name']]
+        name = RESERVED_CPP_NAMES.get(field['name'], field['name'])
+        length = field['dataType']['length']
+        struct.align(length)
+        if field['type'] in ('VARIABLE_LENGTH_ARRAY', 'FIELD_ARRAY'):
+            if not field['arrayLength']:
+                raise LayoutError()
+            if not field.get('arrayLengthRef'):
+                count_length = field.get('arrayLengthFieldSize', 4)
+                struct.align(count_length)
+                struct.add(f'uint{8 * count_length}_t {name}_arraylength', count_length)
+
         if field['type'] == 'SIMPLE':
-            msg_fields.append(f'{NOVATEL_TO_CTYPES[field["dataType"]["name"]]} {field["name"]}')
+            struct.add(f'{cpp_type(field["dataType"]["name"], length)} {name}', length)
         elif field['type'] == 'ENUM':
             #  TODO: Generate a enums.hpp so ENUMS can be translated to a enum type
-            msg_fields.append(f'{NOVATEL_TO_CTYPES["LONG"]} {field["name"]}')
+            struct.add(f'{cpp_type("ENUM", length)} {name}', length)
         elif field['type'] == 'STRING':
-            msg_fields.append(f'{NOVATEL_TO_CTYPES["UCHAR"]} {field["name"]}[{field["arrayLength"]}]')
-        elif field['type'] == 'FIXED_LENGTH_ARRAY':
-            msg_fields.append(f'{NOVATEL_TO_CTYPES[field["dataType"]["name"]]} {field["name"]}[{field["arrayLength"]}]')
-        elif field['type'] == 'VARIABLE_LENGTH_ARRAY':
-            msg_fields.append(f'{NOVATEL_TO_CTYPES["ULONG"]} {field["name"]}_arraylength')
-            msg_fields.append(f'{NOVATEL_TO_CTYPES[field["dataType"]["name"]]} {field["name"]}[{field["arrayLength"]}]')
+            # the characters are followed by a null terminator and padded to a multiple of four bytes
+            size = align_up(struct.offset + field['arrayLength'] * length + 1, 4) - struct.offset
+            struct.add(f'{cpp_type("UCHAR", 1)} {name}[{size}]', size)
+        elif field['type'] in ('FIXED_LENGTH_ARRAY', 'VARIABLE_LENGTH_ARRAY'):
+            array_length = field['arrayLength']
+            struct.add(f'{cpp_type(field["dataType"]["name"], length)} {name}[{array_length}]', array_length * length)
         elif field['type'] == 'FIELD_ARRAY':
-            if not field["arrayLength"]:
-                return
+            array_length = field['arrayLength']
             struct_name = f'{msg_name}_{field["name"]}'
-            msg_fields.append(f'{NOVATEL_TO_CTYPES["ULONG"]} {field["name"]}_arraylength')
-            msg_fields.append(f'{struct_name} {field["name"]}[{field["arrayLength"]}]')
-            gen_field_defs(field['fields'], struct_name)
+            element_alignment = 1 if is_fixed_size(field['fields']) else length
+            struct.align(element_alignment)
+            flat_size, size = gen_field_defs(field['fields'], struct_name, element_alignment)
+            struct.add(f'{struct_name} {name}[{array_length}]', array_length * size, (array_length - 1) * size + flat_size)
         else:
             print(f'Unknown type: {field["type"]}')
 
-    CPP_MSG_DEFS[msg_name] = msg_fields
+    flat_size = struct.offset
+    struct.align(alignment)
+    struct.pad()
+    CPP_MSG_DEFS[msg_name] = struct.members
+    return flat_size, struct.end
 
 
 def is_valid_file(parser, arg):
-- 
2.43.0


From 997cfaab2d2332a37a19abe4c6e73e6a74af5c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:09 +0000
Subject: [PATCH 83/89] fix: adding messages to a copy of a database rewrites
 field definitions that the original uses in other threads

---
 include/novatel_edie/decoders/common/message_database.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/novatel_edie/decoders/common/message_database.hpp b/include/novatel_edie/decoders/common/message_database.hpp
index a3a71ca..18a6068 100644
--- a/include/novatel_edie/decoders/common/message_database.hpp
+++ b/include/novatel_edie/decoders/common/message_database.hpp
@@ -969,8 +969,10 @@ class MessageDatabase
                 auto enumField = std::dynamic_pointer_cast<const EnumField>(field);
                 if (!enumField) { continue; }
 
-                // Definitions are stored as ConstPtr but enumDef is populated after loading DBs.
-                std::const_pointer_cast<EnumField>(enumField)->enumDef = GetEnumDefId(enumField->enumId);
+                // Definitions are stored as ConstPtr but enumDef is populated after loading DBs. Copies of this DB share the
+                // definitions, so only write when there is something to change.
+                const auto enumDef = GetEnumDefId(enumField->enumId);
+                if (enumField->enumDef != enumDef) { std::const_pointer_cast<EnumField>(enumField)->enumDef = enumDef; }
             }
             else if (field->type == FIELD_TYPE::FIELD_ARRAY)
             {
-- 
2.43.0


From 174d6ad568ed9ef1f8bac3bb325859cca77bb665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:10 +0000
Subject: [PATCH 84/89] fix: stubs are not valid Python when an enumerator name
 has a blank or other punctuation

---
 python/novatel_edie_files/stubgen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/novatel_edie_files/stubgen.py b/python/novatel_edie_files/stubgen.py
index 1541992..4693e36 100644
--- a/python/novatel_edie_files/stubgen.py
+++ b/python/novatel_edie_files/stubgen.py
@@ -103,7 +103,7 @@ class StubGenerator:
             val = enumerator["value"]
             max_val = max(val, max_val)
             name = enumerator['name']
-            name = re.sub(r'[)(\-+./\\]', '_', name)
+            name = re.sub(r'[^0-9A-Za-z]', '_', name)
             if name[0].isdigit():
                 name = f'_{name}'
             type_hint += f'    {name} = {val}\n'
-- 
2.43.0


From 2f5b569759c33b615614d4ea43038c60f1090f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:10 +0000
Subject: [PATCH 85/89] fix: stub generator fails on arrays without conversion
 string and does not take %S arrays as strings

---
 python/novatel_edie_files/stubgen.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/python/novatel_edie_files/stubgen.py b/python/novatel_edie_files/stubgen.py
index 4693e36..caaedc4 100644
--- a/python/novatel_edie_files/stubgen.py
+++ b/python/novatel_edie_files/stubgen.py
@@ -125,6 +125,11 @@ class StubGenerator:
         stub_str += type_hints_str
         return stub_str
 
+    @staticmethod
+    def _is_string(field: dict) -> bool:
+        """Whether the values of an array field are given as a string."""
+        return re.fullmatch(r'%\d*\.?\d*[sS]', field.get('conversionString') or '') is not None
+
     def _get_field_pytype(self, field: dict, parent: str) -> str:
         """Get a type hint string for a field definition.
 
@@ -146,7 +151,7 @@ class StubGenerator:
         if (field['type'] in {
                 'FIXED_LENGTH_ARRAY',
                 'VARIABLE_LENGTH_ARRAY'}):
-            if field['conversionString'] == r'%s':
+            if self._is_string(field):
                 python_type = 'str'
             else:
                 python_type = f'list[{self.data_type_to_pytype.get(field["dataType"]["name"])}]'
@@ -207,7 +212,7 @@ class StubGenerator:
             return enum_def['name'] if enum_def else 'Any'
         if field['type'] == 'STRING':
             return 'str'
-        if field['type'] == 'FIXED_LENGTH_ARRAY' and field.get('conversionString') == r'%s':
+        if field['type'] == 'FIXED_LENGTH_ARRAY' and self._is_string(field):
             return 'str'
         return None
 
-- 
2.43.0


From 58912ea89c7140787f1e7dc694289cdbeef0b6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:10 +0000
Subject: [PATCH 86/89] fix: stubs of field array elements lack the length
 properties

---
 python/novatel_edie_files/stubgen.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/novatel_edie_files/stubgen.py b/python/novatel_edie_files/stubgen.py
index caaedc4..21c5bcf 100644
--- a/python/novatel_edie_files/stubgen.py
+++ b/python/novatel_edie_files/stubgen.py
@@ -180,6 +180,10 @@ class StubGenerator:
         aliases = [f'{parent_alias}_{field_array_def["name"]}_Field' for parent_alias in parent_aliases]
         type_hint = f'class {name}(Field):\n'
         for field in field_array_def['fields']:
+            if field['type'] in ('FIELD_ARRAY', 'VARIABLE_LENGTH_ARRAY'):
+                type_hint += ('    @property\n'
+                             f'    def {field["name"]}_length(self) -> int: ...\n\n')
+
             python_type = self._get_field_pytype(field, name)
             type_hint +=  ('    @property\n'
                           f'    def {field["name"]}(self) -> {python_type}: ...\n\n')
-- 
2.43.0


From 47463224f56b2694ff93a034a8f0ae870492b183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:24 +0000
Subject: [PATCH 87/89] fix: the checksum of a textual message cut short after
 an array is decoded as the next field

---
 src/decoders/common/src/message_decoder.cpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index 5d7a909..165727b 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -565,7 +565,8 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
         size_t tokenLength = tokenLengthFrom(*ppcLogBuf_, tokenDelimiters);
         if (tokenLength == 0) { return STATUS::MALFORMED_INPUT; }
 
-        bool bEarlyEndOfMessage = (*ppcLogBuf_ + tokenLength < pcBufEnd_ && *(*ppcLogBuf_ + tokenLength) == endDelim);
+        // Whether the last field, or array element, to be decoded is followed by the end of the message
+        const auto bEndReached = [&]() { return !Abbreviated && *ppcLogBuf_ <= pcBufEnd_ && *(*ppcLogBuf_ - 1) == endDelim; };
 
         switch (field->type)
         {
@@ -608,8 +609,6 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
                 clCompField_.SetFieldValue<false>(field->index, std::string(*ppcLogBuf_ + 1, tokenLength)); // + 1 to pass opening double-quote.
                 // Skip past the first '"', string token and the remaining characters ('"' and ',').
                 *ppcLogBuf_ += tokenLength + tokenLengthFrom(*ppcLogBuf_ + tokenLength + 1, unquotedStringDelimiters) + 2;
-                // The delimiter after the string, not one inside of it, tells whether the message ends here
-                bEarlyEndOfMessage = *ppcLogBuf_ <= pcBufEnd_ && *(*ppcLogBuf_ - 1) == endDelim;
                 break;
             default:
                 // Unquoted string: initial tokenLength is the length of the string
@@ -626,8 +625,7 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
             // Note: This won't match responses with format specifiers in them (%d, %s, etc.), they will be given id=0
             else { clCompField_.SetFieldValue<true>(field->index, GetResponseId(vMyResponseDefinitions, sResponse.substr(std::min(svErrorPrefix.length(), sResponse.length())))); }
             // Do not advance buffer, need to reprocess this field for the following RESPONSE_STR.
-            bEarlyEndOfMessage = false;
-            break;
+            continue;
         }
         case FIELD_TYPE::RESPONSE_STR:
             // Response strings aren't surrounded by double quotes, ensure we get the whole response (skip over certain delimiters in responses)
@@ -704,7 +702,7 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
                 for (uint32_t i = 0; i < uiArraySize; ++i)
                 {
                     tokenLength = tokenLengthFrom(*ppcLogBuf_, unquotedStringDelimiters);
-                    if (*ppcLogBuf_ >= pcBufEnd_) { return STATUS::MALFORMED_INPUT; }
+                    if (*ppcLogBuf_ >= pcBufEnd_ || ((i > 0 || !fixed) && bEndReached())) { return STATUS::MALFORMED_INPUT; }
                     try
                     {
                         DecodeAsciiField(*field, ppcLogBuf_, tokenLength, clCompField_, i, fixed);
@@ -755,6 +753,7 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
 
             for (uint32_t i = 0; i < uiArraySize; ++i)
             {
+                if (bEndReached()) { return STATUS::MALFORMED_INPUT; }
                 ResetCompositeField(pvFieldArrayContainer[i], *subFieldDefinitions->fieldInfo);
                 pvFieldArrayContainer[i].SetFieldInfo(subFieldDefinitions->fieldInfo);
                 STATUS eStatus = DecodeAscii<Abbreviated>(*subFieldDefinitions->fieldInfo, ppcLogBuf_, pvFieldArrayContainer[i], pcBufEnd_);
@@ -768,10 +767,7 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
             throw std::runtime_error("DecodeAscii(): Unknown field type");
         }
 
-        if constexpr (!Abbreviated)
-        {
-            if (bEarlyEndOfMessage) { break; }
-        }
+        if (bEndReached()) { break; }
     }
 
     return STATUS::SUCCESS;
-- 
2.43.0


From 5eab57b28c0cb3324f114d32fb63679daf8d54fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:46 +0000
Subject: [PATCH 88/89] fix: adding a log file before any logger is registered
 dereferences a null pointer

---
 include/novatel_edie/common/logger.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/novatel_edie/common/logger.hpp b/include/novatel_edie/common/logger.hpp
index 2326513..5a0b3a3 100644
--- a/include/novatel_edie/common/logger.hpp
+++ b/include/novatel_edie/common/logger.hpp
@@ -223,6 +223,7 @@ class CPPLoggerManager : public LoggerManager
                                bool rotateOnOpen = true)
     {
         std::lock_guard<std::mutex> lock(loggerMutex);
+        InitRootLogger();
         auto sink = std::make_shared<spdlog::sinks::rotating_file_sink_mt>(sFileName, maxFileSize, maxFiles, rotateOnOpen);
         sink->set_level(level);
         sink->set_pattern("[%Y-%m-%d %H:%M:%S.%f] [%l] %v");
-- 
2.43.0


From de05e8460db89f7041691f45c9661ef279e2e6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:39 +0000
Subject: [PATCH 89/89] fix: several loggers writing to one log file tear each
 other's records and are not flushed at shutdown

---
 include/novatel_edie/common/logger.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/novatel_edie/common/logger.hpp b/include/novatel_edie/common/logger.hpp
index 5a0b3a3..74e4f31 100644
--- a/include/novatel_edie/common/logger.hpp
+++ b/include/novatel_edie/common/logger.hpp
@@ -35,6 +35,7 @@
 #include <map>
 #include <memory>
 
+#include <spdlog/sinks/dist_sink.h>
 #include <spdlog/sinks/rotating_file_sink.h>
 #include <spdlog/sinks/stdout_color_sinks.h>
 #include <spdlog/spdlog.h>
@@ -224,11 +225,18 @@ class CPPLoggerManager : public LoggerManager
     {
         std::lock_guard<std::mutex> lock(loggerMutex);
         InitRootLogger();
-        auto sink = std::make_shared<spdlog::sinks::rotating_file_sink_mt>(sFileName, maxFileSize, maxFiles, rotateOnOpen);
+        // Loggers which write to the same file share its sink, as separate ones would write over each other's records
+        auto it = rotatingFiles.find(sFileName);
+        if (it == rotatingFiles.end())
+        {
+            auto fileSink = std::make_shared<spdlog::sinks::rotating_file_sink_mt>(sFileName, maxFileSize, maxFiles, rotateOnOpen);
+            fileSink->set_pattern("[%Y-%m-%d %H:%M:%S.%f] [%l] %v");
+            it = rotatingFiles.emplace(sFileName, fileSink).first;
+        }
+        auto sink = std::make_shared<spdlog::sinks::dist_sink_mt>();
+        sink->add_sink(it->second);
         sink->set_level(level);
-        sink->set_pattern("[%Y-%m-%d %H:%M:%S.%f] [%l] %v");
         lgr->sinks().emplace_back(sink);
-        rotatingFiles[sFileName] = sink;
         rootLogger->info("Added rotating file sink: {}", sFileName);
     }
 };
-- 
2.43.0

