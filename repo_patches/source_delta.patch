From fb848021d96e695eb228b1ca7ac14fa6dd323fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:54 +0000
Subject: [PATCH 01/30] fix: keep SRTP receive state only for authenticated
 packets

The rollover counter, last sequence number and the per-stream entry were
updated before the packet's integrity was verified, so a forged packet could
desynchronize decryption of a stream and add entries for arbitrary streams.
---
 src/srtp_connection.cpp | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/srtp_connection.cpp b/src/srtp_connection.cpp
index 4996866..f3e6640 100644
--- a/src/srtp_connection.cpp
+++ b/src/srtp_connection.cpp
@@ -162,7 +162,6 @@ bool SrtpConnection::unprotectReceiveControl(const ByteBuffer& packetData, ByteB
 
     const auto ssrc = ntohl(*reinterpret_cast<const uint32_t*>(packetData.data() + 4));
     const ChannelKey key = { ssrc, 0 };
-    auto& channelValue = ensureSrtpChannel(mSrtpInMap, key, std::numeric_limits<uint32_t>::max());
 
     uint32_t sequenceNumber;
     if (!getControlSequenceNumber(packetData, sequenceNumber)) {
@@ -170,7 +169,8 @@ bool SrtpConnection::unprotectReceiveControl(const ByteBuffer& packetData, ByteB
         return false;
     }
 
-    if (!channelValue.replayProtection->canProceed(sequenceNumber)) {
+    const auto channelIter = mSrtpInMap.find(key);
+    if (channelIter != mSrtpInMap.end() && !channelIter->second.replayProtection->canProceed(sequenceNumber)) {
         LOG(SRTC_LOG_E, "Replay protection says we can't proceed with RTCP packet seq = %u", sequenceNumber);
         return false;
     }
@@ -188,6 +188,8 @@ bool SrtpConnection::unprotectReceiveControl(const ByteBuffer& packetData, ByteB
         return false;
     }
 
+    // The packet is authentic, only now can we keep state for it
+    auto& channelValue = ensureSrtpChannel(mSrtpInMap, key, std::numeric_limits<uint32_t>::max());
     channelValue.replayProtection->set(sequenceNumber);
     return true;
 }
@@ -206,7 +208,6 @@ bool SrtpConnection::unprotectReceiveMedia(const ByteBuffer& packetData, ByteBuf
     const auto pt = ntohs(*reinterpret_cast<const uint16_t*>(packetData.data())) & 0x7Fu;
 
     const ChannelKey key = { ssrc, static_cast<uint8_t>(pt) };
-    auto& channelValue = ensureSrtpChannel(mSrtpInMap, key, std::numeric_limits<uint16_t>::max());
 
     uint16_t sequenceNumber;
     if (!getMediaSequenceNumber(packetData, sequenceNumber)) {
@@ -214,7 +215,8 @@ bool SrtpConnection::unprotectReceiveMedia(const ByteBuffer& packetData, ByteBuf
         return false;
     }
 
-    if (!channelValue.replayProtection->canProceed(sequenceNumber)) {
+    const auto channelIter = mSrtpInMap.find(key);
+    if (channelIter != mSrtpInMap.end() && !channelIter->second.replayProtection->canProceed(sequenceNumber)) {
         LOG(SRTC_LOG_E,
             "Replay protection says we can't proceed with RTP packet ssrc = %" PRIu32 ", seq = %u",
             ssrc,
@@ -223,19 +225,26 @@ bool SrtpConnection::unprotectReceiveMedia(const ByteBuffer& packetData, ByteBuf
     }
 
     // Because of jitter, we may cross the rollover back and forth, only count once
-    auto rolloverCount = channelValue.rolloverCount;
-    if (!channelValue.lastSequence16) {
-        channelValue.lastSequence16 = sequenceNumber;
-    } else if (channelValue.lastSequence16 <= 0x1000u && sequenceNumber >= 0xF000u) {
+    uint32_t newRolloverCount = 0;
+    std::optional<uint16_t> newLastSequence16;
+    if (channelIter != mSrtpInMap.end()) {
+        newRolloverCount = channelIter->second.rolloverCount;
+        newLastSequence16 = channelIter->second.lastSequence16;
+    }
+
+    auto rolloverCount = newRolloverCount;
+    if (!newLastSequence16) {
+        newLastSequence16 = sequenceNumber;
+    } else if (newLastSequence16 <= 0x1000u && sequenceNumber >= 0xF000u) {
         if (rolloverCount > 0) {
             rolloverCount -= 1;
         }
     } else {
-        if (channelValue.lastSequence16 >= 0xF000u && sequenceNumber <= 0x1000u) {
-            channelValue.rolloverCount += 1;
+        if (newLastSequence16 >= 0xF000u && sequenceNumber <= 0x1000u) {
+            newRolloverCount += 1;
             rolloverCount += 1;
         }
-        channelValue.lastSequence16 = sequenceNumber;
+        newLastSequence16 = sequenceNumber;
     }
 
     if (!mCrypto->unprotectReceiveMedia(packetData, rolloverCount, output)) {
@@ -252,6 +261,10 @@ bool SrtpConnection::unprotectReceiveMedia(const ByteBuffer& packetData, ByteBuf
         return false;
     }
 
+    // The packet is authentic, only now can we keep state for it
+    auto& channelValue = ensureSrtpChannel(mSrtpInMap, key, std::numeric_limits<uint16_t>::max());
+    channelValue.rolloverCount = newRolloverCount;
+    channelValue.lastSequence16 = newLastSequence16;
     channelValue.replayProtection->set(sequenceNumber);
     return true;
 }
-- 
2.43.0


From 6fe2431cf9f15511657f167bfcf46345b89112a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:45 +0000
Subject: [PATCH 02/30] fix: reject an SCTP SACK whose gap block count exceeds
 the chunk

---
 src/sctp/sctp_session.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index 93387ab..4d00728 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -673,6 +673,10 @@ void SctpSession::onReceiveSack(const SctpPacket::Chunk& chunk)
     const auto numGapBlocks = r.readU16();
     r.skip(2); // numDupTsns
 
+    if (r.remaining() < static_cast<size_t>(numGapBlocks) * 4) {
+        return;
+    }
+
     std::vector<std::pair<uint16_t, uint16_t>> gapBlocks;
     gapBlocks.reserve(numGapBlocks);
     for (uint16_t i = 0; i < numGapBlocks; ++i) {
-- 
2.43.0


From 47721506359a1aac62a8146336ff2905b1576c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:45 +0000
Subject: [PATCH 03/30] fix: do not process chunks bundled with an SCTP INIT
 without a verification tag check

---
 src/sctp/sctp_session.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index 4d00728..b4c14c5 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -397,6 +397,12 @@ void SctpSession::onReceiveData(const ByteBuffer& buf)
         return;
     }
 
+    // RFC 4960 §4: INIT is never bundled, anything else in this packet was not covered by our verification tag
+    if (isInit) {
+        onReceiveInit(packet->chunks()[0]);
+        return;
+    }
+
     for (const auto& chunk : packet->chunks()) {
         switch (chunk.type) {
         case kChunkData:
@@ -408,9 +414,6 @@ void SctpSession::onReceiveData(const ByteBuffer& buf)
         case kChunkReconfig:
             onReceiveReconfig(chunk);
             break;
-        case kChunkInit:
-            onReceiveInit(chunk);
-            break;
         case kChunkCookieEcho:
             onReceiveCookieEcho(chunk);
             break;
-- 
2.43.0


From 20148746b881f5ebd1187e370a8ab46c227f558b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:45 +0000
Subject: [PATCH 04/30] fix: never forget a received out of order SCTP
 transmission number

---
 src/sctp/sctp_session.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index b4c14c5..f58b865 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -531,10 +531,11 @@ void SctpSession::onReceiveDataChunk(const SctpPacket::Chunk& chunk)
             mPeerOutOfOrderTsns.erase(it);
         }
     } else {
-        mPeerOutOfOrderTsns.insert(peerTSN);
-        if (mPeerOutOfOrderTsns.size() > 1024) {
-            mPeerOutOfOrderTsns.erase(mPeerOutOfOrderTsns.begin());
+        if (mPeerOutOfOrderTsns.size() >= 1024) {
+            // No room to remember this one, so let it be retransmitted
+            return;
         }
+        mPeerOutOfOrderTsns.insert(peerTSN);
     }
     sendSack();
 
-- 
2.43.0


From dd8760f230252f0ae760055135e3d644d87449eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:55 +0000
Subject: [PATCH 05/30] fix: a retransmitted SCTP INIT or INIT_ACK no longer
 resets received transmission numbers

---
 src/sctp/sctp_session.cpp | 16 ++++++++++++++--
 src/sctp/sctp_session.h   |  3 +++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index f58b865..e6050f6 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -254,6 +254,18 @@ void SctpSession::sendCookieEcho(unsigned iteration)
     mTaskT1Cookie = mScheduler.submit(delay, __FILE__, __LINE__, [this, iteration] { sendCookieEcho(iteration + 1); });
 }
 
+void SctpSession::setPeerInitialTsn(uint32_t peerInitialTsn)
+{
+    if (mPeerInitialTsn == peerInitialTsn) {
+        // Retransmitted INIT or INIT_ACK, data may have been received already
+        return;
+    }
+
+    mPeerInitialTsn = peerInitialTsn;
+    mPeerCumulativeTsn = peerInitialTsn - 1;
+    mPeerOutOfOrderTsns.clear();
+}
+
 void SctpSession::onReceiveInit(const SctpPacket::Chunk& chunk)
 {
     if (chunk.size < 16)
@@ -273,7 +285,7 @@ void SctpSession::onReceiveInit(const SctpPacket::Chunk& chunk)
     mPeerRwnd = peerRwnd;
     mPeerOutStreams = peerOutStreams;
     mPeerInStreams = peerInStreams;
-    mPeerCumulativeTsn = peerInitialTsn - 1;
+    setPeerInitialTsn(peerInitialTsn);
 
     // Build State Cookie: kCookieDataSize bytes of fields, then HMAC-SHA1
     // Layout (all big-endian):
@@ -431,7 +443,7 @@ void SctpSession::onReceiveData(const ByteBuffer& buf)
                 mPeerRwnd = r.readU32();
                 mPeerOutStreams = r.readU16();
                 mPeerInStreams = r.readU16();
-                mPeerCumulativeTsn = r.readU32() - 1; // peerInitialTsn - 1
+                setPeerInitialTsn(r.readU32());
 
                 for (const auto& param : chunk.parseParams(16)) {
                     if (param.type == kParamStateCookie) {
diff --git a/src/sctp/sctp_session.h b/src/sctp/sctp_session.h
index e082d32..cebf354 100644
--- a/src/sctp/sctp_session.h
+++ b/src/sctp/sctp_session.h
@@ -10,6 +10,7 @@
 #include <array>
 #include <cstdint>
 #include <list>
+#include <optional>
 #include <set>
 #include <string>
 #include <vector>
@@ -96,6 +97,7 @@ private:
     uint16_t mPeerInStreams;                // number of inbound streams the peer supports
     uint32_t mPeerRwnd;                     // peer's receive window
     uint32_t mCurrentTsn;                   // next TSN to use when sending DATA chunks
+    std::optional<uint32_t> mPeerInitialTsn; // set by INIT or INIT_ACK
     uint32_t mPeerCumulativeTsn;            // highest consecutive TSN received from peer
     std::set<uint32_t> mPeerOutOfOrderTsns; // received but not yet consecutive
     std::array<uint8_t, 16> mHmacKey;
@@ -105,6 +107,7 @@ private:
 
     void sendInit(unsigned iteration);
     void sendCookieEcho(unsigned iteration);
+    void setPeerInitialTsn(uint32_t peerInitialTsn);
     void onReceiveInit(const SctpPacket::Chunk& chunk);
     void onReceiveCookieEcho(const SctpPacket::Chunk& chunk);
     void onAssociationEstablished();
-- 
2.43.0


From 22d4c65856e4270ba60087bce54c13cb82942f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:50 +0000
Subject: [PATCH 06/30] fix: fail SRTP setup when the keying material cannot be
 exported

---
 src/srtp_connection.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/srtp_connection.cpp b/src/srtp_connection.cpp
index f3e6640..59297be 100644
--- a/src/srtp_connection.cpp
+++ b/src/srtp_connection.cpp
@@ -74,8 +74,10 @@ std::pair<std::shared_ptr<SrtpConnection>, Error> SrtpConnection::create(SSL* dt
     auto material = ByteBuffer{ srtpKeyPlusSaltSize * 2 };
 
     std::string label = "EXTRACTOR-dtls_srtp";
-    SSL_export_keying_material(
-        dtls_ssl, material.data(), srtpKeyPlusSaltSize * 2, label.data(), label.size(), nullptr, 0, 0);
+    if (SSL_export_keying_material(
+            dtls_ssl, material.data(), srtpKeyPlusSaltSize * 2, label.data(), label.size(), nullptr, 0, 0) != 1) {
+        return { nullptr, { Error::Code::InvalidData, "Cannot export SRTP keying material from OpenSSL" } };
+    }
 
     const auto srtpClientKey = material.data();
     const auto srtpServerKey = srtpClientKey + srtpKeySize;
-- 
2.43.0


From bc31a71d6c45d82302ef3b464071f51feca073ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:53 +0000
Subject: [PATCH 07/30] fix: a failed HMAC computation is reported instead of
 ignored

---
 include/srtc/srtp_hmac_sha1.h |  4 ++--
 src/sctp/sctp_session.cpp     |  9 +++++----
 src/srtp_crypto.cpp           | 26 ++++++++++++++++----------
 src/srtp_hmac_sha1.cpp        | 23 ++++++++++-------------
 4 files changed, 33 insertions(+), 29 deletions(-)

diff --git a/include/srtc/srtp_hmac_sha1.h b/include/srtc/srtp_hmac_sha1.h
index efd5aba..173cde3 100644
--- a/include/srtc/srtp_hmac_sha1.h
+++ b/include/srtc/srtp_hmac_sha1.h
@@ -15,8 +15,8 @@ public:
     ~HmacSha1();
 
     [[nodiscard]] bool reset(const uint8_t* key, size_t keySize);
-    void update(const uint8_t* data, size_t size);
-    void final(uint8_t* out);
+    [[nodiscard]] bool update(const uint8_t* data, size_t size);
+    [[nodiscard]] bool final(uint8_t* out);
 
 private:
 #if defined(OPENSSL_VERSION_MAJOR) && OPENSSL_VERSION_MAJOR >= 3
diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index e6050f6..025d375 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -322,8 +322,8 @@ void SctpSession::onReceiveInit(const SctpPacket::Chunk& chunk)
     HmacSha1 hmacCtx;
     if (!hmacCtx.reset(mHmacKey.data(), mHmacKey.size()))
         return;
-    hmacCtx.update(cookieData.data(), cookieData.size());
-    hmacCtx.final(hmac);
+    if (!hmacCtx.update(cookieData.data(), cookieData.size()) || !hmacCtx.final(hmac))
+        return;
     cw.write(hmac, kCookieHmacSize);
 
     // Build INIT_ACK body
@@ -360,8 +360,9 @@ void SctpSession::onReceiveCookieEcho(const SctpPacket::Chunk& chunk)
     if (!hmacCtx.reset(mHmacKey.data(), mHmacKey.size())) {
         return;
     }
-    hmacCtx.update(chunk.data, kCookieDataSize);
-    hmacCtx.final(expectedHmac);
+    if (!hmacCtx.update(chunk.data, kCookieDataSize) || !hmacCtx.final(expectedHmac)) {
+        return;
+    }
 
     if (!constTimeEqual(chunk.data + kCookieDataSize, expectedHmac, kCookieHmacSize)) {
         LOG(SRTC_LOG_W, "COOKIE_ECHO HMAC mismatch, discarding");
diff --git a/src/srtp_crypto.cpp b/src/srtp_crypto.cpp
index 7eef9ea..a266d89 100644
--- a/src/srtp_crypto.cpp
+++ b/src/srtp_crypto.cpp
@@ -341,9 +341,11 @@ bool SrtpCrypto::protectSendMediaCM(const ByteBuffer& packet, uint32_t rolloverC
         final_ret = 0;
         goto fail;
     }
-    mHmacSha1->update(encryptedData, packetSize);
-    mHmacSha1->update(reinterpret_cast<const uint8_t*>(&trailer), sizeof(trailer));
-    mHmacSha1->final(digest);
+    if (!mHmacSha1->update(encryptedData, packetSize) ||
+        !mHmacSha1->update(reinterpret_cast<const uint8_t*>(&trailer), sizeof(trailer)) || !mHmacSha1->final(digest)) {
+        final_ret = 0;
+        goto fail;
+    }
 
     std::memcpy(encryptedData + encryptedSize - digestSize, digest, digestSize);
 
@@ -586,9 +588,10 @@ bool SrtpCrypto::unprotectReceiveMediaCM(const ByteBuffer& packet, uint32_t roll
     if (!mHmacSha1->reset(mReceiveRtp.auth.data(), mReceiveRtp.auth.size())) {
         return false;
     }
-    mHmacSha1->update(encryptedData, digestPtr - encryptedData);
-    mHmacSha1->update(reinterpret_cast<const uint8_t*>(&trailer), sizeof(trailer));
-    mHmacSha1->final(digest);
+    if (!mHmacSha1->update(encryptedData, digestPtr - encryptedData) ||
+        !mHmacSha1->update(reinterpret_cast<const uint8_t*>(&trailer), sizeof(trailer)) || !mHmacSha1->final(digest)) {
+        return false;
+    }
 
     if (CRYPTO_memcmp(digest, digestPtr, digestSize) != 0) {
         // Digest validation failed
@@ -787,8 +790,10 @@ bool SrtpCrypto::protectSendControlCM(const ByteBuffer& packet, uint32_t seq, By
         final_ret = 0;
         goto fail;
     }
-    mHmacSha1->update(encryptedData, packetSize + trailerSize);
-    mHmacSha1->final(digest);
+    if (!mHmacSha1->update(encryptedData, packetSize + trailerSize) || !mHmacSha1->final(digest)) {
+        final_ret = 0;
+        goto fail;
+    }
 
     std::memcpy(encryptedData + encryptedSize - digestSize, digest, digestSize);
 
@@ -1023,8 +1028,9 @@ bool SrtpCrypto::unprotectReceiveControlCM(const ByteBuffer& packet, ByteBuffer&
     if (!mHmacSha1->reset(mReceiveRtcp.auth.data(), mReceiveRtcp.auth.size())) {
         return false;
     }
-    mHmacSha1->update(encryptedData, digestPtr - encryptedData);
-    mHmacSha1->final(digest);
+    if (!mHmacSha1->update(encryptedData, digestPtr - encryptedData) || !mHmacSha1->final(digest)) {
+        return false;
+    }
 
     if (CRYPTO_memcmp(digest, digestPtr, digestSize) != 0) {
         // Digest validation failed
diff --git a/src/srtp_hmac_sha1.cpp b/src/srtp_hmac_sha1.cpp
index 2a0ba18..801c193 100644
--- a/src/srtp_hmac_sha1.cpp
+++ b/src/srtp_hmac_sha1.cpp
@@ -53,33 +53,30 @@ bool HmacSha1::reset(const uint8_t* key, size_t keySize)
     params[0] = OSSL_PARAM_construct_utf8_string("digest", sha1, 0);
     params[1] = OSSL_PARAM_construct_end();
 
-    EVP_MAC_init(mCtx, key, keySize, params);
+    return EVP_MAC_init(mCtx, key, keySize, params) == 1;
 #else
-    HMAC_Init_ex(mCtx, key, static_cast<int>(keySize), EVP_sha1(), nullptr);
+    return HMAC_Init_ex(mCtx, key, static_cast<int>(keySize), EVP_sha1(), nullptr) == 1;
 #endif
-    return true;
 }
 
-void HmacSha1::update(const uint8_t* data, size_t size)
+bool HmacSha1::update(const uint8_t* data, size_t size)
 {
 #if defined(OPENSSL_VERSION_MAJOR) && OPENSSL_VERSION_MAJOR >= 3
-    EVP_MAC_update(mCtx, data, size);
+    return EVP_MAC_update(mCtx, data, size) == 1;
 #else
-    HMAC_Update(mCtx, data, size);
+    return HMAC_Update(mCtx, data, size) == 1;
 #endif
 }
 
-void HmacSha1::final(uint8_t* out)
+bool HmacSha1::final(uint8_t* out)
 {
 #if defined(OPENSSL_VERSION_MAJOR) && OPENSSL_VERSION_MAJOR >= 3
-    size_t out_len;
-    EVP_MAC_final(mCtx, out, &out_len, 20);
+    size_t out_len = 0;
+    return EVP_MAC_final(mCtx, out, &out_len, 20) == 1 && out_len == 20;
 #else
-    unsigned int out_len;
-    HMAC_Final(mCtx, out, &out_len);
+    unsigned int out_len = 0;
+    return HMAC_Final(mCtx, out, &out_len) == 1 && out_len == 20;
 #endif
-
-    assert(out_len == 20);
 }
 
 } // namespace srtc
-- 
2.43.0


From 3cccf80bed86bfe91411055cd1b9a832e124c604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:39 +0000
Subject: [PATCH 08/30] fix: do not send or accept STUN messages when a
 cryptographic operation failed

---
 src/ice_agent.cpp      | 54 +++++++++++++++++++++---------------
 src/peer_candidate.cpp | 62 +++++++++++++++++++++++++++---------------
 src/stun/rand.cpp      | 17 +++++++-----
 src/stun/rand.h        |  2 +-
 src/stun/stunhmac.cpp  | 49 ++++++++++++++-------------------
 src/stun/stunhmac.h    |  6 ++--
 6 files changed, 106 insertions(+), 84 deletions(-)

diff --git a/src/ice_agent.cpp b/src/ice_agent.cpp
index 541d127..57b09f5 100644
--- a/src/ice_agent.cpp
+++ b/src/ice_agent.cpp
@@ -36,7 +36,9 @@ bool IceAgent::initRequest(stun::StunMessage* msg, uint8_t* buffer, size_t buffe
 	msg->buffer_len = buffer_len;
 
 	stun::StunTransactionId id;
-	stun::stun_make_transid(id);
+	if (!stun::stun_make_transid(id)) {
+		return false;
+	}
 
 	if (!stun::stun_message_init(msg, stun::STUN_REQUEST, m, id)) {
 		return false;
@@ -90,13 +92,15 @@ bool IceAgent::finishMessage(stun::StunMessage* msg,
 		return false;
 	}
 
-	stun::stun_sha1(msg->buffer,
-					stun_message_length(msg),
-					stun_message_length(msg) - 20,
-					reinterpret_cast<uint8_t*>(ptr),
-					reinterpret_cast<const uint8_t*>(password.data()),
-					password.size(),
-					false);
+	if (!stun::stun_sha1(msg->buffer,
+						 stun_message_length(msg),
+						 stun_message_length(msg) - 20,
+						 reinterpret_cast<uint8_t*>(ptr),
+						 reinterpret_cast<const uint8_t*>(password.data()),
+						 password.size(),
+						 false)) {
+		return false;
+	}
 
 	ptr = stun::stun_message_append(msg, stun::STUN_ATTRIBUTE_FINGERPRINT, 4);
 	if (!ptr) {
@@ -191,13 +195,16 @@ bool IceAgent::verifyRequestMessage(stun::StunMessage* msg, const std::string& u
 	const auto sha1Message = reinterpret_cast<const uint8_t*>(attrIntegrityPtr);
 	uint8_t sha1Calculated[20];
 
-	stun::stun_sha1(msg->buffer,
-					sha1Message + 20 - msg->buffer,
-					sha1Message - msg->buffer,
-					sha1Calculated,
-					reinterpret_cast<const uint8_t*>(password.data()),
-					password.size(),
-					false);
+	if (!stun::stun_sha1(msg->buffer,
+						 sha1Message + 20 - msg->buffer,
+						 sha1Message - msg->buffer,
+						 sha1Calculated,
+						 reinterpret_cast<const uint8_t*>(password.data()),
+						 password.size(),
+						 false)) {
+		LOG(SRTC_LOG_E, "Request verification failed: cannot calculate signature");
+		return false;
+	}
 
 	if (!SrtpCrypto::secureEquals(sha1Calculated, attrIntegrityPtr, 20)) {
 		LOG(SRTC_LOG_E, "Request verification failed: signature does not match");
@@ -242,13 +249,16 @@ bool IceAgent::verifyResponseMessage(stun::StunMessage* msg, const std::string&
 	const auto sha1Message = reinterpret_cast<const uint8_t*>(attrIntegrityPtr);
 	uint8_t sha1Calculated[20];
 
-	stun::stun_sha1(msg->buffer,
-					sha1Message + 20 - msg->buffer,
-					sha1Message - msg->buffer,
-					sha1Calculated,
-					reinterpret_cast<const uint8_t*>(password.data()),
-					password.size(),
-					false);
+	if (!stun::stun_sha1(msg->buffer,
+						 sha1Message + 20 - msg->buffer,
+						 sha1Message - msg->buffer,
+						 sha1Calculated,
+						 reinterpret_cast<const uint8_t*>(password.data()),
+						 password.size(),
+						 false)) {
+		LOG(SRTC_LOG_E, "Response verification failed: cannot calculate signature");
+		return false;
+	}
 
 	if (!SrtpCrypto::secureEquals(sha1Calculated, attrIntegrityPtr, 20)) {
 		LOG(SRTC_LOG_E, "Response verification failed: signature does not match");
diff --git a/src/peer_candidate.cpp b/src/peer_candidate.cpp
index 322bac8..d09d3a1 100644
--- a/src/peer_candidate.cpp
+++ b/src/peer_candidate.cpp
@@ -88,15 +88,17 @@ uint32_t make_stun_priority(int type_preference, int local_preference, uint8_t c
     return (1 << 24) * type_preference + (1 << 8) * local_preference + (256 - component_id);
 }
 
-stun::StunMessage make_stun_message_binding_request(const std::shared_ptr<srtc::IceAgent>& agent,
-                                                    uint8_t* buf,
-                                                    size_t len,
-                                                    const std::shared_ptr<srtc::SdpOffer>& offer,
-                                                    const std::shared_ptr<srtc::SdpAnswer>& answer,
-                                                    bool useCandidate)
+std::optional<stun::StunMessage> make_stun_message_binding_request(const std::shared_ptr<srtc::IceAgent>& agent,
+                                                                   uint8_t* buf,
+                                                                   size_t len,
+                                                                   const std::shared_ptr<srtc::SdpOffer>& offer,
+                                                                   const std::shared_ptr<srtc::SdpAnswer>& answer,
+                                                                   bool useCandidate)
 {
     stun::StunMessage msg = {};
-    agent->initRequest(&msg, buf, len, stun::STUN_BINDING);
+    if (!agent->initRequest(&msg, buf, len, stun::STUN_BINDING)) {
+        return std::nullopt;
+    }
 
     if (useCandidate) {
         stun_message_append_flag(&msg, stun::STUN_ATTRIBUTE_USE_CANDIDATE);
@@ -111,28 +113,34 @@ stun::StunMessage make_stun_message_binding_request(const std::shared_ptr<srtc::
     const auto iceUserName = answerUserName + ":" + offerUserName;
     const auto icePassword = answer->getIcePassword();
 
-    agent->finishMessage(&msg, iceUserName, icePassword);
+    if (!agent->finishMessage(&msg, iceUserName, icePassword)) {
+        return std::nullopt;
+    }
 
     return msg;
 }
 
-stun::StunMessage make_stun_message_binding_response(const std::shared_ptr<srtc::IceAgent>& agent,
-                                                     uint8_t* buf,
-                                                     size_t len,
-                                                     const std::shared_ptr<srtc::SdpOffer>& offer,
-                                                     const stun::StunMessage& request,
-                                                     const srtc::anyaddr& address,
-                                                     socklen_t addressLen)
+std::optional<stun::StunMessage> make_stun_message_binding_response(const std::shared_ptr<srtc::IceAgent>& agent,
+                                                                    uint8_t* buf,
+                                                                    size_t len,
+                                                                    const std::shared_ptr<srtc::SdpOffer>& offer,
+                                                                    const stun::StunMessage& request,
+                                                                    const srtc::anyaddr& address,
+                                                                    socklen_t addressLen)
 {
     stun::StunMessage msg = {};
-    agent->initResponse(&msg, buf, len, &request);
+    if (!agent->initResponse(&msg, buf, len, &request)) {
+        return std::nullopt;
+    }
 
     stun_message_append_xor_addr(&msg, stun::STUN_ATTRIBUTE_XOR_MAPPED_ADDRESS, &address.ss, addressLen);
 
     // https://datatracker.ietf.org/doc/html/rfc5245#section-7.1.2.3
     const auto icePassword = offer->getIcePassword();
 
-    agent->finishMessage(&msg, std::nullopt, icePassword);
+    if (!agent->finishMessage(&msg, std::nullopt, icePassword)) {
+        return std::nullopt;
+    }
 
     return msg;
 }
@@ -882,7 +890,9 @@ void PeerCandidate::onReceivedStunMessage(const Socket::ReceivedData& data)
                                                                      incomingMessage,
                                                                      data.addr,
                                                                      data.addr_len);
-            addSendRaw({ mIceMessageBuffer.get(), stun::stun_message_length(&response) });
+            if (response) {
+                addSendRaw({ mIceMessageBuffer.get(), stun::stun_message_length(&response.value()) });
+            }
         } else {
             LOG(SRTC_LOG_E, "STUN request verification failed, ignoring");
         }
@@ -1647,7 +1657,9 @@ void PeerCandidate::sendStunBindingRequest(unsigned int iteration)
 
     const auto iceMessage = make_stun_message_binding_request(
         mIceAgent, mIceMessageBuffer.get(), kIceMessageBufferSize, mOffer, mAnswer, false);
-    addSendRaw({ mIceMessageBuffer.get(), stun_message_length(&iceMessage) });
+    if (iceMessage) {
+        addSendRaw({ mIceMessageBuffer.get(), stun_message_length(&iceMessage.value()) });
+    }
 
     mTaskSendStunConnectRequest = mScheduler.submit(kConnectRepeatPeriod + (iteration + 1) * kConnectRepeatIncrement,
                                                     __FILE__,
@@ -1662,7 +1674,9 @@ void PeerCandidate::sendStunBindingResponse(unsigned int iteration)
     const auto iceMessage = make_stun_message_binding_request(
         mIceAgent, mIceMessageBuffer.get(), kIceMessageBufferSize, mOffer, mAnswer, true);
 
-    addSendRaw({ mIceMessageBuffer.get(), stun_message_length(&iceMessage) });
+    if (iceMessage) {
+        addSendRaw({ mIceMessageBuffer.get(), stun_message_length(&iceMessage.value()) });
+    }
 
     mTaskSendStunConnectResponse = mScheduler.submit(kConnectRepeatPeriod + (iteration + 1) * kConnectRepeatIncrement,
                                                      __FILE__,
@@ -1707,7 +1721,9 @@ void PeerCandidate::sendConnectionRestoreRequest()
 
     const auto request = make_stun_message_binding_request(
         mIceAgent, mIceMessageBuffer.get(), kIceMessageBufferSize, mOffer, mAnswer, false);
-    addSendRaw({ mIceMessageBuffer.get(), stun_message_length(&request) });
+    if (request) {
+        addSendRaw({ mIceMessageBuffer.get(), stun_message_length(&request.value()) });
+    }
 
     Task::cancelHelper(mTaskConnectionRestoreTimeout);
     mTaskConnectionRestoreTimeout =
@@ -1737,7 +1753,9 @@ void PeerCandidate::onKeepAliveTimeout()
 
     const auto request = make_stun_message_binding_request(
         mIceAgent, mIceMessageBuffer.get(), kIceMessageBufferSize, mOffer, mAnswer, false);
-    addSendRaw({ mIceMessageBuffer.get(), stun_message_length(&request) });
+    if (request) {
+        addSendRaw({ mIceMessageBuffer.get(), stun_message_length(&request.value()) });
+    }
 }
 
 } // namespace srtc
diff --git a/src/stun/rand.cpp b/src/stun/rand.cpp
index 1c0da63..d7f1163 100644
--- a/src/stun/rand.cpp
+++ b/src/stun/rand.cpp
@@ -46,13 +46,16 @@
 namespace stun
 {
 
-void nice_RAND_nonce (uint8_t *dst, int len)
+bool nice_RAND_nonce (uint8_t *dst, int len)
 {
   HCRYPTPROV prov;
 
-  CryptAcquireContextW (&prov, NULL, NULL, PROV_RSA_FULL, CRYPT_VERIFYCONTEXT);
-  CryptGenRandom (prov, len, dst);
+  if (!CryptAcquireContextW (&prov, NULL, NULL, PROV_RSA_FULL, CRYPT_VERIFYCONTEXT)) {
+    return false;
+  }
+  const bool result = CryptGenRandom (prov, len, dst);
   CryptReleaseContext (prov, 0);
+  return result;
 }
 
 }
@@ -64,9 +67,9 @@ void nice_RAND_nonce (uint8_t *dst, int len)
 namespace stun
 {
 
-void nice_RAND_nonce (uint8_t *dst, int len)
+bool nice_RAND_nonce (uint8_t *dst, int len)
 {
-  RAND_bytes (dst, len);
+  return RAND_bytes (dst, len) == 1;
 }
 
 }
@@ -80,9 +83,9 @@ void nice_RAND_nonce (uint8_t *dst, int len)
 namespace stun
 {
 
-void nice_RAND_nonce (uint8_t *dst, int len)
+bool nice_RAND_nonce (uint8_t *dst, int len)
 {
-  gnutls_rnd (GNUTLS_RND_NONCE, dst, len);
+  return gnutls_rnd (GNUTLS_RND_NONCE, dst, len) == 0;
 }
 
 }
diff --git a/src/stun/rand.h b/src/stun/rand.h
index fdf5965..177db9a 100644
--- a/src/stun/rand.h
+++ b/src/stun/rand.h
@@ -47,7 +47,7 @@
 namespace stun
 {
 
-void nice_RAND_nonce (uint8_t *dst, int len);
+[[nodiscard]] bool nice_RAND_nonce (uint8_t *dst, int len);
 
 }
 
diff --git a/src/stun/stunhmac.cpp b/src/stun/stunhmac.cpp
index f93736b..ae6141e 100644
--- a/src/stun/stunhmac.cpp
+++ b/src/stun/stunhmac.cpp
@@ -73,11 +73,12 @@ typedef struct _StunKeyBlob {
 namespace stun
 {
 
-void stun_sha1 (const uint8_t *msg, size_t len, size_t msg_len, uint8_t *sha,
+bool stun_sha1 (const uint8_t *msg, size_t len, size_t msg_len, uint8_t *sha,
     const void *key, size_t keylen, int padding)
 {
   uint16_t fakelen = htons (msg_len);
   uint8_t pad_char[64] = {0};
+  bool result = true;
 
   assert (len >= 44u);
 
@@ -143,15 +144,6 @@ void stun_sha1 (const uint8_t *msg, size_t len, size_t msg_len, uint8_t *sha,
 }
 #elif defined(HAVE_OPENSSL)
 {
-#ifdef NDEBUG
-#define TRY(x) x;
-#else
-  int ret;
-#define TRY(x)                                  \
-  ret = x;                                      \
-  assert (ret == 1);
-#endif
-
 #if defined(OPENSSL_VERSION_MAJOR) && OPENSSL_VERSION_MAJOR >= 3
   // OpenSSL 3.0+, use EVP functions
   EVP_MAC *mac = EVP_MAC_fetch(NULL, "HMAC", NULL);
@@ -164,22 +156,20 @@ void stun_sha1 (const uint8_t *msg, size_t len, size_t msg_len, uint8_t *sha,
   params[0] = OSSL_PARAM_construct_utf8_string("digest", sha1, 0);
   params[1] = OSSL_PARAM_construct_end();
 
-  TRY (EVP_MAC_init(ctx, (const uint8_t*)key, keylen, params));
-  TRY (EVP_MAC_update (ctx, msg, 2));
-  TRY (EVP_MAC_update (ctx, (const unsigned char *)&fakelen, 2));
-  TRY (EVP_MAC_update (ctx, msg + 4, len - 28));
+  result = EVP_MAC_init(ctx, (const uint8_t*)key, keylen, params) == 1 &&
+      EVP_MAC_update (ctx, msg, 2) == 1 &&
+      EVP_MAC_update (ctx, (const unsigned char *)&fakelen, 2) == 1 &&
+      EVP_MAC_update (ctx, msg + 4, len - 28) == 1;
 
   /* RFC 3489 specifies that the message's size should be 64 bytes,
      and \x00 padding should be done */
-  if (padding && ((len - 24) % 64) > 0) {
+  if (result && padding && ((len - 24) % 64) > 0) {
     uint16_t pad_size = 64 - ((len - 24) % 64);
-    TRY (EVP_MAC_update (ctx, pad_char, pad_size));
+    result = EVP_MAC_update (ctx, pad_char, pad_size) == 1;
   }
 
   size_t out_len = 0;
-  TRY(EVP_MAC_final(ctx, sha, &out_len, 20));
-
-  assert(out_len == 20);
+  result = result && EVP_MAC_final(ctx, sha, &out_len, 20) == 1 && out_len == 20;
 
   EVP_MAC_CTX_free(ctx);
   EVP_MAC_free(mac);
@@ -197,21 +187,20 @@ void stun_sha1 (const uint8_t *msg, size_t len, size_t msg_len, uint8_t *sha,
 
   assert (SHA_DIGEST_LENGTH == 20);
 
-  TRY (HMAC_Init_ex (ctx, key, keylen, EVP_sha1(), NULL));
-
-  TRY (HMAC_Update (ctx, msg, 2));
-  TRY (HMAC_Update (ctx, (unsigned char *)&fakelen, 2));
-  TRY (HMAC_Update (ctx, msg + 4, len - 28));
+  result = HMAC_Init_ex (ctx, key, keylen, EVP_sha1(), NULL) == 1 &&
+      HMAC_Update (ctx, msg, 2) == 1 &&
+      HMAC_Update (ctx, (unsigned char *)&fakelen, 2) == 1 &&
+      HMAC_Update (ctx, msg + 4, len - 28) == 1;
 
   /* RFC 3489 specifies that the message's size should be 64 bytes,
      and \x00 padding should be done */
-  if (padding && ((len - 24) % 64) > 0) {
+  if (result && padding && ((len - 24) % 64) > 0) {
     uint16_t pad_size = 64 - ((len - 24) % 64);
 
-    TRY (HMAC_Update (ctx, pad_char, pad_size));
+    result = HMAC_Update (ctx, pad_char, pad_size) == 1;
   }
 
-  TRY (HMAC_Final (ctx, sha, NULL));
+  result = result && HMAC_Final (ctx, sha, NULL) == 1;
 
 #if (OPENSSL_VERSION_NUMBER < 0x10100000L) || \
     (defined(LIBRESSL_VERSION_NUMBER) && LIBRESSL_VERSION_NUMBER < 0x2070000fL)
@@ -254,6 +243,8 @@ void stun_sha1 (const uint8_t *msg, size_t len, size_t msg_len, uint8_t *sha,
 #undef TRY
 }
 #endif /* HAVE_OPENSSL */
+
+  return result;
 }
 
 static const uint8_t *priv_trim_var (const uint8_t *var, size_t *var_len)
@@ -342,9 +333,9 @@ void stun_hash_creds (const uint8_t *realm, size_t realm_len,
 }
 
 
-void stun_make_transid (StunTransactionId id)
+bool stun_make_transid (StunTransactionId id)
 {
-  nice_RAND_nonce (id, 16);
+  return nice_RAND_nonce (id, 16);
 }
 
 }
diff --git a/src/stun/stunhmac.h b/src/stun/stunhmac.h
index 75fcdd3..9074d33 100644
--- a/src/stun/stunhmac.h
+++ b/src/stun/stunhmac.h
@@ -51,9 +51,9 @@ namespace stun
  * @param key HMAC key
  * @param keylen HMAC key bytes length
  *
- * @return fingerprint value in <b>host</b> byte order.
+ * @return true if the hash was computed.
  */
-void stun_sha1(const uint8_t *msg, size_t len, size_t msg_len,
+[[nodiscard]] bool stun_sha1(const uint8_t *msg, size_t len, size_t msg_len,
                uint8_t *sha, const void *key, size_t keylen, int padding);
 
 /*
@@ -68,7 +68,7 @@ void stun_hash_creds(const uint8_t *realm, size_t realm_len,
 /*
  * Generates a pseudo-random secure STUN transaction ID.
  */
-void stun_make_transid(StunTransactionId id);
+[[nodiscard]] bool stun_make_transid(StunTransactionId id);
 
 }
 
-- 
2.43.0


From 6a78ee4ebf3fb2c3ec07b4a282deab59868519c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:19 +0000
Subject: [PATCH 09/30] fix: control packets with the same SSRC never reuse an
 SRTCP index

---
 src/peer_candidate.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/peer_candidate.cpp b/src/peer_candidate.cpp
index d09d3a1..0c6b995 100644
--- a/src/peer_candidate.cpp
+++ b/src/peer_candidate.cpp
@@ -1404,10 +1404,12 @@ void PeerCandidate::forgetExpiredStunRequests()
         mScheduler.submit(kExpireStunPeriod, __FILE__, __LINE__, [this] { forgetExpiredStunRequests(); });
 }
 
-void PeerCandidate::sendRtcpPacket(const std::shared_ptr<Track>& track, const std::shared_ptr<RtcpPacket>& packet)
+void PeerCandidate::sendRtcpPacket([[maybe_unused]] const std::shared_ptr<Track>& track,
+                                   const std::shared_ptr<RtcpPacket>& packet)
 {
-    const auto source = track->getRtcpPacketSource();
-    sendRtcpPacket(source, packet);
+    // Control packets about different tracks can have the same SSRC in their header, and use the same SRTCP key, so
+    // they need to share one SRTCP index counter
+    sendRtcpPacket(mControlPacketSource, packet);
 }
 
 void PeerCandidate::sendRtcpPacket(const std::shared_ptr<RtcpPacketSource>& source,
-- 
2.43.0


From 5fe38872e85aec83eded82fe725a59ae22686b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:52 +0000
Subject: [PATCH 10/30] fix: RTCP packet whose length field is zero read behind
 the datagram

---
 src/rtcp_packet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rtcp_packet.cpp b/src/rtcp_packet.cpp
index c2d8ba8..f7f6fef 100644
--- a/src/rtcp_packet.cpp
+++ b/src/rtcp_packet.cpp
@@ -79,7 +79,7 @@ std::list<std::shared_ptr<RtcpPacket>> RtcpPacket::fromUdpPacket(const srtc::Byt
 		const auto ssrc = static_cast<uint32_t>(ptr[4]) << 24 | static_cast<uint32_t>(ptr[5]) << 16 |
 						  static_cast<uint32_t>(ptr[6]) << 8 | static_cast<uint32_t>(ptr[7]);
 
-		if (ptr + len > end) {
+		if (len < 8 || ptr + len > end) {
 			LOG(SRTC_LOG_E, "RTCP packet too small");
 			break;
 		}
-- 
2.43.0


From a43687f650050cb5a036c9b2926165df6d182c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:52 +0000
Subject: [PATCH 11/30] fix: start code search read behind frames shorter than
 a start code

---
 src/codec_h264.cpp | 4 ++--
 src/codec_h265.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/codec_h264.cpp b/src/codec_h264.cpp
index ecf365a..7e5ca8f 100644
--- a/src/codec_h264.cpp
+++ b/src/codec_h264.cpp
@@ -6,7 +6,7 @@ namespace
 
 bool is_nalu_4(const uint8_t* buf, size_t pos, size_t end)
 {
-    if (pos < end - 4 && buf[pos + 0] == 0 && buf[pos + 1] == 0 && buf[pos + 2] == 0 && buf[pos + 3] == 1) {
+    if (pos + 4 < end && buf[pos + 0] == 0 && buf[pos + 1] == 0 && buf[pos + 2] == 0 && buf[pos + 3] == 1) {
         return true;
     }
 
@@ -15,7 +15,7 @@ bool is_nalu_4(const uint8_t* buf, size_t pos, size_t end)
 
 bool is_nalu_3(const uint8_t* buf, size_t pos, size_t end)
 {
-    if (pos < end - 3 && buf[pos + 0] == 0 && buf[pos + 1] == 0 && buf[pos + 2] == 1) {
+    if (pos + 3 < end && buf[pos + 0] == 0 && buf[pos + 1] == 0 && buf[pos + 2] == 1) {
         return true;
     }
 
diff --git a/src/codec_h265.cpp b/src/codec_h265.cpp
index 06eb67f..b7519d1 100644
--- a/src/codec_h265.cpp
+++ b/src/codec_h265.cpp
@@ -5,7 +5,7 @@ namespace
 
 bool is_nalu_4(const uint8_t* buf, size_t pos, size_t end)
 {
-    if (pos < end - 4 && buf[pos + 0] == 0 && buf[pos + 1] == 0 && buf[pos + 2] == 0 && buf[pos + 3] == 1) {
+    if (pos + 4 < end && buf[pos + 0] == 0 && buf[pos + 1] == 0 && buf[pos + 2] == 0 && buf[pos + 3] == 1) {
         return true;
     }
 
@@ -14,7 +14,7 @@ bool is_nalu_4(const uint8_t* buf, size_t pos, size_t end)
 
 bool is_nalu_3(const uint8_t* buf, size_t pos, size_t end)
 {
-    if (pos < end - 3 && buf[pos + 0] == 0 && buf[pos + 1] == 0 && buf[pos + 2] == 1) {
+    if (pos + 3 < end && buf[pos + 0] == 0 && buf[pos + 1] == 0 && buf[pos + 2] == 1) {
         return true;
     }
 
-- 
2.43.0


From 1e08293e04f01673949f361b3b1bdd0224a950ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:52 +0000
Subject: [PATCH 12/30] fix: AV1 OBU size was compared with the space in front
 of the size field

---
 src/codec_av1.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codec_av1.cpp b/src/codec_av1.cpp
index 78cb2cf..73420c9 100644
--- a/src/codec_av1.cpp
+++ b/src/codec_av1.cpp
@@ -132,7 +132,7 @@ void ObuParser::parseImpl(const uint8_t* data, size_t size)
     size_t payload_size = size;
     if (has_size) {
         const auto leb128_size = read_leb128(&data, &size);
-        if (leb128_size > payload_size) {
+        if (leb128_size > size) {
             return;
         }
         payload_size = leb128_size;
-- 
2.43.0


From 4c2d5e4a41a97e79aa11d01c9dcb111107411a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:53 +0000
Subject: [PATCH 13/30] fix: H264 and H265 fragment without a start
 dereferenced a null writer

---
 src/depacketizer_h264.cpp | 2 +-
 src/depacketizer_h265.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/depacketizer_h264.cpp b/src/depacketizer_h264.cpp
index 211449b..f21a8e9 100644
--- a/src/depacketizer_h264.cpp
+++ b/src/depacketizer_h264.cpp
@@ -101,7 +101,7 @@ void DepacketizerH264::extract(std::vector<ByteBuffer>& out, const std::vector<c
                         fu_wrt->writeU8(static_cast<uint8_t>(nri | fuNaluType));
                     }
 
-                    if (reader.remaining() > 0) {
+                    if (fu_wrt && reader.remaining() > 0) {
                         fu_wrt->write(packet->payload.data() + reader.position(), reader.remaining());
                     }
 
diff --git a/src/depacketizer_h265.cpp b/src/depacketizer_h265.cpp
index 0e677c3..293e4ab 100644
--- a/src/depacketizer_h265.cpp
+++ b/src/depacketizer_h265.cpp
@@ -101,7 +101,7 @@ void DepacketizerH265::extract(std::vector<ByteBuffer>& out, const std::vector<c
                         fu_wrt->writeU16(static_cast<uint16_t>((fuType << 9) | (layerId << 3) | temporalId));
                     }
 
-                    if (reader.remaining() > 0) {
+                    if (fu_wrt && reader.remaining() > 0) {
                         fu_wrt->write(packet->payload.data() + reader.position(), reader.remaining());
                     }
 
-- 
2.43.0


From 529ae52c6c3160ec0d398f05a5e68e8911d7936d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:53 +0000
Subject: [PATCH 14/30] fix: H265 frame start test did not advance over
 aggregated units

---
 src/depacketizer_h265.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/depacketizer_h265.cpp b/src/depacketizer_h265.cpp
index 293e4ab..666c46d 100644
--- a/src/depacketizer_h265.cpp
+++ b/src/depacketizer_h265.cpp
@@ -136,6 +136,8 @@ bool DepacketizerH265::isFrameStart(const ByteBuffer& payload) const
                     if (size > 2 && isFrameStartImpl(static_cast<uint8_t>(apNaluType), apData + 2, size - 2)) {
                         return true;
                     }
+
+                    reader.skip(size);
                 } else {
                     break;
                 }
-- 
2.43.0


From 5db366bb755384e502b25a6878e275602f172f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:53 +0000
Subject: [PATCH 15/30] fix: AV1 depacketizer could skip or read behind the end
 of the payload

---
 src/depacketizer_av1.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/depacketizer_av1.cpp b/src/depacketizer_av1.cpp
index 58274a0..cbbe040 100644
--- a/src/depacketizer_av1.cpp
+++ b/src/depacketizer_av1.cpp
@@ -135,7 +135,7 @@ void DepacketizerAV1::extract(std::vector<ByteBuffer>& out, const std::vector<co
                         const auto obuHasExtension = (obuHeader >> 2) & 0x01;
 
                         bufferedObu.setHeader(obuHeader);
-                        if (obuHasExtension && reader.remaining() >= 1) {
+                        if (obuHasExtension && obuSize >= 1) {
                             const auto obuExtension = reader.readU8();
                             obuSize -= 1;
 
@@ -213,6 +213,9 @@ bool DepacketizerAV1::isFrameStart(const ByteBuffer& payload) const
             }
 
             // Advance
+            if (reader.remaining() < obuSize) {
+                break;
+            }
             reader.skip(obuSize);
             obuIndex += 1;
         }
-- 
2.43.0


From ce15320fc343024cec57577ea37c51520830c4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:53 +0000
Subject: [PATCH 16/30] fix: shift by 32 in the Exp-Golomb reader

---
 src/bit_reader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bit_reader.cpp b/src/bit_reader.cpp
index 872ecf1..8c8cebf 100644
--- a/src/bit_reader.cpp
+++ b/src/bit_reader.cpp
@@ -37,7 +37,7 @@ uint32_t BitReader::readUnsignedExpGolomb()
 
     // Read remaining bits
     uint32_t remainingBits = readBits(leadingZeros);
-    return (1 << leadingZeros) - 1 + remainingBits;
+    return static_cast<uint32_t>((static_cast<uint64_t>(1) << leadingZeros) - 1) + remainingBits;
 }
 
 } // namespace srtc
-- 
2.43.0


From 178bf15c7ee61c40bc05d0ddc183161caffc8e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:56 +0000
Subject: [PATCH 17/30] fix: STUN attribute lookup never looks behind the
 received datagram

---
 src/stun/stunmessage.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/stun/stunmessage.cpp b/src/stun/stunmessage.cpp
index 82c0943..3b1f14b 100644
--- a/src/stun/stunmessage.cpp
+++ b/src/stun/stunmessage.cpp
@@ -104,7 +104,11 @@ stun_message_find (const StunMessage *msg, StunAttribute type,
 
   offset = STUN_MESSAGE_ATTRIBUTES_POS;
 
-  while (offset < length)
+  /* The length field comes from the network, do not look behind the buffer */
+  if (length > msg->buffer_len)
+    return NULL;
+
+  while (offset + STUN_ATTRIBUTE_VALUE_POS <= length)
   {
     uint16_t atype = stun_getw (msg->buffer + offset);
     size_t alen = stun_getw (msg->buffer + offset + STUN_ATTRIBUTE_TYPE_LEN);
@@ -112,6 +116,9 @@ stun_message_find (const StunMessage *msg, StunAttribute type,
 
     offset += STUN_ATTRIBUTE_VALUE_POS;
 
+    if (alen > length - offset)
+      return NULL;
+
     if (atype == type)
     {
       *palen = alen;
-- 
2.43.0


From 888fe170aeb20ad5ffc74e7ee7f1c37faf7bad18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:01 +0000
Subject: [PATCH 18/30] fix: log statement used a file name as its format
 string

---
 src/scheduler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 7382b1d..23aef78 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -261,7 +261,7 @@ std::weak_ptr<Task> LoopScheduler::submit(const Delay& delay, const char* file,
     assert(weak_from_this().lock());
 
     if (line == 781) {
-        LOG(SRTC_LOG_V, "submit for %s %d", file, line);
+        LOG(SRTC_LOG_V, "LoopScheduler", "submit for %s %d", file, line);
     }
 
     assertCurrentThread();
-- 
2.43.0


From a5c9424ae29349255192ef4ccba3f7cce6f71c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:03 +0000
Subject: [PATCH 19/30] fix: candidate port 65536 is not a usable port

---
 src/sdp_answer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sdp_answer.cpp b/src/sdp_answer.cpp
index 36903e3..a6a38e1 100644
--- a/src/sdp_answer.cpp
+++ b/src/sdp_answer.cpp
@@ -675,7 +675,7 @@ Error SdpAnswerParser::parseLine_a(const std::string& key,
         // a=candidate:182981660 1 udp 2130706431 99.181.107.72 443 typ host
         if (props.size() >= 7) {
             if (props[0] == "1" && props[1] == "udp" && props[5] == "typ" && props[6] == "host") {
-                if (const auto port = parse_u32(props[4]); port.has_value() && port > 0u && port <= 65536u) {
+                if (const auto port = parse_u32(props[4]); port.has_value() && port > 0u && port <= 65535u) {
                     Host host{};
 
                     const auto& addrStr = props[3];
-- 
2.43.0


From 551a97139271b4ce5fd9f67dc576d2b3042785c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:03 +0000
Subject: [PATCH 20/30] fix: SDP answer without ICE credentials or certificate
 fingerprint is rejected

---
 src/sdp_answer.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sdp_answer.cpp b/src/sdp_answer.cpp
index a6a38e1..02c0328 100644
--- a/src/sdp_answer.cpp
+++ b/src/sdp_answer.cpp
@@ -427,6 +427,12 @@ std::pair<std::shared_ptr<SdpAnswer>, Error> SdpAnswerParser::parse(const std::s
     if (!hasMedia && !hasDataChannel) {
         return { {}, { Error::Code::InvalidData, "No media tracks or data channels" } };
     }
+    if (iceUFrag.empty() || icePassword.empty()) {
+        return { {}, { Error::Code::InvalidData, "No ICE credentials" } };
+    }
+    if (certHashBin.empty()) {
+        return { {}, { Error::Code::InvalidData, "No certificate fingerprint" } };
+    }
 
     std::shared_ptr<SdpAnswer> sdpAnswer(new SdpAnswer(direction,
                                                        iceUFrag,
-- 
2.43.0


From 47df36f51df91465f10ed7adabbb34cac79c4ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:42 +0000
Subject: [PATCH 21/30] fix: an answer of the wrong direction is rejected
 without being kept

---
 src/peer_connection.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/peer_connection.cpp b/src/peer_connection.cpp
index a7769df..35c7bfd 100644
--- a/src/peer_connection.cpp
+++ b/src/peer_connection.cpp
@@ -215,13 +215,13 @@ Error PeerConnection::setAnswer(const std::shared_ptr<SdpAnswer>& answer)
         return { Error::Code::InvalidData, "Connection already has an SDP answer" };
     }
 
+    if (mSdpOffer && answer && mSdpOffer->getDirection() != answer->getDirection()) {
+        return { Error::Code::InvalidData, "Offer and answer must use same direction, publish or subscribe" };
+    }
+
     mSdpAnswer = answer;
 
     if (mSdpOffer && mSdpAnswer) {
-        if (mSdpOffer->getDirection() != mSdpAnswer->getDirection()) {
-            return { Error::Code::InvalidData, "Offer and answer must use same direction, publish or subscribe" };
-        }
-
         for (const auto& media : answer->getMediaList()) {
             mMediaEntryList.emplace_back(media);
         }
-- 
2.43.0


From 5bb7bfa7a618b6e313f3e6e0225828940dbcf71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:42 +0000
Subject: [PATCH 22/30] fix: data channel messages are not queued on a closed
 connection

---
 src/peer_connection.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/peer_connection.cpp b/src/peer_connection.cpp
index 35c7bfd..4778c74 100644
--- a/src/peer_connection.cpp
+++ b/src/peer_connection.cpp
@@ -523,6 +523,9 @@ Error PeerConnection::sendDataChannelText(const std::string& label, std::string&
     if (!mDataChannelsNegotiated) {
         return { Error::Code::InvalidData, "Data channels were not negotiated" };
     }
+    if (mConnectionState == ConnectionState::Failed || mConnectionState == ConnectionState::Closed) {
+        return { Error::Code::InvalidData, "The connection is closed" };
+    }
     if (mDataChannelMaxMessageSize > 0 && data.size() > mDataChannelMaxMessageSize) {
         return { Error::Code::InvalidData, "Message size exceeds peer maximum" };
     }
@@ -540,6 +543,9 @@ Error PeerConnection::sendDataChannelBinary(const std::string& label, ByteBuffer
     if (!mDataChannelsNegotiated) {
         return { Error::Code::InvalidData, "Data channels were not negotiated" };
     }
+    if (mConnectionState == ConnectionState::Failed || mConnectionState == ConnectionState::Closed) {
+        return { Error::Code::InvalidData, "The connection is closed" };
+    }
     if (mDataChannelMaxMessageSize > 0 && data.size() > mDataChannelMaxMessageSize) {
         return { Error::Code::InvalidData, "Message size exceeds peer maximum" };
     }
-- 
2.43.0


From 5c724cc0e301a403814ff8605b3344d71ee51d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:42 +0000
Subject: [PATCH 23/30] fix: picture loss request for an unknown track is
 rejected

---
 src/peer_connection.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/peer_connection.cpp b/src/peer_connection.cpp
index 4778c74..9d2c5ac 100644
--- a/src/peer_connection.cpp
+++ b/src/peer_connection.cpp
@@ -501,14 +501,20 @@ Error PeerConnection::requestPictureLossIndicator(const std::shared_ptr<Track>&
         return Error::OK;
     }
 
-    FrameToSend fr = {};
-    fr.track = track;
-    fr.request_pli = true;
+    for (const auto& entry : mTrackEntryList) {
+        if (entry.track == track) {
+            FrameToSend fr = {};
+            fr.track = track;
+            fr.request_pli = true;
 
-    mFrameSendQueue.push_back(std::move(fr));
-    mEventLoop->interrupt();
+            mFrameSendQueue.push_back(std::move(fr));
+            mEventLoop->interrupt();
 
-    return Error::OK;
+            return Error::OK;
+        }
+    }
+
+    return { Error::Code::InvalidData, "The track is not found" };
 }
 
 uint32_t PeerConnection::getDataChannelMaxMessageSize() const
-- 
2.43.0


From 6e84cd961446df770753bc4d621219aefe791b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:43 +0000
Subject: [PATCH 24/30] fix: media and track lists are cleared under the mutex

---
 src/peer_connection.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/peer_connection.cpp b/src/peer_connection.cpp
index 9d2c5ac..55b4a90 100644
--- a/src/peer_connection.cpp
+++ b/src/peer_connection.cpp
@@ -726,8 +726,11 @@ void PeerConnection::networkThreadWorkerFunc()
     mConnectingCandidateList.clear();
     mSelectedCandidate.reset();
 
-    mMediaEntryList.clear();
-    mTrackEntryList.clear();
+    {
+        std::lock_guard lock(mMutex);
+        mMediaEntryList.clear();
+        mTrackEntryList.clear();
+    }
 
     // We are all done
     setConnectionState(ConnectionState::Closed);
-- 
2.43.0


From 203ac8ee25271a2ea9878d09d172ad07020f556d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:43 +0000
Subject: [PATCH 25/30] fix: data channel maximum message size is read under
 the mutex

---
 src/peer_connection.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/peer_connection.cpp b/src/peer_connection.cpp
index 55b4a90..4ecafb5 100644
--- a/src/peer_connection.cpp
+++ b/src/peer_connection.cpp
@@ -519,6 +519,7 @@ Error PeerConnection::requestPictureLossIndicator(const std::shared_ptr<Track>&
 
 uint32_t PeerConnection::getDataChannelMaxMessageSize() const
 {
+    std::lock_guard lock(mMutex);
     return mDataChannelMaxMessageSize;
 }
 
-- 
2.43.0


From 0deb61c1bcad816d50fa9d8cf32d63234791c6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:43 +0000
Subject: [PATCH 26/30] fix: custom logger is set and read under the mutex

---
 src/peer_connection.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/peer_connection.cpp b/src/peer_connection.cpp
index 4ecafb5..f6c2cab 100644
--- a/src/peer_connection.cpp
+++ b/src/peer_connection.cpp
@@ -75,6 +75,7 @@ PeerConnection::~PeerConnection()
 
 void PeerConnection::setCustomLogger(CustomLogger* custom)
 {
+    std::lock_guard lock(mMutex);
     mCustomLogger = custom;
 }
 
@@ -593,7 +594,10 @@ void PeerConnection::close()
 void PeerConnection::networkThreadWorkerFunc()
 {
     // Logging
-    setThreadSpecificCustomLogger(mCustomLogger);
+    {
+        std::lock_guard lock(mMutex);
+        setThreadSpecificCustomLogger(mCustomLogger);
+    }
 
     // Loop scheduler
     mLoopScheduler = std::make_shared<LoopScheduler>();
-- 
2.43.0


From 5f52bbd4a0f8976a8924474712c7e0a0f7caa16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:43 +0000
Subject: [PATCH 27/30] fix: scheduler thread starts after the members it uses
 are initialized

---
 include/srtc/scheduler.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/srtc/scheduler.h b/include/srtc/scheduler.h
index 2b23975..fd8acae 100644
--- a/include/srtc/scheduler.h
+++ b/include/srtc/scheduler.h
@@ -124,10 +124,12 @@ private:
     std::mutex mMutex;
     std::condition_variable mCondVar;
 
-    std::thread mThread SRTC_GUARDED_BY(mMutex);
     bool mIsQuit SRTC_GUARDED_BY(mMutex) = {false};
 
     std::vector<std::shared_ptr<TaskImpl>> mTaskQueue;
+
+    // The thread uses the members above, so it has to be started last
+    std::thread mThread SRTC_GUARDED_BY(mMutex);
 };
 
 // ----- LoopScheduler
-- 
2.43.0


From 8147a3702066d718cae699c5c785b10eddbe26ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:43 +0000
Subject: [PATCH 28/30] fix: scoped scheduler does not hold its mutex while
 canceling

---
 src/scheduler.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 23aef78..da7810f 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -385,15 +385,25 @@ ScopedScheduler::ScopedScheduler(const std::shared_ptr<RealScheduler>& scheduler
 
 ScopedScheduler::~ScopedScheduler()
 {
-    std::lock_guard lock(mMutex);
+    while (true) {
+        // Canceling can wait for a running task, which in turn can submit
+        std::list<std::shared_ptr<TaskImpl>> submitted;
+        {
+            std::lock_guard lock(mMutex);
+            submitted = std::move(mSubmitted);
+            mSubmitted.clear();
+        }
 
-    for (const auto& iter : mSubmitted) {
-        if (const auto task = iter->mTask.lock()) {
-            task->cancel();
+        if (submitted.empty()) {
+            break;
         }
-    }
 
-    mSubmitted.clear();
+        for (const auto& iter : submitted) {
+            if (const auto task = iter->mTask.lock()) {
+                task->cancel();
+            }
+        }
+    }
 }
 
 std::weak_ptr<Task> ScopedScheduler::submit(const Delay& delay, const char* file, int line, const Func& func)
-- 
2.43.0


From d3518f14945548ab955bfab49a82454f77225c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:43 +0000
Subject: [PATCH 29/30] fix: a task canceling itself does not wait for itself

---
 src/scheduler.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index da7810f..0e69169 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -127,6 +127,11 @@ void ThreadScheduler::cancelImpl(const std::shared_ptr<TaskImpl>& task)
         return;
     }
 
+    if (std::this_thread::get_id() == mThread.get_id()) {
+        // A task canceling itself, it would be waiting for its own completion
+        return;
+    }
+
     mCondVar.wait(lock, [this, task]() SRTC_EXCLUSIVE_LOCKS_REQUIRED(mMutex) { return mIsQuit || task->mIsCompleted; });
 }
 
-- 
2.43.0


From a77113ebfcb3b5603749c6e324070258eff9c6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:32 +0000
Subject: [PATCH 30/30] fix: a gap acknowledgement also dropped chunks 65536
 numbers further on

The distance to the cumulative acknowledgement was narrowed to 16 bits, so an
unacknowledged chunk whose distance equals an acknowledged one modulo 65536
was removed from the retransmission list.
---
 src/sctp/sctp_session.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index 025d375..07b34a7 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -722,7 +722,7 @@ void SctpSession::onReceiveSack(const SctpPacket::Chunk& chunk)
     for (const auto& [gapStart, gapEnd] : gapBlocks) {
         auto git = mSentChunks.begin();
         while (git != mSentChunks.end()) {
-            const auto offset = static_cast<uint16_t>(git->tsn - cumTsn);
+            const uint32_t offset = git->tsn - cumTsn;
             if (offset >= gapStart && offset <= gapEnd) {
                 mFlightSize =
                     static_cast<uint32_t>(mFlightSize >= git->payloadSize ? mFlightSize - git->payloadSize : 0);
-- 
2.43.0

