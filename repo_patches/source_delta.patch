From 72d2f701e284270e591826dbbec7bff057ef8b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:55 +0000
Subject: [PATCH 01/28] fix: absorb every byte of a word in Hash::Update

Bytes 2 to 7 of each whole word were replaced by byte 1, so digests were
not SHA-3 and messages differing only in those bytes collided.
---
 src/frn/lib/primitives/hash.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/frn/lib/primitives/hash.h b/src/frn/lib/primitives/hash.h
index ee449d2..b5df72e 100644
--- a/src/frn/lib/primitives/hash.h
+++ b/src/frn/lib/primitives/hash.h
@@ -186,9 +186,9 @@ Hash<Tag> &Hash<Tag>::Update(const unsigned char *bytes, std::size_t nbytes) {
   for (std::size_t i = 0; i < words; ++i) {
     const uint64_t t =
         (uint64_t)(p[0]) | ((uint64_t)(p[1]) << 8 * 1) |
-        ((uint64_t)(p[1]) << 8 * 2) | ((uint64_t)(p[1]) << 8 * 3) |
-        ((uint64_t)(p[1]) << 8 * 4) | ((uint64_t)(p[1]) << 8 * 5) |
-        ((uint64_t)(p[1]) << 8 * 6) | ((uint64_t)(p[1]) << 8 * 7);
+        ((uint64_t)(p[2]) << 8 * 2) | ((uint64_t)(p[3]) << 8 * 3) |
+        ((uint64_t)(p[4]) << 8 * 4) | ((uint64_t)(p[5]) << 8 * 5) |
+        ((uint64_t)(p[6]) << 8 * 6) | ((uint64_t)(p[7]) << 8 * 7);
 
     mState[mWordIndex] ^= t;
 
-- 
2.43.0


From 1f074cc34455af9b3b3bdea9c0baccd73d4516a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:55 +0000
Subject: [PATCH 02/28] fix: store the random share of a multiplication only
 once

Prepare and MultiplyToAddAndMsgs both stored it, so every multiplication
of a batch but the first was unmasked with the wrong random share.
---
 src/frn/mult.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/frn/mult.h b/src/frn/mult.h
index e95b735..4804c95 100644
--- a/src/frn/mult.h
+++ b/src/frn/mult.h
@@ -140,8 +140,6 @@ class Mult {
 
   AddAndMsgs MultiplyToAddAndMsgs(const Shr& a, const Shr& b,
                                   const RandomShare& randomShares) {
-    mRandomShares.emplace_back(randomShares);
-
     // Initialize output
     AddAndMsgs output;
     output.add_share = Field(0);
-- 
2.43.0


From 015b2a5106303d39e6cc04ee0674f49e86f0e8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:55 +0000
Subject: [PATCH 03/28] fix: do not multiply and record a batch again in the
 next Mult::Run

A second Run counted, sent and recorded the first batch once more, which
left CheckData with a counter larger than its vectors of messages, so Check
read past their end.
---
 src/frn/mult.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/frn/mult.h b/src/frn/mult.h
index 4804c95..3433328 100644
--- a/src/frn/mult.h
+++ b/src/frn/mult.h
@@ -96,7 +96,12 @@ class Mult {
     mCheckData->counter += mCount;
     SendStep();
     if (mId == 0) ReconstructionStep();
-    return OutputStep();
+    auto output = OutputStep();
+    // Everything prepared so far has been multiplied and recorded.
+    mCount = 0;
+    mRandomShares.clear();
+    mSharesToSendP1.clear();
+    return output;
   };
 
   /**
-- 
2.43.0


From b689b86f900d6385349c5b97b53d031913a57644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:55 +0000
Subject: [PATCH 04/28] fix: advance the PRGs of a party when its mask share is
 generated

GetMaskShare worked on a copy, so every mask share of a party was that of
its first mask, and only its first input was shared correctly.
---
 src/frn/input_corr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frn/input_corr.h b/src/frn/input_corr.h
index b4dc2bd..19a2854 100644
--- a/src/frn/input_corr.h
+++ b/src/frn/input_corr.h
@@ -46,7 +46,7 @@ class InputSetup {
     Shr GetMaskShare(unsigned id) {
       std::vector<frn::Field> share;
       share.reserve(mShareSize);
-      auto prg_id = mPrgs[id];
+      auto& prg_id = mPrgs[id];
       for (std::size_t i = 0; i < mShareSize; i++)
         share.emplace_back(GetRandomElement(prg_id[i]));
       return share;
-- 
2.43.0


From b1a83af4530640b698cccbef2aa1b22bb590aed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:55 +0000
Subject: [PATCH 05/28] fix: derive the own input masks from all additive
 shares of the key

The number of parties was used in place of the number of additive shares.
The two agree only for n = 4 and thresholds of 1.
---
 src/frn/input_corr.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/frn/input_corr.cc b/src/frn/input_corr.cc
index 7b76af7..c055154 100644
--- a/src/frn/input_corr.cc
+++ b/src/frn/input_corr.cc
@@ -25,7 +25,8 @@ frn::InputSetup::Correlator frn::InputSetup::Run() {
   auto copy = mPrg;
   auto size = mNetwork->Size();
   auto shr_k = mReplicator.Share(k, mPrg);
-  auto add_k = frn::lib::secret_sharing::ShareAdditive(k, size, copy);
+  auto add_k = frn::lib::secret_sharing::ShareAdditive(
+      k, mReplicator.AdditiveShareSize(), copy);
 
   for (std::size_t i = 0; i < size; i++) {
     mNetwork->SendShares(i, {shr_k[i]});
-- 
2.43.0


From 53411c27bbba79659d421caf21cafce8350b02e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:55 +0000
Subject: [PATCH 06/28] fix: let every party of U but the first compress what
 it sent

The bound is 2d+1, as the comment above says; with 2d-1 the last two
parties were left out.
---
 src/frn/check.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frn/check.h b/src/frn/check.h
index 7db14f5..233bc29 100644
--- a/src/frn/check.h
+++ b/src/frn/check.h
@@ -81,7 +81,7 @@ class Check {
     START_TIMER(LinearComb);
 
     // this assumes 2d+1 = n-d <> n=3d+1 (so U=T)
-    if ((0 < mId) && (mId < 2 * mThreshold - 1)) {
+    if ((0 < mId) && (mId < 2 * mThreshold + 1)) {
       for (unsigned mult_idx = 0; mult_idx < mCheckData.counter; mult_idx++) {
 
         mCompressedCD.shares_sent_to_p1 +=
-- 
2.43.0


From b73ade0f70ac1783cd64c8741ee3b8e83dfd8e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:55 +0000
Subject: [PATCH 07/28] fix: start from an empty party set for every entry of
 the table Rec

Party sets accumulated over the entries, so shares were sent several times
and to parties that already hold them.
---
 src/frn/shr.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/frn/shr.cc b/src/frn/shr.cc
index 79083d7..3446d0e 100644
--- a/src/frn/shr.cc
+++ b/src/frn/shr.cc
@@ -139,9 +139,9 @@ void frn::ShrManipulator::Init() {
 
   // precompute mTableRec
   // We use the double-replicator since this will be used to reconstruct a degree-2d sharing
-  RecEntry entry;
-
   for (unsigned shr_id = 0; shr_id < mDoubleReplicator.ShareSize(); shr_id++) {
+    RecEntry entry;
+
     // We convert the input index from local to global
     int shr_id_ = mDoubleReplicator.IndexSetFor(mPartyId)[shr_id];
 
-- 
2.43.0


From bdb780d04dbbbaca58a1249e8c88a1537e76de65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:55 +0000
Subject: [PATCH 08/28] fix: do not assume an aligned buffer in
 FpElement::FromBytes

The buffer may be any byte pointer. Reading it as an integer is undefined
when it is not aligned, and traps for 128-bit values.
---
 src/frn/lib/math/fp.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/frn/lib/math/fp.h b/src/frn/lib/math/fp.h
index f9f8929..4d6f550 100644
--- a/src/frn/lib/math/fp.h
+++ b/src/frn/lib/math/fp.h
@@ -39,7 +39,9 @@ class FpElement : RingElement<FpElement<Prime>> {
    *   <code>FpElement::byte_size()</code> bytes of memory.
    */
   static FpElement FromBytes(const unsigned char *buffer) {
-    return FpElement(*((ValueType *)buffer));
+    ValueType value;
+    std::memcpy(&value, buffer, ByteSize());
+    return FpElement(value);
   };
 
   /**
-- 
2.43.0


From f11c90b0a4cee6d85e5edc01245433d194a6fc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:55 +0000
Subject: [PATCH 09/28] fix: reject submatrices that extend past the end of the
 matrix

---
 src/frn/lib/math/mat.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/frn/lib/math/mat.h b/src/frn/lib/math/mat.h
index ca5c7c5..4e1142b 100644
--- a/src/frn/lib/math/mat.h
+++ b/src/frn/lib/math/mat.h
@@ -92,10 +92,10 @@ class Matrix {
    */
   Matrix extract_submatrix(std::size_t row_beg, std::size_t row_end,
                            std::size_t col_beg, std::size_t col_end) {
-    if (row_beg > row_end || row_end - row_beg > RowCount())
+    if (row_beg > row_end || row_end > RowCount())
       throw std::logic_error("invalid row offsets");
 
-    if (col_beg > col_end || col_end - col_beg > ColumnCount())
+    if (col_beg > col_end || col_end > ColumnCount())
       throw std::logic_error("invalid column offsets");
 
     auto nrows = row_end - row_beg;
-- 
2.43.0


From cc852f50b644c15a85c22691fff13d25f3c66c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:55 +0000
Subject: [PATCH 10/28] fix: do not swap rows and columns in Matrix::ToString

Matrices that are not square were read out of bounds.
---
 src/frn/lib/math/mat.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/frn/lib/math/mat.h b/src/frn/lib/math/mat.h
index 4e1142b..bc13173 100644
--- a/src/frn/lib/math/mat.h
+++ b/src/frn/lib/math/mat.h
@@ -254,8 +254,8 @@ class Matrix {
    * @return a string representation of this matrix
    */
   std::string ToString() const {
-    const auto n = ColumnCount();
-    const auto m = RowCount();
+    const auto n = RowCount();
+    const auto m = ColumnCount();
 
     // convert all elements to strings and find the widest string in each
     // column.
-- 
2.43.0


From 825f459118f39b3c62bdc89e0e9795e3940cbe6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:55 +0000
Subject: [PATCH 11/28] fix: do not overflow in Binom when the result is small
 enough

The numerator overflowed from 30-choose-15 on.
---
 src/frn/lib/secret_sharing/rep.h | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/frn/lib/secret_sharing/rep.h b/src/frn/lib/secret_sharing/rep.h
index a623357..fe42679 100644
--- a/src/frn/lib/secret_sharing/rep.h
+++ b/src/frn/lib/secret_sharing/rep.h
@@ -18,13 +18,10 @@ namespace secret_sharing {
  */
 constexpr std::size_t Binom(const std::size_t m, const std::size_t k) {
   std::size_t end = k > m - k ? m - k : k;
-  std::size_t top = 1;
-  std::size_t bot = 1;
-  for (std::size_t i = 1; i <= end; ++i) {
-    top *= (m + 1 - i);
-    bot *= i;
-  }
-  return top / bot;
+  std::size_t result = 1;
+  // After each step, result is m-choose-i, so the division is exact.
+  for (std::size_t i = 1; i <= end; ++i) result = result * (m + 1 - i) / i;
+  return result;
 }
 
 /**
-- 
2.43.0


From cfa20c934ed95896e86f663ad8d0ae235d8f2175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:35 +0000
Subject: [PATCH 12/28] fix: keep the unread part of a message in
 LocalConnector::Recv

Reading less than a whole message dropped the rest of it, so a party that
receives from itself in other portions than it sent waited for ever.
---
 src/frn/lib/net/connector.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/frn/lib/net/connector.h b/src/frn/lib/net/connector.h
index f20f75b..e91d0f9 100644
--- a/src/frn/lib/net/connector.h
+++ b/src/frn/lib/net/connector.h
@@ -177,10 +177,15 @@ class LocalConnector : public Connector {
   };
 
   std::int64_t Recv(unsigned char *buffer, std::size_t size) {
-    auto data = mIncoming->Front();
-    auto actual_size = std::min(data.size(), size);
-    std::memcpy(buffer, data.data(), actual_size);
-    mIncoming->PopFront();
+    const auto &data = mIncoming->Front();
+    auto actual_size = std::min(data.size() - mConsumed, size);
+    std::memcpy(buffer, data.data() + mConsumed, actual_size);
+    mConsumed += actual_size;
+    // keep the message for as long as some of it has not been read.
+    if (mConsumed == data.size()) {
+      mIncoming->PopFront();
+      mConsumed = 0;
+    }
     return actual_size;
   };
 
@@ -196,6 +201,8 @@ class LocalConnector : public Connector {
 
   BufferPtr mOutgoing = 0;
   BufferPtr mIncoming = 0;
+  // how much of the first message in mIncoming that has been read.
+  std::size_t mConsumed = 0;
 };
 
 /**
-- 
2.43.0


From b5f95033b658bc5e28fa7db7194e5f543b1bdf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:35 +0000
Subject: [PATCH 13/28] fix: report it when a peer disconnects in
 TCPConnector::Recv

Recv claimed to have received everything, so callers took the content of
their own buffer for data from the peer.
---
 src/frn/lib/net/connector.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/frn/lib/net/connector.cc b/src/frn/lib/net/connector.cc
index 2c666fd..a1486dd 100644
--- a/src/frn/lib/net/connector.cc
+++ b/src/frn/lib/net/connector.cc
@@ -63,7 +63,10 @@ std::int64_t frn::lib::net::TCPConnector::Recv(unsigned char* buffer,
     auto n = mSystem->read(mSocket, buffer + offset, rem);
 
     // other end disconnected.
-    if (!n) break;
+    if (!n) {
+      mState = Connector::State::eError;
+      throw std::runtime_error("connection closed by peer");
+    }
     if (n < 0) set_error_and_throw("recv failed");
 
     rem -= n;
-- 
2.43.0


From c2802a4d2ce55c89e68d6a666328b38f5b483049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:35 +0000
Subject: [PATCH 14/28] fix: make the state of a Connector atomic

The sender job of an AsyncSenderChannel reads it while the thread that
receives or closes changes it.
---
 src/frn/lib/net/connector.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/frn/lib/net/connector.h b/src/frn/lib/net/connector.h
index e91d0f9..deb49ca 100644
--- a/src/frn/lib/net/connector.h
+++ b/src/frn/lib/net/connector.h
@@ -2,6 +2,7 @@
 #define _FRN_LIB_NET_CONNECTOR_H
 
 #include <algorithm>
+#include <atomic>
 #include <cstring>
 #include <memory>
 #include <sstream>
@@ -119,7 +120,7 @@ class Connector {
   /**
    * @brief Current state.
    */
-  enum State mState = State::eIdle;
+  std::atomic<enum State> mState{State::eIdle};
 };
 
 }  // namespace net
-- 
2.43.0


From 18bbaf4b652dc0e350d9256f9090b04d8785bf44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:35 +0000
Subject: [PATCH 15/28] fix: send what is queued before an AsyncSenderChannel
 is closed

Close closed the connector under the sender job, so messages that were
still in the queue were lost, or written to whatever got the descriptor.
---
 src/frn/lib/net/channel.cc | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/frn/lib/net/channel.cc b/src/frn/lib/net/channel.cc
index c6b0a37..fa9e9a3 100644
--- a/src/frn/lib/net/channel.cc
+++ b/src/frn/lib/net/channel.cc
@@ -12,23 +12,24 @@ void frn::lib::net::AsyncSenderChannel::Open() {
     while (true) {
       std::vector<unsigned char> buf = mSendQueue.Front();
       if (mConnector->State() != Connector::State::eActive) break;
-      mConnector->Send(buf.data(), buf.size());
+      if (!buf.empty()) mConnector->Send(buf.data(), buf.size());
       mSendQueue.PopFront();
+      if (buf.empty()) break;
     }
   });
 }
 
 void frn::lib::net::AsyncSenderChannel::Send(const unsigned char* buffer,
                                         std::size_t size) {
+  if (!size) return;
   mSendQueue.PushBack({buffer, buffer + size});
 }
 
 void frn::lib::net::AsyncSenderChannel::Close() {
-  // signal the async job that we're done by closing the connector and then
-  // sending an empty message. The message ensures that sender job will check
-  // if the connector is still alive and thus exit correctly.
-  mConnector->Close();
-  unsigned char dummy = 1;
-  Send(&dummy, 1);
+  // signal the async job that we're done by queueing an empty message, which
+  // Send never does, and close the connector only when the job has sent
+  // everything that was queued before that.
+  mSendQueue.PushBack(std::vector<unsigned char>());
   mSender.wait();
+  mConnector->Close();
 }
-- 
2.43.0


From acab52ea84a6a335810d42b87f7e3e483189521d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:36 +0000
Subject: [PATCH 16/28] fix: close the listening socket of a TCPServerConnector

It was never closed, also not when setting it up failed. With
SO_REUSEPORT, a later network on the same port could have its clients
queued on the old socket, where nobody accepts them.
---
 src/frn/lib/net/connector.cc | 14 +++++++++-----
 src/frn/lib/net/connector.h  |  5 ++++-
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/frn/lib/net/connector.cc b/src/frn/lib/net/connector.cc
index a1486dd..bbbfa7d 100644
--- a/src/frn/lib/net/connector.cc
+++ b/src/frn/lib/net/connector.cc
@@ -115,7 +115,7 @@ void frn::lib::net::TCPClientConnector::EstablishConnection() {
   addr.sin_port = htons(mPort);
 
   if (read_hostname(mSystem, mHostname, &addr) == -1)
-    set_error_and_throw("hostname");
+    set_error_and_throw("hostname", sock);
 
   while (true) {
     if (::connect(sock, (struct sockaddr*)&addr, sizeof(addr)) < 0) {
@@ -146,7 +146,7 @@ void frn::lib::net::TCPServerConnector::EstablishConnection() {
 
   auto err = mSystem->set_socket_options(ssock, SOL_SOCKET, options, &opt,
                                          sizeof(opt));
-  if (err < 0) set_error_and_throw("could not set options on socket");
+  if (err < 0) set_error_and_throw("could not set options on socket", ssock);
 
   struct sockaddr_in addr;
   addr.sin_family = AF_INET;
@@ -156,14 +156,18 @@ void frn::lib::net::TCPServerConnector::EstablishConnection() {
   struct sockaddr* addr_ptr = (struct sockaddr*)&addr;
 
   if (mSystem->bind(ssock, addr_ptr, sizeof(addr)) < 0)
-    set_error_and_throw("bind");
+    set_error_and_throw("bind", ssock);
 
-  if (mSystem->listen(ssock, 1) < 0) set_error_and_throw("listen");
+  if (mSystem->listen(ssock, 1) < 0) set_error_and_throw("listen", ssock);
 
   auto addrsize = sizeof(addr);
   int sock = mSystem->accept(ssock, addr_ptr, (socklen_t*)&addrsize);
 
-  if (sock < 0) set_error_and_throw("could not accept connection from client");
+  if (sock < 0)
+    set_error_and_throw("could not accept connection from client", ssock);
+
+  // only one client is expected, so there is nothing more to listen for.
+  mSystem->close(ssock);
 
   mSocket = sock;
 }
diff --git a/src/frn/lib/net/connector.h b/src/frn/lib/net/connector.h
index deb49ca..3cf601b 100644
--- a/src/frn/lib/net/connector.h
+++ b/src/frn/lib/net/connector.h
@@ -234,10 +234,13 @@ class TCPConnector : public Connector {
 
   /**
    * @brief Converts C style errors to <code>std::system_error</code>.
+   * @param error_message a description of what failed
+   * @param fd a descriptor to close before throwing, if any
    */
-  void set_error_and_throw(std::string error_message) {
+  void set_error_and_throw(std::string error_message, int fd = -1) {
     mState = Connector::State::eError;
     auto err = mSystem->get_errno();
+    if (fd >= 0) mSystem->close(fd);
     throw std::system_error(err, std::generic_category(),
                             error_message.c_str());
   };
-- 
2.43.0


From 142627ebeb82a79f14322299e51b820126bb8ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:36 +0000
Subject: [PATCH 17/28] fix: let a TCPConnector close no descriptor but its own

Closing one that is not connected closed descriptor 0, and closing one
twice closed whatever had got its number in between.
---
 src/frn/lib/net/connector.cc | 1 +
 src/frn/lib/net/connector.h  | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/frn/lib/net/connector.cc b/src/frn/lib/net/connector.cc
index bbbfa7d..da6d28c 100644
--- a/src/frn/lib/net/connector.cc
+++ b/src/frn/lib/net/connector.cc
@@ -34,6 +34,7 @@ std::string frn::lib::utils::to_string(const enum net::Connector::State& state)
 
 void frn::lib::net::TCPConnector::TeardownConnection() {
   auto err = mSystem->close(mSocket);
+  mSocket = -1;
   if (err < 0) set_error_and_throw("error while closing socket");
 }
 
diff --git a/src/frn/lib/net/connector.h b/src/frn/lib/net/connector.h
index 3cf601b..4c3b2bd 100644
--- a/src/frn/lib/net/connector.h
+++ b/src/frn/lib/net/connector.h
@@ -248,7 +248,7 @@ class TCPConnector : public Connector {
   /**
    * @brief Socket.
    */
-  int mSocket = 0;
+  int mSocket = -1;
 
   /**
    * @brief Pointer to a class handling system calls.
-- 
2.43.0


From 585da379aca9b0af7725b7b78f097b8b1df0560f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:36 +0000
Subject: [PATCH 18/28] fix: 65536 is not a valid port

It became port 0, that is, some other port, and the clients never connected.
---
 src/frn/lib/net/connector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frn/lib/net/connector.h b/src/frn/lib/net/connector.h
index 4c3b2bd..e997036 100644
--- a/src/frn/lib/net/connector.h
+++ b/src/frn/lib/net/connector.h
@@ -260,7 +260,7 @@ class TCPConnector : public Connector {
  * @brief Returns true if a port is valid.
  */
 constexpr inline bool invalid_port(int port) {
-  return port < 1025 || port > 65536;
+  return port < 1025 || port > 65535;
 }
 
 /**
-- 
2.43.0


From 816573a076027a6fce6ceb7a14547d0ec1ee8b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:36 +0000
Subject: [PATCH 19/28] fix: check the connection information when a network is
 built

A size given after a connection file that has fewer entries was accepted,
and the addresses were read out of bounds.
---
 src/frn/lib/net/builder.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/frn/lib/net/builder.cc b/src/frn/lib/net/builder.cc
index 41ef815..cac0131 100644
--- a/src/frn/lib/net/builder.cc
+++ b/src/frn/lib/net/builder.cc
@@ -78,6 +78,11 @@ Network frn::lib::net::Network::Builder::Build() const {
     if (mAllLocal) {
       for (auto& ip : ips) ip = "0.0.0.0";
     } else {
+      if (!mIps) throw std::logic_error("connection information not provided");
+      if (mIps->size() != n)
+        throw std::logic_error(
+            "number of entries in connection file "
+            "does not match network size");
       ips = mIps.value();
     }
 
-- 
2.43.0


From 45005fcc46470128e351b1637d37a44a34be13cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:36 +0000
Subject: [PATCH 20/28] fix: do not share the broken-down time between loggers

std::localtime returns a static buffer, and parties that run as threads of
one process each log from their own.
---
 src/frn/lib/logging/stdout.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/frn/lib/logging/stdout.h b/src/frn/lib/logging/stdout.h
index 3f9364e..0b72c0d 100644
--- a/src/frn/lib/logging/stdout.h
+++ b/src/frn/lib/logging/stdout.h
@@ -2,6 +2,7 @@
 #define _FRN_LIB_LOGGING_STDOUTLOGGER_H
 
 #include <chrono>
+#include <ctime>
 #include <iomanip>
 #include <iostream>
 
@@ -94,7 +95,9 @@ class StdoutLogger : public Logger {
   void InsertTimestamp() const {
     using std_clock = std::chrono::system_clock;
     auto now = std_clock::to_time_t(std_clock::now());
-    std::cout << "[" << std::put_time(std::localtime(&now), TIMESTAMP_FMT)
+    std::tm local;
+    localtime_r(&now, &local);
+    std::cout << "[" << std::put_time(&local, TIMESTAMP_FMT)
               << "] ";
   };
 
-- 
2.43.0


From 00ed859521e6313530fa03031531bf1b1d05bb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:36 +0000
Subject: [PATCH 21/28] fix: make the experiments validate the number of
 parties

The condition held for every number.
---
 src/frn/exp_check.cc | 2 +-
 src/frn/exp_input.cc | 2 +-
 src/frn/exp_mult.cc  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/frn/exp_check.cc b/src/frn/exp_check.cc
index 9b0857f..8a40a73 100644
--- a/src/frn/exp_check.cc
+++ b/src/frn/exp_check.cc
@@ -9,7 +9,7 @@
 #define BASE_PORT 6677
 
 inline std::size_t ValidateN(const std::size_t n) {
-  assert(n > 3 || n < 17);
+  assert(n > 3 && n < 17);
   return n;
 }
 
diff --git a/src/frn/exp_input.cc b/src/frn/exp_input.cc
index eecd8a5..2d4c5cb 100644
--- a/src/frn/exp_input.cc
+++ b/src/frn/exp_input.cc
@@ -18,7 +18,7 @@ inline void Populate(std::vector<frn::Field>& vector) {
 }
 
 inline std::size_t ValidateN(const std::size_t n) {
-  assert(n > 3 || n < 17);
+  assert(n > 3 && n < 17);
   return n;
 }
 
diff --git a/src/frn/exp_mult.cc b/src/frn/exp_mult.cc
index b8023f5..67ce8b2 100644
--- a/src/frn/exp_mult.cc
+++ b/src/frn/exp_mult.cc
@@ -9,7 +9,7 @@
 #define BASE_PORT 6677
 
 inline std::size_t ValidateN(const std::size_t n) {
-  assert(n > 3 || n < 17);
+  assert(n > 3 && n < 17);
   return n;
 }
 
-- 
2.43.0


From a60f1a0b245fbeb1edfa407c3a950adc20dcacb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:36 +0000
Subject: [PATCH 22/28] fix: wait for all parties in run.sh

Only the last party was waited for.
---
 run.sh | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/run.sh b/run.sh
index 94e269a..c640ac3 100755
--- a/run.sh
+++ b/run.sh
@@ -33,9 +33,8 @@ echo -n "starting "
 for i in $(seq 0 $(($n - 1))); do
     echo -n "$i "
     ( ./$program $n $i $m &>"${logdir}/party_${i}.log" ) &
-    pid=$!
 done
 echo
 
 echo "waiting for experiment to finish ..."
-wait $pid
+wait
-- 
2.43.0


From 3a6acf82767ac3bde2467b7b84835622eddf4329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:36 +0000
Subject: [PATCH 23/28] fix: stop the sender job when an AsyncSenderChannel is
 destroyed

Destroying an open channel, for instance because an exception was thrown
while it was in use, waited for ever for a job that nobody told to stop.
---
 src/frn/lib/net/channel.cc | 10 ++++++++++
 src/frn/lib/net/channel.h  |  2 ++
 2 files changed, 12 insertions(+)

diff --git a/src/frn/lib/net/channel.cc b/src/frn/lib/net/channel.cc
index fa9e9a3..6f780ff 100644
--- a/src/frn/lib/net/channel.cc
+++ b/src/frn/lib/net/channel.cc
@@ -1,11 +1,21 @@
 #include "frn/lib/net/channel.h"
 
+#include <exception>
 #include <future>
 #include <memory>
 #include <vector>
 
 #include "frn/lib/net/connector.h"
 
+frn::lib::net::AsyncSenderChannel::~AsyncSenderChannel() {
+  // nothing to stop if the channel was never opened or is already closed.
+  if (!mSender.valid() || State() == Connector::State::eClosed) return;
+  try {
+    Close();
+  } catch (const std::exception&) {
+  }
+}
+
 void frn::lib::net::AsyncSenderChannel::Open() {
   mConnector->Connect();
   mSender = std::async(std::launch::async, [&]() {
diff --git a/src/frn/lib/net/channel.h b/src/frn/lib/net/channel.h
index e47f272..d6524d1 100644
--- a/src/frn/lib/net/channel.h
+++ b/src/frn/lib/net/channel.h
@@ -105,6 +105,8 @@ class AsyncSenderChannel : public Channel {
 
         };
 
+  ~AsyncSenderChannel();
+
   void Open();
 
   void Close();
-- 
2.43.0


From 8b12b7daf6dfe87776b0141c6ed76ba8bc0ca115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:36 +0000
Subject: [PATCH 24/28] fix: do not let a peer that disconnects kill the
 process

Writing to a closed connection raised SIGPIPE before the error could be
handled.
---
 src/frn/lib/net/sysi.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/frn/lib/net/sysi.cc b/src/frn/lib/net/sysi.cc
index 23b159a..2f5debb 100644
--- a/src/frn/lib/net/sysi.cc
+++ b/src/frn/lib/net/sysi.cc
@@ -22,7 +22,8 @@ int frn::lib::net::SystemInterface::create_socket(int domain, int type,
 
 ssize_t frn::lib::net::SystemInterface::write(int fd, const void* buf,
                                          std::size_t count) {
-  return ::write(fd, buf, count);
+  // the error is reported to the caller, so it should not raise SIGPIPE too.
+  return ::send(fd, buf, count, MSG_NOSIGNAL);
 }
 
 ssize_t frn::lib::net::SystemInterface::read(int fd, void* buf, std::size_t count) {
-- 
2.43.0


From e185f645ccb14f932dd2e85683fed57c3c2d9102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:37 +0000
Subject: [PATCH 25/28] Add read-only monitoring hooks to Check, off by default

Guarded by FRN_VERIF_HOOKS.
---
 src/frn/check.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/frn/check.h b/src/frn/check.h
index 233bc29..e847330 100644
--- a/src/frn/check.h
+++ b/src/frn/check.h
@@ -191,6 +191,14 @@ class Check {
     STOP_TIMER(ReconstructMsgs);
   };
 
+#ifdef FRN_VERIF_HOOKS
+  // Read-only access to what the steps above computed, for runtime monitors.
+  const std::vector<Field>& VerifCoefficients() const {
+    return mRandomCoefficients;
+  };
+  const CompressedCheckData& VerifCompressed() const { return mCompressedCD; };
+#endif
+
  private:
   std::shared_ptr<Network> mNetwork;
   frn::lib::secret_sharing::Replicator<Field> mReplicator;
-- 
2.43.0


From de036d3c9b4fac6dd0751e593020678b32a78abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:39 +0000
Subject: [PATCH 26/28] fix: do not count bytes as received when receiving them
 fails

---
 src/frn/tcp_network.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/frn/tcp_network.h b/src/frn/tcp_network.h
index 36e92ac..9e0511c 100644
--- a/src/frn/tcp_network.h
+++ b/src/frn/tcp_network.h
@@ -70,8 +70,8 @@ class TcpNetwork final : public Network {
   std::vector<Field> Recv(unsigned id, std::size_t n) override {
     auto m = n * Field::ByteSize();
     auto buffer = std::make_unique<unsigned char[]>(m);
-    mSummary.Recv(id, m);
     mNetwork.RecvFrom(id, buffer.get(), m);
+    mSummary.Recv(id, m);
     std::vector<Field> values;
     values.reserve(n);
     auto ptr = buffer.get();
@@ -93,8 +93,8 @@ class TcpNetwork final : public Network {
 
   std::vector<unsigned char> RecvBytes(unsigned id, std::size_t n) override {
     std::vector<unsigned char> r(n);
-    mSummary.Recv(id, n);
     mNetwork.RecvFrom(id, r.data(), n);
+    mSummary.Recv(id, n);
     return r;
   };
 
-- 
2.43.0


From e813e4e7263f809ff94d3bb04a7dd6752e2f4e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:13 +0000
Subject: [PATCH 27/28] fix: wake every thread that waits on a SharedDeque

---
 src/frn/lib/net/shared_deque.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/frn/lib/net/shared_deque.h b/src/frn/lib/net/shared_deque.h
index c522885..7c68e88 100644
--- a/src/frn/lib/net/shared_deque.h
+++ b/src/frn/lib/net/shared_deque.h
@@ -81,7 +81,9 @@ void SharedDeque<T, Allocator>::PushBack(const T &item) {
   std::unique_lock<std::mutex> lock(mMutex);
   mDeck.push_back(item);
   lock.unlock();
-  mCond.notify_one();
+  // Front leaves the item in the queue, so waking just one thread could leave
+  // another one waiting for an item that is there.
+  mCond.notify_all();
 }
 
 template <typename T, typename Allocator>
@@ -89,7 +91,9 @@ void SharedDeque<T, Allocator>::PushBack(T &&item) {
   std::unique_lock<std::mutex> lock(mMutex);
   mDeck.push_back(std::move(item));
   lock.unlock();
-  mCond.notify_one();
+  // Front leaves the item in the queue, so waking just one thread could leave
+  // another one waiting for an item that is there.
+  mCond.notify_all();
 }
 
 template <typename T, typename Allocator>
-- 
2.43.0


From 0bd33fadcec33bf3bc8bb5836e421aac94007648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:39 +0000
Subject: [PATCH 28/28] fix: do not let ScaleBy change the scalar it scales by

---
 src/frn/lib/math/vec.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/frn/lib/math/vec.h b/src/frn/lib/math/vec.h
index e03e580..0e28f99 100644
--- a/src/frn/lib/math/vec.h
+++ b/src/frn/lib/math/vec.h
@@ -168,8 +168,10 @@ template <typename T>
 RingType<T, std::vector<T> &> ScaleBy(std::vector<T> &vector, const T &scalar) {
   auto n = vector.size();
   auto it = vector.begin();
+  // scalar may be an element of vector.
+  const T s = scalar;
 
-  while (n-- > 0) *(it++) *= scalar;
+  while (n-- > 0) *(it++) *= s;
 
   return vector;
 }
-- 
2.43.0

