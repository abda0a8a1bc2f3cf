From 978ebdafcfe5986b1e75e095dd5f7457749ccfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:22 +0000
Subject: [PATCH 01/25] fix: let the MurmurHash3 tail cases fall through as the
 algorithm requires

---
 src/libeopsi/murmurhash3.cpp | 60 ++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 30 deletions(-)

diff --git a/src/libeopsi/murmurhash3.cpp b/src/libeopsi/murmurhash3.cpp
index 7f0f670..68c7716 100644
--- a/src/libeopsi/murmurhash3.cpp
+++ b/src/libeopsi/murmurhash3.cpp
@@ -117,10 +117,10 @@ void MurmurHash3::murmurHash3_x86_32 (const void * key, int len, void * out) {
   switch(len & 3) {
     case 3:
       k1 ^= tail[2] << 16;
-      break;
+      /* FALLTHRU */
     case 2:
       k1 ^= tail[1] << 8;
-      break;
+      /* FALLTHRU */
     case 1:
       k1 ^= tail[0];
       k1 *= c1;
@@ -210,58 +210,58 @@ void MurmurHash3::murmurHash3_x86_128 (const void * key, const int len, void * o
   switch(len & 15) {
     case 15:
       k4 ^= tail[14] << 16;
-      break;
+      /* FALLTHRU */
     case 14:
       k4 ^= tail[13] << 8;
-      break;
+      /* FALLTHRU */
     case 13:
       k4 ^= tail[12] << 0;
       k4 *= c4;
       k4  = ROTL32(k4,18);
       k4 *= c1;
       h4 ^= k4;
-      break;
+      /* FALLTHRU */
     case 12:
       k3 ^= tail[11] << 24;
-      break;
+      /* FALLTHRU */
     case 11:
       k3 ^= tail[10] << 16;
-      break;
+      /* FALLTHRU */
     case 10:
       k3 ^= tail[ 9] << 8;
-      break;
+      /* FALLTHRU */
     case  9:
       k3 ^= tail[ 8] << 0;
       k3 *= c3;
       k3  = ROTL32(k3,17);
       k3 *= c4;
       h3 ^= k3;
-      break;
+      /* FALLTHRU */
     case  8:
       k2 ^= tail[ 7] << 24;
-      break;
+      /* FALLTHRU */
     case  7:
       k2 ^= tail[ 6] << 16;
-      break;
+      /* FALLTHRU */
     case  6:
       k2 ^= tail[ 5] << 8;
-      break;
+      /* FALLTHRU */
     case  5:
       k2 ^= tail[ 4] << 0;
       k2 *= c2;
       k2  = ROTL32(k2,16);
       k2 *= c3;
       h2 ^= k2;
-      break;
+      /* FALLTHRU */
     case  4:
       k1 ^= tail[ 3] << 24;
-      break;
+      /* FALLTHRU */
     case  3:
       k1 ^= tail[ 2] << 16;
-      break;
+      /* FALLTHRU */
     case  2:
       k1 ^= tail[ 1] << 8;
-      break;
+      /* FALLTHRU */
     case  1:
       k1 ^= tail[ 0] << 0;
       k1 *= c1;
@@ -351,50 +351,50 @@ void MurmurHash3::murmurHash3_x64_128 (const void * key, const int len, void * o
   switch(len & 15) {
     case 15:
       k2 ^= ((uint64_t)tail[14]) << 48;
-      break;
+      /* FALLTHRU */
     case 14:
       k2 ^= ((uint64_t)tail[13]) << 40;
-      break;
+      /* FALLTHRU */
     case 13:
       k2 ^= ((uint64_t)tail[12]) << 32;
-      break;
+      /* FALLTHRU */
     case 12:
       k2 ^= ((uint64_t)tail[11]) << 24;
-      break;
+      /* FALLTHRU */
     case 11:
       k2 ^= ((uint64_t)tail[10]) << 16;
-      break;
+      /* FALLTHRU */
     case 10:
       k2 ^= ((uint64_t)tail[ 9]) << 8;
-      break;
+      /* FALLTHRU */
     case  9:
       k2 ^= ((uint64_t)tail[ 8]) << 0;
       k2 *= c2;
       k2  = ROTL64(k2,33);
       k2 *= c1;
       h2 ^= k2;
-      break;
+      /* FALLTHRU */
     case  8:
       k1 ^= ((uint64_t)tail[ 7]) << 56;
-      break;
+      /* FALLTHRU */
     case  7:
       k1 ^= ((uint64_t)tail[ 6]) << 48;
-      break;
+      /* FALLTHRU */
     case  6:
       k1 ^= ((uint64_t)tail[ 5]) << 40;
-      break;
+      /* FALLTHRU */
     case  5:
       k1 ^= ((uint64_t)tail[ 4]) << 32;
-      break;
+      /* FALLTHRU */
     case  4:
       k1 ^= ((uint64_t)tail[ 3]) << 24;
-      break;
+      /* FALLTHRU */
     case  3:
       k1 ^= ((uint64_t)tail[ 2]) << 16;
-      break;
+      /* FALLTHRU */
     case  2:
       k1 ^= ((uint64_t)tail[ 1]) << 8;
-      break;
+      /* FALLTHRU */
     case  1:
       k1 ^= ((uint64_t)tail[ 0]) << 0;
       k1 *= c1;
-- 
2.43.0


From ca8e42d8cc1350e37636b17d0eb188a5f011e500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:22 +0000
Subject: [PATCH 02/25] fix: hash only the bytes of the decimal string in
 MurmurHash3::hash (read past its end)

---
 src/libeopsi/murmurhash3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libeopsi/murmurhash3.cpp b/src/libeopsi/murmurhash3.cpp
index 68c7716..e1de550 100644
--- a/src/libeopsi/murmurhash3.cpp
+++ b/src/libeopsi/murmurhash3.cpp
@@ -457,7 +457,7 @@ byte* MurmurHash3::hash(const NTL::ZZ_p n, const size_t len) {
   zzString = zzStreamString.str();
   truncLen = len > 0 && len < zzString.length() ? len : zzString.length();
   
-  murmurHash3_x64_128((const void *) zzString.c_str(), 4*truncLen, (void *) this->hash128);
+  murmurHash3_x64_128((const void *) zzString.c_str(), truncLen, (void *) this->hash128);
   return this->hash128;
 }
 //-----------------------------------------------------------------------------
-- 
2.43.0


From f8700f196f020b842141956c09a7305ea3551cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:22 +0000
Subject: [PATCH 03/25] fix: refuse messages from unknown parties in
 EOPSIClient instead of dereferencing null

---
 src/libeopsi/eopsiclient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libeopsi/eopsiclient.cpp b/src/libeopsi/eopsiclient.cpp
index 8ab2795..e975faa 100644
--- a/src/libeopsi/eopsiclient.cpp
+++ b/src/libeopsi/eopsiclient.cpp
@@ -222,7 +222,7 @@ bool EOPSIClient::isAuthorised(const EOPSIMessage *msg) const {
   }
   
   sender = getPartyById(msg->getPartyId());
-  if (!hasAuthenticated(*sender)) {
+  if (sender == nullptr || !hasAuthenticated(*sender)) {
     return false;
   }
   
-- 
2.43.0


From b4d4648eb2a0b30656c0daebec7b1cbf9abf4799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:22 +0000
Subject: [PATCH 04/25] fix: refuse null messages with a ProtocolException in
 receive()

---
 src/libeopsi/eopsiclient.cpp | 4 ++++
 src/libeopsi/eopsiserver.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/libeopsi/eopsiclient.cpp b/src/libeopsi/eopsiclient.cpp
index e975faa..0019330 100644
--- a/src/libeopsi/eopsiclient.cpp
+++ b/src/libeopsi/eopsiclient.cpp
@@ -72,6 +72,10 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
   std::map<std::string, EOPSIParty*>::const_iterator mi;
   NTL::vec_ZZ_p setcap;
   
+  if (msg == nullptr) {
+    throw ProtocolException("Null messages are not allowed in EO-PSI protocol");
+  }
+  
   if (msg->getPartyId() == this->id) {
     throw ProtocolException("Self-messaging is not allowed in EO-PSI protocol");
   }
diff --git a/src/libeopsi/eopsiserver.cpp b/src/libeopsi/eopsiserver.cpp
index 3ff7d0a..b9def2b 100644
--- a/src/libeopsi/eopsiserver.cpp
+++ b/src/libeopsi/eopsiserver.cpp
@@ -28,6 +28,10 @@ void EOPSIServer::receive(EOPSIMessage* msg) {
   byte *tmpKeyBytes;
   NTL::vec_ZZ_p *t;
   
+  if (msg == nullptr) {
+    throw ProtocolException("Null messages are not allowed in EO-PSI protocol");
+  }
+  
   if (msg->getPartyId() == this->id) {
     throw ProtocolException("Self-messaging is not allowed in EOPSI protocol");
   }
-- 
2.43.0


From 210a2f6d8c01202271a54d41a0ca4d094dc256ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:21 +0000
Subject: [PATCH 05/25] fix: do not keep pointers to freed or given away t and
 q in EOPSIClient

---
 src/libeopsi/eopsiclient.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/libeopsi/eopsiclient.cpp b/src/libeopsi/eopsiclient.cpp
index 0019330..ea2f8bd 100644
--- a/src/libeopsi/eopsiclient.cpp
+++ b/src/libeopsi/eopsiclient.cpp
@@ -71,6 +71,7 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
   size_t dataLen, tmpKeyByteSize, i;
   std::map<std::string, EOPSIParty*>::const_iterator mi;
   NTL::vec_ZZ_p setcap;
+  NTL::vec_ZZ_p *output;
   
   if (msg == nullptr) {
     throw ProtocolException("Null messages are not allowed in EO-PSI protocol");
@@ -165,8 +166,8 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
       /*
        * 2. Send q to client
        */
-      q = delegationOutput(otherSecret, tmpKey);
-      msgToClient.setData((void *) q, 1);
+      output = delegationOutput(otherSecret, tmpKey);
+      msgToClient.setData((void *) output, 1);
       msgToClient.setType(EOPSI_MESSAGE_POLYNOMIAL);
       msgToClient.setPartyId(this->getId());
       
@@ -187,6 +188,8 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
         std::cout << "Finding intersection required " << bm.cumulativeBenchmark().count()/1000. << " ms" << std::endl;
         delete [] t;
         delete [] q;
+        t = nullptr;
+        q = nullptr;
       }
       std::cout << EOPSI_MESSAGE_OUTPUT_COMPUTATION << ". Receiving partial intersection data \"t\" required " << bm.cumulativeBenchmark("int-unsure").count() << " µs" << std::endl;
       
@@ -203,6 +206,8 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
         std::cout << "Finding intersection required " << bm.cumulativeBenchmark().count()/1000. << " ms" << std::endl;
         delete [] t;
         delete [] q;
+        t = nullptr;
+        q = nullptr;
       }
       std::cout << EOPSI_MESSAGE_POLYNOMIAL << ". Receiving partial intersection data \"q\" required " << bm.cumulativeBenchmark("int-unsure").count() << " µs" << std::endl;
       break;
-- 
2.43.0


From 37b35d6c89e93eadf4beee2173de9c2cbbdf0af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:37 +0000
Subject: [PATCH 06/25] fix: never read past the end of a received message in
 receive()

---
 src/libeopsi/eopsiclient.cpp | 17 +++++++++++++++--
 src/libeopsi/eopsiserver.cpp | 12 ++++++++++++
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/libeopsi/eopsiclient.cpp b/src/libeopsi/eopsiclient.cpp
index ea2f8bd..9c11e29 100644
--- a/src/libeopsi/eopsiclient.cpp
+++ b/src/libeopsi/eopsiclient.cpp
@@ -5,6 +5,7 @@
  * Copyright (C) 2016  Roberto Metere, Glasgow <roberto.metere@strath.ac.uk>
  */
 
+#include <cstring>
 #include <iostream>
 #include <NTL/ZZ_pXFactoring.h>
 #include "eopsiclient.h"
@@ -68,7 +69,7 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
   NTL::ZZ tmpKey;
   byte *tmpKeyBytes;
   byte *data = nullptr;
-  size_t dataLen, tmpKeyByteSize, i;
+  size_t dataLen, tmpKeyByteSize, i, idLen;
   std::map<std::string, EOPSIParty*>::const_iterator mi;
   NTL::vec_ZZ_p setcap;
   NTL::vec_ZZ_p *output;
@@ -93,6 +94,12 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
     case EOPSI_MESSAGE_CLIENT_COMPUTATION_REQUEST:
       bm.start();
       
+      // The payload is made of the sender id, its terminator, the secret and a final terminator
+      idLen = (msg->getData() == nullptr) ? 0 : strnlen((char *) msg->getData(), msg->length());
+      if (msg->getData() == nullptr || idLen + 2 > msg->length()) {
+        throw ProtocolException("Malformed client computation request");
+      }
+      
       // Check sender and message content
       msgClaimedId = (char *) msg->getData();
       if (msgClaimedId != sender->getId()) {
@@ -149,7 +156,7 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
       
       // Reception feedback
       otherSecretBytes = &((byte *) msg->getData())[msgClaimedId.length() + 1];
-      otherSecret = NTL::ZZFromBytes(otherSecretBytes, 3);
+      otherSecret = NTL::ZZFromBytes(otherSecretBytes, msg->length() - msgClaimedId.length() - 2);
       std::cout << id << ". Received \"" << otherSecret << "\" from " << sender->getId() << "." << std::endl;
       
       // Send the message to cloud
@@ -179,6 +186,9 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
       
     case EOPSI_MESSAGE_OUTPUT_COMPUTATION:
       bm.start();
+      if (msg->getData() == nullptr) {
+        throw ProtocolException("Missing data in message");
+      }
       t = (NTL::vec_ZZ_p *) msg->getData();
       // Reception feedback
       std::cout << "I, " << id << ", received \"" << t[0][0] << ", ...\" from " << sender->getId() << "." << std::endl;
@@ -197,6 +207,9 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
       
     case EOPSI_MESSAGE_POLYNOMIAL:
       bm.start();
+      if (msg->getData() == nullptr) {
+        throw ProtocolException("Missing data in message");
+      }
       q = (NTL::vec_ZZ_p *) msg->getData();
       // Reception feedback
       std::cout << "I, " << id << ", received \"" << q[0][0] << ", ...\" from " << sender->getId() << "." << std::endl;
diff --git a/src/libeopsi/eopsiserver.cpp b/src/libeopsi/eopsiserver.cpp
index b9def2b..c318bea 100644
--- a/src/libeopsi/eopsiserver.cpp
+++ b/src/libeopsi/eopsiserver.cpp
@@ -5,6 +5,7 @@
  * Copyright (C) 2016  Roberto Metere, Glasgow <roberto.metere@strath.ac.uk>
  */
 
+#include <cstring>
 #include <iostream>
 #include <NTL/ZZ_pX.h>
 #include "eopsiserver.h"
@@ -27,6 +28,7 @@ void EOPSIServer::receive(EOPSIMessage* msg) {
   NTL::ZZ tmpKey;
   byte *tmpKeyBytes;
   NTL::vec_ZZ_p *t;
+  size_t idLen, partnerIdLen;
   
   if (msg == nullptr) {
     throw ProtocolException("Null messages are not allowed in EO-PSI protocol");
@@ -51,11 +53,21 @@ void EOPSIServer::receive(EOPSIMessage* msg) {
         throw ProtocolException("Outsourcing computation requests between servers is not (yet) supported");
       }
       
+      // The payload is made of the sender id and the partner id with their terminators, and the key
+      idLen = (msg->getData() == nullptr) ? 0 : strnlen((char *) msg->getData(), msg->length());
+      if (msg->getData() == nullptr || idLen + 1 > msg->length()) {
+        throw ProtocolException("Malformed cloud computation request");
+      }
+      
       // Check sender and message content
       msgClaimedId = (char *) msg->getData();
       if (msgClaimedId != sender->getId()) {
         throw ProtocolException("Id mismatch between sender and message data");
       }
+      partnerIdLen = strnlen(&((char *) msg->getData())[idLen + 1], msg->length() - idLen - 1);
+      if (idLen + 1 + partnerIdLen + 1 + NTL::bytes(DEFAULT_KEY_BITSIZE) > msg->length()) {
+        throw ProtocolException("Malformed cloud computation request");
+      }
       partnerId = &((char *) msg->getData())[msgClaimedId.length() + 1];
       
       // Prepare message for the partner client
-- 
2.43.0


From 4c6b929703069f68e3c95f4943fb35d89c56cc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:38 +0000
Subject: [PATCH 07/25] fix: refuse computation requests about unknown parties
 or data never outsourced

---
 src/libeopsi/eopsiserver.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libeopsi/eopsiserver.cpp b/src/libeopsi/eopsiserver.cpp
index c318bea..b3f35b7 100644
--- a/src/libeopsi/eopsiserver.cpp
+++ b/src/libeopsi/eopsiserver.cpp
@@ -70,6 +70,10 @@ void EOPSIServer::receive(EOPSIMessage* msg) {
       }
       partnerId = &((char *) msg->getData())[msgClaimedId.length() + 1];
       
+      if (!hasAuthenticated(partnerId)) {
+        throw ProtocolException("Party \"" + partnerId + "\" is not authenticated by " + this->getId() + ".");
+      }
+      
       // Prepare message for the partner client
       tmpKeyBytes = (&((byte *) msg->getData())[msgClaimedId.length() + 1 + partnerId.length() + 1]);
       tmpKey = NTL::ZZFromBytes(tmpKeyBytes, NTL::bytes(DEFAULT_KEY_BITSIZE));
@@ -157,6 +161,9 @@ NTL::vec_ZZ_p * EOPSIServer::intersectionOutput(const std::string idA, const std
   
   msgA = this->storedData[idA];
   msgB = this->storedData[idB];
+  if (msgA == nullptr || msgB == nullptr || msgA->getData() == nullptr || msgB->getData() == nullptr) {
+    throw ProtocolException("Both parties must outsource their data before any computation.");
+  }
   dataA = (NTL::vec_ZZ_p *) msgA->getData();
   dataB = (NTL::vec_ZZ_p *) msgB->getData();
   
-- 
2.43.0


From a68984b05766f506b7905fecd1de21fd7e4f88d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:39 +0000
Subject: [PATCH 08/25] fix: do not leave a released payload attached to its
 message

---
 src/libeopsi/eopsiserver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libeopsi/eopsiserver.cpp b/src/libeopsi/eopsiserver.cpp
index b3f35b7..fe2fedb 100644
--- a/src/libeopsi/eopsiserver.cpp
+++ b/src/libeopsi/eopsiserver.cpp
@@ -89,6 +89,7 @@ void EOPSIServer::receive(EOPSIMessage* msg) {
       
       this->send(*getPartyById(partnerId), &msgToClient);
       delete [] (byte *) msg->getData();
+      msg->setData(nullptr);
       break;
       
     case EOPSI_MESSAGE_OUTSOURCING_DATA:
-- 
2.43.0


From 22853f927ddd77be58c7c9b8b9180df982862a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 09/25] fix: enforce the maximum load in every HashBuckets
 insertion and count the elements

---
 src/libeopsi/hashbuckets.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/libeopsi/hashbuckets.hpp b/src/libeopsi/hashbuckets.hpp
index 2acac0a..a154b1d 100644
--- a/src/libeopsi/hashbuckets.hpp
+++ b/src/libeopsi/hashbuckets.hpp
@@ -127,12 +127,6 @@ template <typename T> void HashBuckets<T>::add(const T& element) {
     this->hashStrInt->set(this->hashAlgorithm->hash(element), this->hashAlgorithm->hashSize());
     index = this->hashStrInt->rem(this->k);
 //     std::cerr << element << " hashed to "<< *this->hashStrInt << " mod " << this->k << " = " << index << std::endl;
-    
-    if (this->buckets[index].size() == this->maxLoad) {
-      std::stringstream msg;
-      msg << "HashBuckets<T>::addToBucket(). MarkedVector " << index << " full.";
-      throw OutOfBoundException(msg.str(), OutOfBoundException::FATAL);
-    }
   } else {
     index = 0;
     std::cerr << "HashBuckets<T>::add()" << ". Element index completely invented (you did not set a hash algorithm)." << std::endl;
@@ -140,14 +134,20 @@ template <typename T> void HashBuckets<T>::add(const T& element) {
     
 //     if (index == 0)
 //     std::cerr << "HashBuckets<T>::add()" << ". Index of " << element << " is " << index << "." << std::endl; // Debug purposes
-    this->buckets[index].push_back(element);
+    this->addToBucket(element, index);
 }
 //-----------------------------------------------------------------------------
 
 template <typename T> void HashBuckets<T>::addToBucket(const T& element, const size_t i) {
   size_t index = i;
   if (index < this->k) {
+    if (this->buckets[index].size() >= this->maxLoad) {
+      std::stringstream msg;
+      msg << "HashBuckets<T>::addToBucket(). MarkedVector " << index << " full.";
+      throw OutOfBoundException(msg.str(), OutOfBoundException::FATAL);
+    }
     this->buckets[index].push_back(element);
+    this->n++;
   } else {
     throw OutOfBoundException("HashBuckets<T>::addToBucket(). Index out of bound.", OutOfBoundException::FATAL);
   }
-- 
2.43.0


From 8ad0565a96d9d30f95c656bb278b1e50d2717457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:02 +0000
Subject: [PATCH 10/25] fix: release the previous StrInt in
 HashBuckets::setHashAlgorithm; take the address in HashTable's

---
 src/libeopsi/hashbuckets.hpp | 1 +
 src/libeopsi/hashtable.hpp   | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libeopsi/hashbuckets.hpp b/src/libeopsi/hashbuckets.hpp
index a154b1d..442122e 100644
--- a/src/libeopsi/hashbuckets.hpp
+++ b/src/libeopsi/hashbuckets.hpp
@@ -110,6 +110,7 @@ template <typename T> void HashBuckets<T>::setHashAlgorithm(const HashAlgorithm<
     return;
   }
   
+  delete this->hashStrInt;
   try {
     hashStrInt = new StrInt(hashAlgorithm->hashSize());
   } catch (std::bad_alloc&) {
diff --git a/src/libeopsi/hashtable.hpp b/src/libeopsi/hashtable.hpp
index 696d3d1..9e46628 100644
--- a/src/libeopsi/hashtable.hpp
+++ b/src/libeopsi/hashtable.hpp
@@ -85,7 +85,7 @@ public:
    * @param hashAlgorithm the hash algorithm to use
    */
   void setHashAlgorithm(const HashAlgorithm<T>& hashAlgorithm) {
-    this->hashAlgorithm = hashAlgorithm;
+    this->hashAlgorithm = (HashAlgorithm<T>*) &hashAlgorithm;
   }
   
   /**
-- 
2.43.0


From d29328eb30022bc97eb0d4bf090f46e30afe4105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 11/25] fix: report element 0 in the intersection (NumTwos(0)
 is 0, not infinite)

---
 src/libeopsi/zzppoly.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libeopsi/zzppoly.cpp b/src/libeopsi/zzppoly.cpp
index f0100a2..af57719 100644
--- a/src/libeopsi/zzppoly.cpp
+++ b/src/libeopsi/zzppoly.cpp
@@ -149,7 +149,7 @@ NTL::vec_ZZ& ZZpPolynomials::findIntersection() {
         z = rep(-(NTL::ConstTerm(this->factorPairs[j][k].a)));
         
 //         std::cout << "Result " << k << ": " << z << " - Leading zeros: " << NTL::countLeadingZeros(z) << std::endl;
-        if (NTL::countLeadingZeros(z) >= this->padsize) {
+        if (NTL::IsZero(z) || NTL::countLeadingZeros(z) >= this->padsize) {
           NTL::append(this->roots, z >> this->padsize);
         }
       }
@@ -224,7 +224,7 @@ NTL::vec_ZZ& ZZpPolynomials::findIntersection(NTL::vec_ZZ_p& x, NTL::vec_ZZ_p *y
         z = rep(-(NTL::ConstTerm(this->factorPairs[j][k].a)));
         
 //         std::cout << "Result " << k << ": " << z << " - Leading zeros: " << NTL::countLeadingZeros(z) << std::endl;
-        if (NTL::countLeadingZeros(z) >= this->padsize) {
+        if (NTL::IsZero(z) || NTL::countLeadingZeros(z) >= this->padsize) {
           NTL::append(this->roots, z >> this->padsize);
         }
       }
-- 
2.43.0


From 4a17bcd13b13d2996b9c5e3a35230c00ee371ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 12/25] fix: build the SHA name from the flavour instead of
 indexing past a literal

---
 src/libeopsi/sha.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libeopsi/sha.hpp b/src/libeopsi/sha.hpp
index f2c0fc8..11ff6e8 100644
--- a/src/libeopsi/sha.hpp
+++ b/src/libeopsi/sha.hpp
@@ -99,7 +99,7 @@ public:
   }
   
   virtual std::string name() const {
-    return "SHA" + this->flavour;
+    return "SHA" + std::to_string(this->flavour);
   }
 };
 //-----------------------------------------------------------------------------
-- 
2.43.0


From edc9b076fc23189c13a221a476e0120f69412185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 13/25] fix: keep all generated bits in ZZPRF when no bit
 length is asked (shift by 8 or more)

---
 src/libeopsi/zzprf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libeopsi/zzprf.cpp b/src/libeopsi/zzprf.cpp
index a87346c..b5c541d 100644
--- a/src/libeopsi/zzprf.cpp
+++ b/src/libeopsi/zzprf.cpp
@@ -100,7 +100,7 @@ NTL::ZZ ZZPRF::generate(const NTL::ZZ seed, const size_t index, const size_t bit
   } while (r > 0);
   
   // Cut bits
-  rbits = n*8 - bits;
+  rbits = (bits == 0) ? 0 : n*8 - bits;
 //   std::cerr << (int) (gen[0]) << " -> ";
 //   gen[n - 1] = (gen[n - 1] << rbits) >> rbits; // This does not work --- bug?
   // [[WARNING]] the right order of these might be endian dependend
-- 
2.43.0


From 30054b929e550c07d44e112296ce79ea4946e5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 14/25] fix: stop in readableDigest when memory is exhausted
 instead of using an unset pointer

---
 src/libeopsi/hashalgorithm.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libeopsi/hashalgorithm.hpp b/src/libeopsi/hashalgorithm.hpp
index ef8df6b..7f509f6 100644
--- a/src/libeopsi/hashalgorithm.hpp
+++ b/src/libeopsi/hashalgorithm.hpp
@@ -52,6 +52,7 @@ public:
       stringSink = new CryptoPP::StringSink(output);
     } catch(std::bad_alloc&) {
       std::cerr << "readableHash(). Unable to allocate memory." << std::endl;
+      exit(2);
     }
     
     encoder.Attach(stringSink);
-- 
2.43.0


From 73ae3b372f431ea8515041c42a009401d4f0856a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 15/25] fix: initialise rawDataBits in EOPSIClient

---
 src/libeopsi/eopsiclient.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libeopsi/eopsiclient.cpp b/src/libeopsi/eopsiclient.cpp
index 9c11e29..ddb897b 100644
--- a/src/libeopsi/eopsiclient.cpp
+++ b/src/libeopsi/eopsiclient.cpp
@@ -33,6 +33,7 @@ static void polEval(NTL::vec_ZZ_p *evaluations, NTL::ZZ_pX *polynomials, NTL::ve
 EOPSIClient::EOPSIClient(HashBuckets<NTL::ZZ_p>& hashBuckets, const NTL::ZZ fieldsize, const size_t length, const size_t height, const size_t degree, const std::string id, const NTL::ZZ secret) : EOPSIParty(EOPSI_PARTY_CLIENT, fieldsize, length, height, degree, id) {
   this->rawData = nullptr;
   this->rawDataSize = 0;
+  this->rawDataBits = 0;
   this->blindedData = nullptr;
   this->hashBuckets = &hashBuckets;
   this->setSecret(secret);
-- 
2.43.0


From 9985529346775418bf127bd668de976eb7ca3cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 16/25] fix: keep ZZpPolynomials factor pairs in step with its
 polynomials

---
 src/libeopsi/zzppoly.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libeopsi/zzppoly.cpp b/src/libeopsi/zzppoly.cpp
index af57719..c7ca2ce 100644
--- a/src/libeopsi/zzppoly.cpp
+++ b/src/libeopsi/zzppoly.cpp
@@ -70,6 +70,10 @@ void ZZpPolynomials::interpolate(NTL::vec_ZZ_p& x, NTL::vec_ZZ_p *y, const size_
       }
       
       this->polynomials = new NTL::ZZ_pX[n];
+      
+      // Any factorisation is about the previous polynomials
+      delete [] this->factorPairs;
+      this->factorPairs = nullptr;
     } catch (std::bad_alloc &) {
       std::cerr << "interpolate(). Error allocating memory." << std::endl;
       exit(2);
@@ -178,7 +182,7 @@ NTL::vec_ZZ& ZZpPolynomials::findIntersection(NTL::vec_ZZ_p& x, NTL::vec_ZZ_p *y
       break;
   }
   
-  if (this->n != n) {
+  if (this->n != n || this->factorPairs == nullptr) {
     try {
       if (this->polynomials != nullptr) {
         delete [] this->polynomials;
-- 
2.43.0


From 67a9b87c1e2cb1777026ac28f8488d65e390b5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 17/25] fix: give copies of SHA, PseudoRandom and ZZPRF their
 own resources

---
 src/libeopsi/prf.hpp   | 16 ++++++++++++++++
 src/libeopsi/sha.hpp   | 16 ++++++++++++++++
 src/libeopsi/zzprf.cpp | 16 ++++++++++++++++
 src/libeopsi/zzprf.h   |  2 ++
 4 files changed, 50 insertions(+)

diff --git a/src/libeopsi/prf.hpp b/src/libeopsi/prf.hpp
index 7e5b22d..5422ed5 100644
--- a/src/libeopsi/prf.hpp
+++ b/src/libeopsi/prf.hpp
@@ -35,6 +35,22 @@ public:
     this->autoSeedPtr = nullptr;
   };
   
+  /**
+   * Copies refer to their own seed, never to the seed of the original.
+   */
+  PseudoRandom(const PseudoRandom& other) {
+    this->autoSeedPtr = nullptr;
+    *this = other;
+  }
+  
+  PseudoRandom& operator=(const PseudoRandom& other) {
+    this->hashAlgorithm = other.hashAlgorithm;
+    this->autoIndex = other.autoIndex;
+    this->autoSeed = other.autoSeed;
+    this->autoSeedPtr = (other.autoSeedPtr == nullptr) ? nullptr : &this->autoSeed;
+    return *this;
+  }
+  
   /**
    * Destructor.
    */
diff --git a/src/libeopsi/sha.hpp b/src/libeopsi/sha.hpp
index 11ff6e8..9d11213 100644
--- a/src/libeopsi/sha.hpp
+++ b/src/libeopsi/sha.hpp
@@ -78,6 +78,22 @@ public:
     this->setFlavour(flavour);
   }
   
+  /**
+   * Copies own their hash transformation and their cache.
+   */
+  SHA(const SHA& other) : HashAlgorithm<T>(other) {
+    this->sha = nullptr;
+    this->lastHash = nullptr;
+    this->setFlavour(other.flavour);
+  }
+  
+  SHA& operator=(const SHA& other) {
+    if (this != &other) {
+      this->setFlavour(other.flavour);
+    }
+    return *this;
+  }
+  
   ~SHA() {
     if (this->sha != nullptr) {
       delete this->sha;
diff --git a/src/libeopsi/zzprf.cpp b/src/libeopsi/zzprf.cpp
index b5c541d..7d2654e 100644
--- a/src/libeopsi/zzprf.cpp
+++ b/src/libeopsi/zzprf.cpp
@@ -19,6 +19,22 @@ ZZPRF::ZZPRF() : PseudoRandom() {
 }
 //-----------------------------------------------------------------------------
 
+ZZPRF::ZZPRF(const ZZPRF& other) : PseudoRandom(other), hashAlgorithm(other.hashAlgorithm) {
+  // Buffers are not shared, each generator allocates its own on demand
+  hashInputSize = 0;
+  genLength = 0;
+  gen = nullptr;
+  hashInput = nullptr;
+}
+//-----------------------------------------------------------------------------
+
+ZZPRF& ZZPRF::operator=(const ZZPRF& other) {
+  PseudoRandom::operator=(other);
+  this->hashAlgorithm = other.hashAlgorithm;
+  return *this;
+}
+//-----------------------------------------------------------------------------
+
 ZZPRF::~ZZPRF() {
   if (gen != nullptr) {
     delete [] gen;
diff --git a/src/libeopsi/zzprf.h b/src/libeopsi/zzprf.h
index 46629cb..30a7e3e 100644
--- a/src/libeopsi/zzprf.h
+++ b/src/libeopsi/zzprf.h
@@ -32,6 +32,8 @@ protected:
   
 public:
   ZZPRF();
+  ZZPRF(const ZZPRF& other);
+  ZZPRF& operator=(const ZZPRF& other);
   virtual ~ZZPRF();
   
   virtual NTL::ZZ generate(const NTL::ZZ seed, const size_t index, const size_t bits = 0);
-- 
2.43.0


From a3c66d001f7b68873810c36945d762287b4f5844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 18/25] fix: forbid copies that would release the same memory
 twice

---
 src/libeopsi/eopsiclient.h   | 2 ++
 src/libeopsi/hashbuckets.hpp | 2 ++
 src/libeopsi/strint.h        | 2 ++
 src/libeopsi/zzppoly.h       | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/src/libeopsi/eopsiclient.h b/src/libeopsi/eopsiclient.h
index e974a1d..73ca8f6 100644
--- a/src/libeopsi/eopsiclient.h
+++ b/src/libeopsi/eopsiclient.h
@@ -40,6 +40,8 @@ protected:
 public:
   EOPSIClient(HashBuckets<NTL::ZZ_p>& hashBuckets, const NTL::ZZ fieldsize, const size_t length, const size_t height, const size_t degree, const std::string id = "", const NTL::ZZ secret = NTL::ZZFromBytes((byte *)"Topsy Kretts", 12L));
   EOPSIClient(HashBuckets<NTL::ZZ_p>& hashBuckets, const NTL::ZZ fieldsize, const size_t length, const size_t height, const size_t degree, const std::string id = "", const byte *secret = nullptr, const size_t secretLen = 0);
+  EOPSIClient(const EOPSIClient& other) = delete;
+  EOPSIClient& operator=(const EOPSIClient& other) = delete;
   virtual ~EOPSIClient();
   
   virtual void receive(EOPSIMessage* msg);
diff --git a/src/libeopsi/hashbuckets.hpp b/src/libeopsi/hashbuckets.hpp
index 442122e..c460799 100644
--- a/src/libeopsi/hashbuckets.hpp
+++ b/src/libeopsi/hashbuckets.hpp
@@ -41,6 +41,8 @@ public:
    * @param maxLoad The maximum number of elements for each bucket.
    */
   HashBuckets(size_t length, size_t maxLoad, const HashAlgorithm<T>* hashAlgorithm = nullptr);
+  HashBuckets(const HashBuckets& other) = delete;
+  HashBuckets& operator=(const HashBuckets& other) = delete;
   virtual ~HashBuckets();
   
   /**
diff --git a/src/libeopsi/strint.h b/src/libeopsi/strint.h
index 17f7d74..c8bbdcc 100644
--- a/src/libeopsi/strint.h
+++ b/src/libeopsi/strint.h
@@ -42,6 +42,8 @@ public:
    * @param dim The number of bytes in the string to read.
    */
   StrInt(const size_t bytes, const byte *n = nullptr, const size_t dim = 0);
+  StrInt(const StrInt& other) = delete;
+  StrInt& operator=(const StrInt& other) = delete;
   virtual ~StrInt();
   
   /**
diff --git a/src/libeopsi/zzppoly.h b/src/libeopsi/zzppoly.h
index c3d1198..ab30e55 100644
--- a/src/libeopsi/zzppoly.h
+++ b/src/libeopsi/zzppoly.h
@@ -53,6 +53,8 @@ public:
    * @param padsize the pad size to validate intersection elements
    */
   ZZpPolynomials(const size_t padsize);
+  ZZpPolynomials(const ZZpPolynomials& other) = delete;
+  ZZpPolynomials& operator=(const ZZpPolynomials& other) = delete;
   
   /**
    * Destructor.
-- 
2.43.0


From 75d1bf3a30c20850245f83819e4904ddfd8bdb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 19/25] fix: count bytes, not bits, in StrInt::getByteSize and
 size toBytes accordingly

---
 src/libeopsi/strint.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/libeopsi/strint.cpp b/src/libeopsi/strint.cpp
index e3c2761..7809185 100644
--- a/src/libeopsi/strint.cpp
+++ b/src/libeopsi/strint.cpp
@@ -140,7 +140,9 @@ byte* StrInt::toBytes(byte *barr, size_t* bytelen) const {
   const int BIG_ENDIANNESS = 1;
   const size_t LEN = this->getByteSize();
   
-  if ((barr != NULL) && (bytelen != NULL) && (*bytelen != LEN)) {
+  size_t count = 0;
+  
+  if ((barr == NULL) || (bytelen == NULL) || (*bytelen < LEN)) {
     try {
       barr = new byte[LEN];
     } catch (std::bad_alloc&) {
@@ -148,29 +150,32 @@ byte* StrInt::toBytes(byte *barr, size_t* bytelen) const {
       exit(2);
     }
   }
-  mpz_export((void *) barr, bytelen, MSB_FIRST, sizeof(byte), BIG_ENDIANNESS, 0, this->z);
+  mpz_export((void *) barr, &count, MSB_FIRST, sizeof(byte), BIG_ENDIANNESS, 0, this->z);
   
   /*
    * If this->z is zero then the count returned will be zero and nothing 
-   * written to barr. If barr is NULL in this case, no block is allocated, 
-   * just NULL is returned. 
+   * written to barr.
    */
-  if (*bytelen == 0 && LEN == 1) {
+  if (count == 0 && LEN == 1) {
     barr[0] = '\0';
-    *bytelen = 1;
+    count = 1;
   }
   
-  if (*bytelen != LEN) {
+  if (count != LEN) {
     std::cerr << "toBytes(). Something unexpected happened in conversion." << std::endl;
     exit(2);
   }
   
+  if (bytelen != NULL) {
+    *bytelen = count;
+  }
+  
   return barr;
 }
 //-----------------------------------------------------------------------------
 
 size_t StrInt::getByteSize() const {
-  return (mpz_sizeinbase(this->z, 2) + sizeof(byte) - 1)/sizeof(byte);
+  return (mpz_sizeinbase(this->z, 2) + 7)/8;
 }
 //-----------------------------------------------------------------------------
 
-- 
2.43.0


From 75857e36b2ea0a9e6a208acef954f4cc584004d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 20/25] fix: read StrInt::lsb from the number itself; setting
 no bytes is setting zero

---
 src/libeopsi/strint.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/libeopsi/strint.cpp b/src/libeopsi/strint.cpp
index 7809185..57259e2 100644
--- a/src/libeopsi/strint.cpp
+++ b/src/libeopsi/strint.cpp
@@ -103,7 +103,11 @@ void StrInt::set(const byte *n, const size_t len) {
   }
   
   // Save to z
-  mpz_set(z, b[0]);
+  if (dim == 0) {
+    mpz_set_ui(z, 0);
+  } else {
+    mpz_set(z, b[0]);
+  }
 }
 //-----------------------------------------------------------------------------
 
@@ -113,7 +117,7 @@ unsigned long StrInt::rem(const unsigned long divisor) const {
 //-----------------------------------------------------------------------------
 
 unsigned long StrInt::lsb() const {
-  return mpz_fdiv_ui(b[0], (unsigned long) (-1L));
+  return mpz_get_ui(z);
 }
 //-----------------------------------------------------------------------------
 
-- 
2.43.0


From 4da2bdb4502389a0f5188f9412869aefdd060c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 21/25] fix: SimpleBenchmark::benchmark needs two times to give
 an interval

---
 src/libeopsi/simplebm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libeopsi/simplebm.cpp b/src/libeopsi/simplebm.cpp
index 370c493..b182908 100644
--- a/src/libeopsi/simplebm.cpp
+++ b/src/libeopsi/simplebm.cpp
@@ -209,7 +209,7 @@ bool SimpleBenchmark::isStopped() const {
 //-----------------------------------------------------------------------------
 
 std::chrono::microseconds SimpleBenchmark::benchmark(const size_t cursor) const {
-  if (cursor >= this->times.size()) {
+  if (cursor >= this->times.size() || this->times.size() < 2) {
     return SimpleBenchmark::ZEROMS;
   }
   
-- 
2.43.0


From 99720b90511c378fda1c9f301b46df30100f32e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 22/25] fix: let SimpleBenchmark statistics include pauses when
 asked and need an interval otherwise

---
 src/libeopsi/simplebm.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/libeopsi/simplebm.cpp b/src/libeopsi/simplebm.cpp
index b182908..b236d5c 100644
--- a/src/libeopsi/simplebm.cpp
+++ b/src/libeopsi/simplebm.cpp
@@ -83,7 +83,7 @@ std::chrono::microseconds SimpleBenchmark::minOrMax(const bool giveMax, const bo
   
   min = max = currentInterval = ZEROMS;
   
-  if ((this->times.size() < 2) || (!noPauses && (this->countNotPausedTimes(this->times.size(), 0) < 2))) {
+  if ((this->times.size() < 2) || (noPauses && (this->countNotPausedTimes(1, this->times.size()) < 1))) {
     std::cerr << "minOrMax(). No intervals taken." << std::endl;
     return ZEROMS;
   }
@@ -252,14 +252,14 @@ std::chrono::microseconds SimpleBenchmark::cumulativeBenchmark(const std::string
 //-----------------------------------------------------------------------------
 
 double SimpleBenchmark::average(const bool noPauses) const {
-  if ((this->times.size() < 2) || (!noPauses && (this->countNotPausedTimes(this->times.size(), 0) < 2))) {
+  if ((this->times.size() < 2) || (noPauses && (this->countNotPausedTimes(1, this->times.size()) < 1))) {
     std::cerr << "average(). Not enough points to average." << std::endl;
     return 0.;
   }
   if (noPauses) {
     return this->cumulativeBenchmark(false).count() / (double) this->countNotPausedTimes(1, this->times.size());
   } else {
-    return this->cumulativeBenchmark().count() / (double) (this->times.size() - 1);
+    return this->cumulativeBenchmark((size_t) 0, false).count() / (double) (this->times.size() - 1);
   }
 }
 //-----------------------------------------------------------------------------
@@ -269,16 +269,16 @@ double SimpleBenchmark::variance(const bool noPauses) const {
   size_t n;
   unsigned long x;
   
-  if ((this->times.size() < 2) || (!noPauses && (this->countNotPausedTimes(this->times.size(), 0) < 2))) {
+  if ((this->times.size() < 2) || (noPauses && (this->countNotPausedTimes(1, this->times.size()) < 1))) {
     std::cerr << "variance(). Not enough points to compute variance." << std::endl;
     return 0.;
   }
   
   avg = this->average(noPauses);
-  n = this->times.size() - 1;
+  n = noPauses ? this->countNotPausedTimes(1, this->times.size()) : this->times.size() - 1;
   var = 0.;
   for (size_t i = 1; i < this->times.size(); i++) {
-    if (noPauses && !this->pauses[i]) {
+    if (!noPauses || !this->pauses[i]) {
       x = std::chrono::duration_cast<std::chrono::microseconds>(this->times[i] - this->times[i - 1]).count();
       diff = x > avg ? x - avg : avg - x;
       var += diff/n*diff;
@@ -290,7 +290,7 @@ double SimpleBenchmark::variance(const bool noPauses) const {
 //-----------------------------------------------------------------------------
 
 double SimpleBenchmark::standardDeviation(const bool noPauses) const {
-  if ((this->times.size() < 2) || (!noPauses && (this->countNotPausedTimes(this->times.size(), 0) < 2))) {
+  if ((this->times.size() < 2) || (noPauses && (this->countNotPausedTimes(1, this->times.size()) < 1))) {
     std::cerr << "standardDeviation(). Not enough points to compute standard deviation." << std::endl;
     return 0.;
   }
@@ -300,7 +300,7 @@ double SimpleBenchmark::standardDeviation(const bool noPauses) const {
 //-----------------------------------------------------------------------------
 
 std::chrono::microseconds SimpleBenchmark::max(const bool noPauses) const {
-  if ((this->times.size() < 2) || (!noPauses && (this->countNotPausedTimes(this->times.size(), 0) < 2))) {
+  if ((this->times.size() < 2) || (noPauses && (this->countNotPausedTimes(1, this->times.size()) < 1))) {
     std::cerr << "max(). No intervals taken." << std::endl;
     return ZEROMS;
   }
@@ -310,7 +310,7 @@ std::chrono::microseconds SimpleBenchmark::max(const bool noPauses) const {
 //-----------------------------------------------------------------------------
 
 std::chrono::microseconds SimpleBenchmark::min(const bool noPauses) const {
-  if ((this->times.size() < 2) || (!noPauses && (this->countNotPausedTimes(this->times.size(), 0) < 2))) {
+  if ((this->times.size() < 2) || (noPauses && (this->countNotPausedTimes(1, this->times.size()) < 1))) {
     std::cerr << "min(). No intervals taken." << std::endl;
     return ZEROMS;
   }
-- 
2.43.0


From 79ecbd11328ab73c5631857b8b60957a9a9b4a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:46 +0000
Subject: [PATCH 23/25] fix: changing a party's field or degree left its
 generator and points behind

A client's mask generator kept the field given at construction, and public
points generated for the previous field or degree stayed cached.
---
 src/libeopsi/eopsiclient.cpp | 6 ++++++
 src/libeopsi/eopsiclient.h   | 2 ++
 src/libeopsi/eopsiparty.cpp  | 2 ++
 src/libeopsi/eopsiparty.h    | 2 +-
 4 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/libeopsi/eopsiclient.cpp b/src/libeopsi/eopsiclient.cpp
index ddb897b..cb4a5e2 100644
--- a/src/libeopsi/eopsiclient.cpp
+++ b/src/libeopsi/eopsiclient.cpp
@@ -277,6 +277,12 @@ void EOPSIClient::setRawData(NTL::ZZ *rawData, const size_t size, const size_t d
 }
 //-----------------------------------------------------------------------------
 
+void EOPSIClient::setFieldsize(const NTL::ZZ fieldsize) {
+  EOPSIParty::setFieldsize(fieldsize);
+  this->zzpprf->setModulo(fieldsize);
+}
+//-----------------------------------------------------------------------------
+
 NTL::ZZ * EOPSIClient::getRawData() const {
   return this->rawData;
 }
diff --git a/src/libeopsi/eopsiclient.h b/src/libeopsi/eopsiclient.h
index 73ca8f6..a2725dc 100644
--- a/src/libeopsi/eopsiclient.h
+++ b/src/libeopsi/eopsiclient.h
@@ -54,6 +54,8 @@ public:
   virtual size_t getBlindedDataSize() const;
   virtual NTL::vec_ZZ getIntersection() const;
   
+  virtual void setFieldsize(const NTL::ZZ fieldsize);
+  
   virtual void setSecret(const NTL::ZZ secret);
   virtual NTL::ZZ getSecret() const;
 };
diff --git a/src/libeopsi/eopsiparty.cpp b/src/libeopsi/eopsiparty.cpp
index 5087248..e15a5d6 100644
--- a/src/libeopsi/eopsiparty.cpp
+++ b/src/libeopsi/eopsiparty.cpp
@@ -147,6 +147,7 @@ std::string EOPSIParty::getId() const {
 void EOPSIParty::setFieldsize(const NTL::ZZ fieldsize) {
   this->fieldsize = fieldsize;
   this->fieldbitsize = NTL::NumBits(this->fieldsize);
+  this->unknowns.kill(); // they belong to the previous field
 }
 //-----------------------------------------------------------------------------
 
@@ -157,6 +158,7 @@ NTL::ZZ EOPSIParty::getFieldsize() const {
 
 void EOPSIParty::setDegree(const size_t degree) {
   this->degree = degree;
+  this->unknowns.kill(); // there are as many as the degree
 }
 //-----------------------------------------------------------------------------
 
diff --git a/src/libeopsi/eopsiparty.h b/src/libeopsi/eopsiparty.h
index b265d5c..9c8745a 100644
--- a/src/libeopsi/eopsiparty.h
+++ b/src/libeopsi/eopsiparty.h
@@ -61,7 +61,7 @@ public:
   virtual void setId(const std::string id);
   virtual std::string getId() const;
   
-  void setFieldsize(const NTL::ZZ fieldsize);
+  virtual void setFieldsize(const NTL::ZZ fieldsize);
   virtual NTL::ZZ getFieldsize() const;
   
   void setDegree(const size_t degree);
-- 
2.43.0


From 1c3d3a94fd9ca45ee9513643ec8beefda551f867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:25 +0000
Subject: [PATCH 24/25] fix: forget factor pairs whenever polynomials are
 interpolated anew

---
 src/libeopsi/zzppoly.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libeopsi/zzppoly.cpp b/src/libeopsi/zzppoly.cpp
index c7ca2ce..2c867f0 100644
--- a/src/libeopsi/zzppoly.cpp
+++ b/src/libeopsi/zzppoly.cpp
@@ -70,16 +70,16 @@ void ZZpPolynomials::interpolate(NTL::vec_ZZ_p& x, NTL::vec_ZZ_p *y, const size_
       }
       
       this->polynomials = new NTL::ZZ_pX[n];
-      
-      // Any factorisation is about the previous polynomials
-      delete [] this->factorPairs;
-      this->factorPairs = nullptr;
     } catch (std::bad_alloc &) {
       std::cerr << "interpolate(). Error allocating memory." << std::endl;
       exit(2);
     }
   }
   
+  // Any factorisation is about the previous polynomials
+  delete [] this->factorPairs;
+  this->factorPairs = nullptr;
+  
   this->n = n;
   for (size_t j = 0; j < n; j++) {
 //     std::cout << "\t------------" << std::endl;
-- 
2.43.0


From 507250b152053216e277f86b6884e1939ea480aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:22 +0000
Subject: [PATCH 25/25] fix: keep the fractions of the differences when
 printStats computes the variance

---
 src/libeopsi/hashbuckets.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libeopsi/hashbuckets.hpp b/src/libeopsi/hashbuckets.hpp
index c460799..5568406 100644
--- a/src/libeopsi/hashbuckets.hpp
+++ b/src/libeopsi/hashbuckets.hpp
@@ -185,8 +185,8 @@ template <typename T> size_t HashBuckets<T>::getMaxLoad() const {
 //-----------------------------------------------------------------------------
 
 template <typename T> void HashBuckets<T>::printStats(bool full) const {
-  size_t minSize, minBucket, maxSize, maxBucket, total, diff, nshow;
-  double avgSize, varSize;
+  size_t minSize, minBucket, maxSize, maxBucket, total, nshow;
+  double avgSize, varSize, diff;
   
   // Integer stuff
   total = minSize = maxSize = this->buckets[0].size();
-- 
2.43.0

