From 99bd10a7a433ee3d686acdcb0ed1973ab7397bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:52 +0000
Subject: [PATCH 01/23] fix: Hash::put hashes buffered bytes before a large
 chunk

---
 emp-tool/utils/hash.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/emp-tool/utils/hash.h b/emp-tool/utils/hash.h
index 9f287a3..eebf266 100644
--- a/emp-tool/utils/hash.h
+++ b/emp-tool/utils/hash.h
@@ -23,9 +23,12 @@ class Hash { public:
 		EVP_MD_CTX_destroy(mdctx);
 	}
 	void put(const void * data, int nbyte) {
-		if (nbyte >= HASH_BUFFER_SIZE)
+		if (nbyte >= HASH_BUFFER_SIZE) {
+			// bytes put earlier come first
+			EVP_DigestUpdate(mdctx, buffer, size);
+			size = 0;
 			EVP_DigestUpdate(mdctx, data, nbyte);
-		else if(size + nbyte < HASH_BUFFER_SIZE) {
+		} else if(size + nbyte < HASH_BUFFER_SIZE) {
 			memcpy(buffer+size, data, nbyte);
 			size+=nbyte;
 		} else {
-- 
2.43.0


From 40cd1e013fc1c24b3eeebfc42cdc0561656e8151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:52 +0000
Subject: [PATCH 02/23] fix: PRG::reseed drops values buffered from the
 previous seed

---
 emp-tool/utils/prg.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emp-tool/utils/prg.h b/emp-tool/utils/prg.h
index 5c1dba1..7c357ca 100644
--- a/emp-tool/utils/prg.h
+++ b/emp-tool/utils/prg.h
@@ -52,6 +52,7 @@ class PRG { public:
 		key = v;
 		AES_set_encrypt_key(v, &aes);
 		counter = 0;
+		ptr = 32; // drop values buffered under the previous seed
 	}
 
 	void random_data(void *data, int nbytes) {
-- 
2.43.0


From 21bca869b162b62937e41a5fdb87b2a2e9c88cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:52 +0000
Subject: [PATCH 03/23] fix: random_data_unaligned consumes the same blocks at
 every alignment

---
 emp-tool/utils/prg.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emp-tool/utils/prg.h b/emp-tool/utils/prg.h
index 7c357ca..946d73b 100644
--- a/emp-tool/utils/prg.h
+++ b/emp-tool/utils/prg.h
@@ -103,8 +103,9 @@ class PRG { public:
                 remaining_bytes -= bytes_to_copy;
             }
         } else {
+            // at most 30 bytes; use as many blocks as the aligned path does
             block tmp[2];
-            random_block(tmp, 2);
+            random_block(tmp, (nbytes + 15) / 16);
             memcpy(data, tmp, nbytes);
         }
     }
-- 
2.43.0


From c69d1732d560c9cd35a62de7e6e80eafdec8bcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:52 +0000
Subject: [PATCH 04/23] fix: PRP(const char*) sets the AES key it is given

---
 emp-tool/utils/prp.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emp-tool/utils/prp.h b/emp-tool/utils/prp.h
index 08db0da..0ee4d5f 100644
--- a/emp-tool/utils/prp.h
+++ b/emp-tool/utils/prp.h
@@ -18,6 +18,8 @@ class PRP { public:
 	PRP(const char * key = nullptr) {
 		if(key == nullptr)
 			aes_set_key(zero_block);
+		else
+			aes_set_key(_mm_loadu_si128((const block *)key));
 	}
 
 	PRP(const block& key) {
-- 
2.43.0


From 0cb9e124cc41fb7eb9c2cf56dac026ba992a5c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:52 +0000
Subject: [PATCH 05/23] fix: MITCCRH::hash renews keys when fewer than K are
 left

---
 emp-tool/utils/mitccrh.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emp-tool/utils/mitccrh.h b/emp-tool/utils/mitccrh.h
index 8164e85..0387765 100644
--- a/emp-tool/utils/mitccrh.h
+++ b/emp-tool/utils/mitccrh.h
@@ -45,7 +45,7 @@ class MITCCRH { public:
 	void hash(block * blks) {
 		assert(K <= BatchSize);
 		assert(BatchSize % K == 0);
-		if(key_used == BatchSize) renew_ks();
+		if(key_used + K > BatchSize) renew_ks();
 
 		block tmp[K*H];
 		for(int i = 0; i < K*H; ++i)
-- 
2.43.0


From 174d77319966da6c9e963cd50da255bdcd4c1d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:52 +0000
Subject: [PATCH 06/23] fix: to_bool/from_bool stay inside the array when
 reversed

---
 emp-tool/utils/utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emp-tool/utils/utils.hpp b/emp-tool/utils/utils.hpp
index 13e2cef..e5e730f 100644
--- a/emp-tool/utils/utils.hpp
+++ b/emp-tool/utils/utils.hpp
@@ -58,7 +58,7 @@ inline void int_to_bool(bool * data, T input, int len) {
 template<typename T>
 inline void to_bool(bool * data, const T * input, const int len, const bool reverse) {
 	for (int i = 0; i < len; ++i) {
-		data[reverse ? len - i : i] = (bool) ((((uint8_t *) input)[i / 8] & (((uint8_t) 1) << (i % 8))) != 0);
+		data[reverse ? len - 1 - i : i] = (bool) ((((uint8_t *) input)[i / 8] & (((uint8_t) 1) << (i % 8))) != 0);
 	}
 }
 
@@ -70,7 +70,7 @@ template<typename T>
 inline void from_bool(const bool * data, T * output, const int len, const bool reverse) {
 	for (int i = 0; i < len; ++i) {
     ((uint8_t *) output)[i / 8] &= (~(((uint8_t) 1) << (i % 8))); // sets bit to 0
-    ((uint8_t *) output)[i / 8] |= (((uint8_t) data[reverse ? len - i : i]) << (i % 8)); // sets bit to bool[i]
+    ((uint8_t *) output)[i / 8] |= (((uint8_t) data[reverse ? len - 1 - i : i]) << (i % 8)); // sets bit to bool[i]
 	}
 }
 
-- 
2.43.0


From 45a69aff5d986f92b6cd6517096913b181432a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:52 +0000
Subject: [PATCH 07/23] fix: send_bool/recv_bool agree when the two buffers are
 aligned differently

---
 emp-tool/io/io_channel.h | 24 ++++--------------------
 1 file changed, 4 insertions(+), 20 deletions(-)

diff --git a/emp-tool/io/io_channel.h b/emp-tool/io/io_channel.h
index 66d7750..415c2e7 100644
--- a/emp-tool/io/io_channel.h
+++ b/emp-tool/io/io_channel.h
@@ -51,29 +51,13 @@ class IOChannel { public:
 	}	
 
 	void send_bool(bool * data, size_t length) {
-		void * ptr = (void *)data;
-		size_t space = length;
-		const void * aligned = std::align(alignof(uint64_t), sizeof(uint64_t), ptr, space);
-		if(aligned == nullptr)
-			send_data(data, length);
-		else{
-			size_t diff = length - space;
-			send_data(data, diff);
-			send_bool_aligned((const bool*)aligned, length - diff);
-		}
+		// the encoding must not depend on where data lies in this process:
+		// the peer's buffer may be aligned differently
+		send_bool_aligned(data, length);
 	}
 
 	void recv_bool(bool * data, size_t length) {
-		void * ptr = (void *)data;
-		size_t space = length;
-		void * aligned = std::align(alignof(uint64_t), sizeof(uint64_t), ptr, space);
-		if(aligned == nullptr)
-			recv_data(data, length);
-		else{
-			size_t diff = length - space;
-			recv_data(data, diff);
-			recv_bool_aligned((bool*)aligned, length - diff);
-		}
+		recv_bool_aligned(data, length);
 	}
 
 
-- 
2.43.0


From c2ec220f1fd5fcd5aa9d8dc90f55778e97fb26c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:52 +0000
Subject: [PATCH 08/23] fix: MemIO::clear also resets the read position

---
 emp-tool/io/mem_io_channel.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emp-tool/io/mem_io_channel.h b/emp-tool/io/mem_io_channel.h
index 48f1a00..aa61624 100644
--- a/emp-tool/io/mem_io_channel.h
+++ b/emp-tool/io/mem_io_channel.h
@@ -31,6 +31,7 @@ class MemIO: public IOChannel<MemIO> { public:
 	}
 	void clear() {
 		size = 0;
+		read_pos = 0;
 	}
 	void send_data_internal(const void * data, int64_t len) {
 		if(size + len >= cap){
-- 
2.43.0


From 4bed83dc82ceaaff7a4f16d6052013d61171e3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:52 +0000
Subject: [PATCH 09/23] fix: FileIO reports end of file and write errors
 instead of spinning

---
 emp-tool/io/file_io_channel.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/emp-tool/io/file_io_channel.h b/emp-tool/io/file_io_channel.h
index 173f78a..7b5807a 100644
--- a/emp-tool/io/file_io_channel.h
+++ b/emp-tool/io/file_io_channel.h
@@ -38,20 +38,20 @@ class FileIO: public IOChannel<FileIO> { public:
 		int sent = 0;
 		while(sent < len) {
 			int res = fwrite(sent+(char*)data, 1, len-sent, stream);
-			if (res >= 0)
+			if (res > 0)
 				sent+=res;
 			else
-				fprintf(stderr,"error: file_send_data %d\n", res);
+				error("file_send_data\n");
 		}
 	}
 	void recv_data_internal(void  * data, int len) {
 		int sent = 0;
 		while(sent < len) {
 			int res = fread(sent+(char*)data, 1, len-sent, stream);
-			if (res >= 0)
+			if (res > 0)
 				sent+=res;
-			else 
-				fprintf(stderr,"error: file_recv_data %d\n", res);
+			else
+				error("file_recv_data\n");
 		}
 	}
 };
-- 
2.43.0


From 84bbed202b9e9230507e15bc05a8bb9f5b02350f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:52 +0000
Subject: [PATCH 10/23] fix: HighSpeedNetIO reports a lost connection instead
 of spinning

---
 emp-tool/io/highspeed_net_io_channel.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/emp-tool/io/highspeed_net_io_channel.h b/emp-tool/io/highspeed_net_io_channel.h
index 4400bad..eb4872a 100644
--- a/emp-tool/io/highspeed_net_io_channel.h
+++ b/emp-tool/io/highspeed_net_io_channel.h
@@ -70,10 +70,10 @@ class SenderSubChannel : public SubChannel { public:
 		int sent = 0;
 		while (sent < len) {
 			int res = fwrite(sent + (char *)data, 1, len - sent, stream);
-			if (res >= 0)
+			if (res > 0)
 				sent += res;
 			else
-				fprintf(stderr, "error: net_send_data %d\n", res);
+				error("net_send_data\n");
 		}
 	}
 };
@@ -113,10 +113,10 @@ class RecverSubChannel : public SubChannel { public:
 		int sent = 0;
 		while (sent < len) {
 			int res = fread(sent + (char *)data, 1, len - sent, stream);
-			if (res >= 0)
+			if (res > 0)
 				sent += res;
 			else
-				fprintf(stderr, "error: net_send_data %d\n", res);
+				error("net_recv_data\n");
 		}
 	}
 };
-- 
2.43.0


From b1df93a19f64a0a818a2c2744b4b939d03f7a48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:52 +0000
Subject: [PATCH 11/23] fix: HighSpeedNetIO pads a flush from inside its buffer

---
 emp-tool/io/highspeed_net_io_channel.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emp-tool/io/highspeed_net_io_channel.h b/emp-tool/io/highspeed_net_io_channel.h
index eb4872a..2aad77c 100644
--- a/emp-tool/io/highspeed_net_io_channel.h
+++ b/emp-tool/io/highspeed_net_io_channel.h
@@ -33,6 +33,7 @@ class SubChannel { public:
 		buf = new char[NETWORK_BUFFER_SIZE2];
 		stream = fdopen(sock, "wb+");
 		memset(stream_buf, 0, NETWORK_BUFFER_SIZE);
+		memset(buf, 0, NETWORK_BUFFER_SIZE2);
 		setvbuf(stream, stream_buf, _IOFBF, NETWORK_BUFFER_SIZE);
 	}
 	~SubChannel() {
@@ -49,7 +50,7 @@ class SenderSubChannel : public SubChannel { public:
 		flushes++;
 		send_data_raw(buf, ptr);
 		if (counter % NETWORK_BUFFER_SIZE2 != 0)
-			send_data_raw(buf + ptr, NETWORK_BUFFER_SIZE2 - counter % NETWORK_BUFFER_SIZE2);
+			send_data_raw(buf, NETWORK_BUFFER_SIZE2 - counter % NETWORK_BUFFER_SIZE2);
 		fflush(stream);
 		ptr = 0;
 	}
-- 
2.43.0


From b69ed1d40b7fece1be5098bc7d618947f5628963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:52 +0000
Subject: [PATCH 12/23] fix: HighSpeedNetIO closes each socket once

---
 emp-tool/io/highspeed_net_io_channel.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/emp-tool/io/highspeed_net_io_channel.h b/emp-tool/io/highspeed_net_io_channel.h
index 2aad77c..38582b1 100644
--- a/emp-tool/io/highspeed_net_io_channel.h
+++ b/emp-tool/io/highspeed_net_io_channel.h
@@ -204,10 +204,9 @@ class HighSpeedNetIO : public IOChannel<HighSpeedNetIO> { public:
 			std::cout << "Data Received: \t" << rchannel->counter << "\n";
 			std::cout << "Flushes:\t" << schannel->flushes << "\t" << rchannel->flushes << "\n";
 		}
+		// closes the sockets
 		delete schannel;
 		delete rchannel;
-		close(send_sock);
-		close(recv_sock);
 	}
 
 	void sync() {}
-- 
2.43.0


From 6fe40bf9718a9935e711c93ca9aee1bdd2a95267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:52 +0000
Subject: [PATCH 13/23] fix: NetIO keeps data read ahead when it turns from
 receiving to sending

---
 emp-tool/io/net_io_channel.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/emp-tool/io/net_io_channel.h b/emp-tool/io/net_io_channel.h
index 6566564..01cd670 100644
--- a/emp-tool/io/net_io_channel.h
+++ b/emp-tool/io/net_io_channel.h
@@ -24,7 +24,9 @@ class NetIO: public IOChannel<NetIO> { public:
 	int mysocket = -1;
 	int consocket = -1;
 	FILE * stream = nullptr;
+	FILE * recv_stream = nullptr;
 	char * buffer = nullptr;
+	char * recv_buffer = nullptr;
 	bool has_sent = false;
 	string addr;
 	int port;
@@ -78,10 +80,16 @@ class NetIO: public IOChannel<NetIO> { public:
 			}
 		}
 		set_nodelay();
-		stream = fdopen(consocket, "wb+");
+		// One stream per direction: a socket cannot be repositioned, so a stream
+		// used both ways loses what it has read ahead when it turns to writing.
+		stream = fdopen(consocket, "wb");
 		buffer = new char[NETWORK_BUFFER_SIZE];
 		memset(buffer, 0, NETWORK_BUFFER_SIZE);
 		setvbuf(stream, buffer, _IOFBF, NETWORK_BUFFER_SIZE);
+		recv_stream = fdopen(dup(consocket), "rb");
+		recv_buffer = new char[NETWORK_BUFFER_SIZE];
+		memset(recv_buffer, 0, NETWORK_BUFFER_SIZE);
+		setvbuf(recv_stream, recv_buffer, _IOFBF, NETWORK_BUFFER_SIZE);
 		if(!quiet)
 			std::cout << "connected\n";
 	}
@@ -101,7 +109,9 @@ class NetIO: public IOChannel<NetIO> { public:
 	~NetIO(){
 		flush();
 		fclose(stream);
+		fclose(recv_stream);
 		delete[] buffer;
+		delete[] recv_buffer;
 	}
 
 	void set_nodelay() {
@@ -136,7 +146,7 @@ class NetIO: public IOChannel<NetIO> { public:
 		has_sent = false;
 		size_t sent = 0;
 		while(sent < len) {
-			size_t res = fread(sent + (char*)data, 1, len - sent, stream);
+			size_t res = fread(sent + (char*)data, 1, len - sent, recv_stream);
 			if (res > 0)
 				sent += res;
 			else
-- 
2.43.0


From 5e867e6743c953507adc57ab5314b0b91fe9dce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:53 +0000
Subject: [PATCH 14/23] fix: privacy-free evaluation uses the whole table row

---
 emp-tool/gc/privacy_free_eva.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emp-tool/gc/privacy_free_eva.h b/emp-tool/gc/privacy_free_eva.h
index e239b3e..fce9e2e 100644
--- a/emp-tool/gc/privacy_free_eva.h
+++ b/emp-tool/gc/privacy_free_eva.h
@@ -27,7 +27,7 @@ inline block privacy_free_eval(block A, block B, const block &table, uint64_t id
 	}
 	if (sa) {
 		*((char *) &HA) |= 0x01;
-		W = HA ^ table[0];
+		W = HA ^ table;
 		W = W ^ B;
 	} else {
 		*((char *) &HA) &= 0xfe;
-- 
2.43.0


From 1448dfbdd9512375e6ecb8ec59174ee44079c7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:53 +0000
Subject: [PATCH 15/23] fix: half-gates num_and() counts the AND gates executed

---
 emp-tool/gc/halfgate_eva.h | 3 ++-
 emp-tool/gc/halfgate_gen.h | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/emp-tool/gc/halfgate_eva.h b/emp-tool/gc/halfgate_eva.h
index e79dfcb..2f53db4 100644
--- a/emp-tool/gc/halfgate_eva.h
+++ b/emp-tool/gc/halfgate_eva.h
@@ -58,7 +58,8 @@ public:
 		return xor_gate(a, public_label(true));
 	}
 	uint64_t num_and() override {
-		return mitccrh.gid/2;
+		// keys are made 8 at a time; each AND gate has used two
+		return (mitccrh.gid - (8 - mitccrh.key_used))/2;
 	}
 };
 }
diff --git a/emp-tool/gc/halfgate_gen.h b/emp-tool/gc/halfgate_gen.h
index 7f8837d..f9f2ccc 100644
--- a/emp-tool/gc/halfgate_gen.h
+++ b/emp-tool/gc/halfgate_gen.h
@@ -76,7 +76,8 @@ public:
 		return xor_gate(a, public_label(true));
 	}
 	uint64_t num_and() override {
-		return mitccrh.gid/2;
+		// keys are made 8 at a time; each AND gate has used two
+		return (mitccrh.gid - (8 - mitccrh.key_used))/2;
 	}
 };
 }
-- 
2.43.0


From 8a294e5abb0fac33e26da128860b466ffc316d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:53 +0000
Subject: [PATCH 16/23] fix: AES-CTR counters carry into the upper 64 bits

---
 emp-tool/circuits/aes_128_ctr.h | 38 ++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/emp-tool/circuits/aes_128_ctr.h b/emp-tool/circuits/aes_128_ctr.h
index 6a1f278..9354eee 100644
--- a/emp-tool/circuits/aes_128_ctr.h
+++ b/emp-tool/circuits/aes_128_ctr.h
@@ -23,6 +23,22 @@ extern unsigned char emp_tool_circuits_files_bristol_fashion_aes_128_txt[];
 
 namespace emp {
 
+// Advance a 128-bit big-endian counter by n.
+inline void aes_128_ctr_advance(__m128i * counter, const uint64_t n) {
+	uint8_t * bytes = (uint8_t *) counter;
+	uint64_t count;
+	for(size_t i = 0; i < 8; ++i) {
+		((uint8_t *)(&count))[i] = bytes[15 - i];
+	}
+	count += n;
+	for(size_t i = 0; i < 8; ++i) {
+		bytes[15 - i] = ((uint8_t *)(&count))[i];
+	}
+	if (count < n) { // carry into the upper half
+		for(int i = 7; i >= 0 && ++bytes[i] == 0; --i) ;
+	}
+}
+
 // Calculate the AES_128_CTR encryption of some bytes
 // (length refers to the number of elements of type T in the array "input").
 template<typename T>
@@ -34,16 +50,7 @@ int aes_128_ctr(const __m128i key,
 		const uint64_t start_chunk = 0) {
 	const size_t num_bytes = (input == nullptr) ? length : (length * sizeof(T));
 	__m128i counter = iv;
-	if (start_chunk != 0) { // increment iv, but it's big-endian, so it's funky
-		uint64_t count;
-		for(size_t i = 0; i < 8; ++i) {
-			((uint8_t *)(&count))[i] = ((uint8_t *)(&counter))[15 - i];
-		}
-		count += start_chunk;
-		for(size_t i = 0; i < 8; ++i) {
-			((uint8_t *)(&counter))[15 - i] = ((uint8_t *)(&count))[i];
-		}
-	}
+	aes_128_ctr_advance(&counter, start_chunk);
 	if (input == nullptr && output == nullptr) {
 		std::cerr << "input and output of aes_128_ctr can't both be null pointers\n"<<std::flush;
                 return -1;
@@ -209,16 +216,9 @@ class AES_128_CTR_Calculator { public:
 
 		int answer;
 		__m128i counter = iv;
-		uint64_t count;
-		for(size_t j = 0; j < 8; ++j) {
-			((uint8_t *)(&count))[j] = ((uint8_t *)(&counter))[15 - j];
-		}
-		count += start_chunk;
+		aes_128_ctr_advance(&counter, start_chunk);
 
 		for (uint64_t i = 0; (128 * i) < length; ++i) {
-			for(size_t j = 0; j < 8; ++j) {
-				((uint8_t *)(&counter))[15 - j] = ((uint8_t *)(&count))[j];
-			}
 			answer = this->aes_128_ctr(nullptr,
 					&(emp::Integer(128, &counter, party).bits[0].bit),
 					(input == nullptr ) ? nullptr : &(input[ 128 * i]),
@@ -229,7 +229,7 @@ class AES_128_CTR_Calculator { public:
 			if (answer != 0) {
 				return answer;
 			}
-			++count;
+			aes_128_ctr_advance(&counter, 1);
 		}
 
 		return 0;
-- 
2.43.0


From 94ab9ae8fa7ba1469ff6d6ad80e18fd90d0473fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:53 +0000
Subject: [PATCH 17/23] fix: a generated circuit outputs revealed constants

---
 emp-tool/execution/plain_prot.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/emp-tool/execution/plain_prot.h b/emp-tool/execution/plain_prot.h
index 2330915..f9a164f 100644
--- a/emp-tool/execution/plain_prot.h
+++ b/emp-tool/execution/plain_prot.h
@@ -46,8 +46,11 @@ public:
 	void reveal(bool* b, int party, const block * label, int length) override {
 		for (int i = 0; i < length; ++i) {
 			uint64_t *arr = (uint64_t*) (&label[i]);
-			output_vec.push_back(arr[1]);
 			b[i] = cast_circ_exec->get_value(label[i]);
+			if (cast_circ_exec->is_public(label[i], PUBLIC)) // a constant has no wire
+				output_vec.push_back(b[i] ? -2 : -1);
+			else
+				output_vec.push_back(arr[1]);
 		}
 		n3+=length;
 	}
@@ -64,7 +67,10 @@ inline void finalize_plain_prot () {
 	int64_t z_index = cast_circ_exec->gid++;
 	cast_circ_exec->fout<<2<<" "<<1<<" "<<0<<" "<<0<<" "<<z_index<<" XOR"<<endl;
 	for (auto v : cast_prot_exec->output_vec) {
-		cast_circ_exec->fout<<2<<" "<<1<<" "<<z_index<<" "<<v<<" "<<cast_circ_exec->gid++<<" XOR"<<endl;
+		if (v == -2)
+			cast_circ_exec->fout<<1<<" "<<1<<" "<<z_index<<" "<<cast_circ_exec->gid++<<" INV"<<endl;
+		else
+			cast_circ_exec->fout<<2<<" "<<1<<" "<<z_index<<" "<<(v == -1 ? z_index : v)<<" "<<cast_circ_exec->gid++<<" XOR"<<endl;
 	}
 	cast_circ_exec->gates += (1+cast_prot_exec->output_vec.size());
 	cast_circ_exec->finalize();
-- 
2.43.0


From 29e545880dbe87bb85c960a76f2cfb28a703ff6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:53 +0000
Subject: [PATCH 18/23] fix: BristolFashion::from_file can load a second
 circuit

---
 emp-tool/circuits/circuit_file.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emp-tool/circuits/circuit_file.h b/emp-tool/circuits/circuit_file.h
index 6159ac0..fcf07a1 100644
--- a/emp-tool/circuits/circuit_file.h
+++ b/emp-tool/circuits/circuit_file.h
@@ -147,6 +147,7 @@ class BristolFashion { public:
 		(void)fscanf(f, "%d%d\n", &num_gate, &num_wire);
 		int niov = 0;
 		(void)fscanf(f, "%d", &niov);
+		num_input = num_output = 0;
 		for(int i = 0; i < niov; ++i) {
 			(void)fscanf(f, "%d", &tmp);
 			num_input += tmp;
-- 
2.43.0


From b6e31091dc899fcff402dffed7eba4753b5ebca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:52 +0000
Subject: [PATCH 19/23] fix: FileIO and HighSpeedNetIO messages of 2 GiB and
 more are not truncated

Lengths arrive as size_t and were narrowed to int, so that longer messages
silently sent or received nothing.
---
 emp-tool/io/file_io_channel.h          | 12 ++++++------
 emp-tool/io/highspeed_net_io_channel.h | 22 +++++++++++-----------
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/emp-tool/io/file_io_channel.h b/emp-tool/io/file_io_channel.h
index 7b5807a..382872b 100644
--- a/emp-tool/io/file_io_channel.h
+++ b/emp-tool/io/file_io_channel.h
@@ -33,21 +33,21 @@ class FileIO: public IOChannel<FileIO> { public:
 	void reset() {
 		rewind(stream);
 	}
-	void send_data_internal(const void * data, int len) {
+	void send_data_internal(const void * data, size_t len) {
 		bytes_sent += len;
-		int sent = 0;
+		size_t sent = 0;
 		while(sent < len) {
-			int res = fwrite(sent+(char*)data, 1, len-sent, stream);
+			size_t res = fwrite(sent+(char*)data, 1, len-sent, stream);
 			if (res > 0)
 				sent+=res;
 			else
 				error("file_send_data\n");
 		}
 	}
-	void recv_data_internal(void  * data, int len) {
-		int sent = 0;
+	void recv_data_internal(void  * data, size_t len) {
+		size_t sent = 0;
 		while(sent < len) {
-			int res = fread(sent+(char*)data, 1, len-sent, stream);
+			size_t res = fread(sent+(char*)data, 1, len-sent, stream);
 			if (res > 0)
 				sent+=res;
 			else
diff --git a/emp-tool/io/highspeed_net_io_channel.h b/emp-tool/io/highspeed_net_io_channel.h
index 38582b1..5b89872 100644
--- a/emp-tool/io/highspeed_net_io_channel.h
+++ b/emp-tool/io/highspeed_net_io_channel.h
@@ -55,7 +55,7 @@ class SenderSubChannel : public SubChannel { public:
 		ptr = 0;
 	}
 
-	void send_data(const void *data, int len) {
+	void send_data(const void *data, int64_t len) {
 		if (len <= NETWORK_BUFFER_SIZE2 - ptr) {
 			memcpy(buf + ptr, data, len);
 			ptr += len;
@@ -66,11 +66,11 @@ class SenderSubChannel : public SubChannel { public:
 		}
 	}
 
-	void send_data_raw(const void *data, int len) {
+	void send_data_raw(const void *data, int64_t len) {
 		counter += len;
-		int sent = 0;
+		int64_t sent = 0;
 		while (sent < len) {
-			int res = fwrite(sent + (char *)data, 1, len - sent, stream);
+			int64_t res = fwrite(sent + (char *)data, 1, len - sent, stream);
 			if (res > 0)
 				sent += res;
 			else
@@ -86,12 +86,12 @@ class RecverSubChannel : public SubChannel { public:
 		ptr = NETWORK_BUFFER_SIZE2;
 	}
 
-	void recv_data(void *data, int len) {
+	void recv_data(void *data, int64_t len) {
 		if (len <= NETWORK_BUFFER_SIZE2 - ptr) {
 			memcpy(data, buf + ptr, len);
 			ptr += len;
 		} else {
-			int remain = len;
+			int64_t remain = len;
 			memcpy(data, buf + ptr, NETWORK_BUFFER_SIZE2 - ptr);
 			remain -= NETWORK_BUFFER_SIZE2 - ptr;
 
@@ -109,11 +109,11 @@ class RecverSubChannel : public SubChannel { public:
 		}
 	}
 
-	void recv_data_raw(void *data, int len) {
+	void recv_data_raw(void *data, int64_t len) {
 		counter += len;
-		int sent = 0;
+		int64_t sent = 0;
 		while (sent < len) {
-			int res = fread(sent + (char *)data, 1, len - sent, stream);
+			int64_t res = fread(sent + (char *)data, 1, len - sent, stream);
 			if (res > 0)
 				sent += res;
 			else
@@ -232,7 +232,7 @@ class HighSpeedNetIO : public IOChannel<HighSpeedNetIO> { public:
 		FSM = 0;
 	}
 
-	void send_data_internal(const void *data, int len) {
+	void send_data_internal(const void *data, int64_t len) {
 		if (FSM == 1) {
 			rchannel->flush();
 		}
@@ -240,7 +240,7 @@ class HighSpeedNetIO : public IOChannel<HighSpeedNetIO> { public:
 		FSM = 2;
 	}
 
-	void recv_data_internal(void *data, int len) {
+	void recv_data_internal(void *data, int64_t len) {
 		if (FSM == 2) {
 			schannel->flush();
 		}
-- 
2.43.0


From 0e54897cb098e36958549048db4a5d67811e1511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:10 +0000
Subject: [PATCH 20/23] fix: aes_128_ctr encrypts messages of 2 GiB and more

EVP_EncryptUpdate takes its length as an int: the call crashed or left the
rest of the message unencrypted. Encrypt in pieces.
---
 emp-tool/circuits/aes_128_ctr.h | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/emp-tool/circuits/aes_128_ctr.h b/emp-tool/circuits/aes_128_ctr.h
index 9354eee..3622a06 100644
--- a/emp-tool/circuits/aes_128_ctr.h
+++ b/emp-tool/circuits/aes_128_ctr.h
@@ -81,15 +81,21 @@ int aes_128_ctr(const __m128i key,
 	}
 	// Provide the message to be encrypted, and obtain the encrypted output.
 	// EVP_EncryptUpdate can be called multiple times if necessary
-	if(1 != EVP_EncryptUpdate(ctx, (unsigned char *) output, &len, (unsigned char *) input, num_bytes)) {
-		std::cerr<< "EVP_EncryptUpdate gave something besides 1\n"<<std::flush;
-		EVP_CIPHER_CTX_free(ctx);
-		return -3;
-	}
-	size_t ciphertext_len = len;
+	// (OpenSSL takes lengths as int, so long messages go in pieces)
+	size_t ciphertext_len = 0;
+	do {
+		const size_t rest = num_bytes - ciphertext_len;
+		const int piece = rest < (1 << 30) ? rest : (1 << 30);
+		if(1 != EVP_EncryptUpdate(ctx, (unsigned char *) output + ciphertext_len, &len, (unsigned char *) input + ciphertext_len, piece)) {
+			std::cerr<< "EVP_EncryptUpdate gave something besides 1\n"<<std::flush;
+			EVP_CIPHER_CTX_free(ctx);
+			return -3;
+		}
+		ciphertext_len += len;
+	} while (ciphertext_len < num_bytes);
 	// Finalise the encryption. Further ciphertext bytes may be written at
 	// this stage.
-	if(1 != EVP_EncryptFinal_ex(ctx, ((unsigned char *) output) + len, &len)) {
+	if(1 != EVP_EncryptFinal_ex(ctx, ((unsigned char *) output) + ciphertext_len, &len)) {
 		std::cerr<< "EVP_EncryptFinal gave something besides 1\n"<<std::flush;
 		EVP_CIPHER_CTX_free(ctx);
 		return -4;
-- 
2.43.0


From b462d492e7379dbf877ac8b3b4609c61d50951d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:17 +0000
Subject: [PATCH 21/23] fix: Hash::put_block of 2^27 and more blocks does not
 overflow its byte count

---
 emp-tool/utils/hash.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emp-tool/utils/hash.h b/emp-tool/utils/hash.h
index eebf266..9ba5ce2 100644
--- a/emp-tool/utils/hash.h
+++ b/emp-tool/utils/hash.h
@@ -22,7 +22,7 @@ class Hash { public:
 	~Hash() {
 		EVP_MD_CTX_destroy(mdctx);
 	}
-	void put(const void * data, int nbyte) {
+	void put(const void * data, int64_t nbyte) {
 		if (nbyte >= HASH_BUFFER_SIZE) {
 			// bytes put earlier come first
 			EVP_DigestUpdate(mdctx, buffer, size);
-- 
2.43.0


From 9a7f3c6f72016079d15572acfa71b02089cfea20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:34 +0000
Subject: [PATCH 22/23] fix: reveal integers of any width without a stack array
 of that size

---
 emp-tool/circuits/integer.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/emp-tool/circuits/integer.hpp b/emp-tool/circuits/integer.hpp
index ebff9ba..0f76f30 100644
--- a/emp-tool/circuits/integer.hpp
+++ b/emp-tool/circuits/integer.hpp
@@ -183,10 +183,11 @@ template<>
 inline uint32_t Integer::reveal<uint32_t>(int party) const {
 	std::bitset<32> bs;
 	bs.reset();
-	bool b[size()];
+	bool * b = new bool[size()]; // any width: not on the stack
 	ProtocolExecution::prot_exec->reveal(b, party, (block *)bits.data(), size());
 	for (size_t i = 0; i < min(32UL, size()); ++i)
 		bs.set(i, b[i]);
+	delete[] b;
 	return bs.to_ulong();
 }
 
@@ -194,10 +195,11 @@ template<>
 inline uint64_t Integer::reveal<uint64_t>(int party) const {
 	std::bitset<64> bs;
 	bs.reset();
-	bool b[size()];
+	bool * b = new bool[size()]; // any width: not on the stack
 	ProtocolExecution::prot_exec->reveal(b, party, (block *)bits.data(), size());
 	for (size_t i = 0; i < min(64UL, size()); ++i)
 		bs.set(i, b[i]);
+	delete[] b;
 	return bs.to_ullong();
 }
 template<>
-- 
2.43.0


From f9f14926e261a81b2128903c499bdb9d49e4d648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:34 +0000
Subject: [PATCH 23/23] fix: AES-128-CTR keystream of any length without a
 stack array of that size

---
 emp-tool/circuits/aes_128_ctr.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emp-tool/circuits/aes_128_ctr.h b/emp-tool/circuits/aes_128_ctr.h
index 3622a06..5b9e76c 100644
--- a/emp-tool/circuits/aes_128_ctr.h
+++ b/emp-tool/circuits/aes_128_ctr.h
@@ -253,7 +253,8 @@ class AES_128_CTR_Calculator { public:
 			return -1;
 		}
 
-		uint8_t bytes[(length + 7) / 8];
+		std::vector<uint8_t> keystream(length / 8 + 1); // any length: not on the stack
+		uint8_t * bytes = keystream.data();
 		int success = emp::aes_128_ctr(key, iv, (uint8_t *) nullptr, bytes, (length + 7) / 8, start_chunk);
 		if (success != 0) {
 			return success;
-- 
2.43.0

