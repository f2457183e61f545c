From 7948cc844789cb9f5e1b5181574e6c9aa652d195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:41 +0000
Subject: [PATCH 01/22] fix: Hash.sha224#hash_size is 28 bytes, not 24

---
 src/cryptokit.ml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index e061d9e..adb7aea 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -1098,7 +1098,7 @@ let sha1 () = new sha1
 class sha224 =
   object(self)
     val context = sha224_init()
-    method hash_size = 24
+    method hash_size = 28
     method add_substring src ofs len =
       if ofs < 0 || len < 0 || ofs > Bytes.length src - len
       then invalid_arg "sha224#add_substring";
-- 
2.43.0


From 49d5cd9c07d7768b88fe7f31d8a5b2267e477c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:41 +0000
Subject: [PATCH 02/22] fix: Hash.ripemd160#hash_size is 20 bytes, not 32

---
 src/cryptokit.ml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index adb7aea..cde14df 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -1220,7 +1220,7 @@ let keccak sz = new sha3 sz false
 class ripemd160 =
   object(self)
     val context = ripemd160_init()
-    method hash_size = 32
+    method hash_size = 20
     method add_substring src ofs len =
       if ofs < 0 || len < 0 || ofs > Bytes.length src - len
       then invalid_arg "ripemd160#add_substring";
-- 
2.43.0


From 71ae87d5a2985873b975e8a90c4258fc401e8ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:41 +0000
Subject: [PATCH 03/22] fix: MD5 of pieces of 4 Gb or more, caml_MD5Update
 takes a uintnat length

---
 src/stubs-md5.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stubs-md5.c b/src/stubs-md5.c
index ceccb32..7434eef 100644
--- a/src/stubs-md5.c
+++ b/src/stubs-md5.c
@@ -30,7 +30,7 @@ struct MD5Context {
 
 CAMLextern void caml_MD5Init (struct MD5Context *context);
 CAMLextern void caml_MD5Update (struct MD5Context *context,
-                           unsigned char *buf, unsigned len);
+                           unsigned char *buf, uintnat len);
 CAMLextern void caml_MD5Final (unsigned char *digest, struct MD5Context *ctx);
 
 #define Context_val(v) ((struct MD5Context *) String_val(v))
-- 
2.43.0


From ba958b615cd4c216e1383f1fbd766885a55e1541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:23 +0000
Subject: [PATCH 04/22] fix: Zlib.compress#flush with nothing left to flush is
 not an error

---
 src/stubs-zlib.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/stubs-zlib.c b/src/stubs-zlib.c
index 4cdf7d1..15bb79a 100644
--- a/src/stubs-zlib.c
+++ b/src/stubs-zlib.c
@@ -110,7 +110,10 @@ value caml_zlib_deflate(value vzs, value srcbuf, value srcpos, value srclen,
   zs->next_out = &Byte_u(dstbuf, Long_val(dstpos));
   zs->avail_out = Long_val(dstlen);
   retcode = deflate(zs, caml_zlib_flush_table[Int_val(vflush)]);
-  if (retcode < 0) caml_zlib_error("Zlib.deflate", vzs);
+  /* Z_BUF_ERROR is not an error: it only means that there was nothing to do,
+     e.g. flushing when everything has already been flushed. */
+  if (retcode < 0 && retcode != Z_BUF_ERROR)
+    caml_zlib_error("Zlib.deflate", vzs);
   used_in = Long_val(srclen) - zs->avail_in;
   used_out = Long_val(dstlen) - zs->avail_out;
   zs->next_in = NULL;         /* not required, but cleaner */
-- 
2.43.0


From 75ef23ef21d16f1c426a34843f73def508d8d5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:46 +0000
Subject: [PATCH 05/22] fix: release the zlib state of streams that are never
 finished

---
 src/stubs-zlib.c | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/stubs-zlib.c b/src/stubs-zlib.c
index 15bb79a..786d1d0 100644
--- a/src/stubs-zlib.c
+++ b/src/stubs-zlib.c
@@ -55,19 +55,36 @@ static void caml_zlib_error(char * fn, value vzs)
   caml_raise(bucket);
 }
 
-void caml_zlib_free_stream(value vzs)
+/* The finalizers release the internal state of streams that were not
+   finished.  On finished streams, deflateEnd and inflateEnd do nothing. */
+
+static void caml_zlib_free_deflate_stream(value vzs)
+{
+  deflateEnd(ZStream_val(vzs));
+  caml_stat_free(ZStream_val(vzs));
+  ZStream_val(vzs) = NULL;
+}
+
+static void caml_zlib_free_inflate_stream(value vzs)
 {
+  inflateEnd(ZStream_val(vzs));
   caml_stat_free(ZStream_val(vzs));
   ZStream_val(vzs) = NULL;
 }
 
-static struct custom_operations caml_zlib_stream_ops = {
-  "caml_zlib_stream_ops", &caml_zlib_free_stream, NULL, NULL, NULL, NULL
+static struct custom_operations caml_zlib_deflate_stream_ops = {
+  "caml_zlib_deflate_stream_ops", &caml_zlib_free_deflate_stream,
+  NULL, NULL, NULL, NULL
+};
+
+static struct custom_operations caml_zlib_inflate_stream_ops = {
+  "caml_zlib_inflate_stream_ops", &caml_zlib_free_inflate_stream,
+  NULL, NULL, NULL, NULL
 };
 
-static value caml_zlib_new_stream(void)
+static value caml_zlib_new_stream(struct custom_operations * ops)
 {
-  value res = caml_alloc_custom(&caml_zlib_stream_ops, sizeof(z_streamp), 0, 1);
+  value res = caml_alloc_custom(ops, sizeof(z_streamp), 0, 1);
 
   ZStream_val(res) = caml_stat_alloc(sizeof(z_stream));
   ZStream_val(res)->zalloc = NULL;
@@ -75,13 +92,15 @@ static value caml_zlib_new_stream(void)
   ZStream_val(res)->opaque = NULL;
   ZStream_val(res)->next_in = NULL;
   ZStream_val(res)->next_out = NULL;
+  ZStream_val(res)->msg = NULL;
+  ZStream_val(res)->state = NULL;
   return res;
 }
 
 CAMLprim
 value caml_zlib_deflateInit(value vlevel, value expect_header)
 {
-  value vzs = caml_zlib_new_stream();
+  value vzs = caml_zlib_new_stream(&caml_zlib_deflate_stream_ops);
   if (deflateInit2(ZStream_val(vzs),
                    Int_val(vlevel),
                    Z_DEFLATED,
@@ -136,7 +155,7 @@ value caml_zlib_deflateEnd(value vzs)
 CAMLprim
 value caml_zlib_inflateInit(value expect_header)
 {
-  value vzs = caml_zlib_new_stream();
+  value vzs = caml_zlib_new_stream(&caml_zlib_inflate_stream_ops);
   if (inflateInit2(ZStream_val(vzs),
                    Bool_val(expect_header) ? MAX_WBITS : -MAX_WBITS) != Z_OK)
     caml_zlib_error("Zlib.inflateInit", vzs);
-- 
2.43.0


From d92d5e884283e827aa47c08bd0639d67ac7d889f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:05 +0000
Subject: [PATCH 06/22] fix: Zlib.compress/uncompress lost data in pieces of 4
 Gb or more

---
 src/stubs-zlib.c | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/src/stubs-zlib.c b/src/stubs-zlib.c
index 786d1d0..8ec0236 100644
--- a/src/stubs-zlib.c
+++ b/src/stubs-zlib.c
@@ -114,6 +114,15 @@ value caml_zlib_deflateInit(value vlevel, value expect_header)
 static int caml_zlib_flush_table[] = 
 { Z_NO_FLUSH, Z_SYNC_FLUSH, Z_FULL_FLUSH, Z_FINISH };
 
+/* zlib counts available bytes as an unsigned int.  If more are available,
+   let zlib process only some of them; the caller iterates. */
+
+static uInt caml_zlib_avail(value vlen)
+{
+  uintnat len = Long_val(vlen);
+  return len < 0x40000000 ? len : 0x40000000;
+}
+
 CAMLprim
 value caml_zlib_deflate(value vzs, value srcbuf, value srcpos, value srclen,
                       value dstbuf, value dstpos, value dstlen,
@@ -121,26 +130,29 @@ value caml_zlib_deflate(value vzs, value srcbuf, value srcpos, value srclen,
 {
   z_stream * zs = ZStream_val(vzs);
   int retcode;
+  uInt avail_in, avail_out;
   long used_in, used_out;
   value res;
 
+  avail_in = caml_zlib_avail(srclen);
+  avail_out = caml_zlib_avail(dstlen);
   zs->next_in = &Byte_u(srcbuf, Long_val(srcpos));
-  zs->avail_in = Long_val(srclen);
+  zs->avail_in = avail_in;
   zs->next_out = &Byte_u(dstbuf, Long_val(dstpos));
-  zs->avail_out = Long_val(dstlen);
+  zs->avail_out = avail_out;
   retcode = deflate(zs, caml_zlib_flush_table[Int_val(vflush)]);
   /* Z_BUF_ERROR is not an error: it only means that there was nothing to do,
      e.g. flushing when everything has already been flushed. */
   if (retcode < 0 && retcode != Z_BUF_ERROR)
     caml_zlib_error("Zlib.deflate", vzs);
-  used_in = Long_val(srclen) - zs->avail_in;
-  used_out = Long_val(dstlen) - zs->avail_out;
+  used_in = avail_in - zs->avail_in;
+  used_out = avail_out - zs->avail_out;
   zs->next_in = NULL;         /* not required, but cleaner */
   zs->next_out = NULL;        /* (avoid dangling pointers into Caml heap) */
   res = caml_alloc_small(3, 0);
   Field(res, 0) = Val_bool(retcode == Z_STREAM_END);
-  Field(res, 1) = Val_int(used_in);
-  Field(res, 2) = Val_int(used_out);
+  Field(res, 1) = Val_long(used_in);
+  Field(res, 2) = Val_long(used_out);
   return res;
 }
 
@@ -169,24 +181,27 @@ value caml_zlib_inflate(value vzs, value srcbuf, value srcpos, value srclen,
 {
   z_stream * zs = ZStream_val(vzs);
   int retcode;
+  uInt avail_in, avail_out;
   long used_in, used_out;
   value res;
 
+  avail_in = caml_zlib_avail(srclen);
+  avail_out = caml_zlib_avail(dstlen);
   zs->next_in = &Byte_u(srcbuf, Long_val(srcpos));
-  zs->avail_in = Long_val(srclen);
+  zs->avail_in = avail_in;
   zs->next_out = &Byte_u(dstbuf, Long_val(dstpos));
-  zs->avail_out = Long_val(dstlen);
+  zs->avail_out = avail_out;
   retcode = inflate(zs, caml_zlib_flush_table[Int_val(vflush)]);
   if (retcode < 0 || retcode == Z_NEED_DICT)
     caml_zlib_error("Zlib.inflate", vzs);
-  used_in = Long_val(srclen) - zs->avail_in;
-  used_out = Long_val(dstlen) - zs->avail_out;
+  used_in = avail_in - zs->avail_in;
+  used_out = avail_out - zs->avail_out;
   zs->next_in = NULL;           /* not required, but cleaner */
   zs->next_out = NULL;          /* (avoid dangling pointers into Caml heap) */
   res = caml_alloc_small(3, 0);
   Field(res, 0) = Val_bool(retcode == Z_STREAM_END);
-  Field(res, 1) = Val_int(used_in);
-  Field(res, 2) = Val_int(used_out);
+  Field(res, 1) = Val_long(used_in);
+  Field(res, 2) = Val_long(used_out);
   return res;
 }
 
-- 
2.43.0


From 29ae76e74d836a9814769f5ada97bc7393247cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:33 +0000
Subject: [PATCH 07/22] fix: Zlib.compress/uncompress#put_substring read
 outside the source buffer on invalid ranges

---
 src/cryptokit.ml | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index cde14df..9b06e15 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -2523,6 +2523,8 @@ class compress level write_zlib_header =
 
     method put_substring src ofs len =
       if len > 0 then begin
+        if ofs < 0 || ofs > Bytes.length src - len
+        then invalid_arg "Zlib.compress#put_substring";
         self#ensure_capacity 256;
         let (_, used_in, used_out) =
           deflate zs
@@ -2578,6 +2580,8 @@ class uncompress expect_zlib_header =
 
     method put_substring src ofs len =
       if len > 0 then begin
+        if ofs < 0 || ofs > Bytes.length src - len
+        then invalid_arg "Zlib.uncompress#put_substring";
         self#ensure_capacity 256;
         let (finished, used_in, used_out) =
           inflate zs
-- 
2.43.0


From 155b379b6a1272045eced511860e6867de12986c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:49 +0000
Subject: [PATCH 08/22] fix: stream ciphers and ChaCha20-Poly1305 decryption:
 check the range given to put_substring

Invalid ranges made the ChaCha20-Poly1305 decryptor hash memory outside
the source buffer, and huge lengths made the output buffer grow for ever.
---
 src/cryptokit.ml | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index 9b06e15..ddfc40f 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -1042,6 +1042,8 @@ class cipher (cipher : stream_cipher) =
     method output_block_size = 1
 
     method put_substring src ofs len =
+      if len < 0 || ofs < 0 || ofs > Bytes.length src - len
+      then invalid_arg "Stream.cipher#put_substring";
       self#ensure_capacity len;
       cipher#transform src ofs obuf oend len;
       oend <- oend + len
-- 
2.43.0


From 40065be2f7e223eb4c3da27cae0c072921982d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:11 +0000
Subject: [PATCH 09/22] fix: Block.cbc_encrypt#transform read outside the
 source buffer on invalid offsets

---
 src/cryptokit.ml | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index ddfc40f..27f2ab0 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -654,6 +654,9 @@ class cbc_encrypt ?iv:iv_init (cipher : block_cipher) =
     val iv = make_initial_iv blocksize iv_init
     method blocksize = blocksize
     method transform src src_off dst dst_off =
+      if src_off < 0 || src_off > Bytes.length src - blocksize
+      || dst_off < 0 || dst_off > Bytes.length dst - blocksize
+      then invalid_arg "cbc_encrypt#transform";
       xor_bytes src src_off iv 0 blocksize;
       cipher#transform iv 0 dst dst_off;
       Bytes.blit dst dst_off iv 0 blocksize
-- 
2.43.0


From 2846a7a6d951a0ffc8b3629aa01a3d01abb6ddd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:06 +0000
Subject: [PATCH 10/22] fix: big integers encoded on a number of bytes that is
 not a multiple of the word size

---
 src/cryptokitBignum.ml | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cryptokitBignum.ml b/src/cryptokitBignum.ml
index 7cb53a1..db6c7fa 100644
--- a/src/cryptokitBignum.ml
+++ b/src/cryptokitBignum.ml
@@ -84,7 +84,9 @@ let to_bytes ?numbits n =
     | None -> String.length s
     | Some nb -> assert (Z.numbits n <= nb); (nb + 7) / 8 in
   let t = Bytes.make l '\000' in
-  for i = 0 to String.length s - 1 do
+  (* [s] is padded with zero bytes to a whole number of words,
+     hence it can be longer than [l] *)
+  for i = 0 to min (String.length s) l - 1 do
     Bytes.set t (l - 1 - i) s.[i]
   done;
   wipe_bytes (Bytes.unsafe_of_string s);
-- 
2.43.0


From 43ebc642400da0b967b2dae7d790c02ee3661f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:06 +0000
Subject: [PATCH 11/22] fix: caml_siphash_init: the key can be moved by the
 allocation of the context

---
 src/stubs-siphash.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stubs-siphash.c b/src/stubs-siphash.c
index 63278eb..d2c1cd4 100644
--- a/src/stubs-siphash.c
+++ b/src/stubs-siphash.c
@@ -23,9 +23,10 @@
 
 CAMLprim value caml_siphash_init(value key, value hashlen)
 {
+  CAMLparam1(key);
   value ctx = caml_alloc_string(sizeof(struct siphash));
   siphash_init(siphash_val(ctx), &Byte_u(key, 0), Int_val(hashlen));
-  return ctx;
+  CAMLreturn(ctx);
 }
 
 CAMLprim value caml_siphash_update(value ctx, value src, value ofs, value len)
-- 
2.43.0


From d98579e81075a4a6867e4c6803fe25588c4cf9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:06 +0000
Subject: [PATCH 12/22] fix: caml_ghash_init: the key can be moved by the
 allocation of the context

---
 src/stubs-ghash.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/stubs-ghash.c b/src/stubs-ghash.c
index 479f0dd..08b7aaa 100644
--- a/src/stubs-ghash.c
+++ b/src/stubs-ghash.c
@@ -40,9 +40,10 @@ static struct custom_operations ghash_context_ops = {
 
 CAMLprim value caml_ghash_init(value key)
 {
+  CAMLparam1(key);
   if (pclmul_available == -1) pclmul_check_available();
   if (pclmul_available == 1) {
-    return key;
+    CAMLreturn(key);
   } else {
     struct ghash_context * ctx = caml_stat_alloc(sizeof(struct ghash_context));
     value res =
@@ -51,7 +52,7 @@ CAMLprim value caml_ghash_init(value key)
                         0, 1);
     ghash_init(ctx, &Byte_u(key, 0));
     Context_val(res) = ctx;
-    return res;
+    CAMLreturn(res);
   }
 }
 
-- 
2.43.0


From 5b259e99b3aefbebb3df0d0e0b081b0bca24267e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:06 +0000
Subject: [PATCH 13/22] fix: pseudo_rng_aes_ctr#random_bytes wrote part of the
 output before failing on invalid ranges

---
 src/cryptokit.ml | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index 27f2ab0..8a63e23 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -1933,6 +1933,8 @@ class pseudo_rng_aes_ctr seed =
 
     method random_bytes buf ofs len =
       if len > 0 then begin
+        if ofs < 0 || ofs > Bytes.length buf - len then
+          invalid_arg "pseudo_rng_aes_ctr#random_bytes";
         if opos >= 16 then begin
           (* Encrypt the counter *)
           cipher#transform ctr 0 obuf 0;
-- 
2.43.0


From 1b5070d902f3495a5468c19c4dac25f6fd5974c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:11 +0000
Subject: [PATCH 14/22] fix: wiping AES-GCM left the GHASH key, counter, tag
 mask and running MAC in memory

---
 src/cryptokit.ml  | 11 +++++++++--
 src/stubs-ghash.c | 10 ++++++++++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index 8a63e23..66a2add 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -124,6 +124,7 @@ external blake2s_final: bytes -> int -> string = "caml_blake2s_final"
 type ghash_context
 external ghash_init: bytes -> ghash_context = "caml_ghash_init"
 external ghash_mult: ghash_context -> bytes -> unit = "caml_ghash_mult"
+external ghash_wipe: ghash_context -> unit = "caml_ghash_wipe"
 external poly1305_init: bytes -> bytes = "caml_poly1305_init"
 external poly1305_update: bytes -> bytes -> int -> int -> unit = "caml_poly1305_update"
 external poly1305_final: bytes -> string = "caml_poly1305_final"
@@ -1641,7 +1642,10 @@ class aes_gcm_encrypt ?(header = "") ~iv key =
     let buf = Bytes.create 16 in
     object
       method blocksize = 16
-      method wipe = aes#wipe
+      method wipe =
+        aes#wipe;
+        ghash_wipe h;
+        wipe_bytes ctr; wipe_bytes e0; wipe_bytes mac; wipe_bytes buf
       method transform src soff dst doff =
         ctr_enc_dec aes ctr buf src soff dst doff 16;
         ghash_block h mac dst doff 16;
@@ -1692,7 +1696,10 @@ class aes_gcm_decrypt ?(header = "") ~iv key =
     let buf = Bytes.create 16 in
     object
       method blocksize = 16
-      method wipe = aes#wipe
+      method wipe =
+        aes#wipe;
+        ghash_wipe h;
+        wipe_bytes ctr; wipe_bytes e0; wipe_bytes mac; wipe_bytes buf
       method transform src soff dst doff =
         ghash_block h mac src soff 16;
         ctr_enc_dec aes ctr buf src soff dst doff 16;
diff --git a/src/stubs-ghash.c b/src/stubs-ghash.c
index 08b7aaa..2d75c82 100644
--- a/src/stubs-ghash.c
+++ b/src/stubs-ghash.c
@@ -65,3 +65,13 @@ CAMLprim value caml_ghash_mult(value ctx, value x)
   }
   return Val_unit;
 }
+
+CAMLprim value caml_ghash_wipe(value ctx)
+{
+  if (pclmul_available == 1) {
+    memset(&Byte_u(ctx, 0), 0, 16);
+  } else {
+    memset(Context_val(ctx), 0, sizeof(struct ghash_context));
+  }
+  return Val_unit;
+}
-- 
2.43.0


From 8856567514a3be992c74ed04c71b35cd102fa74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:11 +0000
Subject: [PATCH 15/22] fix: pseudo_rng_aes_ctr#wipe left the expanded AES key
 and the counter in memory

---
 src/cryptokit.ml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index 66a2add..e759946 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -1957,7 +1957,7 @@ class pseudo_rng_aes_ctr seed =
       end
 
     method wipe =
-      wipe_bytes obuf; wipe_string seed
+      cipher#wipe; wipe_bytes ctr; wipe_bytes obuf; wipe_string seed
   end
 
 let pseudo_rng_aes_ctr seed = new pseudo_rng_aes_ctr seed
-- 
2.43.0


From 70b04683d63d237bbf94ebba59add2465177681d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:49 +0000
Subject: [PATCH 16/22] fix: modular exponentiation with a zero exponent,
 Paillier encryption of 0

---
 src/cryptokitBignum.ml | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cryptokitBignum.ml b/src/cryptokitBignum.ml
index db6c7fa..acb16aa 100644
--- a/src/cryptokitBignum.ml
+++ b/src/cryptokitBignum.ml
@@ -36,7 +36,9 @@ let lcm = Z.lcm
 let relative_prime a b =
   Z.equal (Z.gcd a b) Z.one
 
-let mod_power = Z.powm_sec
+let mod_power a b c =
+  (* Z.powm_sec does not accept a zero exponent *)
+  if Z.sign b = 0 then Z.rem Z.one c else Z.powm_sec a b c
 
 let sub_mod a b p =
   let d = Z.sub a b in
-- 
2.43.0


From f97044394d20847e8c1fba013285b4b362a49501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:49 +0000
Subject: [PATCH 17/22] fix: RSA.decrypt_CRT and RSA.sign_CRT with keys such
 that p < q

---
 src/cryptokitBignum.ml | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cryptokitBignum.ml b/src/cryptokitBignum.ml
index acb16aa..df5a6fa 100644
--- a/src/cryptokitBignum.ml
+++ b/src/cryptokitBignum.ml
@@ -41,8 +41,8 @@ let mod_power a b c =
   if Z.sign b = 0 then Z.rem Z.one c else Z.powm_sec a b c
 
 let sub_mod a b p =
-  let d = Z.sub a b in
-  if Z.sign d < 0 then Z.add d p else d
+  (* [b] can exceed [p] by any amount, e.g. in [mod_power_CRT] if [q > p] *)
+  Z.erem (Z.sub a b) p
 
 (* Modular exponentiation via the Chinese Remainder Theorem.
    Compute a ^ d mod pq, where d is defined by
-- 
2.43.0


From 26729be72ceacd48dd8218ec756bf1bedf1fcd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:49 +0000
Subject: [PATCH 18/22] fix: documentation of DH.derive_key, which uses SHA-256

---
 src/cryptokit.mli | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cryptokit.mli b/src/cryptokit.mli
index 666731a..35b2fbf 100644
--- a/src/cryptokit.mli
+++ b/src/cryptokit.mli
@@ -1191,7 +1191,7 @@ module DH: sig
       that defaults to the empty string.  Different secret strings can
       be obtained from the same shared secret by supplying different
       [diversification] argument.  The computation of the secret
-      string is performed by SHA-1 hashing of the diversification
+      string is performed by SHA-256 hashing of the diversification
       string, followed by the shared secret, followed by an integer
       counter.  The hashing is repeated with increasing values of the
       counter until [numbytes] bytes have been obtained. *)
-- 
2.43.0


From 90bc0121127cd4445ccf0035fd8072dd5eb557ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:45 +0000
Subject: [PATCH 19/22] fix: device_rng#wipe closed the descriptor again when
 repeated, and a wiped device_rng kept reading from it

---
 src/cryptokit.ml | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index e759946..cead17e 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -1861,14 +1861,16 @@ let system_rng () =
 class device_rng filename =
   object(self)
     val fd = Unix.openfile filename [Unix.O_RDONLY; Unix.O_CLOEXEC] 0
+    val mutable closed = false
     method random_bytes buf ofs len =
+      if closed then raise(Error Entropy_source_closed);
       if len > 0 then begin    
         let n = Unix.read fd buf ofs len in
         if n = 0 then raise(Error Entropy_source_closed);
         if n < len then self#random_bytes buf (ofs + n) (len - n)
       end
     method wipe =
-      Unix.close fd
+      if not closed then begin closed <- true; Unix.close fd end
   end
 
 let device_rng filename = new device_rng filename
-- 
2.43.0


From ea68ba0174534b79a2101e8ea873420dea01bb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:15 +0000
Subject: [PATCH 20/22] fix: MAC.blake3 with an empty key computed the unkeyed
 BLAKE3 hash

---
 src/cryptokit.ml | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index cead17e..02c5d5b 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -1472,8 +1472,10 @@ let blake2b512 key = new Hash.blake2b 512 key
 let blake2s sz key = new Hash.blake2s sz key
 let blake2s256 key = new Hash.blake2s 256 key
 
-let blake3 sz key = new Hash.blake3 key sz
-let blake3_256 key = new Hash.blake3 key 256
+let blake3 sz key =
+  if String.length key <> 32 then raise (Error Wrong_key_size);
+  new Hash.blake3 key sz
+let blake3_256 key = blake3 256 key
 
 let aes ?iv ?pad key =
   new Block.mac ?iv ?pad (new Block.aes_encrypt key)
-- 
2.43.0


From 2d973b48ff8579d6ecd1601d945638294ffae1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:05 +0000
Subject: [PATCH 21/22] fix: accept all 32-bit initial counters for ChaCha20
 with a 12-byte IV

The limit was written 0x1_000_000 (2^24) instead of 0x1_0000_0000 (2^32), so
that counters from 2^24 up were refused with Wrong_IV_size.
---
 src/cryptokit.ml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index 02c5d5b..0c766b1 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -1021,7 +1021,7 @@ class chacha20 ?iv ?(ctr = 0L) key =
         | None -> Bytes.make 8 '\000'
         | Some s ->
             if String.length s = 8
-            || String.length s = 12 && ctr < 0x1_000_000L
+            || String.length s = 12 && ctr < 0x1_0000_0000L
             then Bytes.of_string s
             else raise (Error Wrong_IV_size) in
       chacha20_cook_key key iv ctr
-- 
2.43.0


From cb09f17eb98d882c9f5c1d23873b9efbd3a34d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:28 +0000
Subject: [PATCH 22/22] fix: do not read past the end of 24-byte keys in the
 AES-NI key expansion

The second half of a 192-bit key is 8 bytes long, not 16.
---
 src/aesni.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aesni.c b/src/aesni.c
index 7713859..171694b 100644
--- a/src/aesni.c
+++ b/src/aesni.c
@@ -134,7 +134,7 @@ static int aesni_key_expansion(const unsigned char * userkey,
     return 10;
   case 192:
     t1 = _mm_loadu_si128((__m128i*)userkey);
-    t3 = _mm_loadu_si128((__m128i*)(userkey+16));
+    t3 = _mm_loadl_epi64((__m128i*)(userkey+16));
     key_schedule[0] = t1;
     key_schedule[1] = t3;
     t2 = _mm_aeskeygenassist_si128 (t3,0x1);
-- 
2.43.0

