/* Reference oracles, independent of the code under test: libcrypto where it
   implements the algorithm, textbook code otherwise. */
#define OPENSSL_SUPPRESS_DEPRECATED
#define CAML_NAME_SPACE
#include <caml/mlvalues.h>
#include <caml/memory.h>
#include <caml/alloc.h>
#include <caml/fail.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <openssl/evp.h>
#include <openssl/aes.h>
#include <openssl/des.h>
#include <openssl/blowfish.h>
#include <openssl/rc4.h>
#include <openssl/ripemd.h>
#include <openssl/md5.h>
#include <openssl/sha.h>
#include <openssl/hmac.h>
#include <openssl/cmac.h>
#include <openssl/core_names.h>
#include <openssl/params.h>
#include <zlib.h>

static void die(const char *s) { fprintf(stderr, "HARNESS-ERROR: reference: %s\n", s); _exit(3); }

/* ---------------- Keccak ---------------- */
static const uint64_t KRC[24] = {
 0x0000000000000001ULL,0x0000000000008082ULL,0x800000000000808aULL,0x8000000080008000ULL,
 0x000000000000808bULL,0x0000000080000001ULL,0x8000000080008081ULL,0x8000000000008009ULL,
 0x000000000000008aULL,0x0000000000000088ULL,0x0000000080008009ULL,0x000000008000000aULL,
 0x000000008000808bULL,0x800000000000008bULL,0x8000000000008089ULL,0x8000000000008003ULL,
 0x8000000000008002ULL,0x8000000000000080ULL,0x000000000000800aULL,0x800000008000000aULL,
 0x8000000080008081ULL,0x8000000000008080ULL,0x0000000080000001ULL,0x8000000080008008ULL };
#define ROL64(x,n) ((n) ? (((x) << (n)) | ((x) >> (64-(n)))) : (x))
static const int KRHO[25] = { 0,1,62,28,27, 36,44,6,55,20, 3,10,43,25,39, 41,45,15,21,8, 18,2,61,56,14 };
static void keccakf(uint64_t a[25])
{
  for (int r = 0; r < 24; r++) {
    uint64_t c[5], d[5], b[25];
    for (int x = 0; x < 5; x++) c[x] = a[x]^a[x+5]^a[x+10]^a[x+15]^a[x+20];
    for (int x = 0; x < 5; x++) d[x] = c[(x+4)%5] ^ ROL64(c[(x+1)%5],1);
    for (int i = 0; i < 25; i++) a[i] ^= d[i%5];
    for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++)
      b[y + 5*((2*x+3*y)%5)] = ROL64(a[x+5*y], KRHO[x+5*y]);
    for (int y = 0; y < 5; y++) for (int x = 0; x < 5; x++)
      a[x+5*y] = b[x+5*y] ^ (~b[(x+1)%5+5*y] & b[(x+2)%5+5*y]);
    a[0] ^= KRC[r];
  }
}
static void ref_keccak(int bits, int pad, const uint8_t *m, size_t n, uint8_t *out)
{
  size_t rate = 200 - 2*(bits/8);
  uint64_t a[25]; memset(a, 0, sizeof a);
  uint8_t last[200];
  while (n >= rate) {
    for (size_t i = 0; i < rate/8; i++) { uint64_t w; memcpy(&w, m+8*i, 8); a[i] ^= w; }
    keccakf(a); m += rate; n -= rate;
  }
  memset(last, 0, sizeof last); memcpy(last, m, n); last[n] ^= pad; last[rate-1] ^= 0x80;
  for (size_t i = 0; i < rate/8; i++) { uint64_t w; memcpy(&w, last+8*i, 8); a[i] ^= w; }
  keccakf(a);
  memcpy(out, a, bits/8);
}

/* ---------------- BLAKE2 (RFC 7693) ---------------- */
static const uint8_t SIG[12][16] = {
 {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15},{14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3},
 {11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4},{7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8},
 {9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13},{2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9},
 {12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11},{13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10},
 {6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5},{10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0},
 {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15},{14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3}};
static const uint64_t IV64[8] = {0x6A09E667F3BCC908ULL,0xBB67AE8584CAA73BULL,0x3C6EF372FE94F82BULL,0xA54FF53A5F1D36F1ULL,0x510E527FADE682D1ULL,0x9B05688C2B3E6C1FULL,0x1F83D9ABFB41BD6BULL,0x5BE0CD19137E2179ULL};
static const uint32_t IV32[8] = {0x6A09E667,0xBB67AE85,0x3C6EF372,0xA54FF53A,0x510E527F,0x9B05688C,0x1F83D9AB,0x5BE0CD19};
#define RR64(x,n) (((x)>>(n))|((x)<<(64-(n))))
#define RR32(x,n) (((x)>>(n))|((x)<<(32-(n))))
static void b2b_f(uint64_t h[8], const uint8_t blk[128], uint64_t t0, uint64_t t1, int last)
{
  uint64_t v[16], m[16]; memcpy(m, blk, 128);
  for (int i=0;i<8;i++){v[i]=h[i];v[i+8]=IV64[i];}
  v[12]^=t0; v[13]^=t1; if(last) v[14]=~v[14];
#define G64(a,b,c,d,x,y) v[a]+=v[b]+(x);v[d]=RR64(v[d]^v[a],32);v[c]+=v[d];v[b]=RR64(v[b]^v[c],24);v[a]+=v[b]+(y);v[d]=RR64(v[d]^v[a],16);v[c]+=v[d];v[b]=RR64(v[b]^v[c],63)
  for(int r=0;r<12;r++){const uint8_t*s=SIG[r];
    G64(0,4,8,12,m[s[0]],m[s[1]]);G64(1,5,9,13,m[s[2]],m[s[3]]);G64(2,6,10,14,m[s[4]],m[s[5]]);G64(3,7,11,15,m[s[6]],m[s[7]]);
    G64(0,5,10,15,m[s[8]],m[s[9]]);G64(1,6,11,12,m[s[10]],m[s[11]]);G64(2,7,8,13,m[s[12]],m[s[13]]);G64(3,4,9,14,m[s[14]],m[s[15]]);}
  for(int i=0;i<8;i++)h[i]^=v[i]^v[i+8];
}
static void b2s_f(uint32_t h[8], const uint8_t blk[64], uint64_t t, int last)
{
  uint32_t v[16], m[16]; memcpy(m, blk, 64);
  for (int i=0;i<8;i++){v[i]=h[i];v[i+8]=IV32[i];}
  v[12]^=(uint32_t)t; v[13]^=(uint32_t)(t>>32); if(last) v[14]=~v[14];
#define G32(a,b,c,d,x,y) v[a]+=v[b]+(x);v[d]=RR32(v[d]^v[a],16);v[c]+=v[d];v[b]=RR32(v[b]^v[c],12);v[a]+=v[b]+(y);v[d]=RR32(v[d]^v[a],8);v[c]+=v[d];v[b]=RR32(v[b]^v[c],7)
  for(int r=0;r<10;r++){const uint8_t*s=SIG[r];
    G32(0,4,8,12,m[s[0]],m[s[1]]);G32(1,5,9,13,m[s[2]],m[s[3]]);G32(2,6,10,14,m[s[4]],m[s[5]]);G32(3,7,11,15,m[s[6]],m[s[7]]);
    G32(0,5,10,15,m[s[8]],m[s[9]]);G32(1,6,11,12,m[s[10]],m[s[11]]);G32(2,7,8,13,m[s[12]],m[s[13]]);G32(3,4,9,14,m[s[14]],m[s[15]]);}
  for(int i=0;i<8;i++)h[i]^=v[i]^v[i+8];
}
static void ref_blake2b(size_t outlen, const uint8_t *key, size_t kl, const uint8_t *m, size_t n, uint8_t *out)
{
  uint64_t h[8]; memcpy(h, IV64, 64); h[0] ^= 0x01010000 ^ (kl << 8) ^ outlen;
  uint8_t b[128]; uint64_t t = 0;
  if (kl) { memset(b,0,128); memcpy(b,key,kl); t += 128; b2b_f(h,b,t,0,n==0); if(n==0) goto done; }
  while (n > 128) { t += 128; b2b_f(h,m,t,0,0); m += 128; n -= 128; }
  memset(b,0,128); memcpy(b,m,n); t += n; b2b_f(h,b,t,0,1);
 done: memcpy(out,h,outlen);
}
static void ref_blake2s(size_t outlen, const uint8_t *key, size_t kl, const uint8_t *m, size_t n, uint8_t *out)
{
  uint32_t h[8]; memcpy(h, IV32, 32); h[0] ^= 0x01010000 ^ (kl << 8) ^ outlen;
  uint8_t b[64]; uint64_t t = 0;
  if (kl) { memset(b,0,64); memcpy(b,key,kl); t += 64; b2s_f(h,b,t,n==0); if(n==0) goto done; }
  while (n > 64) { t += 64; b2s_f(h,m,t,0); m += 64; n -= 64; }
  memset(b,0,64); memcpy(b,m,n); t += n; b2s_f(h,b,t,1);
 done: memcpy(out,h,outlen);
}

/* ---------------- BLAKE3 (recursive definition) ---------------- */
static const int B3P[16] = {2,6,3,10,7,0,4,13,1,11,12,5,9,14,15,8};
enum { CS=1, CE=2, PARENT=4, ROOT=8, KEYED=16 };
static void b3_c(const uint32_t cv[8], const uint32_t blk[16], uint64_t t, uint32_t len, uint32_t flags, uint32_t o[16])
{
  uint32_t v[16], m[16], m2[16]; memcpy(m, blk, 64);
  for(int i=0;i<8;i++)v[i]=cv[i];
  for(int i=0;i<4;i++)v[8+i]=IV32[i];
  v[12]=(uint32_t)t; v[13]=(uint32_t)(t>>32); v[14]=len; v[15]=flags;
  for(int r=0;r<7;r++){
    G32(0,4,8,12,m[0],m[1]);G32(1,5,9,13,m[2],m[3]);G32(2,6,10,14,m[4],m[5]);G32(3,7,11,15,m[6],m[7]);
    G32(0,5,10,15,m[8],m[9]);G32(1,6,11,12,m[10],m[11]);G32(2,7,8,13,m[12],m[13]);G32(3,4,9,14,m[14],m[15]);
    if(r<6){for(int i=0;i<16;i++)m2[i]=m[B3P[i]];memcpy(m,m2,64);}
  }
  for(int i=0;i<8;i++){o[i]=v[i]^v[i+8];o[i+8]=v[i+8]^cv[i];}
}
struct b3node { uint32_t cv[8], blk[16]; uint64_t t; uint32_t len, flags; };
static void b3_chunk(const uint32_t key[8], uint32_t base, uint64_t idx, const uint8_t *m, size_t n, struct b3node *o)
{
  uint32_t cv[8], w[16], x[16]; memcpy(cv, key, 32);
  uint32_t fl = base | CS;
  while (n > 64) { memcpy(w, m, 64); b3_c(cv, w, idx, 64, fl, x); memcpy(cv, x, 32); fl = base; m += 64; n -= 64; }
  memset(w, 0, 64); memcpy(w, m, n);
  memcpy(o->cv, cv, 32); memcpy(o->blk, w, 64); o->t = idx; o->len = n; o->flags = fl | CE;
}
static void b3_node(const uint32_t key[8], uint32_t base, uint64_t idx, const uint8_t *m, size_t n, struct b3node *o)
{
  if (n <= 1024) { b3_chunk(key, base, idx, m, n, o); return; }
  size_t half = 1024; while (half * 2 < n) half *= 2;
  struct b3node l, r; uint32_t x[16];
  b3_node(key, base, idx, m, half, &l);
  b3_node(key, base, idx + half/1024, m + half, n - half, &r);
  memcpy(o->cv, key, 32);
  b3_c(l.cv, l.blk, l.t, l.len, l.flags, x); memcpy(o->blk, x, 32);
  b3_c(r.cv, r.blk, r.t, r.len, r.flags, x); memcpy(o->blk + 8, x, 32);
  o->t = 0; o->len = 64; o->flags = base | PARENT;
}
static void ref_blake3(size_t outlen, const uint8_t *key, size_t kl, const uint8_t *m, size_t n, uint8_t *out)
{
  uint32_t k[8], x[16]; uint32_t base = 0; struct b3node root;
  if (kl) { memcpy(k, key, 32); base = KEYED; } else memcpy(k, IV32, 32);
  b3_node(k, base, 0, m, n, &root);
  for (uint64_t t = 0; outlen > 0; t++) {
    b3_c(root.cv, root.blk, t, root.len, root.flags | ROOT, x);
    size_t c = outlen < 64 ? outlen : 64; memcpy(out, x, c); out += c; outlen -= c;
  }
}

/* ---------------- SipHash-2-4 ---------------- */
#define RL64(x,n) (((x)<<(n))|((x)>>(64-(n))))
static void ref_siphash(int outlen, const uint8_t *key, const uint8_t *m, size_t n, uint8_t *out)
{
  uint64_t k0,k1; memcpy(&k0,key,8); memcpy(&k1,key+8,8);
  uint64_t v0=0x736f6d6570736575ULL^k0,v1=0x646f72616e646f6dULL^k1,v2=0x6c7967656e657261ULL^k0,v3=0x7465646279746573ULL^k1;
  uint64_t b=(uint64_t)n<<56, w;
  if(outlen==16)v1^=0xee;
#define SR v0+=v1;v1=RL64(v1,13);v1^=v0;v0=RL64(v0,32);v2+=v3;v3=RL64(v3,16);v3^=v2;v0+=v3;v3=RL64(v3,21);v3^=v0;v2+=v1;v1=RL64(v1,17);v1^=v2;v2=RL64(v2,32)
  while(n>=8){memcpy(&w,m,8);v3^=w;SR;SR;v0^=w;m+=8;n-=8;}
  for(size_t i=0;i<n;i++)b|=(uint64_t)m[i]<<(8*i);
  v3^=b;SR;SR;v0^=b;
  v2^=(outlen==16)?0xee:0xff;
  SR;SR;SR;SR; w=v0^v1^v2^v3; memcpy(out,&w,8);
  if(outlen==16){v1^=0xdd;SR;SR;SR;SR;w=v0^v1^v2^v3;memcpy(out+8,&w,8);}
}

/* ---------------- ChaCha20, original and IETF layouts ---------------- */
static void chacha_block(const uint32_t s[16], uint8_t out[64])
{
  uint32_t x[16]; memcpy(x,s,64);
#define RL32(v,n) (((v)<<(n))|((v)>>(32-(n))))
#define QR(a,b,c,d) x[a]+=x[b];x[d]=RL32(x[d]^x[a],16);x[c]+=x[d];x[b]=RL32(x[b]^x[c],12);x[a]+=x[b];x[d]=RL32(x[d]^x[a],8);x[c]+=x[d];x[b]=RL32(x[b]^x[c],7)
  for(int i=0;i<10;i++){QR(0,4,8,12);QR(1,5,9,13);QR(2,6,10,14);QR(3,7,11,15);QR(0,5,10,15);QR(1,6,11,12);QR(2,7,8,13);QR(3,4,9,14);}
  for(int i=0;i<16;i++)x[i]+=s[i];
  memcpy(out,x,64);
}
/* keystream bytes [0,len) for the given parameters, starting at block ctr */
value ref_chacha20(value key, value iv, value ctr, value len)
{
  CAMLparam4(key, iv, ctr, len);
  CAMLlocal1(res);
  uint32_t s[16]; size_t kl = caml_string_length(key), il = caml_string_length(iv), n = Long_val(len);
  const char *k = String_val(key);
  memcpy(s, kl == 32 ? "expand 32-byte k" : "expand 16-byte k", 16);
  memcpy(s+4, k, 16); memcpy(s+8, kl == 32 ? k+16 : k, 16);
  uint64_t c = Int64_val(ctr);
  res = caml_alloc_string(n);
  uint8_t *o = (uint8_t *)String_val(res), b[64];
  for (size_t i = 0; i < n; i += 64, c++) {
    s[12] = (uint32_t)c;
    if (il == 8) { s[13] = (uint32_t)(c >> 32); memcpy(s+14, String_val(iv), 8); }
    else memcpy(s+13, String_val(iv), 12);
    chacha_block(s, b);
    memcpy(o+i, b, n-i < 64 ? n-i : 64);
  }
  CAMLreturn(res);
}

/* ---------------- one-shot digests over (buf, ofs, len) ---------------- */
enum { K_MD5, K_SHA1, K_SHA224, K_SHA256, K_SHA384, K_SHA512, K_RMD160, K_SHA3, K_KECCAK, K_B2B, K_B2S, K_B3 };
static size_t evp_digest(const EVP_MD *md, const uint8_t *p, size_t n, uint8_t *out)
{ unsigned l = 0; if (!md || !EVP_Digest(p, n, out, &l, md, NULL)) die("EVP_Digest"); return l; }
static void ref_rmd(const uint8_t *p, size_t n, uint8_t *out)
{ RIPEMD160_CTX c; RIPEMD160_Init(&c); while (n) { size_t k = n > (1u<<30) ? (1u<<30) : n; RIPEMD160_Update(&c, p, k); p += k; n -= k; } RIPEMD160_Final(out, &c); }
static size_t digest(int kind, int bits, const uint8_t *key, size_t kl, const uint8_t *p, size_t n, uint8_t *out)
{
  switch (kind) {
  case K_MD5: return evp_digest(EVP_md5(), p, n, out);
  case K_SHA1: return evp_digest(EVP_sha1(), p, n, out);
  case K_SHA224: return evp_digest(EVP_sha224(), p, n, out);
  case K_SHA256: return evp_digest(EVP_sha256(), p, n, out);
  case K_SHA384: return evp_digest(EVP_sha384(), p, n, out);
  case K_SHA512: return evp_digest(EVP_sha512(), p, n, out);
  case K_RMD160: ref_rmd(p, n, out); return 20;
  case K_SHA3: return evp_digest(bits==224?EVP_sha3_224():bits==256?EVP_sha3_256():bits==384?EVP_sha3_384():EVP_sha3_512(), p, n, out);
  case K_KECCAK: ref_keccak(bits, 1, p, n, out); return bits/8;
  case K_B2B: ref_blake2b(bits/8, key, kl, p, n, out); return bits/8;
  case K_B2S: ref_blake2s(bits/8, key, kl, p, n, out); return bits/8;
  case K_B3: ref_blake3(bits/8, key, kl, p, n, out); return bits/8;
  }
  die("digest kind"); return 0;
}
value ref_digest(value kind, value bits, value key, value buf, value vofs, value vlen)
{
  CAMLparam5(kind, bits, key, buf, vofs); CAMLxparam1(vlen);
  CAMLlocal1(res);
  size_t cap = Long_val(bits)/8 + 64;
  size_t kmax = Long_val(kind) == K_B2B ? 64 : 32;
  if (caml_string_length(key) > kmax) caml_failwith("reference: key size outside the standard");
  uint8_t *out = malloc(cap);
  size_t l = digest(Long_val(kind), Long_val(bits), (uint8_t *)String_val(key), caml_string_length(key),
                    (uint8_t *)String_val(buf) + Long_val(vofs), Long_val(vlen), out);
  res = caml_alloc_string(l); memcpy((char *)String_val(res), out, l); free(out);
  CAMLreturn(res);
}
value ref_digest_b(value *a, int n) { return ref_digest(a[0],a[1],a[2],a[3],a[4],a[5]); }

value ref_hmac(value kind, value key, value msg)
{
  CAMLparam3(kind, key, msg); CAMLlocal1(res);
  uint8_t out[64]; unsigned l = 0;
  const EVP_MD *md = NULL;
  switch (Long_val(kind)) { case K_MD5: md=EVP_md5();break; case K_SHA1: md=EVP_sha1();break; case K_SHA256: md=EVP_sha256();break; case K_SHA384: md=EVP_sha384();break; case K_SHA512: md=EVP_sha512();break; }
  if (md) { if (!HMAC(md, String_val(key), caml_string_length(key), (uint8_t *)String_val(msg), caml_string_length(msg), out, &l)) die("HMAC"); }
  else { /* RIPEMD-160, by the definition */
    uint8_t k[64], d[20]; size_t kl = caml_string_length(key), n = caml_string_length(msg);
    memset(k,0,64); if (kl > 64) ref_rmd((uint8_t *)String_val(key), kl, k); else memcpy(k, String_val(key), kl);
    uint8_t *b = malloc(64 + n + 20);
    for (int i=0;i<64;i++) b[i]=k[i]^0x36; memcpy(b+64,String_val(msg),n); ref_rmd(b,64+n,d);
    for (int i=0;i<64;i++) b[i]=k[i]^0x5c; memcpy(b+64,d,20); ref_rmd(b,84,out); l=20; free(b);
  }
  res = caml_alloc_string(l); memcpy((char *)String_val(res), out, l);
  CAMLreturn(res);
}
value ref_siphash_ml(value outlen, value key, value msg)
{
  CAMLparam3(outlen, key, msg); CAMLlocal1(res);
  uint8_t out[16];
  ref_siphash(Long_val(outlen), (uint8_t *)String_val(key), (uint8_t *)String_val(msg), caml_string_length(msg), out);
  res = caml_alloc_string(Long_val(outlen)); memcpy((char *)String_val(res), out, Long_val(outlen));
  CAMLreturn(res);
}
value ref_siphash_sub(value outlen, value key, value buf, value ofs, value len)
{
  CAMLparam5(outlen, key, buf, ofs, len); CAMLlocal1(res);
  uint8_t out[16];
  ref_siphash(Long_val(outlen), (uint8_t *)String_val(key), (uint8_t *)String_val(buf) + Long_val(ofs), Long_val(len), out);
  res = caml_alloc_string(Long_val(outlen)); memcpy((char *)String_val(res), out, Long_val(outlen));
  CAMLreturn(res);
}
value ref_cmac(value key, value msg)
{
  CAMLparam2(key, msg); CAMLlocal1(res);
  uint8_t out[16]; size_t l = 16; size_t kl = caml_string_length(key);
  CMAC_CTX *c = CMAC_CTX_new();
  if (!CMAC_Init(c, String_val(key), kl, kl==16?EVP_aes_128_cbc():kl==24?EVP_aes_192_cbc():EVP_aes_256_cbc(), NULL)
   || !CMAC_Update(c, String_val(msg), caml_string_length(msg)) || !CMAC_Final(c, out, &l)) die("CMAC");
  CMAC_CTX_free(c);
  res = caml_alloc_string(16); memcpy((char *)String_val(res), out, 16);
  CAMLreturn(res);
}

/* ---------------- raw block ciphers ---------------- */
/* kind: 0 aes 1 des 2 3des 3 blowfish; a string of blocks in ECB */
value ref_ecb(value kind, value vdec, value key, value src)
{
  CAMLparam4(kind, vdec, key, src); CAMLlocal1(res);
  size_t n = caml_string_length(src), kl = caml_string_length(key);
  const uint8_t *k = (const uint8_t *)String_val(key);
  int dec = Bool_val(vdec);
  res = caml_alloc_string(n);
  const uint8_t *s = (const uint8_t *)String_val(src); uint8_t *d = (uint8_t *)String_val(res);
  k = (const uint8_t *)String_val(key);
  switch (Long_val(kind)) {
  case 0: { AES_KEY ak; if (dec) AES_set_decrypt_key(k, kl*8, &ak); else AES_set_encrypt_key(k, kl*8, &ak);
    for (size_t i=0;i+16<=n;i+=16) if (dec) AES_decrypt(s+i,d+i,&ak); else AES_encrypt(s+i,d+i,&ak); break; }
  case 1: { DES_key_schedule ks; DES_set_key_unchecked((const_DES_cblock *)k, &ks);
    for (size_t i=0;i+8<=n;i+=8) DES_ecb_encrypt((const_DES_cblock *)(s+i),(DES_cblock *)(d+i),&ks,dec?DES_DECRYPT:DES_ENCRYPT); break; }
  case 2: { DES_key_schedule a,b,c; DES_set_key_unchecked((const_DES_cblock *)k,&a); DES_set_key_unchecked((const_DES_cblock *)(k+8),&b);
    DES_set_key_unchecked((const_DES_cblock *)(kl==24?k+16:k),&c);
    for (size_t i=0;i+8<=n;i+=8) DES_ecb3_encrypt((const_DES_cblock *)(s+i),(DES_cblock *)(d+i),&a,&b,&c,dec?DES_DECRYPT:DES_ENCRYPT); break; }
  case 3: { BF_KEY bk; BF_set_key(&bk, kl, k);
    for (size_t i=0;i+8<=n;i+=8) BF_ecb_encrypt(s+i,d+i,&bk,dec?BF_DECRYPT:BF_ENCRYPT); break; }
  }
  CAMLreturn(res);
}
value ref_rc4(value key, value len)
{
  CAMLparam2(key, len); CAMLlocal1(res);
  RC4_KEY k; size_t n = Long_val(len);
  RC4_set_key(&k, caml_string_length(key), (uint8_t *)String_val(key));
  res = caml_alloc_string(n); memset((char *)String_val(res), 0, n);
  RC4(&k, n, (uint8_t *)String_val(res), (uint8_t *)String_val(res));
  CAMLreturn(res);
}

/* ---------------- AEAD: returns ciphertext ^ tag ---------------- */
static int aad(EVP_CIPHER_CTX *c, const uint8_t *p, size_t n)
{ while (n) { int l; int k = n > (1u<<26) ? (1<<26) : (int)n; if (!EVP_EncryptUpdate(c, NULL, &l, p, k)) return 0; p += k; n -= k; } return 1; }
value ref_gcm(value key, value iv, value hdr, value msg)
{
  CAMLparam4(key, iv, hdr, msg); CAMLlocal1(res);
  size_t n = caml_string_length(msg), kl = caml_string_length(key), il = caml_string_length(iv);
  int l = 0;
  res = caml_alloc_string(n + 16);
  EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new();
  if (!EVP_EncryptInit_ex(c, kl==16?EVP_aes_128_gcm():kl==24?EVP_aes_192_gcm():EVP_aes_256_gcm(), NULL, NULL, NULL)
   || !EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_AEAD_SET_IVLEN, il, NULL)
   || !EVP_EncryptInit_ex(c, NULL, NULL, (uint8_t *)String_val(key), (uint8_t *)String_val(iv))) die("gcm init");
  if (!aad(c, (uint8_t *)String_val(hdr), caml_string_length(hdr))) die("gcm aad");
  l = 0;
  if (n && !EVP_EncryptUpdate(c, (uint8_t *)String_val(res), &l, (uint8_t *)String_val(msg), n)) die("gcm update");
  if (!EVP_EncryptFinal_ex(c, (uint8_t *)String_val(res)+l, &l)) die("gcm final");
  if (!EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_AEAD_GET_TAG, 16, (uint8_t *)String_val(res)+n)) die("gcm tag");
  EVP_CIPHER_CTX_free(c);
  CAMLreturn(res);
}
value ref_chapoly(value key, value iv, value hdr, value msg)
{
  CAMLparam4(key, iv, hdr, msg); CAMLlocal1(res);
  size_t n = caml_string_length(msg); int l = 0;
  res = caml_alloc_string(n + 16);
  EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new();
  if (!EVP_EncryptInit_ex(c, EVP_chacha20_poly1305(), NULL, NULL, NULL)
   || !EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_AEAD_SET_IVLEN, 12, NULL)
   || !EVP_EncryptInit_ex(c, NULL, NULL, (uint8_t *)String_val(key), (uint8_t *)String_val(iv))) die("chapoly init");
  if (!aad(c, (uint8_t *)String_val(hdr), caml_string_length(hdr))) die("chapoly aad");
  l = 0;
  if (n && !EVP_EncryptUpdate(c, (uint8_t *)String_val(res), &l, (uint8_t *)String_val(msg), n)) die("chapoly update");
  if (!EVP_EncryptFinal_ex(c, (uint8_t *)String_val(res)+l, &l)) die("chapoly final");
  if (!EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_AEAD_GET_TAG, 16, (uint8_t *)String_val(res)+n)) die("chapoly tag");
  EVP_CIPHER_CTX_free(c);
  CAMLreturn(res);
}
/* GF(2^128) product, bit-serial, GCM bit order */
value ref_gfmul(value x, value y)
{
  CAMLparam2(x, y); CAMLlocal1(res);
  uint8_t z[16], v[16]; memset(z,0,16); memcpy(v,String_val(y),16);
  for (int i=0;i<128;i++) {
    if ((((uint8_t *)String_val(x))[i/8] >> (7-i%8)) & 1) for(int j=0;j<16;j++) z[j]^=v[j];
    int lsb = v[15]&1;
    for (int j=15;j>0;j--) v[j]=(v[j]>>1)|(v[j-1]<<7);
    v[0]>>=1; if (lsb) v[0]^=0xe1;
  }
  res = caml_alloc_string(16); memcpy((char *)String_val(res), z, 16);
  CAMLreturn(res);
}

/* ---------------- zlib ---------------- */
value ref_deflate(value level, value hdr, value strategy, value src)
{
  CAMLparam4(level, hdr, strategy, src); CAMLlocal1(res);
  z_stream z; memset(&z,0,sizeof z);
  if (deflateInit2(&z, Long_val(level), Z_DEFLATED, Bool_val(hdr)?15:-15, 8, Long_val(strategy)) != Z_OK) die("deflateInit");
  size_t n = caml_string_length(src), cap = deflateBound(&z, n) + 64;
  uint8_t *o = malloc(cap);
  z.next_in = (uint8_t *)String_val(src); z.avail_in = n; z.next_out = o; z.avail_out = cap;
  if (deflate(&z, Z_FINISH) != Z_STREAM_END) die("deflate");
  res = caml_alloc_string(z.total_out); memcpy((char *)String_val(res), o, z.total_out);
  deflateEnd(&z); free(o);
  CAMLreturn(res);
}
/* returns (status, output): 0 = complete stream consuming all input,
   1 = truncated (more input needed), 2 = error, 3 = trailing garbage */
value ref_inflate(value hdr, value src)
{
  CAMLparam2(hdr, src); CAMLlocal2(res, s);
  z_stream z; memset(&z,0,sizeof z);
  if (inflateInit2(&z, Bool_val(hdr)?15:-15) != Z_OK) die("inflateInit");
  size_t n = caml_string_length(src), cap = 65536, len = 0; int st, r;
  uint8_t *o = malloc(cap);
  z.next_in = (uint8_t *)String_val(src); z.avail_in = n;
  for (;;) {
    if (cap - len < 4096) { cap *= 2; o = realloc(o, cap); }
    z.next_out = o + len; z.avail_out = cap - len;
    r = inflate(&z, Z_SYNC_FLUSH);
    len = z.next_out - o;
    if (r == Z_STREAM_END) { st = z.avail_in ? 3 : 0; break; }
    if (r == Z_OK && (z.avail_in > 0 || z.avail_out == 0)) continue;
    if (r == Z_OK || r == Z_BUF_ERROR) { if (z.avail_out == 0) continue; st = 1; break; }
    st = 2; break;
  }
  inflateEnd(&z);
  s = caml_alloc_string(len); memcpy((char *)String_val(s), o, len); free(o);
  res = caml_alloc_tuple(2); Store_field(res, 0, Val_long(st)); Store_field(res, 1, s);
  CAMLreturn(res);
}
value ref_inflate_crc(value hdr, value src)
{
  CAMLparam2(hdr, src); CAMLlocal1(res);
  z_stream z; memset(&z,0,sizeof z);
  if (inflateInit2(&z, Bool_val(hdr)?15:-15) != Z_OK) die("inflateInit");
  size_t n = caml_string_length(src), pos = 0, total = 0; int st = 1, r;
  size_t cap = 1 << 20; uint8_t *o = malloc(cap);
  unsigned long crc = crc32(0, NULL, 0);
  for (;;) {
    if (z.avail_in == 0 && pos < n) { size_t k = n - pos > (1u<<28) ? (1u<<28) : n - pos;
      z.next_in = (uint8_t *)String_val(src) + pos; z.avail_in = k; pos += k; }
    z.next_out = o; z.avail_out = cap;
    r = inflate(&z, Z_SYNC_FLUSH);
    size_t k = z.next_out - o; total += k; crc = crc32(crc, o, k);
    if (r == Z_STREAM_END) { st = (z.avail_in || pos < n) ? 3 : 0; break; }
    if (r == Z_OK) { if (k == 0 && z.avail_in == 0 && pos == n) { st = 1; break; } continue; }
    st = r == Z_BUF_ERROR ? 1 : 2; break;
  }
  size_t used = pos - z.avail_in;
  inflateEnd(&z); free(o);
  res = caml_alloc_tuple(4);
  Store_field(res, 0, Val_long(st)); Store_field(res, 1, Val_long(total));
  Store_field(res, 2, Val_long((long)crc)); Store_field(res, 3, Val_long(used));
  CAMLreturn(res);
}
value ref_crc32(value crc, value buf, value ofs, value len)
{ return Val_long((long)crc32_z(Long_val(crc), (uint8_t *)Bytes_val(buf) + Long_val(ofs), Long_val(len))); }
/* a conforming stream with other parameters: window bits (negative: raw), memory level, a flush of kind fk every fe bytes */
value ref_deflate2(value level, value wbits, value mem, value strategy, value fk, value fe, value src)
{
  CAMLparam1(src); CAMLlocal1(res);
  z_stream z; memset(&z,0,sizeof z);
  if (deflateInit2(&z, Long_val(level), Z_DEFLATED, Long_val(wbits), Long_val(mem), Long_val(strategy)) != Z_OK) die("deflateInit2");
  static const int kinds[] = { Z_NO_FLUSH, Z_PARTIAL_FLUSH, Z_SYNC_FLUSH, Z_FULL_FLUSH, Z_BLOCK };
  size_t n = caml_string_length(src), pos = 0, f = Long_val(fe) < 1 ? n + 1 : Long_val(fe);
  size_t cap = 2 * n + 20 * (n / f + 2) + 4096;
  uint8_t *o = malloc(cap);
  z.next_out = o; z.avail_out = cap;
  while (pos < n) {
    size_t k = n - pos < f ? n - pos : f;
    z.next_in = (uint8_t *)String_val(src) + pos; z.avail_in = k;
    int r = deflate(&z, kinds[Long_val(fk) % 5]);
    if ((r != Z_OK && r != Z_BUF_ERROR) || z.avail_in) die("deflate2");
    pos += k;
  }
  z.next_in = o; z.avail_in = 0;
  if (deflate(&z, Z_FINISH) != Z_STREAM_END) die("deflate2 finish");
  res = caml_alloc_string(z.total_out); memcpy((char *)String_val(res), o, z.total_out);
  deflateEnd(&z); free(o);
  CAMLreturn(res);
}
value ref_deflate2_b(value *a, int n) { return ref_deflate2(a[0], a[1], a[2], a[3], a[4], a[5], a[6]); }
