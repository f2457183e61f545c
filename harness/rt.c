/* Runtime monitor layer.  Linked into every monitored executable with
   -Wl,--wrap=... so that the library's C stubs and the OCaml runtime go
   through these functions.  Everything is disarmed by default. */
#define _GNU_SOURCE
#define CAML_NAME_SPACE
#define CAML_INTERNALS
#include <caml/mlvalues.h>
#include <caml/memory.h>
#include <caml/alloc.h>
#include <caml/custom.h>
#include <caml/fail.h>
#include <caml/gc.h>
#include <caml/minor_gc.h>
#include <caml/major_gc.h>
#include <caml/compact.h>
#include <caml/address_class.h>
#include <caml/callback.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <zlib.h>

#if defined(__SANITIZE_ADDRESS__)
#define HAVE_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HAVE_ASAN 1
#endif
#endif
#ifdef HAVE_ASAN
#include <sanitizer/asan_interface.h>
#define POISON(p,n) __asan_poison_memory_region((p),(n))
#define UNPOISON(p,n) __asan_unpoison_memory_region((p),(n))
#define NOASAN __attribute__((no_sanitize("address"),no_sanitize("undefined"),noinline))
#else
#define POISON(p,n) ((void)0)
#define UNPOISON(p,n) ((void)0)
#define NOASAN __attribute__((noinline))
#endif

/* ---------------------------------------------------------------- */
/* Counters                                                         */
static uintnat n_alloc_string, n_gc_forced, n_arena, n_arena_custom, n_canary_checked;
static long live_ctx, n_ctx_alloc, n_ctx_free, n_bad_free;
static long z_def_init, z_def_end, z_inf_init, z_inf_end, z_bad;

/* ---------------------------------------------------------------- */
/* Arena with red zones: every byte string allocated while armed     */

#define RZ 64
#define CANARY 0xC7
static long n_guard;
static int arena_on = 0;          /* 0 off, 1 red zones, 2 guard pages */
static char *arena_base, *arena_ptr, *arena_end, *arena_reg;
static size_t ARENA_SIZE = (size_t)24 << 30;
#define REGCHUNK ((size_t)4 << 20)
struct ablk { char *beg; size_t bytes; char *zbeg, *zend; int tag; };
static struct ablk *ablks; static size_t nablk, capablk;

static void arena_init(void)
{
  if (arena_base) return;
  arena_base = mmap(NULL, ARENA_SIZE, PROT_READ|PROT_WRITE,
                    MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
  if (arena_base == MAP_FAILED) { perror("arena mmap"); _exit(3); }
  arena_ptr = arena_reg = arena_base; arena_end = arena_base + ARENA_SIZE;
}
static void arena_register(char *upto)
{
  while (arena_reg < upto) {
    caml_page_table_add(In_static_data, arena_reg, arena_reg + REGCHUNK);
    arena_reg += REGCHUNK;
  }
}
NOASAN static void raw_fill(char *p, int c, size_t n)
{ volatile char *q = p; while (n--) *q++ = (char)c; }

static int fill_byte = -1;        /* contents given to fresh byte strings */
static uint64_t fill_ctr;
NOASAN static void fill_fresh(char *p, size_t n)
{
  volatile unsigned char *q = (volatile unsigned char *)p;
  if (fill_byte < 0) return;
  for (size_t i = 0; i < n; i++) {
    fill_ctr = fill_ctr * 6364136223846793005ULL + 1442695040888963407ULL;
    q[i] = (unsigned char)((fill_ctr >> 56) ^ fill_byte);
  }
}

/* A byte string of len bytes, or a custom block of len bytes in all. */
NOASAN static value arena_alloc_tag(mlsize_t len, int tag)
{
  mlsize_t wosize = tag == String_tag ? (len + sizeof(value)) / sizeof(value) : len / sizeof(value);
  size_t bytes = wosize * sizeof(value);
  char *blk, *zbeg, *zend;
  value v;
  arena_init();
  /* every guard page costs two mappings, and the kernel grants 65530 */
  int guard = arena_on == 2 && tag == String_tag && n_guard < 12000;
  if (guard) {
    size_t tot = (RZ + sizeof(header_t) + bytes + 4095) & ~(size_t)4095;
    char *base = (char *)(((uintptr_t)arena_ptr + 4095) & ~(uintptr_t)4095);
    if (base + tot + 4096 > arena_end) return 0;
    blk = base + tot - bytes;
    zbeg = blk - sizeof(header_t) - RZ; zend = base + tot;
    if (mprotect(zend, 4096, PROT_NONE) != 0) return 0;
    n_guard++;
    arena_ptr = zend + 4096;
  } else {
    if (arena_ptr + 2*RZ + bytes + 16 > arena_end) return 0;
    zbeg = arena_ptr;
    blk = arena_ptr + RZ + sizeof(header_t);
    zend = blk + bytes + RZ;
    zend = (char *)(((uintptr_t)zend + 15) & ~(uintptr_t)15);
    arena_ptr = zend;
  }
  arena_register(arena_ptr);
  n_arena++;
  raw_fill(zbeg, CANARY, blk - sizeof(header_t) - zbeg);
  if (!guard) raw_fill(blk + bytes, CANARY, zend - (blk + bytes));
  *(volatile header_t *)(blk - sizeof(header_t)) = Make_header(wosize, tag, Caml_black);
  v = Val_hp(blk - sizeof(header_t));
  if (tag == String_tag) {
    fill_fresh((char *)v, bytes);
    ((volatile value *)v)[wosize - 1] = 0;
    ((volatile char *)v)[bytes - 1] = (char)(bytes - 1 - len);
  }
  POISON(zbeg, blk - sizeof(header_t) - zbeg);
  /* the padding of the last word too: it is not part of the byte string */
  if (!guard) POISON(blk + len, zend - (blk + len));
  else POISON(blk + len, bytes - len);
  if (nablk == capablk) {
    capablk = capablk ? 2 * capablk : 4096;
    ablks = realloc(ablks, capablk * sizeof *ablks);
  }
  ablks[nablk++] = (struct ablk){ blk, len, zbeg, guard ? blk + bytes : zend, tag };
  return v;
}
static value arena_alloc(mlsize_t len) { return arena_alloc_tag(len, String_tag); }

/* Verify canaries (and OCaml string padding) of all blocks allocated since
   the last check; returns the number of damaged blocks. */
NOASAN value mon_arena_check(value unit)
{
  long bad = 0;
  for (size_t i = 0; i < nablk; i++) {
    struct ablk *b = &ablks[i];
    volatile unsigned char *p;
    mlsize_t wosize = (b->bytes + (b->tag == String_tag ? sizeof(value) : 0)) / sizeof(value);
    size_t total = wosize * sizeof(value);
    int ok = 1;
    for (p = (unsigned char *)b->zbeg; (char *)p < b->beg - sizeof(header_t); p++)
      if (*p != CANARY) ok = 0;
    for (p = (unsigned char *)b->beg + total; (char *)p < b->zend; p++)
      if (*p != CANARY) ok = 0;
    if (*(volatile header_t *)(b->beg - sizeof(header_t)) != Make_header(wosize, b->tag, Caml_black)) ok = 0;
    if (b->tag == String_tag && ((volatile unsigned char *)b->beg)[total - 1] != total - 1 - b->bytes) ok = 0;
    n_canary_checked++;
    if (!ok) bad++;
  }
  nablk = 0;
  return Val_long(bad);
}
value mon_arena_set(value mode) { arena_on = Long_val(mode); if (arena_on) arena_init(); return Val_unit; }
/* Recycle the arena: only when no arena string is live any more. */
value mon_arena_reset(value unit)
{
  if (!arena_base) return Val_unit;
  if (arena_ptr > arena_base) {
    size_t used = arena_ptr - arena_base;
    mprotect(arena_base, (used + 4095) & ~(size_t)4095, PROT_READ|PROT_WRITE);
    UNPOISON(arena_base, used);
    madvise(arena_base, (used + 4095) & ~(size_t)4095, MADV_DONTNEED);
  }
  arena_ptr = arena_base; nablk = 0; n_guard = 0;
  return Val_unit;
}
value mon_arena_used(value unit) { return Val_long(arena_base ? arena_ptr - arena_base : 0); }
value mon_fill_set(value v) { fill_byte = Long_val(v); fill_ctr = (uint64_t)fill_byte * 77777; return Val_unit; }

/* ---------------------------------------------------------------- */
/* Collection injection                                             */

static int gc_mode = 0;      /* 0 off, 1 minor, 2 full major, 3 compaction */
static long gc_at = -1;      /* -1: at every allocation; k: only at the k-th */
static long gc_count = 0;    /* allocation points seen since last reset */
static int in_inject = 0, junk_all = 0;
static int gc_stub_only;
static void inject(void)
{
  if (gc_mode == 0 || in_inject || gc_stub_only) return;
  long k = gc_count++;
  if (gc_at >= 0 && gc_at != k) return;
  in_inject = 1;
  n_gc_forced++;
  caml_minor_collection();
  if (gc_mode >= 2) { caml_finish_major_cycle(); caml_finish_major_cycle(); }
  if (gc_mode >= 3) caml_compact_heap(-1);
  /* the minor heap is empty now: junk it so that stale pointers show */
  if (Caml_state->young_ptr == Caml_state->young_alloc_end)
    raw_fill((char *)Caml_state->young_start, 0xDB,
             !junk_all && (char *)Caml_state->young_alloc_end - (char *)Caml_state->young_start > 65536
             ? 0 : (char *)Caml_state->young_alloc_end - (char *)Caml_state->young_start);
  in_inject = 0;
}
value mon_gc_set(value mode, value at)
{ gc_mode = Long_val(mode); gc_at = Long_val(at); gc_count = 0; return Val_unit; }
value mon_gc_points(value unit) { return Val_long(gc_count); }
/* force a promotion-free fresh minor heap, so that what follows is young */
value mon_minor(value unit) { caml_minor_collection(); return Val_unit; }

/* ---------------------------------------------------------------- */
/* Wrapped allocation functions                                      */

extern value __real_caml_alloc_string(mlsize_t len);
value __wrap_caml_alloc_string(mlsize_t len)
{
  value v;
  n_alloc_string++;
  if (gc_mode) inject();
  if (arena_on && len < (1 << 24)) { v = arena_alloc(len); if (v) return v; }
  v = __real_caml_alloc_string(len);
  if (fill_byte >= 0) {
    /* keep the padding of the last word */
    fill_fresh((char *)v, len);
  }
  return v;
}
extern value __real_caml_alloc_initialized_string(mlsize_t len, const char *p);
value __wrap_caml_alloc_initialized_string(mlsize_t len, const char *p)
{ if (gc_mode) inject(); return __real_caml_alloc_initialized_string(len, p); }
extern value __real_caml_copy_string(const char *s);
value __wrap_caml_copy_string(const char *s)
{ if (gc_mode) inject(); return __real_caml_copy_string(s); }
extern value __real_caml_alloc_custom(struct custom_operations *ops, uintnat size, mlsize_t mem, mlsize_t max);
value __wrap_caml_alloc_custom(struct custom_operations *ops, uintnat size, mlsize_t mem, mlsize_t max)
{
  if (gc_mode) inject();
  /* big numbers: custom blocks without finalizer */
  if (arena_on && ops->finalize == NULL && size < (1 << 24) && size % sizeof(value) == 0) {
    value v = arena_alloc_tag(sizeof(value) + size, Custom_tag);
    if (v) { *(struct custom_operations **)v = ops; n_arena_custom++; return v; }
  }
  return __real_caml_alloc_custom(ops, size, mem, max);
}
extern value __real_caml_alloc_custom_mem(struct custom_operations *ops, uintnat size, mlsize_t mem);
value __wrap_caml_alloc_custom_mem(struct custom_operations *ops, uintnat size, mlsize_t mem)
{ if (gc_mode) inject(); return __real_caml_alloc_custom_mem(ops, size, mem); }
extern value __real_caml_alloc_small(mlsize_t wosize, tag_t tag);
value __wrap_caml_alloc_small(mlsize_t wosize, tag_t tag)
{ if (gc_mode) inject(); return __real_caml_alloc_small(wosize, tag); }
extern value __real_caml_alloc(mlsize_t wosize, tag_t tag);
value __wrap_caml_alloc(mlsize_t wosize, tag_t tag)
{ if (gc_mode) inject(); return __real_caml_alloc(wosize, tag); }
extern value __real_caml_alloc_tuple(mlsize_t n);
value __wrap_caml_alloc_tuple(mlsize_t n)
{ if (gc_mode) inject(); return __real_caml_alloc_tuple(n); }
extern value __real_caml_copy_int64(int64_t n);
value __wrap_caml_copy_int64(int64_t n)
{ if (gc_mode) inject(); return __real_caml_copy_int64(n); }

/* Allocations made directly by the library's stubs are renamed to these. */
static int gc_stub_only = 0; static long n_stub_points;
static void stub_point(void)
{
  n_stub_points++;
  if (gc_mode && gc_stub_only) { gc_stub_only = 0; inject(); gc_stub_only = 1; }
}
#define STUBPT(call) do { stub_point(); return call; } while (0)
value mon_stub_alloc_string(mlsize_t len) { STUBPT(__wrap_caml_alloc_string(len)); }
value mon_stub_alloc_initialized_string(mlsize_t len, const char *p) { STUBPT(__wrap_caml_alloc_initialized_string(len, p)); }
value mon_stub_copy_string(const char *p) { STUBPT(__wrap_caml_copy_string(p)); }
value mon_stub_alloc_custom(struct custom_operations *o, uintnat s, mlsize_t m, mlsize_t x) { STUBPT(__wrap_caml_alloc_custom(o, s, m, x)); }
value mon_stub_alloc_custom_mem(struct custom_operations *o, uintnat s, mlsize_t m) { STUBPT(__wrap_caml_alloc_custom_mem(o, s, m)); }
value mon_stub_alloc_small(mlsize_t w, tag_t t) { STUBPT(__wrap_caml_alloc_small(w, t)); }
value mon_stub_alloc(mlsize_t w, tag_t t) { STUBPT(__wrap_caml_alloc(w, t)); }
value mon_stub_alloc_tuple(mlsize_t n) { STUBPT(__wrap_caml_alloc_tuple(n)); }
value mon_stub_copy_int64(int64_t n) { STUBPT(__wrap_caml_copy_int64(n)); }

/* Blocking sections opened by the stubs: other threads may run, collect and
   compact before the stub proceeds.  They are made to, every time. */
#include <caml/signals.h>
#include <malloc.h>
static long n_blocking;
NOASAN static void junk_free_memory(void)
{
  for (char *c = caml_heap_start; c != NULL; c = Chunk_next(c)) {
    char *e = c + Chunk_size(c);
    for (char *p = c; p < e; ) {
      header_t h = Hd_hp(p);
      mlsize_t w = Wosize_hd(h);
      if (Color_hd(h) == Caml_blue && w > 16)       /* keep the links of the free list */
        raw_fill(p + 12 * sizeof(value), 0xDB, (w - 11) * sizeof(value));
      p += Bhsize_wosize(w);
    }
  }
}
void mon_enter_blocking(void)
{
  n_blocking++;
  if (n_blocking == 1) mallopt(M_PERTURB, 0x5A);
  if (!in_inject && (n_blocking < 2000 || n_blocking % 100 == 0)) {
    int m = gc_mode, so = gc_stub_only; long at = gc_at, ct = gc_count;
    gc_mode = n_blocking % 4 == 1 ? 3 : 1; gc_stub_only = 0; gc_at = -1;
    junk_all = 1; inject(); junk_all = 0;
    if (gc_mode == 3) junk_free_memory();
    gc_mode = m; gc_stub_only = so; gc_at = at; gc_count = ct;
  }
  caml_enter_blocking_section();
}
void mon_leave_blocking(void) { caml_leave_blocking_section(); }
value mon_gc_stub_only(value b) { gc_stub_only = Bool_val(b); return Val_unit; }

/* ---------------------------------------------------------------- */
/* Native contexts: table of live blocks obtained from the library's  */
/* stubs.  The stubs are compiled with -Dcaml_stat_alloc=mon_stat_... */
/* and likewise for the malloc family, so only their blocks are here. */

struct nblk { void *p; size_t n; };
static struct nblk *nb; static size_t nnb, capnb;
static int track_free = 0;
static uint64_t free_digest; static long free_bytes;
static int fill_native = -1;

static void nb_add(void *p, size_t n)
{
  if (nnb == capnb) { capnb = capnb ? 2*capnb : 1024; nb = realloc(nb, capnb * sizeof *nb); }
  nb[nnb].p = p; nb[nnb].n = n; nnb++;
  n_ctx_alloc++; live_ctx++;
  if (fill_byte >= 0) fill_fresh(p, n);
}
static long nb_find(void *p)
{ for (size_t i = nnb; i-- > 0; ) if (nb[i].p == p) return (long)i; return -1; }

NOASAN static void note_free(void *p, size_t n)
{
  if (!track_free) return;
  const unsigned char *q = p;
  free_bytes += n;
  for (size_t i = 0; i < n; i++) { free_digest = (free_digest ^ q[i]) * 1099511628211ULL; }
  free_digest = (free_digest ^ 0x1ff) * 1099511628211ULL;
}
void *mon_stat_alloc(size_t n)
{ void *p = caml_stat_alloc(n); nb_add(p, n); return p; }
void *mon_stat_alloc_noexc(size_t n)
{ void *p = caml_stat_alloc_noexc(n); if (p) nb_add(p, n); return p; }
void *mon_stat_calloc_noexc(size_t n, size_t m)
{ void *p = caml_stat_calloc_noexc(n, m); if (p) { int f = fill_byte; fill_byte = -1; nb_add(p, n*m); fill_byte = f; } return p; }
void mon_stat_free(void *p)
{
  if (p == NULL) { caml_stat_free(p); return; }
  long i = nb_find(p);
  if (i < 0) { n_bad_free++; fprintf(stderr, "MONITOR: release of unknown or already released native block\n"); return; }
  note_free(p, nb[i].n);
  if (gc_mode) memset(p, 0xDB, nb[i].n);
  nb[i] = nb[--nnb];
  n_ctx_free++; live_ctx--;
  caml_stat_free(p);
}
void *mon_malloc(size_t n)
{ void *p = malloc(n); if (p) nb_add(p, n); return p; }
void *mon_calloc(size_t n, size_t m)
{ void *p = calloc(n, m); if (p) { int f = fill_byte; fill_byte = -1; nb_add(p, n*m); fill_byte = f; } return p; }
void mon_free(void *p)
{
  if (p == NULL) return;
  long i = nb_find(p);
  if (i < 0) { n_bad_free++; fprintf(stderr, "MONITOR: free of unknown or already freed native block\n"); return; }
  note_free(p, nb[i].n);
  nb[i] = nb[--nnb];
  n_ctx_free++; live_ctx--;
  free(p);
}
value mon_track_free(value on)
{ track_free = Bool_val(on); free_digest = 14695981039346656037ULL; free_bytes = 0; return Val_unit; }
value mon_free_digest(value unit) { return Val_long((long)(free_digest >> 2)); }
value mon_free_bytes(value unit) { return Val_long(free_bytes); }

/* counters for OCaml: see Mon.counters */
value mon_counter(value k)
{
  switch (Long_val(k)) {
  case 0: return Val_long(n_alloc_string);
  case 1: return Val_long(n_gc_forced);
  case 90: return Val_long(n_blocking);
  case 91: return Val_long(n_arena_custom);
  case 2: return Val_long(n_arena);
  case 3: return Val_long(n_canary_checked);
  case 4: return Val_long(live_ctx);
  case 5: return Val_long(n_ctx_alloc);
  case 6: return Val_long(n_ctx_free);
  case 7: return Val_long(n_bad_free);
  case 8: return Val_long(z_def_init);
  case 9: return Val_long(z_def_end);
  case 10: return Val_long(z_inf_init);
  case 11: return Val_long(z_inf_end);
  case 12: return Val_long(z_bad);
  case 13: return Val_long(n_stub_points);
  }
  return Val_long(-1);
}

/* ---------------------------------------------------------------- */
/* zlib state accounting: table of live internal states               */
struct zst { void *state; int kind; };
static struct zst zst[65536]; static int nzst;
static void z_add(z_streamp s, int kind) { if (nzst < 65536) { zst[nzst].state = (void *)s->state; zst[nzst++].kind = kind; } }
static int z_del(void *state, int kind)
{ for (int i = nzst; i-- > 0; ) if (zst[i].state == state && zst[i].kind == kind) { zst[i] = zst[--nzst]; return 1; } return 0; }
value mon_zlive(value unit) { return Val_long(nzst); }

extern int __real_deflateInit2_(z_streamp, int, int, int, int, int, const char *, int);
int __wrap_deflateInit2_(z_streamp s, int l, int m, int w, int mm, int st, const char *v, int sz)
{ int r = __real_deflateInit2_(s, l, m, w, mm, st, v, sz); if (r == Z_OK) { z_def_init++; z_add(s, 1); } return r; }
extern int __real_deflateEnd(z_streamp);
int __wrap_deflateEnd(z_streamp s)
{
  void *st = s ? (void *)s->state : NULL;
  int r = __real_deflateEnd(s);
  if (st && z_del(st, 1)) z_def_end++; else if (st) z_bad++;
  return r;
}
extern int __real_inflateInit2_(z_streamp, int, const char *, int);
int __wrap_inflateInit2_(z_streamp s, int w, const char *v, int sz)
{ int r = __real_inflateInit2_(s, w, v, sz); if (r == Z_OK) { z_inf_init++; z_add(s, 2); } return r; }
extern int __real_inflateEnd(z_streamp);
int __wrap_inflateEnd(z_streamp s)
{
  void *st = s ? (void *)s->state : NULL;
  int r = __real_inflateEnd(s);
  if (st && z_del(st, 2)) z_inf_end++; else if (st) z_bad++;
  return r;
}

/* ---------------------------------------------------------------- */
/* Entropy source with fault injection                               */
extern int __real_getentropy(void *, size_t);
static int ent_mode = 0;           /* 0 real, 1 counter stream */
static long ent_fail_at = -1;      /* call number that fails */
static long fault_count = -1;      /* how many calls in a row fail (-1: all from there on) */
#define FAULT(at, k) ((at) >= 0 && (k) >= (at) && (fault_count < 0 || (k) < (at) + fault_count))
static long ent_calls; static uint64_t ent_pos; static long ent_max;
static unsigned char ent_byte(uint64_t i)
{ uint64_t x = i + 0x9E3779B97F4A7C15ULL; x ^= x >> 30; x *= 0xBF58476D1CE4E5B9ULL; x ^= x >> 27; x *= 0x94D049BB133111EBULL; x ^= x >> 31; return (unsigned char)x; }
int __wrap_getentropy(void *p, size_t n)
{
  if (ent_mode == 0) return __real_getentropy(p, n);
  long k = ent_calls++;
  if ((long)n > ent_max) ent_max = n;
  if (n > 256) { errno = EIO; return -1; }
  if (FAULT(ent_fail_at, k)) { errno = EIO; return -1; }
  for (size_t i = 0; i < n; i++) ((unsigned char *)p)[i] = ent_byte(ent_pos++);
  return 0;
}
/* The same source seen through getrandom(2) or a device */
extern ssize_t __real_getrandom(void *, size_t, unsigned);
ssize_t __wrap_getrandom(void *p, size_t n, unsigned fl)
{
  if (ent_mode == 0) return __real_getrandom(p, n, fl);
  long k = ent_calls++;
  if (FAULT(ent_fail_at, k)) { errno = EIO; return -1; }
  if (n > 256) n = 256;
  for (size_t i = 0; i < n; i++) ((unsigned char *)p)[i] = ent_byte(ent_pos++);
  return n;
}
value mon_ent_set(value mode, value fail)
{ ent_mode = Long_val(mode); ent_fail_at = Long_val(fail); ent_calls = 0; ent_pos = 0; ent_max = 0; fault_count = -1; return Val_unit; }
value mon_fault_count(value n) { fault_count = Long_val(n); return Val_unit; }
value mon_ent_byte(value i) { return Val_long(ent_byte(Long_val(i))); }
value mon_ent_pos(value u) { return Val_long(ent_pos); }
value mon_ent_calls(value u) { return Val_long(ent_calls); }

/* ---------------------------------------------------------------- */
/* Short reads and read errors on chosen descriptors                  */
extern ssize_t __real_read(int, void *, size_t);
static int rd_mode = 0;            /* 0 off; 1 armed for all descriptors of the OCaml Unix library */
static uint64_t rd_rng; static long rd_max, rd_fail_at = -1, rd_fail_kind, rd_calls, rd_short, rd_failed;
ssize_t __wrap_read(int fd, void *p, size_t n)
{
  if (!rd_mode) return __real_read(fd, p, n);
  long k = rd_calls++;
  if (FAULT(rd_fail_at, k)) {
    rd_failed++;
    if (rd_fail_kind == 0) return 0;                 /* end of file */
    errno = rd_fail_kind == 1 ? EIO : rd_fail_kind == 2 ? EINTR : EAGAIN;
    return -1;
  }
  if (rd_max > 0) {
    rd_rng = rd_rng * 6364136223846793005ULL + 1442695040888963407ULL;
    size_t m = 1 + (rd_rng >> 33) % rd_max;
    if (m < n) { n = m; rd_short++; }
  }
  return __real_read(fd, p, n);
}
ssize_t __wrap___read_chk(int fd, void *p, size_t n, size_t bl) { return __wrap_read(fd, p, n); }
value mon_read_set(value mode, value max, value fail_at, value kind, value seed)
{ rd_mode = Long_val(mode); rd_max = Long_val(max); rd_fail_at = Long_val(fail_at); rd_fail_kind = Long_val(kind);
  rd_rng = Long_val(seed); rd_calls = 0; rd_failed = 0; fault_count = -1; return Val_unit; }
value mon_read_calls(value u) { return Val_long(rd_calls); }
value mon_read_failed(value u) { return Val_long(rd_failed); }
value mon_read_short(value u) { return Val_long(rd_short); }

/* ---------------------------------------------------------------- */
/* RDRAND: the instructions of the library's stubs are replaced at     */
/* build time by an undefined instruction that keeps the operand, and   */
/* emulated here: real ones, or a known word sequence with failures.     */
#include <signal.h>
#include <ucontext.h>
static int rr_mode; static long rr_cpuid, rr_pos, rr_fail_from = -1, rr_fail_count, rr_execs, rr_failures;
static uint64_t rr_word(uint64_t i)
{ uint64_t x = (i + 1) * 0x9E3779B97F4A7C15ULL; x ^= x >> 30; x *= 0xBF58476D1CE4E5B9ULL; x ^= x >> 27; x *= 0x94D049BB133111EBULL; x ^= x >> 31; return x; }
static void rr_handler(int sig, siginfo_t *si, void *uc_)
{
  ucontext_t *uc = uc_;
  unsigned char *ip = (unsigned char *)uc->uc_mcontext.gregs[REG_RIP];
  static const int regs[16] = { REG_RAX, REG_RCX, REG_RDX, REG_RBX, REG_RSP, REG_RBP, REG_RSI, REG_RDI,
                                REG_R8, REG_R9, REG_R10, REG_R11, REG_R12, REG_R13, REG_R14, REG_R15 };
  if (ip[0] == 0x06 && ip[1] == 0x06) {        /* CPUID next to RDRAND */
    unsigned a = uc->uc_mcontext.gregs[REG_RAX], b = 0, c = uc->uc_mcontext.gregs[REG_RCX], d = 0, leaf = a;
    __asm__ __volatile__ ("cpuid" : "+a" (a), "=b" (b), "+c" (c), "=d" (d));
    rr_cpuid++;
    if (rr_mode == 4 && leaf == 1) c &= ~(1u << 30);
    else if (rr_mode != 0 && leaf == 1) c |= 1u << 30;       /* RDRAND is emulated */
    uc->uc_mcontext.gregs[REG_RAX] = a; uc->uc_mcontext.gregs[REG_RBX] = b;
    uc->uc_mcontext.gregs[REG_RCX] = c; uc->uc_mcontext.gregs[REG_RDX] = d;
    uc->uc_mcontext.gregs[REG_RIP] += 2;
    return;
  }
  if (ip[0] != 0x0f || ip[1] != 0x0b) goto bad;
  int r, len, wide; 
  if (ip[2] >= 0x40 && ip[2] <= 0x4f && ip[3] >= 0xf0 && ip[3] <= 0xf7) { r = (ip[3] & 7) | ((ip[2] & 1) << 3); len = 4; wide = (ip[2] & 8) != 0; }
  else if (ip[2] >= 0xf0 && ip[2] <= 0xf7) { r = ip[2] & 7; len = 3; wide = 0; }
  else goto bad;
  uint64_t w = 0; int ok = 0;
  long k = rr_execs++;
  if (rr_mode == 0) {
    unsigned char c; __asm__ __volatile__ ("rdrand %0; setc %1" : "=r" (w), "=qm" (c)); ok = c; if (!ok) w = 0;
  } else if (rr_fail_from >= 0 && k >= rr_fail_from && (rr_fail_count < 0 || k < rr_fail_from + rr_fail_count)) { rr_failures++; }
  else if (rr_mode == 2) { w = ~(uint64_t)0; ok = 1; }   /* stuck, as some processors are */
  else { w = rr_word(rr_pos++); ok = 1; }
  uc->uc_mcontext.gregs[regs[r]] = wide ? w : (w & 0xffffffffu);
  uc->uc_mcontext.gregs[REG_EFL] = (uc->uc_mcontext.gregs[REG_EFL] & ~0x8d5L) | (ok ? 1 : 0);
  uc->uc_mcontext.gregs[REG_RIP] += len;
  return;
bad:
  signal(SIGILL, SIG_DFL);
}
__attribute__((constructor)) static void rr_install(void)
{
  struct sigaction sa; memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = rr_handler; sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  sigaction(SIGILL, &sa, NULL);
}
value mon_rr_set(value mode, value from, value count)
{ rr_mode = Long_val(mode); rr_fail_from = Long_val(from); rr_fail_count = Long_val(count); rr_pos = 0; rr_execs = 0; rr_failures = 0; rr_cpuid = 0; return Val_unit; }
value mon_rr_cpuid(value u) { return Val_long(rr_cpuid); }
value mon_rr_byte(value i) { long k = Long_val(i); return Val_long((rr_word(k / 8) >> (8 * (k % 8))) & 255); }
value mon_rr_pos(value u) { return Val_long(rr_pos); }
value mon_rr_execs(value u) { return Val_long(rr_execs); }
value mon_rr_failures(value u) { return Val_long(rr_failures); }

/* ---------------------------------------------------------------- */
/* Status file: last case started (survives a crash)                  */
static char *status_map;
value mon_status_open(value path)
{
  int fd = open(String_val(path), O_RDWR|O_CREAT|O_TRUNC, 0600);
  if (fd < 0 || ftruncate(fd, 4096) < 0) { perror("status"); _exit(3); }
  status_map = mmap(NULL, 4096, PROT_READ|PROT_WRITE, MAP_SHARED, fd, 0);
  if (status_map == MAP_FAILED) _exit(3);
  close(fd);
  return Val_unit;
}
value mon_status(value s)
{
  if (!status_map) return Val_unit;
  size_t n = caml_string_length(s); if (n > 4000) n = 4000;
  memcpy(status_map, String_val(s), n); status_map[n] = 0;
  return Val_unit;
}

/* ---------------------------------------------------------------- */
/* Snapshot of everything reachable from a value, for the erasure      */
/* oracle.  Produces a canonical byte sequence (addresses replaced by   */
/* visit numbers); strings listed in [excl] (physically) are skipped.   */
struct seen { value v; long id; };
static struct seen *seen; static size_t seen_cap, seen_n;
static unsigned char *snap; static size_t snap_n, snap_cap;
static void put(const void *p, size_t n)
{
  if (snap_n + n > snap_cap) { snap_cap = (snap_n + n) * 2; snap = realloc(snap, snap_cap); }
  memcpy(snap + snap_n, p, n); snap_n += n;
}
static void put8(int c) { unsigned char b = c; put(&b, 1); }
static void putl(long l) { put(&l, sizeof l); }
static long seen_lookup(value v, int *isnew)
{
  if (2 * (seen_n + 1) > seen_cap) {
    size_t oc = seen_cap; struct seen *old = seen;
    seen_cap = oc ? 2 * oc : 4096;
    seen = calloc(seen_cap, sizeof *seen);
    for (size_t i = 0; i < oc; i++) if (old[i].v) {
      size_t h = ((uintptr_t)old[i].v * 0x9E3779B97F4A7C15ULL) & (seen_cap - 1);
      while (seen[h].v) h = (h + 1) & (seen_cap - 1);
      seen[h] = old[i];
    }
    free(old);
  }
  size_t h = ((uintptr_t)v * 0x9E3779B97F4A7C15ULL) & (seen_cap - 1);
  while (seen[h].v) { if (seen[h].v == v) { *isnew = 0; return seen[h].id; } h = (h + 1) & (seen_cap - 1); }
  seen[h].v = v; seen[h].id = seen_n++; *isnew = 1;
  return seen[h].id;
}
struct wk { value v; };
static value *wstack; static size_t wn, wcap;
static void wpush(value v) { if (wn == wcap) { wcap = wcap ? 2*wcap : 1024; wstack = realloc(wstack, wcap * sizeof(value)); } wstack[wn++] = v; }
static long snap_strings, snap_native, snap_blocks;

static void snap_word(value f)
{
  /* one field: immediate, or pointer to a block */
  if (Is_long(f)) { put8('i'); putl(Long_val(f)); return; }
  if (!Is_in_value_area(f)) {
    long i = nb_find((void *)f);
    if (i >= 0) { put8('N'); putl(nb[i].n); put(nb[i].p, nb[i].n); snap_native++; }
    else put8('x');
    return;
  }
  if (!(Is_in_heap_or_young(f)) && arena_base == NULL) {
    /* static data: constant program data (but static strings could be
       mutable module-level state, so visit them too) */
  }
  int nw; 
  if (Tag_val(f) == Infix_tag) f -= Infix_offset_val(f);
  long id = seen_lookup(f, &nw);
  put8('p'); putl(id);
  if (nw) wpush(f);
}
value mon_snapshot(value root, value excl, value dynonly)
{
  CAMLparam2(root, excl);
  CAMLlocal1(res);
  int nw;
  memset(seen, 0, seen_cap * sizeof *seen); seen_n = 0; snap_n = 0; wn = 0;
  snap_strings = snap_native = snap_blocks = 0;
  for (mlsize_t i = 0; i < Wosize_val(excl); i++)
    if (Is_block(Field(excl, i))) seen_lookup(Field(excl, i), &nw);
  snap_word(root);
  while (wn > 0) {
    value v = wstack[--wn];
    mlsize_t sz = Wosize_val(v); tag_t t = Tag_val(v);
    int isstatic = !Is_in_heap_or_young(v) &&
      !(arena_base && (char *)v >= arena_base && (char *)v < arena_end);
    if (isstatic && Bool_val(dynonly)) { continue; }
    put8('B'); put8(t); putl(sz);
    snap_blocks++;
    if (t == String_tag || t == Double_tag || t == Double_array_tag) {
      if (t == String_tag) { mlsize_t l = caml_string_length(v); snap_strings++; putl(l); put((void *)v, l); }
      else put((void *)v, sz * sizeof(value));
    } else if (t == Custom_tag) {
      /* first word: operations.  Then raw data words, which may hold
         pointers to native contexts. */
      for (mlsize_t i = 1; i < sz; i++) {
        uintptr_t w = ((uintptr_t *)v)[i];
        long k = w ? nb_find((void *)w) : -1;
        if (k >= 0) { put8('N'); putl(nb[k].n); put(nb[k].p, nb[k].n); snap_native++; }
        else putl((long)w);
      }
    } else if (t == Abstract_tag) {
      put((void *)v, sz * sizeof(value));
    } else if (t == Closure_tag) {
      mlsize_t i = Start_env_closinfo(Closinfo_val(v));
      for (; i < sz; i++) snap_word(Field(v, i));
    } else if (t < No_scan_tag) {
      mlsize_t i0 = 0;
      if (t == Object_tag) i0 = 2;   /* method table and object id */
      for (mlsize_t i = i0; i < sz; i++) snap_word(Field(v, i));
    }
  }
  res = __real_caml_alloc_string(snap_n);
  memcpy((char *)res, snap, snap_n);
  CAMLreturn(res);
}
value mon_snap_stats(value u)
{ value r = __real_caml_alloc_small(3, 0); Field(r,0) = Val_long(snap_strings); Field(r,1) = Val_long(snap_native); Field(r,2) = Val_long(snap_blocks); return r; }

/* A byte string of more than 4 GB, of which only a few pages are ever touched: offsets beyond 2^31 and 2^32. */
value mon_far(value u)
{
  static value far;
  if (!far) {
    size_t len = ((size_t)1 << 32) + (16 << 20), wo = (len + sizeof(value)) / sizeof(value);
    char *p = mmap(NULL, 4096 + wo * sizeof(value), PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("far mmap"); _exit(3); }
    caml_page_table_add(In_static_data, p, p + 8192);
    p += 4096;
    *(header_t *)(p - sizeof(value)) = Make_header(wo, String_tag, Caml_black);
    p[wo * sizeof(value) - 1] = wo * sizeof(value) - 1 - len;
    far = (value)p;
  }
  return far;
}
value mon_variant_asan(value u)
{
#ifdef HAVE_ASAN
  return Val_true;
#else
  return Val_false;
#endif
}
/* A private, non-recycled heap region to be filled with a pattern, so that
   memory subsequently obtained from malloc is dirty. */
value mon_dirty_malloc(value vb)
{
  void *ps[64]; int c = Long_val(vb);
  for (int i = 0; i < 64; i++) { size_t n = 16u << (i % 10); ps[i] = malloc(n); if (ps[i]) memset(ps[i], c, n); }
  for (int i = 0; i < 64; i++) free(ps[i]);
  return Val_unit;
}
/* mutate an (immutable) string in place, used only on harness data */
value mon_set_byte(value s, value i, value c) { ((unsigned char *)s)[Long_val(i)] = Long_val(c); return Val_unit; }

/* ---------------------------------------------------------------- */
/* Instruction counter: run a closure with the trap flag set; every   */
/* executed user-mode instruction delivers one SIGTRAP.               */
#if defined(__x86_64__)
long mon_cpuid_calls;
static volatile unsigned long st_count, st_hash, st_aes, st_clmul;
static void st_trap(int sig, siginfo_t *si, void *uc)
{
  const unsigned char *pc = (const unsigned char *)((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP];
  if (pc[0] == 0x66) {                       /* the instruction about to be executed */
    int k = 1;
    if ((pc[k] & 0xf0) == 0x40) k++;
    if (pc[k] == 0x0f && pc[k+1] == 0x38 && pc[k+2] >= 0xdb && pc[k+2] <= 0xdf) st_aes++;
    if (pc[k] == 0x0f && pc[k+1] == 0x3a && pc[k+2] == 0xdf) st_aes++;
    if (pc[k] == 0x0f && pc[k+1] == 0x3a && pc[k+2] == 0x44) st_clmul++;
  }
  st_count++;
  st_hash = (st_hash ^ (unsigned long)((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP]) * 0x100000001b3UL;
}
__attribute__((noinline)) static value st_run(value f) { return caml_callback_exn(f, Val_unit); }
/* returns (number of instructions, hash of the program-counter trace) */
value mon_steps(value f)
{
  CAMLparam1(f); CAMLlocal1(r);
  struct sigaction sa, old;
  memset(&sa, 0, sizeof sa); sa.sa_sigaction = st_trap; sa.sa_flags = SA_SIGINFO;
  sigaction(SIGTRAP, &sa, &old);
  st_count = st_aes = st_clmul = 0; st_hash = 0xcbf29ce484222325UL;
  __asm__ volatile("pushfq\n\torq $0x100,(%%rsp)\n\tpopfq" ::: "memory", "cc");
  r = st_run(f);
  __asm__ volatile("pushfq\n\tandq $~0x100,(%%rsp)\n\tpopfq" ::: "memory", "cc");
  sigaction(SIGTRAP, &old, NULL);
  unsigned long c = st_count, h = st_hash;
  if (Is_exception_result(r)) caml_raise(Extract_exception(r));
  r = __real_caml_alloc_small(2, 0);
  Field(r, 0) = Val_long(c); Field(r, 1) = Val_long((long)(h >> 2));
  CAMLreturn(r);
}
#else
long mon_cpuid_calls;
static unsigned long st_aes, st_clmul;
value mon_steps(value f) { caml_failwith("HARNESS-ERROR: no instruction counter"); }
#endif

/* accelerated instructions seen by the last mon_steps, and consultations of the processor's feature flags so far */
value mon_accel_seen(value u)
{ value r = __real_caml_alloc_small(3, 0); Field(r,0) = Val_long(st_aes); Field(r,1) = Val_long(st_clmul); Field(r,2) = Val_long(mon_cpuid_calls); return r; }
