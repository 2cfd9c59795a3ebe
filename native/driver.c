/* Search for failing inputs on the real code: seed-indexed cases, each judged by an oracle written from the property
 * statements (reference encoder, parser, check, comparison, lookup, search, printer over its own tree type N).
 * usage: driver PROPERTY SEED FIRST LAST SECONDS SCRATCH     exit 0: nothing found, 1: "FAIL <case>: <what>" on fd 3 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <stdio_ext.h>
#include <time.h>
#include <setjmp.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include "ifftypes.h"
#include "chunk.h"
#include "rawchunk.h"
#include "group.h"
#include "form.h"
#include "cat.h"
#include "list.h"
#include "prop.h"
#include "iff.h"
#include "io.h"
#include "id.h"
#include "field.h"
#include "error.h"
#include "chunkregistry.h"
#include "defaultregistry.h"
extern int IFF_join(char **, const unsigned int, const char *);
extern int IFF_prettyPrint(const char *, const int);
extern int iffjoin_main(int, char **), iffpp_main(int, char **);
#include <getopt.h>
typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;

void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
FILE *__real_fopen(const char *, const char *); int __real_fclose(FILE *);

/* ---- failures of the case at hand */
static char what[8192]; static jmp_buf out; static volatile int armed;
static void bad(const char *f, ...) { va_list a; va_start(a, f); vsnprintf(what, sizeof what, f, a); va_end(a); if (armed) longjmp(out, 1); }

static void limit(void) { if (armed) longjmp(out, 2); _exit(9); }     /* the case is too big for this driver: skipped */
/* ---- arena for the oracle's own data */
static char *arena; static size_t atop; enum { ASIZE = 64 << 20 };
static void *ar(size_t n) { n = (n + 15) & ~(size_t)15; if (atop + n > ASIZE) limit(); void *p = arena + atop; atop += n; if (n < (1u << 20)) memset(p, 0, n); return p; }

/* ---- accounting of the library's memory */
enum { MAXB = 1 << 16 };
static void *blk[MAXB]; static int nblk; static long fail_at = -1, nalloc; static int oom_hit, wrong_free, own;
static int find_block(void *p) { for (int i = nblk - 1; i >= 0; i--) if (blk[i] == p) return i; return -1; }
static void *account(void *p) { if (p) { if (nblk == MAXB) limit(); blk[nblk++] = p; } return p; }
static int refuse(size_t n) { if (own) return 0; if (n > (1u << 20)) { oom_hit = 1; return 1; } if (fail_at >= 0 && nalloc++ == fail_at) { oom_hit = 1; return 1; } return 0; }
void *__wrap_malloc(size_t n) { if (refuse(n)) return NULL; void *p = __real_malloc(n); if (p && n) memset(p, 0xA5, n); return own ? p : account(p); }
void *__wrap_calloc(size_t a, size_t b) { if (refuse(a * b)) return NULL; void *p = __real_calloc(a, b); return own ? p : account(p); }
void __wrap_free(void *p) { if (!p) return; int i = find_block(p); if (i < 0 && !own) { wrong_free++; return; } if (i >= 0) blk[i] = blk[--nblk]; __real_free(p); }
void *__wrap_realloc(void *p, size_t n) {
    if (p) { int i = find_block(p); if (i < 0) { if (!own) wrong_free++; return __real_realloc(NULL, n); } blk[i] = blk[--nblk]; }
    void *q = __real_realloc(p, n); return q ? account(q) : q; }

/* ---- files */
typedef struct { u8 *d; size_t len, pos, cap; i64 fault; int faulted, closed; } Mem;
static ssize_t mrd(void *c, char *b, size_t n) { Mem *m = c; if (m->fault >= 0 && (i64)(m->pos + n) > m->fault) { if ((i64)m->pos >= m->fault) { m->faulted = 1; return -1; } n = m->fault - m->pos; } if (m->pos >= m->len) return 0; if (n > m->len - m->pos) n = m->len - m->pos; memcpy(b, m->d + m->pos, n); m->pos += n; return n; }
static ssize_t mwr(void *c, const char *b, size_t n) { Mem *m = c; if (m->fault >= 0 && (i64)(m->pos + n) > m->fault) { m->faulted = 1; return 0; } if (m->pos + n > m->cap) limit(); memcpy(m->d + m->pos, b, n); m->pos += n; if (m->pos > m->len) m->len = m->pos; return n; }
static int mcl(void *c) { ((Mem *)c)->closed++; return 0; }
static FILE *mopen(Mem *m, const char *mode, int buffered) { cookie_io_functions_t io = { mrd, mwr, NULL, mcl }; own++; FILE *f = fopencookie(m, mode, io); if (!buffered) setvbuf(f, NULL, _IONBF, 0); own--; return f; }
static Mem rd(u8 *d, size_t n) { Mem m = { d, n, 0, n, -1, 0, 0 }; return m; }
static Mem wr(size_t cap) { Mem m = { ar(cap), 0, 0, cap, -1, 0, 0 }; return m; }
static void fin(FILE *f) { own++; __real_fclose(f); own--; }
static struct { FILE *f; char name[300], mode[8]; } op[64]; static int nop, nopen_calls, bad_close; static int fail_fopen = -1, fail_fclose = -1, nfclose; static Mem *subst;
FILE *__wrap_fopen(const char *n, const char *m) {
    if (own) return __real_fopen(n, m);
    if (nopen_calls++ == fail_fopen) return NULL;
    own++; FILE *f = subst ? mopen(subst, strchr(m, 'w') ? "w" : "r", 1) : __real_fopen(n, m); own--;
    if (f && nop < 64) { op[nop].f = f; snprintf(op[nop].name, 300, "%s", n); snprintf(op[nop].mode, 8, "%s", m); nop++; } return f; }
int __wrap_fclose(FILE *f) {
    if (own) return __real_fclose(f);
    int i; for (i = 0; i < nop; i++) if (op[i].f == f) break;
    if (i == nop) { bad_close++; return 0; }
    op[i] = op[--nop]; own++; int r = __real_fclose(f); own--; return nfclose++ == fail_fclose ? EOF : r; }
static void quietcb(const char *f, va_list a) { (void)f; (void)a; }

/* ---- random numbers */
static u64 rs; static u64 rnd(void) { u64 z = (rs += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static int R(int n) { return n <= 0 ? 0 : (int)(rnd() % (u64)n); }
static int chance(int a, int b) { return R(b) < a; }

/* ---- the oracle's trees */
#define ID(a) IFF_MAKEID((a)[0], (a)[1], (a)[2], (a)[3])
#define mk(s) ((u32)((u8)(s)[0] << 24 | (u8)(s)[1] << 16 | (u8)(s)[2] << 8 | (u8)(s)[3]))
static u32 mkf(const char *s) { return mk(s); }
#define FORM mk("FORM")
#define CAT mk("CAT ")
#define LIST mk("LIST")
#define PROP mk("PROP")
#define JJJJ mk("JJJJ")
#define TEXT mk("TEXT")
typedef struct N N; struct N { u32 id; int32_t size; u32 gt; int n, np; N **k, **p; u8 *data; N *up; IFF_Chunk *real; };
static int isg(u32 i) { return i == FORM || i == CAT || i == LIST || i == PROP; }
static int odd(i64 x) { return (int)(x & 1); }
static N *mkn(u32 id) { N *x = ar(sizeof *x); x->id = id; return x; }
static void addk(N *g, N *m) { N **a = ar((g->n + 1) * sizeof *a); if (g->n) memcpy(a, g->k, g->n * sizeof *a); a[g->n++] = m; g->k = a; m->up = g; }
static void addp(N *g, N *m) { N **a = ar((g->np + 1) * sizeof *a); if (g->np) memcpy(a, g->p, g->np * sizeof *a); a[g->np++] = m; g->p = a; m->up = g; }
static i64 psz(N *x) { return 8 + (i64)x->size + odd(x->size); }
static i64 body(N *x) { i64 s = 4; for (int i = 0; i < x->n; i++) s += psz(x->k[i]); if (x->id == LIST) for (int i = 0; i < x->np; i++) s += psz(x->p[i]); return s; }
static void sizes(N *x) { if (!isg(x->id)) return; for (int i = 0; i < x->n; i++) sizes(x->k[i]); for (int i = 0; i < x->np; i++) sizes(x->p[i]); x->size = (int32_t)body(x); }
static const char *DID[] = { "BODY", "TEXT", "NAME", "ABCD", "A  1", "~~~~" }, *FT[] = { "ILBM", "8SVX", "AIFF", "T ST" };
static u32 did(void) { return mkf(DID[R(6)]); }
static u32 ft(void) { return mkf(FT[R(4)]); }
static N *data_node(u32 id, int size) { N *x = mkn(id); x->size = size; x->data = ar(size + 1); for (int i = 0; i < size; i++) x->data[i] = chance(1, 4) ? (u8)(chance(1, 2) ? 0 : 255) : (u8)rnd(); return x; }
static int cnt(int n) { return chance(1, 40) ? R(40) : R(n); }
static int rsize(void) { if (chance(1, 400)) return R(70000); switch (R(8)) { case 0: return 0; case 1: return 1; case 2: return R(3) + 9; case 3: return R(600); default: return R(24); } }
static N *gdata(void) { return data_node(did(), rsize()); }
static N *gprop(void) { N *x = mkn(PROP); x->gt = ft(); for (int i = cnt(4); i > 0; i--) addk(x, gdata()); return x; }
static N *ggroup(int depth, u32 want);      /* conforming group of type want (0: any) */
static N *gform(int depth, u32 t) { N *x = mkn(FORM); x->gt = t ? t : ft(); for (int i = cnt(5); i > 0; i--) addk(x, depth > 0 && chance(1, 3) ? ggroup(depth - 1, 0) : gdata()); return x; }
static N *gcat(int depth, u32 t, int list) { N *x = mkn(list ? LIST : CAT); x->gt = t ? t : chance(1, 2) ? JJJJ : ft(); if (list) for (int i = cnt(3); i > 0; i--) addp(x, gprop());
    if (depth > 0) for (int i = cnt(4); i > 0; i--) addk(x, ggroup(depth - 1, x->gt == JJJJ ? 0 : x->gt)); return x; }
static N *ggroup(int depth, u32 want) { int k = want == JJJJ ? 1 + R(2) : R(3); return k == 0 ? gform(depth, want) : gcat(depth, want, k == 2); }
static N *conforming(void) { N *x; if (chance(1, 60)) { x = gform(0, 0); for (int i = R(120); i > 0; i--) { N *y = mkn(chance(1, 2) ? CAT : chance(1, 2) ? LIST : FORM); y->gt = y->id == FORM ? ft() : chance(1, 2) ? JJJJ : x->gt; if (y->id == FORM && chance(1, 3)) addk(y, gdata()); addk(y, x); x = y; } } else x = ggroup(1 + R(4), 0); sizes(x); return x; }
/* all nodes */
static N *all_[65536]; static int nall;
static void walk(N *x) { if (nall < 65536) all_[nall++] = x; for (int i = 0; i < x->np; i++) walk(x->p[i]); for (int i = 0; i < x->n; i++) walk(x->k[i]); }
static N *pick(N *x) { nall = 0; walk(x); return all_[R(nall)]; }
static u32 rid(void) { u32 v = did(); switch (R(8)) { case 0: return (v & 0x00ffffff) | 0x20000000u; case 1: return (v & ~(0xffu << (8 * R(4)))) | (u32)R(32) << (8 * R(4)); case 2: return (v & 0xffffff00u) | (u32)(0x7e + R(3)); case 3: return (u32)rnd(); case 4: return (v & 0xff00ffffu) | (u32)(0x60 + R(30)) << 16; default: return v; } }
static u32 rft(void) { static const char *res[] = { "FORM", "LIST", "PROP", "CAT ", "JJJJ", "FOR1", "FOR9", "LIS1", "LIS9", "CAT1", "CAT9", "FOR5", "LIS4", "CAT7", "FOR0", "lower", "AB-C", "ABC ", "    ", "0000", "9ZZZ", "AZaz", " ABC", "@ABC", "[ABC", "A/BC", "A:BC", "FOR:", "CAT0", "IFFF" }; switch (R(4)) { case 0: return mkf(res[R(30)]); case 1: { u32 v = ft(); int b = 8 * R(4); return (v & ~(0xffu << b)) | (u32)R(256) << b; } case 2: { static const char *p[] = { "FOR", "LIS", "CAT", "PRO" }; const char *s = p[R(4)]; return mk(s) & 0xffffff00u | (u32)(0x2f + R(14)); } default: return ft(); } }
static void mutate(N *x) { N *y = pick(x); switch (R(7)) {
    case 0: { u32 i = rid(); if (isg(y->id) == isg(i)) y->id = i; break; }
    case 1: y->size += chance(1, 2) ? 1 : -1; if (y->size < 0) y->size = 1; if (!isg(y->id)) { y->data = ar(y->size + 1); } break;
    case 2: if (isg(y->id)) y->gt = rft(); break;
    case 3: if (isg(y->id)) { addk(y, chance(1, 2) ? gprop() : gdata()); if (chance(2, 3)) sizes(x); } break;
    case 4: if (isg(y->id)) { addk(y, ggroup(1, 0)); if (chance(2, 3)) sizes(x); } break;
    case 5: if (isg(y->id) && y->n) { y->n--; if (chance(1, 2)) sizes(x); } break;
    case 6: if (isg(y->id)) y->size = chance(1, 3) ? R(5) : y->size + R(40); break; } }
static N *anytree(void) { N *x = conforming(); if (chance(1, 6)) x = gdata(); if (chance(1, 10)) { x = gprop(); sizes(x); } for (int i = R(4); i > 0; i--) mutate(x); return x; }

/* ---- the same trees in the library's structs, outside the accounting */
static size_t ssz(u32 id) { return id == LIST ? sizeof(IFF_List) : isg(id) ? sizeof(IFF_Group) : sizeof(IFF_RawChunk); }
static IFF_Chunk *realize2(N *x, IFF_Group *up) {
    IFF_Chunk *c = __wrap_malloc(ssz(x->id)); c->parent = up; c->chunkId = x->id; c->chunkSize = x->size; x->real = c;
    if (isg(x->id)) { IFF_Group *g = (IFF_Group *)c; g->groupType = x->gt; g->chunkLength = x->n; g->chunk = x->n ? __wrap_malloc(x->n * sizeof(void *)) : NULL; for (int i = 0; i < x->n; i++) g->chunk[i] = realize2(x->k[i], g);
        if (x->id == LIST) { IFF_List *l = (IFF_List *)c; l->propLength = x->np; l->prop = x->np ? __wrap_malloc(x->np * sizeof(void *)) : NULL; for (int i = 0; i < x->np; i++) l->prop[i] = (IFF_Prop *)realize2(x->p[i], (IFF_Group *)l); } }
    else { IFF_RawChunk *r = (IFF_RawChunk *)c; r->chunkData = __wrap_malloc(x->size); memcpy(r->chunkData, x->data, x->size); }
    return c; }
static IFF_Chunk *realize(N *x) { long f = fail_at; fail_at = -1; IFF_Chunk *c = realize2(x, NULL); fail_at = f; return c; }
static void release(IFF_Chunk *c) { if (!c) return; if (isg(c->chunkId)) { IFF_Group *g = (IFF_Group *)c; for (unsigned i = 0; i < g->chunkLength; i++) release(g->chunk[i]); __wrap_free(g->chunk); if (c->chunkId == LIST) { IFF_List *l = (IFF_List *)c; for (unsigned i = 0; i < l->propLength; i++) release((IFF_Chunk *)l->prop[i]); __wrap_free(l->prop); } } else __wrap_free(((IFF_RawChunk *)c)->chunkData); __wrap_free(c); }
/* difference between a tree in memory and the oracle's tree; parent: also check parent pointers */
static const char *differs(IFF_Chunk *c, N *x, int parent, IFF_Group *up) {
    if (!c) return "a chunk is missing"; if (c->chunkId != x->id) return "chunk ID"; if (c->chunkSize != x->size) return "chunk size"; if (parent && c->parent != up) return "parent pointer";
    if (!isg(x->id)) return x->size && memcmp(((IFF_RawChunk *)c)->chunkData, x->data, x->size) ? "data bytes" : NULL;
    IFF_Group *g = (IFF_Group *)c; if (g->groupType != x->gt) return "group type"; if (g->chunkLength != (unsigned)x->n) return "number of members";
    const char *r; for (int i = 0; i < x->n; i++) if ((r = differs(g->chunk[i], x->k[i], parent, g))) return r;
    if (x->id == LIST) { IFF_List *l = (IFF_List *)c; if (l->propLength != (unsigned)x->np) return "number of shared properties"; for (int i = 0; i < x->np; i++) if ((r = differs((IFF_Chunk *)l->prop[i], x->p[i], parent, g))) return r; }
    return NULL; }
static void unchanged(N *x) { const char *r = differs(x->real, x, 1, NULL); if (r) bad("the tree was modified: %s", r); }

/* ---- reference encoder, parser, check, comparison */
static u8 *enc; static size_t en; enum { ENC = 4 << 20 };
static void put(u8 b) { if (en >= ENC) limit(); enc[en++] = b; }
static void put4(u32 v) { for (int i = 3; i >= 0; i--) put((u8)(v >> (8 * i))); }
static void encode(N *x) { put4(x->id); put4((u32)x->size); i64 b = 0;
    if (!isg(x->id)) { for (int i = 0; i < x->size; i++) put(x->data[i]); b = x->size; }
    else if (x->size >= 4) { put4(x->gt); b = 4; if (x->id == LIST) for (int i = 0; i < x->np; i++) { encode(x->p[i]); b += psz(x->p[i]); } for (int i = 0; i < x->n; i++) { encode(x->k[i]); b += psz(x->k[i]); } }
    for (; b < x->size; b++) put(0); if (odd(x->size)) put(0); }
static u8 *encoded(N *x, size_t *n) { enc = ar(ENC); en = 0; encode(x); *n = en; atop -= ENC - ((en + 15) & ~(size_t)15); return enc; }
static u32 be4(const u8 *d) { return (u32)d[0] << 24 | d[1] << 16 | d[2] << 8 | d[3]; }
static N *parse(const u8 *d, i64 len, i64 p, i64 *end) {
    if (p + 8 > len) return NULL; N *x = mkn(be4(d + p)); x->size = (int32_t)be4(d + p + 4); i64 e = p + 8, b = 0; if (x->size < 0) return NULL;
    if (!isg(x->id)) { if (e + x->size > len) return NULL; x->data = ar(x->size + 1); memcpy(x->data, d + e, x->size); e += x->size; b = x->size; }
    else if (x->size >= 4) { if (e + 4 > len) return NULL; x->gt = be4(d + e); e += 4; b = 4; while (b < x->size) { N *m = parse(d, len, e, &e); if (!m) return NULL; b += psz(m); if (x->id == LIST && m->id == PROP) addp(x, m); else addk(x, m); } }
    if (b < x->size) e += x->size - b; e += odd(x->size); if (e > len) return NULL; *end = e; return x; }
static int vid(u32 v) { for (int i = 0; i < 4; i++) { u32 c = v >> (8 * i) & 255; if (c < 0x20 || c > 0x7e) return 0; } return v >> 24 != 0x20; }
static int vft(u32 v) { if (!vid(v)) return 0; for (int i = 0; i < 4; i++) { u32 c = v >> (8 * i) & 255; if (!((c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == ' ')) return 0; } if (isg(v) || v == JJJJ) return 0; u32 h = v >> 8, l = v & 255; return !((h == mk("FOR ") >> 8 || h == mk("LIS ") >> 8 || h == mk("CAT ") >> 8) && l >= '1' && l <= '9'); }
static int conf(N *x) { if (!vid(x->id)) return 0; if (!isg(x->id)) return 1; int l = x->id == LIST || x->id == CAT; if (!(l ? vid(x->gt) : vft(x->gt))) return 0;
    for (int i = 0; i < x->n; i++) { N *m = x->k[i]; if (!conf(m)) return 0; if (x->id == FORM && m->id == PROP) return 0; if (x->id == PROP && isg(m->id)) return 0; if (l && (!isg(m->id) || m->id == PROP || (x->gt != JJJJ && m->gt != x->gt))) return 0; }
    if (x->id == LIST) for (int i = 0; i < x->np; i++) if (!conf(x->p[i])) return 0; return x->size == body(x); }
static int same(N *a, N *b) { if (a->id != b->id || a->size != b->size) return 0; if (!isg(a->id)) return !memcmp(a->data, b->data, a->size); if (a->gt != b->gt || a->n != b->n || (a->id == LIST && a->np != b->np)) return 0; for (int i = 0; i < a->n; i++) if (!same(a->k[i], b->k[i])) return 0; if (a->id == LIST) for (int i = 0; i < a->np; i++) if (!same(a->p[i], b->p[i])) return 0; return 1; }
static N *copy(N *a) { N *b = ar(sizeof *b); *b = *a; b->real = NULL; b->up = NULL; b->n = b->np = 0; b->k = b->p = NULL; if (a->data) { b->data = ar(a->size + 1); memcpy(b->data, a->data, a->size); } for (int i = 0; i < a->n; i++) addk(b, copy(a->k[i])); for (int i = 0; i < a->np; i++) addp(b, copy(a->p[i])); return b; }
static char *show(N *x) { size_t n; u8 *e = encoded(x, &n); char *s = ar(2 * n + 64), *q = s; for (size_t i = 0; i < n && i < 400; i++) q += sprintf(q, "%02x", e[i]); if (n > 400) strcpy(q, "..."); return s; }
static char *hex(const u8 *d, size_t n) { char *s = ar(2 * (n < 400 ? n : 400) + 8), *q = s; for (size_t i = 0; i < n && i < 400; i++) q += sprintf(q, "%02x", d[i]); if (n > 400) strcpy(q, "..."); return s; }

/* ---- inputs for reading */
static u8 *rbytes(size_t *n) { N *x = chance(3, 4) ? anytree() : conforming(); u8 *e = encoded(x, n); size_t cap = *n + 64; u8 *d = ar(cap); memcpy(d, e, *n);
    for (int i = chance(1, 2) ? 0 : R(4); i > 0 && *n > 8; i--) switch (R(4)) { case 0: d[R((int)*n)] = (u8)rnd(); break; case 1: d[4 + R(4)] = (u8)(chance(3, 4) ? 0 : rnd()); break; case 2: *n -= R((int)(*n < 12 ? *n : 12)); break; case 3: { int o = R((int)*n); d[o] ^= (u8)(1 << R(8)); break; } }
    if (chance(1, 40)) { *n = (size_t)R(16); }
    for (int i = chance(1, 3) ? R(12) : 0; i > 0; i--) d[(*n)++] = (u8)rnd(); return d; }
static void reset(void) { fail_at = -1; nalloc = 0; oom_hit = 0; wrong_free = 0; nop = nopen_calls = bad_close = nfclose = 0; fail_fopen = fail_fclose = -1; subst = NULL; own = 0; }
static void no_leak(int before, const char *w) { if (nblk != before) bad("%s: %d blocks are left allocated", w, nblk - before); if (wrong_free) bad("%s: something is released that is not allocated (or twice)", w); }
static char scratch[256];
static char *path(const char *n) { char *p = ar(320); snprintf(p, 320, "%s/%s", scratch, n); return p; }
static void save(const char *p, const u8 *d, size_t n) { int f = open(p, O_CREAT | O_TRUNC | O_WRONLY, 0600); if (write(f, d, n) != (ssize_t)n) _exit(9); close(f); }
static u8 *slurp(const char *p, size_t *n) { struct stat s; int f = open(p, O_RDONLY); if (f < 0) { *n = 0; return NULL; } fstat(f, &s); u8 *d = ar(s.st_size + 1); *n = read(f, d, s.st_size); close(f); return d; }
static int savedout; static char *capfile;
static int capfull;      /* the standard output accepts nothing */
static void cap_full(void) { fflush(stdout); int f = open("/dev/full", O_WRONLY); dup2(f, 1); close(f); capfull = 1; }
static void cap_begin(void) { fflush(stdout); capfile = path("stdout"); int f = open(capfile, O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(f, 1); close(f); }
static u8 *cap_end(size_t *n) { fflush(stdout); if (capfull) { __fpurge(stdout); clearerr(stdout); dup2(savedout, 1); capfull = 0; *n = 0; return NULL; } dup2(savedout, 1); return slurp(capfile, n); }

/* ---- reference printer */
static char *pt; static size_t pn, pcap; static void pf(const char *f, ...) { va_list a; va_start(a, f); pn += vsnprintf(pt + pn, pcap - pn, f, a); va_end(a); if (pn + 4096 > pcap) limit(); }
static void pi(int l) { while (l-- > 0) pf("  "); }
static void pc(int c) { pt[pn++] = (char)c; if (pn + 4096 > pcap) _exit(9); }
static void pid(u32 v) { for (int i = 3; i >= 0; i--) pc((int)(v >> (8 * i) & 255)); }
static void ref_print(N *x, int l) { pi(l); pf("'"); pid(x->id); pf("' = {\n"); pi(l + 1); pf("chunkSize = %d;\n", x->size);
    if (isg(x->id)) { pi(l); pf("%s = '", x->id == FORM || x->id == PROP ? "formType" : "contentsType"); pid(x->gt); pf("';\n"); if (x->id == LIST) { pi(l); pf("prop = [\n"); for (int i = 0; i < x->np; i++) ref_print(x->p[i], l + 1); pi(l); pf("];\n"); } pi(l); pf("[\n"); for (int i = 0; i < x->n; i++) ref_print(x->k[i], l + 1); pi(l); pf("];\n"); }
    else if (x->id == TEXT) { pi(l); pf("text = '\n"); pi(l + 1); for (int i = 0; i < x->size; i++) pc(x->data[i]); pf("\n"); pi(l); pf("';\n"); }
    else { pi(l); pf("bytes = \n"); pi(l + 1); for (int i = 0; i < x->size; i++) { if (i && i % 10 == 0) { pf("\n"); pi(l + 1); } pf("%02x ", x->data[i]); } pf("\n"); pi(l); pf(";\n"); }
    pi(l); pf("}\n\n"); }
static char *printed(N *x, int l, size_t *n) { pcap = 8 << 20; pt = ar(pcap); pn = 0; ref_print(x, l); *n = pn; atop -= pcap - ((pn + 16) & ~(size_t)15); return pt; }

/* ================================================================ the properties */
static u64 val(int bits) { u64 v = rnd(); switch (R(6)) { case 0: v = 0; break; case 1: v = ~0ull; break; case 2: v = 1ull << R(bits); break; case 3: v = 0x0123456789abcdefull; break; } return bits == 64 ? v : v & ((1ull << bits) - 1); }
static int rw(int t, int write, FILE *f, u64 *v) { IFF_UByte a = (u8)*v; IFF_UWord b = (uint16_t)*v; IFF_Word c = (int16_t)*v; IFF_ULong d = (u32)*v; IFF_Long e = (int32_t)*v; IFF_ID i = (u32)*v; int r = 0;
    if (write) switch (t) { case 0: r = IFF_writeUByte(f, a, TEXT, "x"); break; case 1: r = IFF_writeUWord(f, b, TEXT, "x"); break; case 2: r = IFF_writeWord(f, c, TEXT, "x"); break; case 3: r = IFF_writeULong(f, d, TEXT, "x"); break; case 4: r = IFF_writeLong(f, e, TEXT, "x"); break; case 5: r = IFF_writeId(f, i, TEXT, "x"); break; }
    else switch (t) { case 0: r = IFF_readUByte(f, &a, TEXT, "x"); *v = a; break; case 1: r = IFF_readUWord(f, &b, TEXT, "x"); *v = b; break; case 2: r = IFF_readWord(f, &c, TEXT, "x"); *v = (uint16_t)c; break; case 3: r = IFF_readULong(f, &d, TEXT, "x"); *v = d; break; case 4: r = IFF_readLong(f, &e, TEXT, "x"); *v = (u32)e; break; case 5: r = IFF_readId(f, &i, TEXT, "x"); *v = i; break; }
    return r; }
static const int TS[] = { 1, 2, 2, 4, 4, 4 };
static const char *TN[] = { "UByte", "UWord", "Word", "ULong", "Long", "Id" };
static void c01(void) { int t = R(6), n = TS[t]; u64 v = val(8 * n), w = 0; Mem m = wr(16); if (chance(1, 6)) m.fault = R(n); FILE *f = mopen(&m, "w", 0); int r = rw(t, 1, f, &v); fin(f);
    if (r != !m.faulted && (!!r) != !m.faulted) bad("IFF_write%s of %llx returned %d although the write %s", TN[t], (unsigned long long)v, r, m.faulted ? "failed" : "worked");
    if (r) { if (m.len != (size_t)n) bad("IFF_write%s wrote %zu bytes", TN[t], m.len); for (int i = 0; i < n; i++) if (m.d[i] != (u8)(v >> (8 * (n - 1 - i)))) bad("IFF_write%s(%llx) wrote %s", TN[t], (unsigned long long)v, hex(m.d, n)); }
    u8 *d = ar(16); for (int i = 0; i < 8; i++) d[i] = (u8)rnd(); for (int i = 0; i < n; i++) d[i] = (u8)(v >> (8 * (n - 1 - i)));
    Mem q = rd(d, chance(1, 5) ? (size_t)R(n) : 8); if (chance(1, 8)) q.fault = R(n); f = mopen(&q, "r", 0); r = rw(t, 0, f, &w); i64 pos = q.pos; fin(f); int ok = q.len >= (size_t)n && !q.faulted;
    if (!!r != ok) bad("IFF_read%s returned %d with %zu bytes available%s", TN[t], r, q.len, q.faulted ? " and a read error" : ""); if (r && w != v) bad("IFF_read%s of %s gave %llx", TN[t], hex(d, n), (unsigned long long)w); if (r && pos != n) bad("IFF_read%s consumed %ld bytes", TN[t], (long)pos); }
static void c02(void) { int t = R(6), n = TS[t], write = R(2); u64 v = val(8 * n), v0 = v; struct { IFF_Chunk c; } C = { { NULL, TEXT, 0 } }; int size = chance(1, 8) ? 0x7fffffff - R(6) : chance(1, 10) ? -R(1000) : R(14), bp = chance(1, 8) ? 0x7fffffff - R(8) : R(14); C.c.chunkSize = size; IFF_Long b = bp; int fits = (i64)bp + n <= size; IFF_FieldStatus r = 0;
    u8 *d = ar(16); for (int i = 0; i < 16; i++) d[i] = (u8)rnd(); Mem m = write ? wr(16) : rd(d, chance(1, 6) ? (size_t)R(n + 1) : 16); if (chance(1, 8)) m.fault = R(n + 1); FILE *f = mopen(&m, write ? "w" : "r", 0);
    IFF_UByte a = (u8)v; IFF_UWord x = (uint16_t)v; IFF_Word y = (int16_t)v; IFF_ULong z = (u32)v; IFF_Long l = (int32_t)v; IFF_ID id = (u32)v;
    if (write) switch (t) { case 0: r = IFF_writeUByteField(f, a, &C.c, "x", &b); break; case 1: r = IFF_writeUWordField(f, x, &C.c, "x", &b); break; case 2: r = IFF_writeWordField(f, y, &C.c, "x", &b); break; case 3: r = IFF_writeULongField(f, z, &C.c, "x", &b); break; case 4: r = IFF_writeLongField(f, l, &C.c, "x", &b); break; default: r = IFF_writeIdField(f, id, &C.c, "x", &b); }
    else switch (t) { case 0: r = IFF_readUByteField(f, &a, &C.c, "x", &b); v = a; break; case 1: r = IFF_readUWordField(f, &x, &C.c, "x", &b); v = x; break; case 2: r = IFF_readWordField(f, &y, &C.c, "x", &b); v = (uint16_t)y; break; case 3: r = IFF_readULongField(f, &z, &C.c, "x", &b); v = z; break; case 4: r = IFF_readLongField(f, &l, &C.c, "x", &b); v = (u32)l; break; default: r = IFF_readIdField(f, &id, &C.c, "x", &b); v = id; }
    i64 pos = m.pos; fin(f); int ok = !m.faulted && (write || m.len >= (size_t)n); const char *F = write ? "write" : "read";
    if (!fits) { if (r != IFF_FIELD_LAST || b != bp || pos != 0 || v != v0) bad("IFF_%s%sField: field of %d bytes at %d in a chunk of size %d: status %d, count %d, file moved by %ld", F, TN[t], n, bp, size, r, b, (long)pos); return; }
    if (ok) { u64 w = 0; u8 *s = write ? m.d : d; for (int i = 0; i < n; i++) w = w << 8 | s[i]; if (r != IFF_FIELD_MORE || b != bp + n || pos != n || w != v) bad("IFF_%s%sField: field that fits (%d+%d in %d): status %d, count %d, file moved by %ld, value %llx, bytes %s", F, TN[t], bp, n, size, r, b, (long)pos, (unsigned long long)v, hex(s, n)); }
    else if (r != IFF_FIELD_FAILURE || b != bp) bad("IFF_%s%sField: I/O error reported as status %d, count %d instead of %d", F, TN[t], r, b, bp);
    for (int s = 0; s < 3; s++) if (!!IFF_deriveSuccess((IFF_FieldStatus)s) != (s != IFF_FIELD_FAILURE)) bad("IFF_deriveSuccess(%d)", s); }
static void c03(void) { N *x = anytree(); size_t n; u8 *e = encoded(x, &n); IFF_Chunk *c = realize(x); Mem m = wr(n + 4096); if (chance(1, 3)) m.fault = R((int)n + 1); FILE *f = mopen(&m, "w", 0); int r = chance(1, 2) ? IFF_writeChunk(f, c, 0, &IFF_defaultChunkRegistry) : IFF_writeFd(f, c, NULL); fin(f);
    if (r && m.faulted) bad("writing succeeds although the stream refused byte %ld of %zu; tree %s", (long)m.fault, n, show(x)); if (!r && !oom_hit && !m.faulted) bad("writing fails without an I/O error"); if (r && (m.len != n || memcmp(m.d, e, n))) bad("wrote %s instead of %s", hex(m.d, m.len), hex(e, n)); unchanged(x); }
static void c0457(int prop) { size_t n; u8 *d = rbytes(&n); size_t off = chance(1, 4) ? (size_t)R(5) : 0; u8 *b = ar(n + off + 1); memcpy(b + off, d, n); i64 end = 0; N *x = parse(b, n + off, off, &end); Mem m = rd(b, n + off); m.pos = off; if (prop == 7 && chance(1, 3)) fail_at = R(12); if (prop == 7 && chance(1, 5)) m.fault = off + R((int)n + 1);
    int before = nblk; FILE *f = mopen(&m, "r", 0); IFF_Chunk *c = prop != 4 && chance(1, 3) ? IFF_readFd(f, NULL) : IFF_readChunk(f, 0, &IFF_defaultChunkRegistry); i64 pos = m.pos; fin(f); fail_at = -1;
    if (prop == 4) { if (c && !x) bad("a chunk is returned although the file has none: %s (from offset %zu)", hex(b, n + off), off); if (!c && x && !oom_hit) bad("reading fails although the file has a chunk: %s (from offset %zu)", hex(b, n + off), off); if (c && pos != end) bad("consumed up to %ld instead of %ld of %s", (long)pos, (long)end, hex(b, n + off)); }
    if (prop == 5 && c && x) { const char *r = differs(c, x, 1, NULL); if (r) bad("the tree does not mirror the file: %s; file %s", r, hex(b + off, n)); }
    if (prop == 7) { if (!c) no_leak(before, "failed read"); else if (x) { const char *r = differs(c, x, 1, NULL); if (r) bad("the result is not a well-formed tree: %s", r); } if (wrong_free) bad("something is released that is not allocated"); }
    if (c && x) release(c); if (prop == 7 && c && x) no_leak(before, "tree that was read"); }
static void c04(void) { c0457(4); }
static void c05(void) { c0457(5); }
static void c07(void) { c0457(7); }
static void c06(void) { N *x = conforming(); if (!conf(x)) return; IFF_Chunk *c = realize(x); if (!IFF_check(c, NULL)) bad("a conforming tree is rejected: %s", show(x)); Mem m = wr(ENC); FILE *f = mopen(&m, "w", 0); int r = IFF_writeFd(f, c, NULL); fin(f); if (!r) return;
    Mem q = rd(m.d, m.len); f = mopen(&q, "r", 0); IFF_Chunk *b = IFF_readFd(f, NULL); i64 pos = q.pos; fin(f); if (!b) bad("what was written cannot be read back: %s", hex(m.d, m.len)); if (pos != (i64)m.len) bad("reading consumed %ld of %zu bytes", (long)pos, m.len); if (!IFF_compare(c, b, NULL)) bad("the tree read back does not compare equal: %s", hex(m.d, m.len)); const char *w = differs(b, x, 1, NULL); if (w) bad("the tree read back differs: %s; %s", w, hex(m.d, m.len)); }
static void c08(void) { N *x = chance(1, 4) ? conforming() : anytree(); IFF_Chunk *c = realize(x); int top = x->id == FORM || x->id == CAT || x->id == LIST; const IFF_ChunkRegistry *g = chance(1, 2) ? NULL : &IFF_defaultChunkRegistry; int r = IFF_check(c, g), e = top && conf(x);
    if (!!r != e) bad("check says %d for a tree that %s: %s", r, e ? "conforms" : "does not conform", show(x)); if (g && !!IFF_checkChunk(c, 0, g) != conf(x)) bad("check of the chunk is wrong for %s", show(x)); unchanged(x); }
static void c09(void) { u32 v = chance(1, 2) ? rft() : rid(); if (!!IFF_checkId(v) != vid(v)) bad("IFF_checkId(%08x) is %d", v, IFF_checkId(v)); if (!!IFF_checkFormType(v) != vft(v)) bad("IFF_checkFormType(%08x) is %d", v, IFF_checkFormType(v)); static IFF_ID2 s; memset(s, 0, 4); IFF_idToString(v, s); for (int i = 0; i < 4; i++) if ((u8)s[i] != (u8)(v >> (24 - 8 * i))) bad("IFF_idToString(%08x)", v); }
static void c10(void) { N *x = anytree(), *y = copy(x); for (int i = R(3); i > 0; i--) { if (chance(1, 2)) mutate(y); else { N *z = pick(y); if (!isg(z->id)) { if (z->size) z->data[R(z->size)] ^= (u8)(1 << R(8)); } else if (z->n > 1) { N *t = z->k[0]; z->k[0] = z->k[z->n - 1]; z->k[z->n - 1] = t; } else if (z->np) { if (z->np > 1) { N *t = z->p[0]; z->p[0] = z->p[z->np - 1]; z->p[z->np - 1] = t; } else z->p[0]->gt = rft(); } } }
    IFF_Chunk *a = realize(x), *b = realize(y); int r = chance(1, 2) ? IFF_compare(a, b, NULL) : IFF_compareChunk(a, b, 0, &IFF_defaultChunkRegistry); if (!!r != same(x, y)) bad("compare says %d for %s and %s", r, show(x), show(y)); unchanged(x); unchanged(y); }
static void live_counts(N *g, int n) { (void)g; (void)n; }
static void c11(void) { if (chance(1, 2)) { static const u32 K[] = { mk("FORM"), mk("CAT "), mk("LIST"), mk("PROP") }; u32 k = K[R(4)]; N *x = mkn(k); x->gt = ft(); x->size = chance(1, 4) ? R(50) : 4; IFF_Chunk *c = realize(x);
        int wide = chance(1, 60); for (int i = wide ? 250 + R(20) : R(6); i > 0; i--) { N *m = wide || chance(1, 2) ? gdata() : ggroup(1, 0); sizes(m); int p = k == LIST && chance(1, 3); if (p) { m = gprop(); sizes(m); } IFF_Chunk *q = realize(m); x->size += (int32_t)psz(m);
            if (p) { addp(x, m); IFF_addPropToList((IFF_List *)c, (IFF_Prop *)q); } else { addk(x, m); switch (R(2) ? 9 : k == FORM ? 0 : k == CAT ? 1 : k == LIST ? 2 : 3) { case 0: IFF_addToForm((IFF_Form *)c, q); break; case 1: IFF_addToCAT((IFF_CAT *)c, q); break; case 2: IFF_addToList((IFF_List *)c, q); break; case 3: IFF_addToProp((IFF_Prop *)c, q); break; default: IFF_addToGroup((IFF_Group *)c, q); } }
            const char *r = differs(c, x, 1, NULL); if (r) bad("after adding a member of size %d to a %c%c%c%c: %s", m->size, k >> 24, k >> 16 & 255, k >> 8 & 255, k & 255, r); } }
    else { N *x = anytree(); nall = 0; walk(x); for (int i = 0; i < nall; i++) if (isg(all_[i]->id)) { all_[i]->size = R(100); if (chance(1, 8)) all_[i]->gt = chance(1, 2) ? 0 : rft(); } IFF_Chunk *c = realize(x); (void)c; N *y = pick(x); IFF_updateChunkSizes(y->real); for (N *z = y; z; z = z->up) if (isg(z->id)) z->size = (int32_t)body(z); const char *r = differs(x->real, x, 1, NULL); if (r) bad("after updating the sizes: %s", r); } live_counts(NULL, 0); }
static N *hits[65536]; static int nhits;
static void search(N *x, const u32 *t, int n) { if (!isg(x->id) || x->id == PROP) return; if (x->id == FORM) for (int i = 0; i < n; i++) if (t[i] == x->gt) { hits[nhits++] = x; return; } for (int i = 0; i < x->n; i++) search(x->k[i], t, n); }
static void c12(void) { N *x = chance(1, 2) ? conforming() : anytree(); IFF_Chunk *c = realize(x); int before = nblk; u32 t[4]; int n = 1 + R(3); for (int i = 0; i < n; i++) t[i] = ft(); nhits = 0; search(x, t, n); unsigned len = 77; IFF_Form **r; if (chance(1, 2)) { n = 1; nhits = 0; search(x, t, 1); r = IFF_searchForms(c, t[0], &len); } else r = IFF_searchFormsFromArray(c, t, n, &len);
    if (len != (unsigned)nhits) bad("found %u forms instead of %d in %s", len, nhits, show(x)); for (int i = 0; i < nhits; i++) if ((IFF_Chunk *)r[i] != hits[i]->real) bad("form %d of %d is not the right one in %s", i, nhits, show(x)); unchanged(x); __wrap_free(r); no_leak(before, "searching"); }
static N *own_member(N *x, u32 id) { for (int i = 0; i < x->n; i++) if (x->k[i]->id == id) return x->k[i]; return NULL; }
static N *prop_for(N *x, u32 t) { for (int i = 0; i < x->np; i++) if (x->p[i]->gt == t) return x->p[i]; return NULL; }
static N *list_lookup(N *f, u32 id) { N *m = own_member(f, id); for (N *z = f->up; z && !m; z = z->up) if (z->id == LIST) { N *p = prop_for(z, f->gt); if (p) m = own_member(p, id); } return m; }
static N *lookup_tree(void) { N *x = gcat(4, 0, 1); sizes(x); return x; }
static void c13(void) { N *x = chance(2, 3) ? lookup_tree() : anytree(); realize(x); nall = 0; walk(x); for (int t = 0; t < 20; t++) { N *f = all_[R(nall)]; u32 id = did(); if (f->id == LIST) { u32 ty = ft(); N *p = prop_for(f, ty); if ((void *)IFF_getPropFromList((IFF_List *)f->real, ty) != (void *)(p ? p->real : NULL)) bad("IFF_getPropFromList is wrong in %s", show(x)); }
        if (f->id != FORM) continue; N *m = list_lookup(f, id); if (IFF_getChunkFromForm((IFF_Form *)f->real, id) != (m ? m->real : NULL)) bad("lookup of %08x from a form of type %08x finds the wrong chunk in %s", id, f->gt, show(x)); } unchanged(x); }
static void c14(void) { N *x = anytree(); realize(x); nall = 0; walk(x); for (int t = 0; t < 10; t++) { N *f = all_[R(nall)]; u32 id = did(); if (f->id != FORM && f->id != PROP) continue; N *m = own_member(f, id); IFF_Chunk *r = f->id == FORM ? IFF_getDataChunkFromForm((IFF_Form *)f->real, id) : IFF_getChunkFromProp((IFF_Prop *)f->real, id); if (r != (m ? m->real : NULL)) bad("first member with ID %08x is wrong in %s", id, show(f));
        if (f->id != FORM) continue; unsigned n = 99, e = 0; IFF_Chunk **a = IFF_getChunksFromForm((IFF_Form *)f->real, id, &n); for (int i = 0; i < f->n; i++) if (f->k[i]->id == id) { if (e < n && a[e] != f->k[i]->real) bad("member %u with ID %08x is wrong in %s", e, id, show(f)); e++; } if (e != n) bad("%u members with ID %08x instead of %u in %s", n, id, e, show(f)); if (a) __wrap_free(a); } unchanged(x); }

/* C15: recording handlers, four sets of them */
typedef struct { int op, set; u32 id; int32_t size; } Rec; static Rec rec[65536]; static int nrec; enum { CREATE, READ, WRITE, CHECK, FREE, PRINT, COMPARE };
static void log_(int o, int s, u32 id, int32_t z) { if (nrec < 65536) { rec[nrec].op = o; rec[nrec].set = s; rec[nrec].id = id; rec[nrec].size = z; nrec++; } }
static const IFF_ChunkType *under(u32 id) { return IFF_findChunkType(&IFF_defaultChunkRegistry, 0, id); }
#define SET(S) \
 static IFF_Chunk *cr##S(const IFF_ID i, const IFF_Long z) { log_(CREATE, S, i, z); return under(i)->createExtensionChunk(i, z); } \
 static IFF_Bool rd##S(FILE *f, IFF_Chunk *c, const IFF_ChunkRegistry *r, IFF_Long *b) { log_(READ, S, c->chunkId, c->chunkSize); return under(c->chunkId)->readExtensionChunkFields(f, c, r, b); } \
 static IFF_Bool wr##S(FILE *f, const IFF_Chunk *c, const IFF_ChunkRegistry *r, IFF_Long *b) { log_(WRITE, S, c->chunkId, c->chunkSize); return under(c->chunkId)->writeExtensionChunkFields(f, c, r, b); } \
 static IFF_Bool ck##S(const IFF_Chunk *c, const IFF_ChunkRegistry *r) { log_(CHECK, S, c->chunkId, c->chunkSize); return under(c->chunkId)->checkExtensionChunk(c, r); } \
 static void fr##S(IFF_Chunk *c, const IFF_ChunkRegistry *r) { log_(FREE, S, c->chunkId, c->chunkSize); under(c->chunkId)->freeExtensionChunk(c, r); } \
 static void pr##S(const IFF_Chunk *c, const unsigned int l, const IFF_ChunkRegistry *r) { log_(PRINT, S, c->chunkId, c->chunkSize); under(c->chunkId)->printExtensionChunk(c, l, r); } \
 static IFF_Bool cm##S(const IFF_Chunk *c, const IFF_Chunk *d, const IFF_ChunkRegistry *r) { log_(COMPARE, S, c->chunkId, c->chunkSize); return under(c->chunkId)->compareExtensionChunk(c, d, r); }
SET(0) SET(1) SET(2) SET(3) SET(4) SET(5)
#define ROW(S) { 0, cr##S, rd##S, wr##S, ck##S, fr##S, pr##S, cm##S }
static const IFF_ChunkType SETS[] = { ROW(0), ROW(1), ROW(2), ROW(3), ROW(4), ROW(5) };
static int cmpct(const void *a, const void *b) { u32 x = ((IFF_ChunkType *)a)->chunkId, y = ((IFF_ChunkType *)b)->chunkId; return x < y ? -1 : x > y; }
static int cmpfc(const void *a, const void *b) { u32 x = ((IFF_FormChunkTypes *)a)->formType, y = ((IFF_FormChunkTypes *)b)->formType; return x < y ? -1 : x > y; }
static IFF_ChunkTypesNode *rnode(int all, IFF_ChunkTypesNode *up) { IFF_ChunkTypesNode *n = ar(sizeof *n); u32 ids[10]; int k = 0; static const u32 G[] = { mk("FORM"), mk("CAT "), mk("LIST"), mk("PROP") }; for (int i = 0; i < 6; i++) if (chance(1, 3)) ids[k++] = mk(DID[i]); for (int i = 0; i < 4; i++) if (all || chance(1, 4)) ids[k++] = G[i];
    n->chunkTypes = ar((k + 1) * sizeof(IFF_ChunkType)); n->chunkTypesLength = k; n->parent = up; for (int i = 0; i < k; i++) { n->chunkTypes[i] = SETS[R(6)]; n->chunkTypes[i].chunkId = ids[i]; } qsort(n->chunkTypes, k, sizeof(IFF_ChunkType), cmpct); return n; }
static IFF_ChunkType *in_chain(IFF_ChunkTypesNode *n, u32 id) { for (; n; n = n->parent) for (unsigned i = 0; i < n->chunkTypesLength; i++) if (n->chunkTypes[i].chunkId == id) return &n->chunkTypes[i]; return NULL; }
static IFF_ChunkType *ref_find(IFF_ChunkRegistry *r, u32 ctx, u32 id) { IFF_ChunkType *t = NULL; for (unsigned i = 0; i < r->formChunkTypesLength; i++) if (r->formChunkTypes[i].formType == ctx) t = in_chain(r->formChunkTypes[i].chunkTypesNode, id); if (!t) t = in_chain(r->globalChunkTypesNode, id); return t ? t : r->defaultChunkType; }
static Rec want[65536]; static int nwant;
static void expect(IFF_ChunkRegistry *r, N *x, u32 ctx, int o) { IFF_ChunkType *t = ref_find(r, ctx, x->id); int s = 0; while (s < 6 && SETS[s].createExtensionChunk != t->createExtensionChunk) s++; want[nwant].op = o; want[nwant].set = s; want[nwant].id = x->id; want[nwant++].size = x->size; for (int i = 0; i < x->np; i++) expect(r, x->p[i], x->gt, o); for (int i = 0; i < x->n; i++) expect(r, x->k[i], x->gt, o); }
static int cmprec(const void *a, const void *b) { return memcmp(a, b, sizeof(Rec)); }
static void compare_logs(const char *w, N *x) { qsort(rec, nrec, sizeof(Rec), cmprec); qsort(want, nwant, sizeof(Rec), cmprec); if (nrec != nwant || memcmp(rec, want, nrec * sizeof(Rec))) { for (int i = 0; i < nrec && i < nwant; i++) if (memcmp(&rec[i], &want[i], sizeof(Rec))) bad("%s: chunk %08x (size %d) uses handler set %d, the registry selects e.g. set %d for %08x; tree %s", w, rec[i].id, rec[i].size, rec[i].set, want[i].set, want[i].id, show(x)); bad("%s: %d handler calls instead of %d; tree %s", w, nrec, nwant, show(x)); } nrec = nwant = 0; }
static void c15(void) { IFF_ChunkRegistry *r = ar(sizeof *r); r->formChunkTypesLength = R(4); r->formChunkTypes = ar(5 * sizeof(IFF_FormChunkTypes)); u32 pool[] = { mk("ILBM"), mk("8SVX"), mk("AIFF"), mk("JJJJ") }; int o = R(4); for (unsigned i = 0; i < r->formChunkTypesLength; i++) { r->formChunkTypes[i].formType = pool[(o + i) % 4]; r->formChunkTypes[i].chunkTypesNode = rnode(0, chance(1, 2) ? rnode(0, NULL) : NULL); } qsort(r->formChunkTypes, r->formChunkTypesLength, sizeof(IFF_FormChunkTypes), cmpfc);
    r->globalChunkTypesNode = chance(1, 2) ? rnode(1, NULL) : rnode(0, rnode(1, NULL)); r->defaultChunkType = ar(sizeof(IFF_ChunkType)); *r->defaultChunkType = SETS[R(6)]; N *x = conforming(); u32 ids[] = { did(), mk("FORM"), rid() }, c = chance(1, 2) ? ft() : rft(); for (int i = 0; i < 3; i++) if (IFF_findChunkType(r, c, ids[i]) != ref_find(r, c, ids[i])) bad("IFF_findChunkType selects the wrong chunk type for %08x in %08x", ids[i], c); for (int i = R(12); i > 0; i--) { u32 q = chance(1, 3) ? ids[R(3)] : chance(1, 2) ? did() : mkf(chance(1, 2) ? "FORM" : "LIST"), w = chance(1, 4) ? 0 : pool[R(4)]; IFF_ChunkRegistry *o2 = chance(1, 6) ? (IFF_ChunkRegistry *)&IFF_defaultChunkRegistry : r; if (IFF_findChunkType(o2, w, q) != ref_find(o2, w, q)) bad("IFF_findChunkType selects the wrong chunk type for %08x in %08x after other lookups", q, w); }
    size_t n; u8 *e = encoded(x, &n); nrec = nwant = 0; Mem m = rd(e, n); FILE *f = mopen(&m, "r", 0); IFF_Chunk *t = IFF_readFd(f, r); fin(f); if (!t) bad("reading %s with a registry fails", show(x)); expect(r, x, 0, CREATE); expect(r, x, 0, READ); compare_logs("read", x);
    m = rd(e, n > 9 ? n - 1 - R((int)n - 9) : n); f = mopen(&m, "r", 0); IFF_Chunk *t2 = IFF_readFd(f, r); fin(f); int made = 0, freed = 0; for (int i = 0; i < nrec; i++) { made += rec[i].op == CREATE; freed += rec[i].op == FREE; } if (!t2 && made != freed) bad("failed read: %d chunks were created and %d freed by the handlers", made, freed); if (!t2) { for (int i = 0; i < nrec; i++) if (rec[i].op == FREE) { int ok = 0; for (int j = 0; j < nrec; j++) ok |= rec[j].op == CREATE && rec[j].set == rec[i].set && rec[j].id == rec[i].id; if (!ok) bad("failed read: chunk %08x is freed by handler set %d which did not create it", rec[i].id, rec[i].set); } } nrec = 0;
    Mem q = wr(n + 4096); f = mopen(&q, "w", 0); IFF_writeFd(f, t, r); fin(f); expect(r, x, 0, WRITE); compare_logs("write", x); IFF_check(t, r); expect(r, x, 0, CHECK); compare_logs("check", x); cap_begin(); IFF_print(t, 0, r); size_t k; cap_end(&k); expect(r, x, 0, PRINT); compare_logs("print", x); IFF_compare(t, t, r); expect(r, x, 0, COMPARE); compare_logs("compare", x); IFF_free(t, r); expect(r, x, 0, FREE); compare_logs("free", x);
    if (chance(1, 4)) { N *y = copy(x); IFF_Chunk *z = realize(y); if (!IFF_check(z, NULL)) bad("check without a registry"); if (!IFF_compare(z, z, NULL)) bad("compare without a registry"); if (nrec) bad("without a registry the built-in one is not used"); } }
static void c16(void) { N *x = anytree(); int before = nblk; void *decoy = __wrap_malloc(24); IFF_Chunk *c = realize(x); if (chance(1, 2)) IFF_free(c, chance(1, 2) ? NULL : &IFF_defaultChunkRegistry); else IFF_freeChunk(c, 0, &IFF_defaultChunkRegistry); if (find_block(decoy) < 0) bad("something that is not part of the tree was released"); __wrap_free(decoy); no_leak(before, "freeing a tree"); }
static void c17(void) { if (chance(1, 2)) { N *x = conforming(); size_t n; u8 *e = encoded(x, &n); i64 end = 0; if (!parse(e, n, 0, &end)) return; Mem m = rd(e, n); m.fault = R((int)n); if (chance(1, 2)) { FILE *f = mopen(&m, "r", chance(1, 2)); IFF_Chunk *c = IFF_readFd(f, NULL); fin(f); if (c && m.faulted) bad("a read error at byte %ld of %zu is swallowed: %s", (long)m.fault, n, hex(e, n)); }
        else { subst = &m; if (chance(1, 5)) fail_fopen = 0; IFF_Chunk *c = IFF_readFile(path("x"), NULL); if (c && (m.faulted || fail_fopen == 0)) bad("a failed %s is swallowed by IFF_readFile", m.faulted ? "read" : "open"); } }
    else if (chance(1, 12)) { N *x = anytree(); IFF_Chunk *c = realize(x); size_t n; cap_full(); int r = IFF_write(NULL, c, NULL); cap_end(&n); if (r) bad("writing to a standard output that accepts nothing succeeds; tree %s", show(x)); }
    else { N *x = anytree(); size_t n; encoded(x, &n); IFF_Chunk *c = realize(x); Mem m = wr(n + 4096); if (chance(3, 4)) m.fault = R((int)n + 1); int r; if (chance(1, 3)) { FILE *f = mopen(&m, "w", 0); r = IFF_writeFd(f, c, NULL); fin(f); } else { subst = &m; if (chance(1, 6)) fail_fopen = 0; else if (chance(1, 4)) fail_fclose = 0; r = chance(1, 2) ? IFF_writeFile(path("y"), c, NULL) : IFF_write(path("y"), c, NULL); if (r && fail_fopen == 0) bad("writing succeeds although the file cannot be opened"); if (r && fail_fclose == 0 && nfclose) bad("writing succeeds although closing the file failed"); if (r && !m.closed) bad("writing succeeds although the file was never closed"); }
        if (r && m.faulted) bad("a write error at byte %ld of %zu is swallowed; tree %s", (long)m.fault, n, show(x)); if (r && m.len != n) bad("writing succeeds with %zu of %zu bytes", m.len, n); } }
/* a file with something behind the main chunk (which is diagnosed, but not an error) */
static u8 *trailing(u8 *e, size_t *n) { size_t k = 1 + R(3); u8 *b = ar(*n + k); memcpy(b, e, *n); for (size_t i = 0; i < k; i++) b[*n + i] = (u8)rnd(); *n += k; return b; }
static void c18(void) { int k = R(5), good = 1; char *names[6]; u8 *es[6]; size_t ns[6]; N *cat = mkn(CAT); cat->gt = JJJJ; u32 want1 = chance(1, 2) ? ft() : 0; for (int i = 0; i < k; i++) { char b[16]; sprintf(b, "in%d", i); names[i] = path(b); N *x = want1 && chance(9, 10) ? gform(1, want1) : ggroup(2, 0); sizes(x); if (chance(1, 12)) mutate(x); size_t n; u8 *e = encoded(x, &n); if (chance(1, 14) && n > 9) n -= 1 + R((int)n - 9); else if (chance(1, 6)) e = trailing(e, &n); i64 end; if (chance(1, 14)) { unlink(names[i]); e = NULL; } else save(names[i], e, n); if (i > 0 && chance(1, 8)) { int j = R(i); names[i] = names[j]; e = es[j]; n = ns[j]; } es[i] = e; ns[i] = n; x = e ? parse(e, n, 0, &end) : NULL; if (!x || !((x->id == FORM || x->id == CAT || x->id == LIST) && conf(x))) { good = 0; continue; }
        if (cat->n == 0) cat->gt = x->gt; else if (cat->gt != x->gt) cat->gt = JJJJ; addk(cat, x); }
    sizes(cat); cat->size = (int32_t)body(cat); char *outn = path("out"); unlink(outn); int before = nblk, std = chance(1, 6), al = -1; if (k > 0 && !std && chance(1, 8)) { al = R(k); outn = names[al]; } if (!std && chance(1, 8)) { fail_fopen = k; } else if (!std && chance(1, 8)) fail_fclose = k; size_t sn = 0; u8 *so = NULL; int stdfull = std && chance(1, 3); if (stdfull) cap_full(); else if (std) cap_begin(); int viamain = chance(1, 3), r; if (viamain) { char *av[16]; int ac = 0, late = chance(1, 3) && !getenv("POSIXLY_CORRECT"), o = R(3); av[ac++] = "iffjoin"; for (int ph = 0; ph < 2; ph++) { if (ph == late && !std) { if (o == 0) { av[ac++] = "-o"; av[ac++] = outn; } else if (o == 1) { av[ac++] = "--output-file"; av[ac++] = outn; } else { char *q = ar(400); snprintf(q, 400, "--output-file=%s", outn); av[ac++] = q; } } if (ph == 0) for (int i = 0; i < k; i++) av[ac++] = names[i]; } av[ac] = NULL; optind = 0; if (chance(1, 10)) fail_at = 0; r = iffjoin_main(ac, av); if (k == 0) { if (std) so = cap_end(&sn); if (r == 0) bad("iffjoin without input files reports success"); return; } if (fail_at >= 0) { fail_at = -1; if (std) so = cap_end(&sn); if (oom_hit) { if (r == 0) bad("iffjoin reports success without memory"); no_leak(before, "iffjoin without memory"); return; } } } else r = IFF_join(names, k, std ? NULL : outn); if (std) so = cap_end(&sn);
    size_t n, m; u8 *e = encoded(cat, &n); u8 *d = std ? so : slurp(outn, &m); if (std) m = sn; int outbad = good && (fail_fopen == k || fail_fclose == k || stdfull); if (!good) { if (r == 0) bad("joining succeeds with a bad input"); if (al >= 0 ? (d != NULL) != (es[al] != NULL) || (d && (m != ns[al] || memcmp(d, es[al], m))) : m || (d && !std)) bad("something is written although an input is bad"); } else if (outbad) { if (r == 0) bad("joining succeeds although the output cannot be written"); } else { if (r != 0) bad("joining %d good files fails", k); if (m != n || memcmp(d, e, n)) bad("joined file is %s instead of %s", hex(d, m), hex(e, n)); } no_leak(before, "join"); if (nop) bad("join leaves %d files open", nop); }
static void c19(void) { N *x = chance(1, 2) ? conforming() : anytree(); size_t n; u8 *e = encoded(x, &n); if (chance(1, 8) && n > 9) n -= 1 + R((int)n - 9); else if (chance(1, 6)) e = trailing(e, &n); i64 end; char *nm = path("in"); N *y = parse(e, n, 0, &end); if (chance(1, 12)) { unlink(nm); y = NULL; } else save(nm, e, n); int opt = R(2), top = y && (y->id == FORM || y->id == CAT || y->id == LIST), ok = y && (opt || (top && conf(y))); int before = nblk; int via = R(4), r, sin = -1; if (via == 1) { if (chance(1, 6)) { char *av[4] = { "iffpp", chance(1, 2) ? (chance(1, 2) ? "-h" : "--version") : "-y", nm, NULL }; int unk = av[1][1] == 'y'; optind = 0; opterr = 0; cap_begin(); r = iffpp_main(3, av); size_t m; u8 *d = cap_end(&m); if (unk ? r == 0 : r != 0) bad("iffpp %s returns %d", av[1], r); if (!unk && m == 0) bad("iffpp %s prints nothing", av[1]); no_leak(before, "iffpp"); return; } }
    cap_begin(); if (via == 1) { char *av[6]; int ac = 0, late = chance(1, 3) && !getenv("POSIXLY_CORRECT"), usestd = y && chance(1, 4); av[ac++] = "iffpp"; char *o = chance(1, 2) ? "-c" : "--disable-check"; if (opt && !late) { av[ac++] = o; if (chance(1, 4)) av[ac++] = (char *)"-c"; } if (!usestd) av[ac++] = nm; if (opt && late) av[ac++] = o; av[ac] = NULL; optind = 0; if (usestd) { own++; if (!freopen(nm, "rb", stdin)) limit(); own--; } r = iffpp_main(ac, av); if (usestd) { own++; if (!freopen("/dev/null", "rb", stdin)) limit(); own--; } } else r = IFF_prettyPrint(nm, opt); size_t m; u8 *d = cap_end(&m); if (oom_hit) return;
    if ((r == 0) != ok) bad("pretty printer returns %d for input %s (checking %s)", r, hex(e, n), opt ? "disabled" : "enabled"); if (ok) { size_t k; char *p = printed(y, 0, &k); if (k != m || memcmp(p, d, k)) bad("pretty printer output differs for %s", hex(e, n)); } else if (m) bad("pretty printer prints a rejected file: %s", hex(e, n)); no_leak(before, "pretty printing"); if (nop) bad("pretty printer leaves a file open"); }
static void c20(void) { N *x = anytree(); IFF_Chunk *c = realize(x); int l = chance(1, 8) ? R(90) : R(4); cap_begin(); IFF_print(c, (unsigned)l, chance(1, 2) ? NULL : &IFF_defaultChunkRegistry); size_t n, m; u8 *d = cap_end(&m); char *p = printed(x, l, &n); if (n != m || memcmp(p, d, n)) { size_t i = 0; while (i < n && i < m && p[i] == (char)d[i]) i++; bad("printed text differs at byte %zu: ...%.60s instead of ...%.60s; tree %s", i, i < m ? (char *)d + i : "(end)", i < n ? p + i : "(end)", show(x)); } unchanged(x); }
static void c21(void) { int list = R(2); N *x = mkn(list ? LIST : CAT); x->gt = JJJJ; x->size = 4; IFF_Chunk *c = list ? (IFF_Chunk *)IFF_createEmptyList() : (IFF_Chunk *)IFF_createEmptyCAT(); u32 t = ft(), common = 0; int mixed = 0, any = 0, wf = 1; for (int i = R(7); i > 0; i--) { N *m = chance(1, 10) ? gdata() : chance(2, 3) ? gform(1, t) : ggroup(1, 0); sizes(m); if (!isg(m->id) && !any && x->n == 0) wf = 0; if (!isg(m->id)) wf = 0; addk(x, m); x->size += (int32_t)psz(m); if (isg(m->id)) { if (!any) common = m->gt; else if (m->gt != common) mixed = 1; any = 1; } if (list) IFF_addToListAndUpdateContentsType((IFF_List *)c, realize(m)); else IFF_addToCATAndUpdateContentsType((IFF_CAT *)c, realize(m)); if (!wf) return; x->gt = mixed ? JJJJ : any ? common : JJJJ; const char *r = differs(c, x, 1, NULL); if (r) bad("after %d additions: %s (contents type %08x, expected %08x)", x->n, r, ((IFF_Group *)c)->groupType, x->gt); } if (conf(x) && !IFF_check(c, NULL)) bad("the concatenation that was built does not conform"); }
static void c22(void) { N *x = chance(1, 2) ? conforming() : anytree(); size_t n; u8 *e = encoded(x, &n); if (chance(1, 3) && n > 1) n -= R((int)n); static char *odd[] = { "-", "--", "-c", "stdout", "a b", "%s", "~" }; char *nm = chance(1, 8) ? odd[R(7)] : path("file"); int mode = R(6); if (chance(1, 10)) fail_fopen = 0; if (mode < 2) { Mem fm = rd(e, n); if (chance(1, 10)) unlink(nm); else if (chance(1, 10)) { unlink(nm); mkdir(nm, 0700); } else if (chance(1, 4)) { fm.fault = R((int)n + 1); subst = &fm; } else save(nm, e, n); IFF_Chunk *c = mode ? IFF_read(nm, NULL) : IFF_readFile(nm, NULL); (void)c; if (nopen_calls != 1) bad("%d files are opened for reading one", nopen_calls); if (nop) bad("the file read from is left open (%s)", c ? "success" : "failure"); rmdir(nm); }
    else if (mode < 4) { IFF_Chunk *c = realize(x); int dir = chance(1, 5); unlink(nm); rmdir(nm); if (dir) mkdir(nm, 0700); if (chance(1, 10)) fail_fclose = 0; int r = mode == 2 ? IFF_write(nm, c, NULL) : IFF_writeFile(nm, c, NULL); if (nopen_calls != 1) bad("%d files are opened for writing one", nopen_calls); if (nop) bad("the file written to is left open (%s)", r ? "success" : "failure"); size_t k; u8 *full = encoded(x, &k), *d; size_t m; if (r && (!(d = slurp(nm, &m)) || m != k || memcmp(d, full, k))) bad("the named file does not hold what was written"); rmdir(nm); }
    else if (mode == 4) { Mem m = rd(e, n); FILE *f = mopen(&m, "r", 0); IFF_readFd(f, NULL); if (m.closed || bad_close) bad("a stream supplied by the caller is closed by IFF_readFd"); if (nopen_calls) bad("a file is opened while reading from a stream"); fin(f); }
    else { IFF_Chunk *c = realize(x); size_t k; cap_begin(); int r = IFF_write(NULL, c, NULL); if (bad_close || nopen_calls) { cap_end(&k); bad("writing to the standard output opens or closes a file"); } u8 *d = cap_end(&k); size_t w; u8 *full = encoded(x, &w); if (r && (k != w || memcmp(d, full, w))) bad("the standard output does not get what is written"); Mem m = wr(w + 64); FILE *f = mopen(&m, "w", 0); IFF_writeFd(f, c, NULL); if (m.closed || bad_close) bad("a stream supplied by the caller is closed by IFF_writeFd"); fin(f); }
    if (bad_close) bad("something is closed that was not opened here (or twice)"); }
static void c23(void) { int before = nblk; if (chance(1, 3)) fail_at = R(2); u32 t = ft(), id = did(); int z = rsize(), k = R(13); IFF_Chunk *c = NULL; u32 eid = 0, egt = 0; int ez = 0, grp = 1, list = 0;
    switch (k) { case 0: c = (IFF_Chunk *)IFF_createForm(z, t); eid = FORM; egt = t; ez = z; break; case 1: c = (IFF_Chunk *)IFF_createEmptyForm(t); eid = FORM; egt = t; ez = 4; break; case 2: c = (IFF_Chunk *)IFF_createCAT(z, t); eid = CAT; egt = t; ez = z; break; case 3: c = (IFF_Chunk *)IFF_createEmptyCAT(); eid = CAT; egt = JJJJ; ez = 4; break; case 4: c = (IFF_Chunk *)IFF_createEmptyCATWithContentsType(t); eid = CAT; egt = t; ez = 4; break; case 5: c = (IFF_Chunk *)IFF_createList(z, t); eid = LIST; egt = t; ez = z; list = 1; break; case 6: c = (IFF_Chunk *)IFF_createEmptyList(); eid = LIST; egt = JJJJ; ez = 4; list = 1; break; case 7: c = (IFF_Chunk *)IFF_createEmptyListWithContentsType(t); eid = LIST; egt = t; ez = 4; list = 1; break; case 8: c = (IFF_Chunk *)IFF_createProp(z, t); eid = PROP; egt = t; ez = z; break; case 9: c = (IFF_Chunk *)IFF_createEmptyProp(t); eid = PROP; egt = t; ez = 4; break;
      case 10: { int w = R(4); c = w == 0 ? IFF_createUnparsedForm(FORM, z) : w == 1 ? IFF_createUnparsedCAT(CAT, z) : w == 2 ? IFF_createUnparsedList(LIST, z) : IFF_createUnparsedProp(PROP, z); eid = w == 0 ? FORM : w == 1 ? CAT : w == 2 ? LIST : PROP; egt = 0; ez = z; list = w == 2; break; }
      default: c = IFF_createRawChunk(id, z); eid = id; ez = z; grp = 0; }
    fail_at = -1; if (!c) { if (!oom_hit) bad("creation %d fails although there is memory", k); no_leak(before, "failed creation"); return; } if (oom_hit && grp) bad("creation succeeds without memory");
    if (c->chunkId != eid || c->chunkSize != ez || c->parent) bad("created chunk has ID %08x, size %d, parent %p", c->chunkId, c->chunkSize, (void *)c->parent); if (grp) { IFF_Group *g = (IFF_Group *)c; if (g->groupType != egt || g->chunkLength || g->chunk) bad("created group has type %08x, %u members", g->groupType, g->chunkLength); if (list && (((IFF_List *)c)->propLength || ((IFF_List *)c)->prop)) bad("created list has shared properties"); return; }
    IFF_RawChunk *r = (IFF_RawChunk *)c; u8 *d = ar(z + 1); for (int i = 0; i < z; i++) d[i] = (u8)rnd(); IFF_copyDataToRawChunkData(r, d); if (c->chunkSize != z || memcmp(r->chunkData, d, z)) bad("copied data differ"); if (chance(1, 2)) { int l = chance(1, 20) ? 60000 + R(20000) : R(30); char *s = ar(l + 1); for (int i = 0; i < l; i++) s[i] = (char)(33 + R(90)); IFF_setTextData(r, s); if (c->chunkSize != l || memcmp(r->chunkData, s, l)) bad("text data differ: size %d for a text of %d characters", c->chunkSize, l); } else { u8 *o = __wrap_malloc(z + 1); memcpy(o, d, z); IFF_setRawChunkData(r, o, z); if (r->chunkData != o || c->chunkSize != z) bad("assigned data differ"); } }

static struct { const char *n; void (*f)(void); } P[] = { {"C01", c01}, {"C02", c02}, {"C03", c03}, {"C04", c04}, {"C05", c05}, {"C06", c06}, {"C07", c07}, {"C08", c08}, {"C09", c09}, {"C10", c10}, {"C11", c11}, {"C12", c12}, {"C13", c13}, {"C14", c14}, {"C15", c15}, {"C16", c16}, {"C17", c17}, {"C18", c18}, {"C19", c19}, {"C20", c20}, {"C21", c21}, {"C22", c22}, {"C23", c23} };
int main(int argc, char **argv) {
    if (argc < 7) return 9; void (*f)(void) = NULL; for (unsigned i = 0; i < sizeof P / sizeof *P; i++) if (!strcmp(P[i].n, argv[1])) f = P[i].f; if (!f) return 9;
    u64 seed = strtoull(argv[2], 0, 10), first = strtoull(argv[3], 0, 10), last = strtoull(argv[4], 0, 10); double secs = atof(argv[5]); snprintf(scratch, sizeof scratch, "%s", argv[6]); own++;
    char cf[300]; snprintf(cf, 300, "%s/case", scratch); int fd = open(cf, O_CREAT | O_RDWR, 0600); if (ftruncate(fd, 8)) return 9; volatile u64 *cur = mmap(NULL, 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    arena = mmap(NULL, ASIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); savedout = dup(1); stderr = fopen("/dev/null", "w"); void (*dflcb)(const char *, va_list) = IFF_errorCallback; u64 done = 0; struct timespec a, b; clock_gettime(CLOCK_MONOTONIC, &a); u64 c;
    for (c = first; c < last; c++) { *cur = c; rs = seed * 1000003 + c * 0x9E3779B1u + 12345; rnd(); atop = 0; nblk = 0; reset(); IFF_errorCallback = chance(1, 8) ? quietcb : dflcb; alarm(20); armed = 1;
        int why = setjmp(out); if (why == 2) { armed = 0; fflush(stdout); if (capfull) { __fpurge(stdout); clearerr(stdout); capfull = 0; } dup2(savedout, 1); own++; for (int i = nblk - 1; i >= 0; i--) __real_free(blk[i]); nblk = 0; own = 1; goto next; }
        if (why) { armed = 0; dup2(savedout, 1); dprintf(3, "FAIL %llu: %s\n", (unsigned long long)c, what); _exit(1); }
        f(); if (wrong_free && f != c16) { armed = 0; } armed = 0; own++; for (int i = nblk - 1; i >= 0; i--) __real_free(blk[i]); nblk = 0; own--; done++; next: clock_gettime(CLOCK_MONOTONIC, &b); if (b.tv_sec - a.tv_sec + (b.tv_nsec - a.tv_nsec) / 1e9 > secs) break; }
    dprintf(3, "OK %llu\n", (unsigned long long)done); _exit(0); }
