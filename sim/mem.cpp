// Checked heap, memory-access callbacks, string functions with range checks.
#include "rt.h"
#include <errno.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unordered_map>

static char *arena;
static uint8_t *shadow;                 // 0 = not addressable, 1 = live, 2 = freed
static const size_t ARENA = 64u << 20;
static size_t brk_off = 64;
struct Blk { size_t n; bool live; int id; };
static std::unordered_map<const void *, Blk> blks;
static int blkid;
bool mem_track = true;

void mem_init()
{
	arena = (char *)mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	shadow = (uint8_t *)mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
bool in_arena(const void *p) { return (const char *)p >= arena && (const char *)p < arena + ARENA; }

// The second build of the sources (gcc -fsanitize=kernel-address) also surrounds variables on the stack
// and global ones with zones that must not be touched; their shadow is kept where the compiler expects it.
extern "C" { int sim_zones __attribute__((weak)) = 0; }
static const uintptr_t ZOFF = 0x300000000000, ZSTK = 0x200000000000, GLO = 0x400000, GHI = 0x40000000;
static uintptr_t zstk_end = ZSTK;
static void zmap(uintptr_t a, size_t n)
{
	uintptr_t lo = ((a >> 3) + ZOFF) & ~4095ul, hi = (((a + n) >> 3) + ZOFF + 4095) & ~4095ul;
	mmap((void *)lo, hi - lo, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
}
char *stack_alloc(size_t n)
{
	if (!sim_zones) return (char *)mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	n = (n + 65535) & ~65535ul;
	char *p = (char *)mmap((void *)zstk_end, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
	zmap(zstk_end, n);
	zstk_end += n + 65536;
	return p;
}
static bool zoned(const void *p)
{
	uintptr_t a = (uintptr_t)p;
	return sim_zones && ((a >= ZSTK && a < zstk_end) || (a >= GLO && a < GHI));
}
static bool zbad(const void *p, size_t n)
{
	for (uintptr_t a = (uintptr_t)p, e = a + n; a < e;) {
		int8_t z = *(int8_t *)((a >> 3) + ZOFF);
		uintptr_t g = (a & ~7ul) + 8, last = (e < g ? e : g) - 1;
		if (z < 0 || (z > 0 && (int)(last & 7) >= z)) return true;
		a = g;
	}
	return false;
}

void chk(const void *p, size_t n, bool w, const char *how)
{
	if (n == 0 || run_over) return;
	if ((uintptr_t)p < 4096) { memerr("null pointer passed", how); return; }
	if (zoned(p)) { if (zbad(p, n)) memerr(w ? "write outside a variable" : "read outside a variable", how); return; }
	if (!in_arena(p)) return;
	size_t o = (const char *)p - arena;
	if (o + n > ARENA) { memerr("access outside allocation", how); return; }
	if (n <= 16) {
		for (size_t i = 0; i < n; i++)
			if (shadow[o + i] != 1) { memerr(shadow[o + i] == 2 ? "use after free" : w ? "write outside allocation" : "read outside allocation", how); return; }
	} else {
		const void *q = memchr(shadow + o, 0, n), *q2 = memchr(shadow + o, 2, n);
		if (q2) memerr("use after free", how);
		else if (q) memerr(w ? "write outside allocation" : "read outside allocation", how);
	}
}

static void *alloc(size_t n, bool zero)
{
	size_t need = ((n + 15) & ~(size_t)15) + 32;
	if (brk_off + need > ARENA || n > ARENA) { errno = ENOMEM; return nullptr; }
	char *p = arena + brk_off + 16;
	brk_off += need;
	memset(shadow + (p - arena), 1, n);
	memset(p, zero ? 0 : 0xa5, n);
	blks[p] = Blk{n, true, ++blkid};
	return p;
}
size_t heap_live(std::string *d)
{
	size_t n = 0;
	for (auto &b : blks) if (b.second.live) { n++; if (d && d->size() < 200) *d += std::to_string(b.second.n) + " "; }
	return n;
}
bool ptr_live(const void *p, size_t *n) { auto i = blks.find(p); if (i == blks.end() || !i->second.live) return false; if (n) *n = i->second.n; return true; }

extern "C" {
void *sim_malloc(size_t n) { RtScope r; if (take_fault("malloc")) { errno = ENOMEM; return nullptr; } return alloc(n, false); }
void *sim_calloc(size_t a, size_t b)
{
	RtScope r;
	if (take_fault("malloc")) { errno = ENOMEM; return nullptr; }
	if (b && a > (size_t)-1 / b) { errno = ENOMEM; return nullptr; }
	return alloc(a * b, true);
}
void sim_free(void *p)
{
	RtScope r;
	if (!p) return;
	yield_point(Y_MEM);
	auto i = blks.find(p);
	if (i == blks.end()) { memerr("free of something never allocated", "free"); return; }
	if (!i->second.live) { memerr("double free", "free"); return; }
	i->second.live = false;
	memset(shadow + ((char *)p - arena), 2, i->second.n);
}
void *sim_realloc(void *p, size_t n)
{
	RtScope r;
	if (!p) return sim_malloc(n);
	if (take_fault("malloc")) { errno = ENOMEM; return nullptr; }
	auto i = blks.find(p);
	if (i == blks.end() || !i->second.live) { memerr("realloc of something not allocated", "realloc"); return nullptr; }
	size_t o = i->second.n;
	void *q = alloc(n, false);
	if (!q) return nullptr;
	memcpy(q, p, o < n ? o : n);
	sim_free(p);
	return q;
}
void *sim_reallocarray(void *p, size_t a, size_t b) { return sim_realloc(p, a * b); }
void *sim_aligned_alloc(size_t, size_t n) { return sim_malloc(n); }
int sim_posix_memalign(void **o, size_t, size_t n) { *o = sim_malloc(n); return *o ? 0 : ENOMEM; }

// string functions
void *sim_memcpy(void *d, const void *s, size_t n) { RtScope r; chk(s, n, false, "memcpy"); chk(d, n, true, "memcpy"); return memmove(d, s, n); }
void *sim_memmove(void *d, const void *s, size_t n) { RtScope r; chk(s, n, false, "memmove"); chk(d, n, true, "memmove"); return memmove(d, s, n); }
void *sim_mempcpy(void *d, const void *s, size_t n) { sim_memcpy(d, s, n); return (char *)d + n; }
void *sim_memset(void *d, int c, size_t n) { RtScope r; chk(d, n, true, "memset"); return memset(d, c, n); }
void sim_bzero(void *d, size_t n) { sim_memset(d, 0, n); }
void sim_explicit_bzero(void *d, size_t n) { sim_memset(d, 0, n); }
int sim_memcmp(const void *a, const void *b, size_t n) { RtScope r; chk(a, n, false, "memcmp"); chk(b, n, false, "memcmp"); return memcmp(a, b, n); }
int sim_bcmp(const void *a, const void *b, size_t n) { return sim_memcmp(a, b, n); }
void *sim_memchr(const void *a, int c, size_t n) { RtScope r; const void *q = memchr(a, c, n); chk(a, q ? (const char *)q - (const char *)a + 1 : n, false, "memchr"); return (void *)q; }
// length of a string, not running past an arena allocation
static size_t slen(const char *s, const char *how)
{
	if ((uintptr_t)s < 4096) { memerr("null pointer passed", how); return strlen(s); }
	if (zoned(s)) {
		for (size_t n = 0;; n++) {
			if (zbad(s + n, 1)) { memerr("read outside a variable", how); return n; }
			if (!s[n]) return n;
		}
	}
	if (!in_arena(s)) return strlen(s);
	size_t n = 0;
	while (true) {
		size_t o = s - arena + n;
		if (o >= ARENA) return n;
		if (shadow[o] != 1) { memerr(shadow[o] == 2 ? "use after free" : "read outside allocation", how); return n; }
		if (!s[n]) return n;
		n++;
	}
}
size_t sim_strlen(const char *s) { RtScope r; return slen(s, "strlen"); }
size_t sim_strnlen(const char *s, size_t m) { RtScope r; size_t n = strnlen(s, m); chk(s, n < m ? n + 1 : n, false, "strnlen"); return n; }
char *sim_strcpy(char *d, const char *s) { RtScope r; size_t n = slen(s, "strcpy"); chk(d, n + 1, true, "strcpy"); memmove(d, s, n); d[n] = 0; return d; }
char *sim_stpcpy(char *d, const char *s) { sim_strcpy(d, s); return d + strlen(d); }
char *sim_strncpy(char *d, const char *s, size_t m) { RtScope r; size_t n = strnlen(s, m); chk(s, n < m ? n + 1 : n, false, "strncpy"); chk(d, m, true, "strncpy"); return strncpy(d, s, m); }
char *sim_strcat(char *d, const char *s) { RtScope r; size_t a = slen(d, "strcat"), n = slen(s, "strcat"); chk(d + a, n + 1, true, "strcat"); return strcat(d, s); }
char *sim_strncat(char *d, const char *s, size_t m) { RtScope r; size_t a = slen(d, "strncat"), n = strnlen(s, m); chk(d + a, n + 1, true, "strncat"); return strncat(d, s, m); }
int sim_strcmp(const char *a, const char *b) { RtScope r; slen(a, "strcmp"); slen(b, "strcmp"); return strcmp(a, b); }
int sim_strcasecmp(const char *a, const char *b) { RtScope r; slen(a, "strcasecmp"); slen(b, "strcasecmp"); return strcasecmp(a, b); }
int sim_strncmp(const char *a, const char *b, size_t n)
{
	RtScope r;
	size_t i = 0;
	while (i < n) {
		chk(a + i, 1, false, "strncmp"); chk(b + i, 1, false, "strncmp");
		if (a[i] != b[i] || !a[i]) break;
		i++;
	}
	return i == n ? 0 : (unsigned char)a[i] - (unsigned char)b[i];
}
int sim_strncasecmp(const char *a, const char *b, size_t n) { RtScope r; return strncasecmp(a, b, n); }
char *sim_strchr(const char *s, int c) { RtScope r; slen(s, "strchr"); return (char *)strchr(s, c); }
char *sim_strrchr(const char *s, int c) { RtScope r; slen(s, "strrchr"); return (char *)strrchr(s, c); }
char *sim_strstr(const char *s, const char *t) { RtScope r; slen(s, "strstr"); slen(t, "strstr"); return (char *)strstr(s, t); }
char *sim_strpbrk(const char *s, const char *t) { RtScope r; slen(s, "strpbrk"); return (char *)strpbrk(s, t); }
size_t sim_strspn(const char *s, const char *t) { RtScope r; slen(s, "strspn"); return strspn(s, t); }
size_t sim_strcspn(const char *s, const char *t) { RtScope r; slen(s, "strcspn"); return strcspn(s, t); }
char *sim_strtok_r(char *s, const char *d, char **p) { RtScope r; return strtok_r(s, d, p); }
char *sim_strtok(char *s, const char *d) { RtScope r; return strtok(s, d); }
char *sim_strsep(char **s, const char *d) { RtScope r; return strsep(s, d); }
char *sim_strdup(const char *s) { size_t n = sim_strlen(s); char *p = (char *)sim_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
char *sim_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = (char *)sim_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
long sim_strtol(const char *s, char **e, int b) { RtScope r; slen(s, "strtol"); return strtol(s, e, b); }
unsigned long sim_strtoul(const char *s, char **e, int b) { RtScope r; slen(s, "strtoul"); return strtoul(s, e, b); }
long long sim_strtoll(const char *s, char **e, int b) { RtScope r; slen(s, "strtoll"); return strtoll(s, e, b); }
unsigned long long sim_strtoull(const char *s, char **e, int b) { RtScope r; slen(s, "strtoull"); return strtoull(s, e, b); }
int sim_atoi(const char *s) { RtScope r; slen(s, "atoi"); return atoi(s); }
long sim_atol(const char *s) { RtScope r; return atol(s); }

// The bytes are produced into a private buffer first and then checked into place.
static int fmt_into(char *d, size_t cap, bool bounded, const char *f, va_list a, const char *how)
{
	char *t = nullptr;
	int n = vasprintf(&t, f, a);
	if (n < 0) return n;
	size_t w = n;
	if (bounded) { if (cap == 0) { free(t); return n; } if (w > cap - 1) w = cap - 1; }
	chk(d, w + 1, true, how);
	memcpy(d, t, w);
	d[w] = 0;
	free(t);
	return n;
}
int sim_vsprintf(char *d, const char *f, va_list a) { RtScope r; return fmt_into(d, 0, false, f, a, "sprintf"); }
int sim_sprintf(char *d, const char *f, ...) { RtScope r; va_list a; va_start(a, f); int n = fmt_into(d, 0, false, f, a, "sprintf"); va_end(a); return n; }
int sim_vsnprintf(char *d, size_t m, const char *f, va_list a) { RtScope r; return fmt_into(d, m, true, f, a, "snprintf"); }
int sim_snprintf(char *d, size_t m, const char *f, ...) { RtScope r; va_list a; va_start(a, f); int n = fmt_into(d, m, true, f, a, "snprintf"); va_end(a); return n; }
int sim_vasprintf(char **o, const char *f, va_list a)
{
	RtScope r;
	char *t = nullptr;
	int n = vasprintf(&t, f, a);
	if (n < 0) return n;
	*o = (char *)sim_malloc(n + 1);
	if (!*o) { free(t); return -1; }
	memcpy(*o, t, n + 1);
	free(t);
	return n;
}
int sim_asprintf(char **o, const char *f, ...) { va_list a; va_start(a, f); int n = sim_vasprintf(o, f, a); va_end(a); return n; }
int sim_sscanf(const char *s, const char *f, ...) { RtScope r; slen(s, "sscanf"); va_list a; va_start(a, f); int n = vsscanf(s, f, a); va_end(a); return n; }
int sim___isoc99_sscanf(const char *s, const char *f, ...) { RtScope r; slen(s, "sscanf"); va_list a; va_start(a, f); int n = vsscanf(s, f, a); va_end(a); return n; }
int sim___isoc23_sscanf(const char *s, const char *f, ...) { RtScope r; slen(s, "sscanf"); va_list a; va_start(a, f); int n = vsscanf(s, f, a); va_end(a); return n; }
long sim___isoc23_strtol(const char *s, char **e, int b) { RtScope r; slen(s, "strtol"); return strtol(s, e, b); }
unsigned long sim___isoc23_strtoul(const char *s, char **e, int b) { RtScope r; slen(s, "strtoul"); return strtoul(s, e, b); }
long long sim___isoc23_strtoll(const char *s, char **e, int b) { RtScope r; slen(s, "strtoll"); return strtoll(s, e, b); }
unsigned long long sim___isoc23_strtoull(const char *s, char **e, int b) { RtScope r; slen(s, "strtoull"); return strtoull(s, e, b); }
int sim_vsscanf(const char *s, const char *f, va_list a) { RtScope r; slen(s, "sscanf"); return vsscanf(s, f, a); }

// ---- memory access callbacks (gcc -fsanitize=thread, without its runtime) --------
static inline void acc(const void *p, size_t n, bool w)
{
	Thread *t = cur;
	if (!t || t->depth || run_over) return;
	if ((const char *)p >= t->stk && (const char *)p < t->stk + t->stksz + 4096) {
		if (sim_zones) { t->depth++; chk(p, n, w, w ? "store" : "load"); t->depth--; }
		return;
	}
	t->depth++;
	if (in_arena(p) || sim_zones) chk(p, n, w, w ? "store" : "load");
	if (w || in_arena(p)) yield_point(Y_MEM);
	t->depth--;
}
#define A(n) void __tsan_read##n(void *p) { acc(p, n, false); } void __tsan_write##n(void *p) { acc(p, n, true); } \
	void __tsan_unaligned_read##n(void *p) { acc(p, n, false); } void __tsan_unaligned_write##n(void *p) { acc(p, n, true); } \
	void __tsan_volatile_read##n(void *p) { acc(p, n, false); } void __tsan_volatile_write##n(void *p) { acc(p, n, true); } \
	void __tsan_read_write##n(void *p) { acc(p, n, true); } void __tsan_unaligned_read_write##n(void *p) { acc(p, n, true); }
A(1) A(2) A(4) A(8) A(16)
void __tsan_read_range(void *p, size_t n) { acc(p, n, false); }
void __tsan_write_range(void *p, size_t n) { acc(p, n, true); }
#define Z(n) void __asan_load##n##_noabort(void *p) { acc(p, n, false); } void __asan_store##n##_noabort(void *p) { acc(p, n, true); }
Z(1) Z(2) Z(4) Z(8) Z(16)
void __asan_loadN_noabort(void *p, size_t n) { acc(p, n, false); }
void __asan_storeN_noabort(void *p, size_t n) { acc(p, n, true); }
void __asan_handle_no_return(void) {}
static void zset(uintptr_t a, size_t n, int8_t v)
{
	int8_t *z = (int8_t *)((a >> 3) + ZOFF);
	for (size_t i = 0; i < n / 8; i++) z[i] = v;
	if (n & 7) z[n / 8] = v ? v : (int8_t)(n & 7);
}
void __asan_poison_stack_memory(uintptr_t a, size_t n) { zset(a, n, -8); }
void __asan_unpoison_stack_memory(uintptr_t a, size_t n) { zset(a, n, 0); }
struct ZGlobal { uintptr_t beg, size, whole; const char *name, *mod; uintptr_t dyn; void *loc; uintptr_t odr; };
void __asan_register_globals(ZGlobal *g, size_t n)
{
	static bool once = (zmap(GLO, GHI - GLO), true);
	(void)once;
	for (size_t i = 0; i < n; i++) {
		zset(g[i].beg, g[i].size, 0);
		size_t up = (g[i].size + 7) & ~7ul;
		if (g[i].whole > up) zset(g[i].beg + up, g[i].whole - up, -7);
	}
}
void __asan_unregister_globals(ZGlobal *, size_t) {}
void __asan_init(void) {}
void __asan_version_mismatch_check_v8(void) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
void __tsan_init(void) {}
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
#define AT(b, T) \
T __tsan_atomic##b##_load(const volatile T *p, int) { acc((const void *)p, sizeof(T), false); return *p; } \
void __tsan_atomic##b##_store(volatile T *p, T v, int) { acc((const void *)p, sizeof(T), true); *p = v; } \
T __tsan_atomic##b##_exchange(volatile T *p, T v, int) { acc((const void *)p, sizeof(T), true); T o = *p; *p = v; return o; } \
T __tsan_atomic##b##_fetch_add(volatile T *p, T v, int) { acc((const void *)p, sizeof(T), true); T o = *p; *p = o + v; return o; } \
T __tsan_atomic##b##_fetch_sub(volatile T *p, T v, int) { acc((const void *)p, sizeof(T), true); T o = *p; *p = o - v; return o; } \
T __tsan_atomic##b##_fetch_and(volatile T *p, T v, int) { acc((const void *)p, sizeof(T), true); T o = *p; *p = o & v; return o; } \
T __tsan_atomic##b##_fetch_or(volatile T *p, T v, int) { acc((const void *)p, sizeof(T), true); T o = *p; *p = o | v; return o; } \
T __tsan_atomic##b##_fetch_xor(volatile T *p, T v, int) { acc((const void *)p, sizeof(T), true); T o = *p; *p = o ^ v; return o; } \
int __tsan_atomic##b##_compare_exchange_strong(volatile T *p, T *c, T v, int, int) { acc((const void *)p, sizeof(T), true); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
int __tsan_atomic##b##_compare_exchange_weak(volatile T *p, T *c, T v, int, int) { acc((const void *)p, sizeof(T), true); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
T __tsan_atomic##b##_compare_exchange_val(volatile T *p, T c, T v, int, int) { acc((const void *)p, sizeof(T), true); T o = *p; if (o == c) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
