// Files, standard streams, syslog, random numbers, process calls, pcre2 bookkeeping.
#include "rt.h"
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <time.h>
#include <arpa/inet.h>
#define PCRE2_CODE_UNIT_WIDTH 8
#include <pcre2.h>
#include <set>

std::map<std::string, std::string> vfiles;
int lib_live;
struct VFile { std::string path, mode; size_t pos = 0; bool open = true; bool eof = false; bool err = false; std::string line; };
static std::vector<VFile *> files;
static std::map<std::string, std::string> linebuf;

int io_open_files(std::string *d) { int n = 0; for (VFile *f : files) if (f->open) { n++; if (d) *d += f->path + " "; } return n; }

static void emit_line(const std::string &dst, const std::string &path, int lvl, std::string txt)
{
	if (cfgi("logrec", 0) == 0) return;
	// "M<id> <padding> E<id>": the harness' own messages; anything else is m=0
	int m = 0; bool whole = false;
	size_t p = txt.find("M#");
	size_t pre = 0;
	if (p != std::string::npos) {
		m = atoi(txt.c_str() + p + 2);
		std::string tail = "#E" + std::to_string(m);
		size_t e = txt.find(tail, p);
		whole = e != std::string::npos && e + tail.size() == txt.size();
		pre = p;
	}
	Ev e("lout");
	e.t("d", dst).t("p", path).i("lvl", lvl).i("m", m).i("whole", whole).i("pre", (long)pre);
	if (cfgi("logrec", 0) > 1) e.t("txt", txt.substr(0, 120));
	e.put();
}
static void out_text(const std::string &dst, const std::string &path, const std::string &s)
{
	std::string &b = linebuf[dst + path];
	b += s;
	size_t n;
	while ((n = b.find('\n')) != std::string::npos) { emit_line(dst, path, -1, b.substr(0, n)); b.erase(0, n + 1); }
}
void io_flush_partial() { for (auto &x : linebuf) if (!x.second.empty()) { emit_line("partial", x.first, -1, x.second); x.second.clear(); } }

static VFile *vf(FILE *f, const char *how)
{
	for (VFile *v : files) if ((FILE *)v == f) {
		if (!v->open) { memerr("file used after it was closed", how); return nullptr; }
		return v;
	}
	memerr("file used that is not open", how);
	return nullptr;
}
extern int stdfd[3];
extern bool fd_taken(int fd);
extern "C" ssize_t sim_write(int, const void *, size_t);
static int put(FILE *f, const std::string &s, const char *how)
{
	yield_point(Y_SYNC);
	if (f == stdout || f == stderr) {
		int fd = f == stdout ? 1 : 2;
		if (stdfd[fd] == 2) return (int)s.size();
		if (stdfd[fd] == 0) return fd_taken(fd) ? (int)sim_write(fd, s.data(), s.size()) : -1;
		out_text(f == stdout ? "out" : "err", "", s); return (int)s.size(); }
	VFile *v = vf(f, how);
	if (!v) return -1;
	if (v->mode[0] == 'r') { errno = EBADF; return -1; }
	int e = take_fault("fwrite"); if (e > 0) { errno = e; return -1; }
	std::string &c = vfiles[v->path];
	if (v->mode[0] == 'a') c += s; else { c.resize(v->pos); c += s; v->pos += s.size(); }
	out_text("file", v->path, s);
	return (int)s.size();
}
static std::string fmt(const char *f, va_list a)
{
	char *t = nullptr;
	int n = vasprintf(&t, f, a);
	if (n < 0) return "";
	std::string s(t, n);
	free(t);
	return s;
}
extern "C" {
FILE *sim_fopen(const char *p, const char *m)
{
	RtScope r;
	if (!p) { memerr("null pointer passed", "fopen"); errno = EFAULT; return nullptr; }
	chk(p, 1, false, "fopen");
	yield_point(Y_SYNC);
	int e = take_fault("fopen"); if (e > 0) { errno = e; return nullptr; }
	std::string path = p;
	if (path == "/dev/urandom" || path == "/dev/random") { std::string s; for (int i = 0; i < 64; i++) s += (char)rnd64(); vfiles[path] = s; }
	if (path.empty() || path.compare(0, 6, "/nodir") == 0) { errno = ENOENT; return nullptr; }
	if (path.compare(0, 5, "/deny") == 0) { errno = EACCES; return nullptr; }
	if (m[0] == 'r' && !vfiles.count(path)) { errno = ENOENT; return nullptr; }
	if (m[0] == 'w') vfiles[path] = "";
	if (m[0] == 'a') vfiles[path];
	VFile *v = new VFile; v->path = path; v->mode = m;
	files.push_back(v);
	if (cfgi("logrec", 0)) Ev("lfopen").t("p", path).t("m", std::string(1, m[0])).put();
	return (FILE *)v;
}
FILE *sim_fopen64(const char *p, const char *m) { return sim_fopen(p, m); }
FILE *sim_freopen(const char *p, const char *m, FILE *f)
{
	int i = f == stdin ? 0 : f == stdout ? 1 : f == stderr ? 2 : -1;
	if (i >= 0 && p && !strcmp(p, "/dev/null")) { RtScope r; yield_point(Y_SYNC); stdfd[i] = 2; return f; }
	return sim_fopen(p, m);
}
int sim_fclose(FILE *f)
{
	RtScope r;
	yield_point(Y_SYNC);
	if (f == stdout || f == stderr || f == stdin) return 0;
	VFile *v = vf(f, "fclose");
	if (!v) return EOF;
	v->open = false;
	if (cfgi("logrec", 0)) Ev("lfclose").t("p", v->path).put();
	return 0;
}
int sim_fgetc(FILE *f)
{
	VFile *v = vf(f, "fgetc"); if (!v) return EOF;
	if (v->err) return EOF;
	int e = take_fault("fgetc"); if (e > 0) { errno = e; v->err = true; return EOF; }
	std::string &c = vfiles[v->path];
	if (v->pos >= c.size()) { v->eof = true; return EOF; }
	return (unsigned char)c[v->pos++];
}
int sim_getc(FILE *f) { return sim_fgetc(f); }
int sim_ungetc(int c, FILE *f) { VFile *v = vf(f, "ungetc"); if (!v || !v->pos || c == EOF) return EOF; v->pos--; v->eof = false; return c; }
char *sim_fgets(char *b, int n, FILE *f)
{
	int i = 0, c = 0;
	while (i < n - 1 && (c = sim_fgetc(f)) != EOF) { chk(b + i, 1, true, "fgets"); b[i++] = (char)c; if (c == '\n') break; }
	if (i == 0) return nullptr;
	chk(b + i, 1, true, "fgets");
	b[i] = 0;
	return b;
}
void *sim_malloc(size_t); void *sim_realloc(void *, size_t);
ssize_t sim_getdelim(char **l, size_t *n, int d, FILE *f)
{
	size_t i = 0; int c;
	if (!*l) { *l = (char *)sim_malloc(128); if (!*l) return -1; *n = 128; }
	while ((c = sim_fgetc(f)) != EOF) {
		if (i + 2 > *n) { char *q = (char *)sim_realloc(*l, *n * 2); if (!q) return -1; *l = q; *n *= 2; }
		(*l)[i++] = (char)c;
		if (c == d) break;
	}
	if (!i) return -1;
	(*l)[i] = 0;
	return (ssize_t)i;
}
ssize_t sim_getline(char **l, size_t *n, FILE *f) { return sim_getdelim(l, n, '\n', f); }
size_t sim_fread(void *b, size_t s, size_t n, FILE *f)
{
	size_t i = 0; int c;
	while (i < s * n && (c = sim_fgetc(f)) != EOF) { chk((char *)b + i, 1, true, "fread"); ((char *)b)[i++] = (char)c; }
	return s ? i / s : 0;
}
int sim_feof(FILE *f) { VFile *v = vf(f, "feof"); return v ? v->eof : 1; }
int sim_ferror(FILE *f) { if (f == stdout || f == stderr) return 0; VFile *v = vf(f, "ferror"); return v ? v->err : 1; }
void sim_clearerr(FILE *f) { VFile *v = vf(f, "clearerr"); if (v) { v->err = false; v->eof = false; } }
void sim_rewind(FILE *f) { VFile *v = vf(f, "rewind"); if (v) { v->pos = 0; v->eof = false; } }
int sim_fseek(FILE *f, long o, int w) { VFile *v = vf(f, "fseek"); if (!v) return -1; v->pos = w == SEEK_SET ? o : w == SEEK_CUR ? v->pos + o : vfiles[v->path].size() + o; v->eof = false; return 0; }
long sim_ftell(FILE *f) { VFile *v = vf(f, "ftell"); return v ? (long)v->pos : -1; }
int sim_vfprintf(FILE *f, const char *s, va_list a) { RtScope r; return put(f, fmt(s, a), "fprintf"); }
int sim_fprintf(FILE *f, const char *s, ...) { RtScope r; va_list a; va_start(a, s); int n = put(f, fmt(s, a), "fprintf"); va_end(a); return n; }
int sim_vprintf(const char *s, va_list a) { RtScope r; return put(stdout, fmt(s, a), "printf"); }
int sim_printf(const char *s, ...) { RtScope r; va_list a; va_start(a, s); int n = put(stdout, fmt(s, a), "printf"); va_end(a); return n; }
int sim_puts(const char *s) { RtScope r; return put(stdout, std::string(s) + "\n", "puts"); }
int sim_fputs(const char *s, FILE *f) { RtScope r; return put(f, s, "fputs"); }
int sim_fputc(int c, FILE *f) { RtScope r; put(f, std::string(1, (char)c), "fputc"); return c; }
int sim_putc(int c, FILE *f) { return sim_fputc(c, f); }
int sim_putchar(int c) { return sim_fputc(c, stdout); }
size_t sim_fwrite(const void *b, size_t s, size_t n, FILE *f) { RtScope r; chk(b, s * n, false, "fwrite"); return put(f, std::string((const char *)b, s * n), "fwrite") < 0 ? 0 : n; }
int sim_fflush(FILE *f) { RtScope r; if (f && f != stdout && f != stderr) vf(f, "fflush"); yield_point(Y_SYNC); return 0; }
int sim_setvbuf(FILE *, char *, int, size_t) { return 0; }
void sim_perror(const char *s) { RtScope r; put(stderr, std::string(s) + ": error\n", "perror"); }

// syslog
static int syslog_open;
void sim_openlog(const char *, int, int) { RtScope r; yield_point(Y_SYNC); syslog_open++; if (cfgi("logrec", 0)) Ev("slopen").put(); }
void sim_closelog(void) { RtScope r; yield_point(Y_SYNC); if (cfgi("logrec", 0)) Ev("slclose").i("was", syslog_open).put(); syslog_open = 0; }
void sim_vsyslog(int lvl, const char *f, va_list a)
{
	RtScope r;
	yield_point(Y_SYNC);
	std::string s = fmt(f, a);
	if (!s.empty() && s.back() == '\n') s.pop_back();
	emit_line("syslog", "", lvl & 7, s);
}
void sim_syslog(int lvl, const char *f, ...) { va_list a; va_start(a, f); sim_vsyslog(lvl, f, a); va_end(a); }

struct tm *sim_localtime_r(const time_t *t, struct tm *o) { chk(t, sizeof *t, false, "localtime_r"); chk(o, sizeof *o, true, "localtime_r"); return gmtime_r(t, o); }
struct tm *sim_gmtime_r(const time_t *t, struct tm *o) { return sim_localtime_r(t, o); }
static struct tm stm;
struct tm *sim_localtime(const time_t *t) { return gmtime_r(t, &stm); }
struct tm *sim_gmtime(const time_t *t) { return gmtime_r(t, &stm); }
size_t sim_strftime(char *b, size_t n, const char *f, const struct tm *t)
{
	RtScope r;
	char tmp[512];
	size_t k = strftime(tmp, sizeof tmp < n ? sizeof tmp : n, f, t);
	chk(b, k ? k + 1 : 0, true, "strftime");
	if (k) memcpy(b, tmp, k + 1);
	return k;
}
const char *sim_inet_ntop(int af, const void *s, char *d, socklen_t n)
{
	RtScope r;
	char t[64];
	if (!inet_ntop(af, s, t, n < sizeof t ? n : sizeof t)) return nullptr;
	chk(d, strlen(t) + 1, true, "inet_ntop");
	strcpy(d, t);
	return d;
}
char *sim_inet_ntoa(struct in_addr a) { return inet_ntoa(a); }
int sim_inet_pton(int af, const char *s, void *d) { RtScope r; chk(d, 4, true, "inet_pton"); return inet_pton(af, s, d); }

// random numbers: a function of the seed and the number of draws since seeding
static uint64_t rseed = 1, rdraw;
static uint32_t draw()
{
	rdraw++;
	long mode = cfgi("rnd", 0);
	if (mode == 1) return (uint32_t)(rdraw + (rseed % 97) * 16);      // many leading zeros
	if (mode == 2) return (uint32_t)(0x7abcdef0 - rdraw * 0x01010101 + (rseed % 97) * 256);
	uint64_t x = rseed * 0x9E3779B97F4A7C15ull + rdraw * 0xD1B54A32D192ED03ull;
	x ^= x >> 31; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 29; x *= 0x94D049BB133111EBull; x ^= x >> 32;
	return (uint32_t)x;
}
void sim_srand(unsigned s) { RtScope r; yield_point(Y_SYNC); rseed = s; rdraw = 0; }
int sim_rand(void) { RtScope r; yield_point(Y_SYNC); return (int)(draw() & 0x7fffffff); }
void sim_srandom(unsigned s) { sim_srand(s); }
long sim_random(void) { return sim_rand(); }
int sim_rand_r(unsigned *p) { RtScope r; *p = *p * 1103515245u + 12345u; return (int)((*p ^ (*p >> 15)) & 0x7fffffff); }
uint32_t sim_arc4random(void) { RtScope r; return (uint32_t)rnd64(); }
ssize_t sim_getrandom(void *b, size_t n, unsigned) { RtScope r; chk(b, n, true, "getrandom"); for (size_t i = 0; i < n; i++) ((char *)b)[i] = (char)draw(); return (ssize_t)n; }
int sim_getentropy(void *b, size_t n) { sim_getrandom(b, n, 0); return 0; }

// processes
pid_t sim_fork(void)
{
	RtScope r;
	yield_point(Y_SYNC);
	int e = take_fault("fork"); if (e > 0) { errno = e; return -1; }
	bool parent = cfgi("forkparent", 0);
	Ev("fork").i("parent", parent).put();
	return parent ? 4242 : 0;
}
pid_t sim_setsid(void) { RtScope r; int e = take_fault("setsid"); if (e > 0) { errno = e; return -1; } Ev("setsid").put(); return 4242; }
int sim_chdir(const char *) { RtScope r; int e = take_fault("chdir"); if (e > 0) { errno = e; return -1; } return 0; }
mode_t sim_umask(mode_t) { return 022; }
pid_t sim_getpid(void) { return 4242; }
int sim_daemon(int, int) { Ev("fork").i("parent", 0).put(); return 0; }
int sim_access(const char *p, int) { RtScope r; if (vfiles.count(p)) return 0; errno = ENOENT; return -1; }
static std::vector<void (*)(void)> atex;
int sim_atexit(void (*f)(void)) { atex.push_back(f); return 0; }
void sim_exit(int c) { while (!atex.empty()) { auto f = atex.back(); atex.pop_back(); f(); } cur->depth++; Ev("exit").i("code", c & 255).i("fds", 0).i("heap", 0).i("files", 0).i("main", 0).put(); finish_run("exit"); abort(); }
void sim__exit(int c) { cur->depth++; Ev("exit").i("code", c & 255).i("fds", 0).i("heap", 0).i("files", 0).i("main", 0).put(); finish_run("exit"); abort(); }
void sim_abort(void) { cur->depth++; finish_run("crash"); abort(); }
void sim___assert_fail(const char *, const char *, unsigned, const char *) { sim_abort(); }
void sim___stack_chk_fail(void) { memerr("stack buffer overrun", "function return"); finish_run("crash"); abort(); }
char *sim_getenv(const char *) { return nullptr; }

// pcre2: every object is counted; a freed or foreign object is reported
static std::map<void *, int> pobj;      // 1 = live
static void *padd(void *p) { if (p) { pobj[p] = 1; lib_live++; } return p; }
static bool pok(void *p, const char *how) { auto i = pobj.find(p); if (i == pobj.end() || !i->second) { memerr("pattern object used that is not live", how); return false; } return true; }
static void pdel(void *p, const char *how) { if (p && pok(p, how)) { pobj[p] = 0; lib_live--; } }
void *sim_pcre2_compile_8(PCRE2_SPTR p, PCRE2_SIZE n, uint32_t o, int *e, PCRE2_SIZE *eo, pcre2_compile_context *c)
{
	RtScope r;
	int f = take_fault("pcre2_compile"); if (f > 0) { *e = 121; *eo = 0; return nullptr; }
	return padd(pcre2_compile(p, n, o, e, eo, c));
}
void sim_pcre2_code_free_8(pcre2_code *p) { RtScope r; pdel(p, "pcre2_code_free"); /* the memory stays mapped */ }
void *sim_pcre2_match_data_create_from_pattern_8(const pcre2_code *p, pcre2_general_context *c) { RtScope r; if (!pok((void *)p, "pcre2_match_data_create")) return nullptr; int f = take_fault("pcre2_match_data"); if (f > 0) return nullptr; return padd(pcre2_match_data_create_from_pattern(p, c)); }
void *sim_pcre2_match_data_create_8(uint32_t n, pcre2_general_context *c) { RtScope r; return padd(pcre2_match_data_create(n, c)); }
void sim_pcre2_match_data_free_8(pcre2_match_data *p) { RtScope r; pdel(p, "pcre2_match_data_free"); }
int sim_pcre2_match_8(const pcre2_code *p, PCRE2_SPTR s, PCRE2_SIZE n, PCRE2_SIZE o, uint32_t opt, pcre2_match_data *d, pcre2_match_context *c)
{
	RtScope r;
	yield_point(Y_SYNC);
	if (!pok((void *)p, "pcre2_match") || !pok(d, "pcre2_match")) return PCRE2_ERROR_NULL;
	int f = take_fault("pcre2_match"); if (f > 0) return PCRE2_ERROR_MATCHLIMIT;
	return pcre2_match(p, s, n, o, opt, d, c);
}
}
