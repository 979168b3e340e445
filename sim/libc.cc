// the libc surface muon sees; every function here is named sim_<libc name>
#include "os.h"
#include <algorithm>
#include <csetjmp>
#include <csignal>
#include <cstdlib>
#include <dirent.h>
#include <fcntl.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/utsname.h>
#include <sys/wait.h>
#include <unistd.h>
#include <poll.h>
#include <spawn.h>
#include <ctime>

using namespace sim;

namespace sim {
// per-process stdio state; muon only ever sees the handle address
struct SimFile {
	int fd = -1;
	bool rd = false, wr = false, eof = false, err = false, app = false;
	int bufmode = _IOFBF;
	string wbuf, rbuf;
	size_t rpos = 0;
	string *mem = nullptr;
};
struct SimDir {
	vector<string> names;
	vector<int> types;
	size_t pos = 0;
	int fd = -1;
	struct dirent ent;
};
} // namespace sim

static char file_handles[1024 * 16] __attribute__((aligned(16)));
static char dir_handles[256 * 16] __attribute__((aligned(16)));
typedef SimFile *SF;
static SF handle(int i) { return (SF)(void *)&file_handles[i * 16]; }

extern "C" {
#define MUDATA __attribute__((section("mudata")))
SF sim_stdin, sim_stdout, sim_stderr;
char **sim_environ, **sim___environ;
char *sim_optarg MUDATA = nullptr;
int sim_optind MUDATA = 1, sim_opterr MUDATA = 1, sim_optopt MUDATA = '?';
static int getopt_pos MUDATA = 1;
}
static int seterr(int r)
{
	if (r < 0) {
		errno = -r;
		return -1;
	}
	return r;
}
static i64 seterr64(i64 r)
{
	if (r < 0) {
		errno = (int)-r;
		return -1;
	}
	return r;
}

// ---------------------------------------------------------------- heap
static char *const ARENA_BASE = (char *)0x200000000000ull;
static const size_t ARENA_SZ = 1ull << 30;
static const int NARENA = 128;
static bool arena_used[NARENA], arena_mapped[NARENA];
struct Blk {
	u64 size; // user size
	u32 magic;
	u32 cls; // rounded payload in 16 byte units
};
static const u32 M_LIVE = 0x51a11ce5, M_FREE = 0xdeadf4ee;
struct Arena {
	size_t brk = 0;
	std::map<u32, vector<u32>> freel; // class -> offsets/16
	std::deque<u32> quarantine;
	u64 live = 0;
};
static Arena arenas[NARENA];
static char *abase(int a) { return ARENA_BASE + (size_t)a * ARENA_SZ; }
namespace sim {
static int arena_get()
{
	int a = 0;
	while (a < NARENA && arena_used[a]) a++;
	if (a == NARENA) {
		fprintf(stderr, "simos: out of arenas\n");
		_exit(3);
	}
	arena_used[a] = true;
	if (!arena_mapped[a]) {
		void *p = mmap(abase(a), ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
		if (p != abase(a)) {
			perror("simos: arena mmap");
			_exit(3);
		}
		arena_mapped[a] = true;
	}
	arenas[a].brk = 0;
	arenas[a].freel.clear();
	arenas[a].quarantine.clear();
	arenas[a].live = 0;
	if (os.heap_seed) {
		// free blocks of the small sizes in random order: addresses say nothing about age
		Rng r(os.heap_seed);
		vector<u32> cls;
		for (u32 c = 1; c <= 24; c++)
			for (int k = 0; k < 40; k++) cls.push_back(c);
		for (size_t i = cls.size(); i > 1; i--) std::swap(cls[i - 1], cls[r.below(i)]);
		for (u32 c : cls) {
			Blk *b = (Blk *)(abase(a) + arenas[a].brk);
			b->size = 0;
			b->magic = M_FREE;
			b->cls = c;
			arenas[a].freel[c].push_back((u32)(arenas[a].brk / 16));
			arenas[a].brk += sizeof(Blk) + (size_t)c * 16;
		}
		for (auto &kv : arenas[a].freel)
			for (size_t i = kv.second.size(); i > 1; i--) std::swap(kv.second[i - 1], kv.second[r.below(i)]);
	}
	return a;
}
void heap_release(Proc &p)
{
	if (p.arena >= 0) {
		if (arenas[p.arena].brk > (64u << 20)) madvise(abase(p.arena), ARENA_SZ, MADV_DONTNEED);
		arena_used[p.arena] = false;
		p.arena = -1;
	}
}
static bool blk_ok(Blk *b)
{
	const unsigned char *u = (const unsigned char *)(b + 1);
	for (u64 i = b->size; i < (u64)b->cls * 16; i++)
		if (u[i] != 0xC7) return false;
	return true;
}
void heap_check(Proc &p)
{
	if (p.arena < 0) return;
	Arena &a = arenas[p.arena];
	size_t off = 0;
	while (off < a.brk) {
		Blk *b = (Blk *)(abase(p.arena) + off);
		if (b->magic != M_LIVE && b->magic != M_FREE) {
			k_crash("heap corruption: block header overwritten (pid %d)", p.pid);
			return;
		}
		if (b->magic == M_LIVE && !blk_ok(b)) {
			k_crash("heap overflow: write past the end of a %llu-byte block (pid %d)", (unsigned long long)b->size, p.pid);
			return;
		}
		if (b->magic == M_FREE) {
			const unsigned char *u = (const unsigned char *)(b + 1);
			u64 n = b->size < 4096 ? b->size : 4096;
			if (n && (u[0] != 0xDD || memcmp(u, u + 1, n - 1)))
				{
					k_crash("use after free: write to a freed %llu-byte block (pid %d)", (unsigned long long)b->size, p.pid);
					return;
				}
		}
		off += sizeof(Blk) + (size_t)b->cls * 16;
	}
}
} // namespace sim
static void *heap_alloc(size_t n, bool zero)
{
	Proc &p = *os.cur;
	if (p.arena < 0) p.arena = arena_get();
	Arena &a = arenas[p.arena];
	u32 cls = (u32)((n + 1 + 15) / 16);
	// round big classes up so that they can be reused
	if (cls > 64) {
		u32 g = 16;
		while (g * 8 < cls) g *= 2;
		cls = (cls + g - 1) / g * g;
	}
	Blk *b;
	auto &fl = a.freel[cls];
	if (!fl.empty()) {
		b = (Blk *)(abase(p.arena) + (size_t)fl.back() * 16);
		fl.pop_back();
	} else {
		size_t tot = sizeof(Blk) + (size_t)cls * 16;
		if (n > ARENA_SZ || a.brk + tot > ARENA_SZ - 4096) {
			errno = ENOMEM;
			return nullptr;
		}
		b = (Blk *)(abase(p.arena) + a.brk);
		a.brk += tot;
	}
	b->size = n;
	b->magic = M_LIVE;
	b->cls = cls;
	char *u = (char *)(b + 1);
	memset(u, zero ? 0 : os.heap_fill, n);
	memset(u + n, 0xC7, (size_t)cls * 16 - n);
	return u;
}
static Blk *blk_of(void *ptr, const char *what)
{
	Proc &p = *os.cur;
	char *c = (char *)ptr;
	if (p.arena < 0 || c < abase(p.arena) + sizeof(Blk) || c >= abase(p.arena) + arenas[p.arena].brk) {
		k_crash("%s of a pointer that malloc never returned (pid %d)", what, p.pid);
		return nullptr;
	}
	Blk *b = (Blk *)c - 1;
	if (b->magic == M_FREE) {
		k_crash("%s of a freed block (pid %d)", what, p.pid);
		return nullptr;
	}
	if (b->magic != M_LIVE) {
		k_crash("%s of an invalid pointer or corrupted block (pid %d)", what, p.pid);
		return nullptr;
	}
	if (!blk_ok(b)) k_crash("heap overflow: write past the end of a %llu-byte block (pid %d)", (unsigned long long)b->size, p.pid);
	return b;
}
extern "C" {
void *sim_malloc(size_t n)
{
	if (k_enter(SY_MALLOC, false)) {
		errno = ENOMEM;
		return nullptr;
	}
	return heap_alloc(n, false);
}
void *sim_calloc(size_t a, size_t b)
{
	if (k_enter(SY_MALLOC, false) || (b && a > (size_t)-1 / b)) {
		errno = ENOMEM;
		return nullptr;
	}
	return heap_alloc(a * b, true);
}
void sim_free(void *p)
{
	if (!p) return;
	Blk *b = blk_of(p, "free");
	if (!b) return;
	b->magic = M_FREE;
	memset(p, 0xDD, b->size);
	Arena &a = arenas[os.cur->arena];
	a.quarantine.push_back((u32)(((char *)b - abase(os.cur->arena)) / 16));
	if (a.quarantine.size() > 256) {
		u32 o = a.quarantine.front();
		a.quarantine.pop_front();
		Blk *q = (Blk *)(abase(os.cur->arena) + (size_t)o * 16);
		a.freel[q->cls].push_back(o);
	}
}
void *sim_realloc(void *p, size_t n)
{
	if (!p) return sim_malloc(n);
	Blk *b = blk_of(p, "realloc");
	if (!b) return nullptr;
	if (k_enter(SY_MALLOC, false)) {
		errno = ENOMEM;
		return nullptr;
	}
	void *q = heap_alloc(n, false);
	if (!q) return nullptr;
	memcpy(q, p, std::min((size_t)b->size, n));
	sim_free(p);
	return q;
}
void *sim_reallocarray(void *p, size_t a, size_t b) { return sim_realloc(p, a * b); }
char *sim_strdup(const char *s)
{
	size_t n = strlen(s) + 1;
	char *r = (char *)sim_malloc(n);
	if (r) memcpy(r, s, n);
	return r;
}
char *sim_strndup(const char *s, size_t n)
{
	n = strnlen(s, n);
	char *r = (char *)sim_malloc(n + 1);
	if (r) {
		memcpy(r, s, n);
		r[n] = 0;
	}
	return r;
}
int sim_vasprintf(char **out, const char *fmt, va_list ap)
{
	va_list a2;
	va_copy(a2, ap);
	int n = vsnprintf(nullptr, 0, fmt, a2);
	va_end(a2);
	*out = (char *)sim_malloc((size_t)n + 1);
	if (!*out) return -1;
	return vsnprintf(*out, (size_t)n + 1, fmt, ap);
}
int sim_asprintf(char **out, const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	int r = sim_vasprintf(out, fmt, ap);
	va_end(ap);
	return r;
}

// ---------------------------------------------------------------- stdio
static std::shared_ptr<SimFile> sf(SF h)
{
	auto it = os.cur->files.find(h);
	if (it == os.cur->files.end()) {
		if ((char *)h < file_handles || (char *)h >= file_handles + sizeof file_handles)
			k_crash("stdio call on an invalid FILE (pid %d)", os.cur->pid);
		else
			k_crash("stdio call on a closed FILE (pid %d)", os.cur->pid);
		return std::make_shared<SimFile>();
	}
	return it->second;
}
static SF sf_new(std::shared_ptr<SimFile> f)
{
	for (int i = 0; i < 1024; i++)
		if (!os.cur->files.count(handle(i))) {
			os.cur->files[handle(i)] = f;
			return handle(i);
		}
	errno = ENOMEM;
	return nullptr;
}
static int sf_flush(SimFile &f)
{
	// a fault can only be raised inside k_write; copy first: k_write may not return
	if (!f.wr) return 0;
	string data;
	data.swap(f.wbuf);
	size_t done = 0;
	while (done < data.size()) {
		i64 r = k_write(f.fd, data.data() + done, data.size() - done);
		if (r < 0) {
			f.err = true;
			errno = (int)-r; // glibc discards the rest of the buffer
			return -1;
		}
		done += (size_t)r;
	}
	return 0;
}
static int sf_write(SimFile &f, const char *p, size_t n)
{
	if (!f.wr) {
		f.err = true;
		errno = EBADF;
		return -1;
	}
	f.rbuf.clear();
	f.rpos = 0;
	if (f.bufmode == _IONBF) {
		f.wbuf.append(p, n);
		return sf_flush(f);
	}
	bool nl = f.bufmode == _IOLBF && memchr(p, '\n', n);
	while (n) {
		size_t room = os.stdio_buf > f.wbuf.size() ? os.stdio_buf - f.wbuf.size() : 0;
		if (f.wbuf.empty() && n >= os.stdio_buf) {
			// whole blocks go straight through
			size_t k = n / os.stdio_buf * os.stdio_buf;
			f.wbuf.assign(p, k);
			if (sf_flush(f)) return -1;
			p += k;
			n -= k;
			continue;
		}
		size_t k = std::min(room, n);
		f.wbuf.append(p, k);
		p += k;
		n -= k;
		if (f.wbuf.size() >= os.stdio_buf && n)
			if (sf_flush(f)) return -1;
	}
	if (nl) return sf_flush(f);
	return 0;
}
static int sf_fill(SimFile &f)
{
	if (!f.rd) {
		f.err = true;
		errno = EBADF;
		return -1;
	}
	if (f.rpos < f.rbuf.size()) return 0;
	f.rbuf.clear();
	f.rpos = 0;
	string tmp(os.stdio_buf, 0);
	i64 r = k_read(f.fd, &tmp[0], tmp.size());
	if (r < 0) {
		f.err = true;
		errno = (int)-r;
		return -1;
	}
	if (r == 0) {
		f.eof = true;
		return -1;
	}
	tmp.resize((size_t)r);
	f.rbuf = tmp;
	return 0;
}
static SF fopen_fd(int fd, const char *mode)
{
	auto f = std::make_shared<SimFile>();
	f->fd = fd;
	f->rd = mode[0] == 'r' || strchr(mode, '+');
	f->wr = mode[0] != 'r' || strchr(mode, '+');
	f->app = mode[0] == 'a';
	return sf_new(f);
}
SF sim_fopen(const char *path, const char *mode)
{
	int fl = 0;
	bool plus = strchr(mode, '+');
	if (mode[0] == 'r')
		fl = plus ? O_RDWR : O_RDONLY;
	else if (mode[0] == 'w')
		fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
	else if (mode[0] == 'a')
		fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
	else {
		errno = EINVAL;
		return nullptr;
	}
	if (strchr(mode, 'x')) fl |= O_EXCL;
	if (strchr(mode, 'e')) fl |= O_CLOEXEC;
	int fd = k_open(path, fl, 0666);
	if (fd < 0) {
		errno = -fd;
		return nullptr;
	}
	return fopen_fd(fd, mode);
}
SF sim_fdopen(int fd, const char *mode)
{
	if (!fd_get(fd)) {
		errno = EBADF;
		return nullptr;
	}
	return fopen_fd(fd, mode);
}
SF sim_tmpfile(void)
{
	static int n;
	string p = strf("/tmp/tmpf%d.%d", os.cur->pid, n++ % 1000);
	int fd = k_open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
	if (fd < 0) {
		errno = -fd;
		return nullptr;
	}
	k_unlink(p.c_str(), false, true);
	return fopen_fd(fd, "w+");
}
int sim_fclose(SF h)
{
	auto f = sf(h);
	os.cur->files.erase(h);
	int r = sf_flush(*f);
	int e = errno;
	int c = k_close(f->fd);
	if (c < 0) {
		errno = -c;
		return EOF;
	}
	errno = e;
	return r ? EOF : 0;
}
int sim_fflush(SF h)
{
	if (!h) {
		int r = 0;
		auto files = os.cur->files;
		for (auto &kv : files)
			if (sf_flush(*kv.second)) r = EOF;
		return r;
	}
	auto f = sf(h);
	return sf_flush(*f) ? EOF : 0;
}
int sim_fflush_unlocked(SF h) { return sim_fflush(h); }
size_t sim_fwrite(const void *p, size_t sz, size_t n, SF h)
{
	if (!sz || !n) return 0;
	auto f = sf(h);
	size_t total = sz * n;
	if (sf_write(*f, (const char *)p, total)) return 0;
	return n;
}
size_t sim_fwrite_unlocked(const void *p, size_t sz, size_t n, SF h) { return sim_fwrite(p, sz, n, h); }
size_t sim_fread(void *p, size_t sz, size_t n, SF h)
{
	if (!sz || !n) return 0;
	auto f = sf(h);
	if (f->wr && !f->wbuf.empty()) sf_flush(*f);
	size_t want = sz * n, got = 0;
	while (got < want) {
		if (f->rpos >= f->rbuf.size()) {
			if (sf_fill(*f)) break;
		}
		size_t k = std::min(want - got, f->rbuf.size() - f->rpos);
		memcpy((char *)p + got, f->rbuf.data() + f->rpos, k);
		f->rpos += k;
		got += k;
	}
	return got / sz;
}
size_t sim_fread_unlocked(void *p, size_t sz, size_t n, SF h) { return sim_fread(p, sz, n, h); }
int sim_fgetc(SF h)
{
	unsigned char c;
	return sim_fread(&c, 1, 1, h) == 1 ? c : EOF;
}
int sim_getc(SF h) { return sim_fgetc(h); }
int sim_getc_unlocked(SF h) { return sim_fgetc(h); }
int sim_getchar(void) { return sim_fgetc(sim_stdin); }
int sim_ungetc(int c, SF h)
{
	if (c == EOF) return EOF;
	auto f = sf(h);
	f->rbuf.insert(f->rpos, 1, (char)c);
	f->eof = false;
	return c;
}
char *sim_fgets(char *s, int n, SF h)
{
	int i = 0;
	while (i < n - 1) {
		int c = sim_fgetc(h);
		if (c == EOF) break;
		s[i++] = (char)c;
		if (c == '\n') break;
	}
	if (i == 0) return nullptr;
	s[i] = 0;
	return s;
}
ssize_t sim_getdelim(char **l, size_t *cap, int d, SF h)
{
	string r;
	for (;;) {
		int c = sim_fgetc(h);
		if (c == EOF) break;
		r += (char)c;
		if (c == d) break;
	}
	if (r.empty()) return -1;
	if (!*l || *cap < r.size() + 1) {
		*l = (char *)sim_realloc(*l, r.size() + 1);
		*cap = r.size() + 1;
	}
	memcpy(*l, r.c_str(), r.size() + 1);
	return (ssize_t)r.size();
}
ssize_t sim_getline(char **l, size_t *cap, SF h) { return sim_getdelim(l, cap, '\n', h); }
int sim_fputs(const char *s, SF h) { return sf_write(*sf(h), s, strlen(s)) ? EOF : 1; }
int sim_fputs_unlocked(const char *s, SF h) { return sim_fputs(s, h); }
int sim_fputc(int c, SF h)
{
	char ch = (char)c;
	return sf_write(*sf(h), &ch, 1) ? EOF : (unsigned char)c;
}
int sim_putc(int c, SF h) { return sim_fputc(c, h); }
int sim_putc_unlocked(int c, SF h) { return sim_fputc(c, h); }
int sim_fputc_unlocked(int c, SF h) { return sim_fputc(c, h); }
int sim_putchar(int c) { return sim_fputc(c, sim_stdout); }
int sim_puts(const char *s)
{
	string t = string(s) + "\n";
	return sf_write(*sf(sim_stdout), t.data(), t.size()) ? EOF : 1;
}
int sim_vfprintf(SF h, const char *fmt, va_list ap)
{
	char buf[2048];
	va_list a2;
	va_copy(a2, ap);
	int n = vsnprintf(buf, sizeof buf, fmt, a2);
	va_end(a2);
	if (n < 0) return n;
	if (n < (int)sizeof buf) return sf_write(*sf(h), buf, (size_t)n) ? -1 : n;
	string s((size_t)n + 1, 0);
	vsnprintf(&s[0], s.size(), fmt, ap);
	return sf_write(*sf(h), s.data(), (size_t)n) ? -1 : n;
}
int sim_fprintf(SF h, const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	int r = sim_vfprintf(h, fmt, ap);
	va_end(ap);
	return r;
}
int sim_vprintf(const char *fmt, va_list ap) { return sim_vfprintf(sim_stdout, fmt, ap); }
int sim_printf(const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	int r = sim_vfprintf(sim_stdout, fmt, ap);
	va_end(ap);
	return r;
}
int sim_dprintf(int fd, const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	char *s = nullptr;
	int n = vasprintf(&s, fmt, ap);
	va_end(ap);
	string t(s, (size_t)n);
	free(s);
	return (int)seterr64(k_write(fd, t.data(), t.size()));
}
int sim___fprintf_chk(SF h, int, const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	int r = sim_vfprintf(h, fmt, ap);
	va_end(ap);
	return r;
}
void sim_perror(const char *s)
{
	int e = errno;
	sim_fprintf(sim_stderr, "%s: %s\n", s, strerror(e));
}
int sim_feof(SF h) { return sf(h)->eof; }
int sim_ferror(SF h) { return sf(h)->err; }
int sim_feof_unlocked(SF h) { return sf(h)->eof; }
int sim_ferror_unlocked(SF h) { return sf(h)->err; }
void sim_clearerr(SF h)
{
	auto f = sf(h);
	f->err = f->eof = false;
}
int sim_fileno(SF h) { return sf(h)->fd; }
int sim_fseek(SF h, long off, int whence)
{
	auto f = sf(h);
	if (sf_flush(*f)) return -1;
	if (whence == SEEK_CUR && f->rpos < f->rbuf.size()) off -= (long)(f->rbuf.size() - f->rpos);
	f->rbuf.clear();
	f->rpos = 0;
	i64 r = k_lseek(f->fd, off, whence);
	if (r < 0) {
		errno = (int)-r;
		return -1;
	}
	f->eof = false;
	return 0;
}
int sim_fseeko(SF h, off_t off, int whence) { return sim_fseek(h, off, whence); }
long sim_ftell(SF h)
{
	auto f = sf(h);
	i64 r = k_lseek(f->fd, 0, SEEK_CUR);
	if (r < 0) {
		errno = (int)-r;
		return -1;
	}
	return (long)(r - (i64)(f->rbuf.size() - f->rpos) + (i64)f->wbuf.size());
}
off_t sim_ftello(SF h) { return sim_ftell(h); }
void sim_rewind(SF h)
{
	sim_fseek(h, 0, SEEK_SET);
	sf(h)->err = false;
}
int sim_setvbuf(SF h, char *, int mode, size_t)
{
	sf(h)->bufmode = mode;
	return 0;
}
void sim_setbuf(SF h, char *b) { sim_setvbuf(h, b, b ? _IOFBF : _IONBF, 0); }
void sim_setlinebuf(SF h) { sim_setvbuf(h, nullptr, _IOLBF, 0); }
void sim_flockfile(SF) {}
void sim_funlockfile(SF) {}

// ---------------------------------------------------------------- files
static string at_path(int dirfd, const char *path)
{
	if (path[0] == '/' || dirfd == AT_FDCWD) return path;
	OfdP o = fd_get(dirfd);
	if (!o || !o->ino) return path;
	return inode_path(o->ino) + "/" + path;
}
int sim_open(const char *path, int fl, ...)
{
	va_list ap;
	va_start(ap, fl);
	u32 mode = (fl & O_CREAT) ? va_arg(ap, u32) : 0;
	va_end(ap);
	return seterr(k_open(path, fl, mode));
}
int sim_openat(int d, const char *path, int fl, ...)
{
	va_list ap;
	va_start(ap, fl);
	u32 mode = (fl & O_CREAT) ? va_arg(ap, u32) : 0;
	va_end(ap);
	return seterr(k_open(at_path(d, path).c_str(), fl, mode));
}
int sim_creat(const char *path, mode_t m) { return seterr(k_open(path, O_WRONLY | O_CREAT | O_TRUNC, m)); }
int sim_close(int fd) { return seterr(k_close(fd)); }
ssize_t sim_read(int fd, void *b, size_t n) { return seterr64(k_read(fd, b, n)); }
ssize_t sim_write(int fd, const void *b, size_t n) { return seterr64(k_write(fd, b, n)); }
struct iovec_ { void *b; size_t n; };
ssize_t sim_writev(int fd, const iovec_ *v, int n)
{
	string s;
	for (int i = 0; i < n; i++) s.append((char *)v[i].b, v[i].n);
	return seterr64(k_write(fd, s.data(), s.size()));
}
ssize_t sim_pread(int fd, void *b, size_t n, off_t off)
{
	OfdP o = fd_get(fd);
	if (!o) {
		errno = EBADF;
		return -1;
	}
	u64 s = o->off;
	o->off = (u64)off;
	i64 r = k_read(fd, b, n);
	o->off = s;
	return seterr64(r);
}
ssize_t sim_pwrite(int fd, const void *b, size_t n, off_t off)
{
	OfdP o = fd_get(fd);
	if (!o) {
		errno = EBADF;
		return -1;
	}
	u64 s = o->off;
	o->off = (u64)off;
	i64 r = k_write(fd, b, n);
	o->off = s;
	return seterr64(r);
}
off_t sim_lseek(int fd, off_t o, int w) { return seterr64(k_lseek(fd, o, w)); }
int sim_pipe(int *f) { return seterr(k_pipe(f)); }
int sim_pipe2(int *f, int fl)
{
	int r = k_pipe(f);
	if (r < 0) return seterr(r);
	for (int i = 0; i < 2; i++) {
		if (fl & O_CLOEXEC) os.cur->fds[f[i]].cloexec = true;
		if (fl & O_NONBLOCK) os.cur->fds[f[i]].o->flags |= O_NONBLOCK;
	}
	return 0;
}
int sim_dup2(int a, int b) { return seterr(k_dup2(a, b)); }
int sim_dup3(int a, int b, int) { return seterr(k_dup2(a, b)); }
int sim_dup(int a) { return seterr(k_dup(a, 0, false)); }
int sim_fcntl(int fd, int cmd, ...)
{
	va_list ap;
	va_start(ap, cmd);
	long arg = va_arg(ap, long);
	va_end(ap);
	if (!fd_get(fd)) {
		errno = EBADF;
		return -1;
	}
	switch (cmd) {
	case F_GETFL: return fd_flags_get(fd);
	case F_SETFL: return seterr(fd_flags_set(fd, (int)arg));
	case F_GETFD: return os.cur->fds[fd].cloexec ? FD_CLOEXEC : 0;
	case F_SETFD: os.cur->fds[fd].cloexec = arg & FD_CLOEXEC; return 0;
	case F_DUPFD: return seterr(k_dup(fd, (int)arg, false));
	case F_DUPFD_CLOEXEC: return seterr(k_dup(fd, (int)arg, true));
	default: return 0;
	}
}
int sim_stat(const char *p, struct stat *st) { return seterr(k_stat(p, st, true)); }
int sim_lstat(const char *p, struct stat *st) { return seterr(k_stat(p, st, false)); }
int sim_fstat(int fd, struct stat *st) { return seterr(k_fstat(fd, st)); }
int sim_fstatat(int d, const char *p, struct stat *st, int fl)
{
	if (!*p && (fl & AT_EMPTY_PATH)) return seterr(k_fstat(d, st));
	return seterr(k_stat(at_path(d, p).c_str(), st, !(fl & AT_SYMLINK_NOFOLLOW)));
}
int sim_access(const char *p, int m) { return seterr(k_access(p, m)); }
int sim_faccessat(int d, const char *p, int m, int) { return seterr(k_access(at_path(d, p).c_str(), m)); }
int sim_mkdir(const char *p, mode_t m) { return seterr(k_mkdir(p, m)); }
int sim_mkdirat(int d, const char *p, mode_t m) { return seterr(k_mkdir(at_path(d, p).c_str(), m)); }
int sim_unlink(const char *p) { return seterr(k_unlink(p, false, true)); }
int sim_rmdir(const char *p) { return seterr(k_unlink(p, true, false)); }
int sim_remove(const char *p) { return seterr(k_unlink(p, true, true)); }
int sim_unlinkat(int d, const char *p, int fl) { return seterr(k_unlink(at_path(d, p).c_str(), fl & AT_REMOVEDIR, !(fl & AT_REMOVEDIR))); }
int sim_rename(const char *a, const char *b) { return seterr(k_rename(a, b)); }
int sim_renameat(int d, const char *a, int e, const char *b) { return seterr(k_rename(at_path(d, a).c_str(), at_path(e, b).c_str())); }
int sim_chmod(const char *p, mode_t m) { return seterr(k_chmod(p, m, true)); }
int sim_fchmod(int fd, mode_t m) { return seterr(k_fchmod(fd, m)); }
int sim_fchmodat(int d, const char *p, mode_t m, int fl) { return seterr(k_chmod(at_path(d, p).c_str(), m, !(fl & AT_SYMLINK_NOFOLLOW))); }
int sim_chown(const char *, uid_t, gid_t) { return 0; }
int sim_lchown(const char *, uid_t, gid_t) { return 0; }
int sim_fchown(int, uid_t, gid_t) { return 0; }
int sim_fchownat(int, const char *, uid_t, gid_t, int) { return 0; }
int sim_symlink(const char *t, const char *p) { return seterr(k_symlink(t, p)); }
int sim_symlinkat(const char *t, int d, const char *p) { return seterr(k_symlink(t, at_path(d, p).c_str())); }
int sim_link(const char *a, const char *b) { return seterr(k_link(a, b)); }
ssize_t sim_readlink(const char *p, char *b, size_t n) { return seterr64(k_readlink(p, b, n)); }
ssize_t sim_readlinkat(int d, const char *p, char *b, size_t n) { return seterr64(k_readlink(at_path(d, p).c_str(), b, n)); }
int sim_truncate(const char *p, off_t n) { return seterr(k_truncate(p, n)); }
int sim_ftruncate(int fd, off_t n) { return seterr(k_ftruncate(fd, n)); }
int sim_fallocate(int, int, off_t, off_t) { return 0; }
int sim_posix_fallocate(int, off_t, off_t) { return 0; }
int sim_fsync(int fd) { return fd_get(fd) ? seterr(-k_enter(SY_SYNC, false)) : (errno = EBADF, -1); }
int sim_fdatasync(int fd) { return sim_fsync(fd); }
void sim_sync(void) {}
int sim_utimensat(int d, const char *p, const struct timespec *ts, int)
{
	return seterr(k_utimens(at_path(d, p).c_str(), !ts || ts[1].tv_nsec == UTIME_NOW ? -1 : (i64)ts[1].tv_sec * 1000000000 + ts[1].tv_nsec));
}
int sim_futimens(int fd, const struct timespec *ts)
{
	OfdP o = fd_get(fd);
	if (!o || !o->ino) {
		errno = EBADF;
		return -1;
	}
	k_enter(SY_CHMOD, true);
	o->ino->mtime = !ts || ts[1].tv_nsec == UTIME_NOW ? os.now : (i64)ts[1].tv_sec * 1000000000 + ts[1].tv_nsec;
	return 0;
}
int sim_utimes(const char *p, const struct timeval *tv) { return seterr(k_utimens(p, tv ? (i64)tv[1].tv_sec * 1000000000 + tv[1].tv_usec * 1000 : -1)); }
int sim_chdir(const char *p) { return seterr(k_chdir(p)); }
int sim_fchdir(int fd)
{
	OfdP o = fd_get(fd);
	if (!o || o->kind != O_DIR_K) {
		errno = EBADF;
		return -1;
	}
	os.cur->cwd = o->ino;
	return 0;
}
char *sim_getcwd(char *b, size_t n)
{
	string s = k_getcwd();
	if (!b) return sim_strdup(s.c_str());
	if (s.size() + 1 > n) {
		errno = ERANGE;
		return nullptr;
	}
	memcpy(b, s.c_str(), s.size() + 1);
	return b;
}
char *sim_realpath(const char *p, char *out)
{
	int e = k_enter(SY_STAT, false, p);
	int err = 0;
	InodeP i, par;
	string last;
	if (!e) i = resolve(p, true, err, &par, &last);
	if (!i) {
		errno = e ? e : err;
		return nullptr;
	}
	string s;
	if (i->type == N_DIR)
		s = inode_path(i);
	else {
		s = inode_path(par);
		s = (s == "/" ? "" : s) + "/" + last;
	}
	if (!out) return sim_strdup(s.c_str());
	strcpy(out, s.c_str());
	return out;
}
mode_t sim_umask(mode_t m)
{
	mode_t o = os.cur->umask;
	os.cur->umask = m & 0777;
	return o;
}
int sim_mkstemp(char *t)
{
	size_t n = strlen(t);
	if (n < 6) {
		errno = EINVAL;
		return -1;
	}
	static const char cs[] = "abcdefghijklmnopqrstuvwxyz0123456789";
	for (int tries = 0; tries < 100; tries++) {
		u64 r = mix64((u64)os.cur->pid * 1000003 + os.cur->nsys * 31 + (u64)tries);
		for (int i = 0; i < 6; i++) {
			t[n - 6 + (size_t)i] = cs[r % 36];
			r /= 36;
		}
		int fd = k_open(t, O_RDWR | O_CREAT | O_EXCL, 0600);
		if (fd != -EEXIST) return seterr(fd);
	}
	errno = EEXIST;
	return -1;
}
int sim_mkostemp(char *t, int) { return sim_mkstemp(t); }
char *sim_mkdtemp(char *t)
{
	size_t n = strlen(t);
	u64 r = mix64((u64)os.cur->pid * 1000003 + os.cur->nsys * 31);
	for (int i = 0; i < 6; i++) {
		t[n - 6 + (size_t)i] = (char)('a' + r % 26);
		r /= 26;
	}
	return sim_mkdir(t, 0700) ? nullptr : t;
}
int sim_ioctl(int, unsigned long, ...)
{
	errno = ENOTTY;
	return -1;
}
int sim_isatty(int)
{
	errno = ENOTTY;
	return 0;
}

// directories
typedef void *SD;
SD sim_opendir(const char *path)
{
	int e = k_enter(SY_OPENDIR, false, path);
	if (e) {
		errno = e;
		return nullptr;
	}
	auto d = std::make_shared<SimDir>();
	int fd = k_open(path, O_RDONLY | O_DIRECTORY | O_CLOEXEC, 0);
	if (fd < 0) {
		errno = -fd;
		return nullptr;
	}
	d->fd = fd;
	if (!listdir(path, d->names, d->types)) {
		k_close(fd);
		return nullptr;
	}
	d->names.insert(d->names.begin(), { ".", ".." });
	d->types.insert(d->types.begin(), { N_DIR, N_DIR });
	for (int i = 0; i < 256; i++) {
		SD h = &dir_handles[i * 16];
		if (!os.cur->dirs.count(h)) {
			os.cur->dirs[h] = d;
			return h;
		}
	}
	errno = EMFILE;
	return nullptr;
}
static std::shared_ptr<SimDir> sdir(SD h)
{
	auto it = os.cur->dirs.find(h);
	if (it == os.cur->dirs.end()) {
		k_crash("directory call on a closed DIR (pid %d)", os.cur->pid);
		return std::make_shared<SimDir>();
	}
	return it->second;
}
struct dirent *sim_readdir(SD h)
{
	auto d = sdir(h);
	int e = k_enter(SY_READDIR, false);
	if (e) {
		errno = e;
		return nullptr;
	}
	if (d->pos >= d->names.size()) return nullptr;
	memset(&d->ent, 0, sizeof d->ent);
	snprintf(d->ent.d_name, sizeof d->ent.d_name, "%s", d->names[d->pos].c_str());
	int t = d->types[d->pos];
	d->ent.d_type = t == N_DIR ? DT_DIR : t == N_LNK ? DT_LNK : t == N_FILE ? DT_REG : DT_CHR;
	d->ent.d_ino = 1000 + d->pos;
	d->pos++;
	return &d->ent;
}
int sim_closedir(SD h)
{
	auto d = sdir(h);
	os.cur->dirs.erase(h);
	return seterr(k_close(d->fd));
}
void sim_rewinddir(SD h) { sdir(h)->pos = 0; }
int sim_dirfd(SD h) { return sdir(h)->fd; }
int sim_alphasort(const struct dirent **a, const struct dirent **b) { return strcmp((*a)->d_name, (*b)->d_name); }
int sim_scandir(const char *path, struct dirent ***out, int (*flt)(const struct dirent *), int (*cmp)(const struct dirent **, const struct dirent **))
{
	SD d = sim_opendir(path);
	if (!d) return -1;
	vector<struct dirent *> v;
	while (struct dirent *e = sim_readdir(d)) {
		if (flt && !flt(e)) continue;
		struct dirent *c = (struct dirent *)sim_malloc(sizeof *c);
		*c = *e;
		v.push_back(c);
	}
	sim_closedir(d);
	*out = (struct dirent **)sim_malloc(sizeof(void *) * (v.size() + 1));
	memcpy(*out, v.data(), v.size() * sizeof(void *));
	if (cmp) qsort(*out, v.size(), sizeof(void *), (int (*)(const void *, const void *))cmp);
	return (int)v.size();
}

// ---------------------------------------------------------------- environment
static void rebuild_environ(Proc &p)
{
	// strings live in the process table; the vector is rebuilt on every change
	static std::map<Proc *, int> dummy;
	(void)dummy;
	for (char *s : p.environ_mem) free(s);
	p.environ_mem.clear();
	for (auto &kv : p.env) p.environ_mem.push_back(strdup((kv.first + "=" + kv.second).c_str()));
	p.environ_mem.push_back(nullptr);
	sim_environ = p.environ_mem.data();
	sim___environ = sim_environ;
}
char *sim_getenv(const char *k)
{
	auto it = os.cur->env.find(k);
	return it == os.cur->env.end() ? nullptr : (char *)it->second.c_str();
}
char *sim_secure_getenv(const char *k) { return sim_getenv(k); }
int sim_setenv(const char *k, const char *v, int over)
{
	if (!k || !*k || strchr(k, '=')) {
		errno = EINVAL;
		return -1;
	}
	if (os.cur->env.count(k) && !over) return 0;
	os.cur->env[k] = v;
	rebuild_environ(*os.cur);
	return 0;
}
int sim_unsetenv(const char *k)
{
	os.cur->env.erase(k);
	rebuild_environ(*os.cur);
	return 0;
}
int sim_putenv(char *s)
{
	char *e = strchr(s, '=');
	if (!e) return sim_unsetenv(s);
	return sim_setenv(string(s, (size_t)(e - s)).c_str(), e + 1, 1);
}
int sim_clearenv(void)
{
	os.cur->env.clear();
	rebuild_environ(*os.cur);
	return 0;
}

// ---------------------------------------------------------------- processes
int sim_fork(void)
{
	int r = k_fork();
	if (r == 0) rebuild_environ(*os.cur);
	return seterr(r);
}
int sim_vfork(void) { return sim_fork(); }
static int exec_common(const char *path, char *const *argv, char *const *envp)
{
	vector<string> av;
	for (int i = 0; argv && argv[i]; i++) av.push_back(argv[i]);
	std::map<string, string> env;
	for (int i = 0; envp && envp[i]; i++) {
		const char *e = strchr(envp[i], '=');
		if (e) env[string(envp[i], (size_t)(e - envp[i]))] = e + 1;
	}
	if (av.empty()) av.push_back(path);
	int r = k_execve(path, av, env);
	errno = -r;
	return -1;
}
int sim_execve(const char *path, char *const *argv, char *const *envp) { return exec_common(path, argv, envp); }
int sim_execv(const char *path, char *const *argv)
{
	rebuild_environ(*os.cur);
	return exec_common(path, argv, sim_environ);
}
int sim_execvp(const char *file, char *const *argv)
{
	rebuild_environ(*os.cur);
	if (strchr(file, '/')) return exec_common(file, argv, sim_environ);
	int last = ENOENT;
	for (auto &d : split(os.cur->env["PATH"], ':')) {
		exec_common((d + "/" + file).c_str(), argv, sim_environ);
		if (errno == EACCES) last = EACCES;
	}
	errno = last;
	return -1;
}
pid_t sim_waitpid(pid_t p, int *st, int fl) { return seterr(k_waitpid(p, st, fl)); }
pid_t sim_wait(int *st) { return seterr(k_waitpid(-1, st, 0)); }
int sim_kill(pid_t p, int s) { return seterr(k_kill(p, s)); }
int sim_killpg(pid_t p, int s) { return seterr(k_kill(-p, s)); }
int sim_raise(int s) { return seterr(k_kill(os.cur->pid, s)); }
pid_t sim_getpid(void) { return os.cur->pid; }
pid_t sim_getppid(void) { return os.cur->ppid; }
pid_t sim_getpgrp(void) { return 50; }
pid_t sim_getpgid(pid_t) { return 50; }
int sim_setpgid(pid_t, pid_t) { return 0; }
pid_t sim_setsid(void) { return os.cur->pid; }
uid_t sim_getuid(void) { return 1000; }
uid_t sim_geteuid(void) { return 1000; }
gid_t sim_getgid(void) { return 1000; }
gid_t sim_getegid(void) { return 1000; }
int sim_tcsetpgrp(int, pid_t) { return 0; }
int sim_prctl(int, ...) { return 0; }
typedef void (*sigh)(int);
sigh sim_signal(int sig, sigh h)
{
	if (sig == SIGTERM) os.cur->ign_term = h == SIG_IGN;
	return SIG_DFL;
}
int sim_sigaction(int sig, const struct sigaction *a, struct sigaction *o)
{
	if (o) memset(o, 0, sizeof *o);
	if (a && sig == SIGTERM) os.cur->ign_term = a->sa_handler == SIG_IGN;
	return 0;
}
int sim_sigprocmask(int, const sigset_t *, sigset_t *o)
{
	if (o) sigemptyset(o);
	return 0;
}
int sim_atexit(void (*f)(void))
{
	os.cur->atexits.push_back(f);
	return 0;
}
__attribute__((noreturn)) void sim__exit(int c) { k_exit(c); }
__attribute__((noreturn)) void sim__Exit(int c) { k_exit(c); }
__attribute__((noreturn)) void sim_exit(int c)
{
	while (!os.cur->atexits.empty()) {
		auto f = os.cur->atexits.back();
		os.cur->atexits.pop_back();
		f();
	}
	stdio_flush_all(*os.cur);
	k_exit(c);
}
__attribute__((noreturn)) static void die_abort(void)
{
	k_kill(os.cur->pid, SIGABRT);
	k_exit(134);
}
__attribute__((noreturn)) void sim_abort(void)
{
	k_crash("muon pid %d called abort()", os.cur->pid);
	die_abort();
}
__attribute__((noreturn)) void sim___assert_fail(const char *e, const char *file, unsigned line, const char *fn)
{
	k_crash("assertion '%s' failed (%s:%u %s)", e, file, line, fn);
	die_abort();
}
int sim_posix_spawn(pid_t *pid, const char *path, const void *, const void *, char *const *argv, char *const *envp)
{
	int r = k_fork();
	if (r < 0) return -r;
	if (r == 0) {
		exec_common(path, argv, envp ? envp : sim_environ);
		k_exit(127);
	}
	*pid = r;
	return 0;
}
int sim_system(const char *cmd)
{
	int r = k_fork();
	if (r < 0) return seterr(r);
	if (r == 0) {
		const char *av[] = { "sh", "-c", cmd, nullptr };
		rebuild_environ(*os.cur);
		exec_common("/bin/sh", (char *const *)av, sim_environ);
		k_exit(127);
	}
	int st = 0;
	k_waitpid(r, &st, 0);
	return st;
}

// ---------------------------------------------------------------- time
int sim_clock_gettime(clockid_t id, struct timespec *ts)
{
	i64 t = k_clock(id != CLOCK_REALTIME && id != CLOCK_REALTIME_COARSE);
	ts->tv_sec = t / 1000000000;
	ts->tv_nsec = t % 1000000000;
	return 0;
}
int sim_gettimeofday(struct timeval *tv, void *)
{
	i64 t = k_clock(false);
	tv->tv_sec = t / 1000000000;
	tv->tv_usec = t % 1000000000 / 1000;
	return 0;
}
time_t sim_time(time_t *o)
{
	time_t t = k_clock(false) / 1000000000;
	if (o) *o = t;
	return t;
}
clock_t sim_clock(void) { return (clock_t)(k_clock(true) / 1000); }
int sim_nanosleep(const struct timespec *ts, struct timespec *rem)
{
	k_sleep((i64)ts->tv_sec * 1000000000 + ts->tv_nsec);
	if (rem) rem->tv_sec = rem->tv_nsec = 0;
	return 0;
}
int sim_clock_nanosleep(clockid_t id, int fl, const struct timespec *ts, struct timespec *)
{
	i64 t = (i64)ts->tv_sec * 1000000000 + ts->tv_nsec;
	if (fl & TIMER_ABSTIME) t -= k_clock(id != CLOCK_REALTIME);
	k_sleep(t < 0 ? 0 : t);
	return 0;
}
int sim_usleep(useconds_t us)
{
	k_sleep((i64)us * 1000);
	return 0;
}
unsigned sim_sleep(unsigned s)
{
	k_sleep((i64)s * 1000000000);
	return 0;
}
int sim_sched_yield(void)
{
	k_enter(SY_MISC, false);
	os.cur->idle_polls++;
	return 0;
}
static int revents(int fd, int ev)
{
	OfdP o = fd_get(fd);
	if (!o) return POLLNVAL;
	int r = 0;
	if (o->kind == O_PIPE_R) {
		if (!o->pipe->buf.empty()) r |= POLLIN & ev;
		if (o->pipe->writers == 0) r |= POLLHUP;
	} else if (o->kind == O_PIPE_W) {
		if (o->pipe->buf.size() < o->pipe->cap) r |= POLLOUT & ev;
		if (o->pipe->readers == 0) r |= POLLERR;
	} else
		r = ev & (POLLIN | POLLOUT);
	return r;
}
int sim_poll(struct pollfd *p, nfds_t n, int timeout)
{
	k_enter(SY_MISC, false);
	i64 end = timeout < 0 ? -1 : os.now + (i64)timeout * 1000000;
	for (;;) {
		int c = 0;
		for (nfds_t i = 0; i < n; i++) {
			p[i].revents = p[i].fd < 0 ? 0 : (short)revents(p[i].fd, p[i].events);
			if (p[i].revents) c++;
		}
		if (c || timeout == 0) return c;
		if (end >= 0 && os.now >= end) return 0;
		k_sleep(end < 0 ? 1000000 : std::min((i64)1000000, end - os.now));
	}
}
int sim_select(int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *tv)
{
	k_enter(SY_MISC, false);
	i64 end = tv ? os.now + (i64)tv->tv_sec * 1000000000 + tv->tv_usec * 1000 : -1;
	fd_set r0, w0;
	FD_ZERO(&r0);
	FD_ZERO(&w0);
	if (r) r0 = *r;
	if (w) w0 = *w;
	if (x) FD_ZERO(x);
	for (;;) {
		int c = 0;
		if (r) FD_ZERO(r);
		if (w) FD_ZERO(w);
		for (int i = 0; i < n; i++) {
			if (FD_ISSET(i, &r0) && revents(i, POLLIN)) {
				FD_SET(i, r);
				c++;
			}
			if (FD_ISSET(i, &w0) && revents(i, POLLOUT)) {
				FD_SET(i, w);
				c++;
			}
		}
		if (c) return c;
		if (end >= 0 && os.now >= end) return 0;
		k_sleep(end < 0 ? 1000000 : std::min((i64)1000000, end - os.now));
	}
}

// ---------------------------------------------------------------- misc
long sim_sysconf(int n)
{
	if (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF) return os.ncpu;
	if (n == _SC_OPEN_MAX) return os.fp.fd_limit;
	if (n == _SC_PAGESIZE) return 4096;
	return sysconf(n);
}
int sim_uname(struct utsname *u)
{
	memset(u, 0, sizeof *u);
	strcpy(u->sysname, "Linux");
	strcpy(u->nodename, "sim");
	strcpy(u->release, "6.0.0");
	strcpy(u->version, "#1");
	strcpy(u->machine, "x86_64");
	return 0;
}
int sim_gethostname(char *b, size_t n)
{
	snprintf(b, n, "sim");
	return 0;
}
int sim_rand(void) { return (int)(mix64(os.cur->nsys) & 0x7fffffff); }
void sim_srand(unsigned) {}
long sim_random(void) { return sim_rand(); }
ssize_t sim_getrandom(void *b, size_t n, unsigned)
{
	Rng r(os.seq + os.tot_steps);
	for (size_t i = 0; i < n; i++) ((char *)b)[i] = (char)r.next();
	return (ssize_t)n;
}
int sim_getopt(int argc, char *const *argv, const char *opts)
{
	if (sim_optind == 0) {
		sim_optind = 1;
		getopt_pos = 1;
	}
	sim_optarg = nullptr;
	if (sim_optind >= argc || !argv[sim_optind] || argv[sim_optind][0] != '-' || !argv[sim_optind][1]) return -1;
	if (!strcmp(argv[sim_optind], "--")) {
		sim_optind++;
		return -1;
	}
	int c = argv[sim_optind][getopt_pos++];
	const char *o = c == ':' ? nullptr : strchr(opts, c);
	if (!o) {
		sim_optopt = c;
		if (sim_opterr && opts[0] != ':') sim_fprintf(sim_stderr, "%s: invalid option -- '%c'\n", argv[0], c);
		if (!argv[sim_optind][getopt_pos]) {
			sim_optind++;
			getopt_pos = 1;
		}
		return '?';
	}
	if (o[1] == ':') {
		if (argv[sim_optind][getopt_pos]) {
			sim_optarg = argv[sim_optind] + getopt_pos;
			sim_optind++;
		} else {
			sim_optind++;
			if (sim_optind >= argc) {
				sim_optopt = c;
				getopt_pos = 1;
				if (sim_opterr && opts[0] != ':') sim_fprintf(sim_stderr, "%s: option requires an argument -- '%c'\n", argv[0], c);
				return opts[0] == ':' ? ':' : '?';
			}
			sim_optarg = argv[sim_optind++];
		}
		getopt_pos = 1;
	} else if (!argv[sim_optind][getopt_pos]) {
		sim_optind++;
		getopt_pos = 1;
	}
	return c;
}
} // extern "C"

namespace sim {
void stdio_on_fork(Proc &p, Proc &c)
{
	for (auto &kv : p.files) c.files[kv.first] = std::make_shared<SimFile>(*kv.second);
	for (auto &kv : p.dirs) c.dirs[kv.first] = std::make_shared<SimDir>(*kv.second);
}
void stdio_flush_all(Proc &p)
{
	vector<std::shared_ptr<SimFile>> v;
	for (auto &kv : p.files) v.push_back(kv.second);
	for (auto &f : v) sf_flush(*f);
}
void libc_start(Proc &p)
{
	p.files.clear();
	for (int i = 0; i < 3; i++) {
		auto f = std::make_shared<SimFile>();
		f->fd = i;
		f->rd = i == 0;
		f->wr = i > 0;
		if (i == 2) f->bufmode = _IONBF;
		p.files[handle(i)] = f;
	}
	sim_stdin = handle(0);
	sim_stdout = handle(1);
	sim_stderr = handle(2);
	p.arena = arena_get();
	rebuild_environ(p);
}
void libc_switch_in(Proc &p)
{
	sim_stdin = handle(0);
	sim_stdout = handle(1);
	sim_stderr = handle(2);
	sim_environ = p.environ_mem.empty() ? nullptr : p.environ_mem.data();
	sim___environ = sim_environ;
}
void libc_switch_out(Proc &) {}
void heap_reset(Proc &) {}
} // namespace sim
