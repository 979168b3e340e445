// stubs at the API level of libcurl and libarchive: the network and archive format are simulated,
// extraction writes through the simulated file system
#include "os.h"
#include <archive.h>
#include <archive_entry.h>
#include <cstdlib>
#include <curl/curl.h>
#include <fcntl.h>
using namespace sim;

#undef curl_easy_setopt
struct SimCurl {
	string url;
	curl_write_callback cb = nullptr;
	void *ctx = nullptr;
	char *err = nullptr;
	bool failonerror = false;
};
extern "C" {
CURLcode curl_global_init(long) { return CURLE_OK; }
void curl_global_cleanup(void) {}
CURL *curl_easy_init(void) { return (CURL *)new SimCurl; }
void curl_easy_cleanup(CURL *c) { delete (SimCurl *)c; }
const char *curl_easy_strerror(CURLcode c)
{
	return c == CURLE_COULDNT_CONNECT ? "Couldn't connect to server" : c == CURLE_PARTIAL_FILE ? "Transferred a partial file" : "error";
}
CURLcode curl_easy_setopt(CURL *h, CURLoption o, ...)
{
	SimCurl *c = (SimCurl *)h;
	va_list ap;
	va_start(ap, o);
	switch ((int)o) {
	case CURLOPT_URL: c->url = va_arg(ap, char *); break;
	case CURLOPT_WRITEFUNCTION: c->cb = va_arg(ap, curl_write_callback); break;
	case CURLOPT_WRITEDATA: c->ctx = va_arg(ap, void *); break;
	case CURLOPT_ERRORBUFFER: c->err = va_arg(ap, char *); break;
	case CURLOPT_FAILONERROR: c->failonerror = va_arg(ap, long); break;
	default: break;
	}
	va_end(ap);
	return CURLE_OK;
}
CURLcode curl_easy_getinfo(CURL *, CURLINFO, ...) { return CURLE_OK; }
CURLcode curl_easy_perform(CURL *h)
{
	SimCurl *c = (SimCurl *)h;
	int e = k_enter(SY_NET, false, c->url.c_str());
	os.hist("net-get", c->url);
	auto it = os.net.find(c->url);
	if (e || it == os.net.end()) {
		if (c->err) strcpy(c->err, "simulated connection failure");
		return CURLE_COULDNT_CONNECT;
	}
	NetFile &f = it->second;
	int mode = f.mode;
	if (mode && f.fails > 0) {
		if (--f.fails == 0) f.mode = 0;
	}
	string d = f.data;
	if (mode) os.fault_count[strf("net-mode%d", mode)]++;
	if (mode == 1) return CURLE_COULDNT_CONNECT;
	if (mode == 2 || mode == 3) d.resize((size_t)((double)d.size() * f.part));
	if (mode == 4) {
		if (c->failonerror) return CURLE_HTTP_RETURNED_ERROR;
		d = "<html>404 not found</html>\n";
	}
	if (mode == 5 && !d.empty()) d[(size_t)((double)(d.size() - 1) * f.part)] ^= 1;
	size_t i = 0, chunk = 1000;
	while (i < d.size()) {
		size_t k = std::min(chunk, d.size() - i);
		k_enter(SY_NET, false);
		if (c->cb(&d[i], 1, k, c->ctx) != k) return CURLE_WRITE_ERROR;
		i += k;
	}
	if (mode == 2) {
		if (c->err) strcpy(c->err, "transfer closed with bytes remaining to read");
		return CURLE_PARTIAL_FILE;
	}
	return CURLE_OK;
}
} // extern "C"

struct archive {
	bool wr = false;
	string buf;
	size_t pos = 0;
	size_t data_left = 0;
	bool fatal = false, began = false;
	string err;
	struct archive_entry *ent = nullptr;
	int fd = -1;
	string path;
	u32 mode = 0644;
	i64 size = 0, written = 0;
	int worst = 0;
};
struct archive_entry {
	char kind = 'F';
	string path, link;
	u32 mode = 0644;
	i64 size = 0;
};
extern "C" {
struct archive *archive_read_new(void) { return new archive; }
int archive_read_support_format_all(struct archive *) { return ARCHIVE_OK; }
int archive_read_support_filter_all(struct archive *) { return ARCHIVE_OK; }
int archive_read_open_memory(struct archive *a, const void *b, size_t n)
{
	a->buf.assign((const char *)b, n);
	a->ent = new archive_entry;
	return ARCHIVE_OK;
}
static int afatal(struct archive *a, const char *m)
{
	a->fatal = true;
	a->err = m;
	return ARCHIVE_FATAL;
}
int archive_read_next_header(struct archive *a, struct archive_entry **e)
{
	*e = a->ent;
	// let simulated time pass, so that an endless retry is seen by the step budget
	k_enter(SY_MISC, false);
	if (a->fatal) return afatal(a, "function invoked with archive structure in state 'fatal'");
	if (!a->began) {
		if (a->buf.compare(0, 7, "SIMTAR\n")) return afatal(a, "Unrecognized archive format");
		a->pos = 7;
		a->began = true;
	}
	if (a->data_left) {
		if (a->pos + a->data_left > a->buf.size()) return afatal(a, "Truncated input file");
		a->pos += a->data_left;
		a->data_left = 0;
	}
	size_t nl = a->buf.find('\n', a->pos);
	if (nl == string::npos) return afatal(a, "Truncated input file");
	string l = a->buf.substr(a->pos, nl - a->pos);
	a->pos = nl + 1;
	if (l == "END") return ARCHIVE_EOF;
	auto p = split(l, ' ');
	a->ent->link.clear();
	if (p.size() > 4) a->ent->link = p[4];
	if (p.size() < 4) return afatal(a, "Damaged header");
	a->ent->kind = p[0][0];
	a->ent->mode = (u32)strtoul(p[1].c_str(), nullptr, 8);
	a->ent->size = a->ent->kind == 'F' || a->ent->kind == 'W' ? atoll(p[2].c_str()) : 0;
	a->ent->path = p[3];
	a->data_left = a->ent->kind == 'F' ? (size_t)a->ent->size : 0;
	if (a->ent->kind == 'W') {
		// an entry with an unusual attribute: a warning, data intact
		a->ent->kind = 'F';
		a->data_left = (size_t)a->ent->size;
		a->err = "Pathname cannot be converted to current locale";
		return ARCHIVE_WARN;
	}
	return ARCHIVE_OK;
}
const char *archive_entry_pathname(struct archive_entry *e) { return e->path.c_str(); }
void archive_entry_copy_pathname(struct archive_entry *e, const char *p) { e->path = p; }
const char *archive_entry_hardlink(struct archive_entry *e) { return e->kind == 'H' ? e->link.c_str() : nullptr; }
void archive_entry_copy_hardlink(struct archive_entry *e, const char *p) { e->link = p; }
void archive_entry_set_hardlink(struct archive_entry *e, const char *p) { e->link = p; }
const char *archive_entry_symlink(struct archive_entry *e) { return e->kind == 'L' ? e->link.c_str() : nullptr; }
void archive_entry_set_pathname(struct archive_entry *e, const char *p) { e->path = p; }
la_int64_t archive_entry_size(struct archive_entry *e) { return e->size; }
int archive_read_data_block(struct archive *a, const void **b, size_t *n, la_int64_t *off)
{
	if (a->fatal) return ARCHIVE_FATAL;
	if (!a->data_left) return ARCHIVE_EOF;
	size_t avail = a->buf.size() - a->pos;
	size_t k = std::min(std::min(a->data_left, avail), (size_t)4096);
	if (k == 0) {
		afatal(a, "Truncated input file");
		return ARCHIVE_FATAL;
	}
	*b = a->buf.data() + a->pos;
	*n = k;
	*off = a->ent->size - (la_int64_t)a->data_left;
	a->pos += k;
	a->data_left -= k;
	return ARCHIVE_OK;
}
int archive_read_close(struct archive *) { return ARCHIVE_OK; }
int archive_read_free(struct archive *a)
{
	delete a->ent;
	delete a;
	return ARCHIVE_OK;
}
const char *archive_error_string(struct archive *a) { return a->err.c_str(); }
int archive_errno(struct archive *) { return EIO; }

struct archive *archive_write_disk_new(void)
{
	auto *a = new archive;
	a->wr = true;
	return a;
}
int archive_write_disk_set_options(struct archive *, int) { return ARCHIVE_OK; }
int archive_write_disk_set_standard_lookup(struct archive *) { return ARCHIVE_OK; }
static int mkparents(const string &p)
{
	for (size_t i = 1; i < p.size(); i++)
		if (p[i] == '/') {
			struct stat st;
			string d = p.substr(0, i);
			if (k_stat(d.c_str(), &st, true) == 0) continue;
			int r = k_mkdir(d.c_str(), 0755);
			if (r < 0 && r != -EEXIST) return r;
		}
	return 0;
}
int archive_write_header(struct archive *a, struct archive_entry *e)
{
	a->path = e->path;
	a->mode = e->mode;
	a->size = e->size;
	a->written = 0;
	a->worst = ARCHIVE_OK;
	int r = mkparents(e->path);
	if (r < 0) {
		a->err = string("Can't create parent: ") + strerror(-r);
		return ARCHIVE_FAILED;
	}
	if (e->kind == 'D') {
		struct stat st;
		if (k_stat(e->path.c_str(), &st, true) == 0) return ARCHIVE_OK;
		r = k_mkdir(e->path.c_str(), e->mode);
		if (r < 0 && r != -EEXIST) {
			a->err = string("Can't create dir: ") + strerror(-r);
			return ARCHIVE_FAILED;
		}
		return ARCHIVE_OK;
	}
	if (e->kind == 'L' || e->kind == 'H') {
		auto mk = [&]() { return e->kind == 'L' ? k_symlink(e->link.c_str(), e->path.c_str()) : k_link(e->link.c_str(), e->path.c_str()); };
		r = mk();
		if (r == -EEXIST) {
			k_unlink(e->path.c_str(), false, true);
			r = mk();
		}
		if (r < 0) {
			a->err = "Can't create '" + e->path + "': " + strerror(-r);
			return ARCHIVE_FAILED;
		}
		a->size = 0;
		return ARCHIVE_OK;
	}
	r = k_open(e->path.c_str(), O_WRONLY | O_CREAT | O_EXCL, 0600);
	if (r == -EEXIST) {
		k_unlink(e->path.c_str(), false, true);
		r = k_open(e->path.c_str(), O_WRONLY | O_CREAT | O_EXCL, 0600);
	}
	if (r < 0) {
		a->err = "Can't create '" + e->path + "': " + strerror(-r);
		return ARCHIVE_FAILED;
	}
	a->fd = r;
	return ARCHIVE_OK;
}
la_ssize_t archive_write_data_block(struct archive *a, const void *b, size_t n, la_int64_t)
{
	const char *p = (const char *)b;
	while (n) {
		i64 r = k_write(a->fd, p, n);
		if (r < 0) {
			a->err = string("Write failed: ") + strerror((int)-r);
			return ARCHIVE_WARN;
		}
		p += r;
		n -= (size_t)r;
		a->written += r;
	}
	return ARCHIVE_OK;
}
int archive_write_finish_entry(struct archive *a)
{
	int ret = ARCHIVE_OK;
	if (a->fd >= 0) {
		if (a->written < a->size) {
			// libarchive extends a short file to its declared size
			int r = k_ftruncate(a->fd, a->size);
			if (r < 0) ret = ARCHIVE_FAILED;
		}
		if (k_fchmod(a->fd, a->mode) < 0) {
			a->err = "Can't set permissions";
			ret = ARCHIVE_WARN;
		}
		k_close(a->fd);
		a->fd = -1;
	}
	return ret;
}
int archive_write_close(struct archive *a)
{
	if (a->fd >= 0) archive_write_finish_entry(a);
	return ARCHIVE_OK;
}
int archive_write_free(struct archive *a)
{
	delete a;
	return ARCHIVE_OK;
}
} // extern "C"
// more of the two interfaces than is used today
extern "C" {
void archive_clear_error(struct archive *a) { a->err.clear(); }
int archive_read_data_skip(struct archive *) { return ARCHIVE_OK; }
int archive_read_has_encrypted_entries(struct archive *) { return 0; }
la_int64_t archive_filter_bytes(struct archive *, int) { return 0; }
int archive_file_count(struct archive *) { return 0; }
__LA_MODE_T archive_entry_filetype(struct archive_entry *e) { return e->kind == 'D' ? AE_IFDIR : e->kind == 'L' ? AE_IFLNK : AE_IFREG; }
__LA_MODE_T archive_entry_mode(struct archive_entry *e) { return archive_entry_filetype(e) | e->mode; }
__LA_MODE_T archive_entry_perm(struct archive_entry *e) { return e->mode; }
void archive_entry_set_perm(struct archive_entry *e, __LA_MODE_T m) { e->mode = m; }
int archive_entry_size_is_set(struct archive_entry *) { return 1; }
struct archive_entry *archive_entry_clear(struct archive_entry *e) { return e; }
void curl_easy_reset(CURL *c) { *(SimCurl *)c = SimCurl(); }
void curl_free(void *p) { free(p); }
}
