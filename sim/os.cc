// simos core: file system, processes, scheduler, pipes, clock, fault injection
#include "os.h"
#include <csignal>
#include <cstdlib>
#include <algorithm>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" int muon_main(int argc, char **argv, char **envp);
extern "C" char __start_mudata[] __attribute__((weak));
extern "C" char __stop_mudata[] __attribute__((weak));

namespace sim {
Os os;
const char *sys_names[] = { "open_r", "open_w", "read", "write", "close", "mkdir", "unlink", "rename", "chmod",
	"symlink", "stat", "opendir", "readdir", "fork", "pipe", "exec", "wait", "sleep", "clock", "chdir", "malloc",
	"dup", "kill", "misc", "readlink", "trunc", "net", "fcntl", "sync" };

// ---------------------------------------------------------------- utils
u64 hash_bytes(const void *p, size_t n, u64 h)
{
	const unsigned char *b = (const unsigned char *)p;
	size_t i = 0;
	for (; i + 8 <= n; i += 8) {
		u64 v;
		memcpy(&v, b + i, 8);
		h = (h ^ v) * 0x9E3779B97F4A7C15ull;
		h ^= h >> 29;
	}
	for (; i < n; i++) {
		h = (h ^ b[i]) * 1099511628211ull;
	}
	return mix64(h ^ n);
}
string hex64(u64 v) { return strf("%016llx", (unsigned long long)v); }
string strf(const char *fmt, ...)
{
	char buf[1024];
	va_list ap;
	va_start(ap, fmt);
	int n = vsnprintf(buf, sizeof buf, fmt, ap);
	va_end(ap);
	if (n < (int)sizeof buf) return string(buf, n);
	string s(n + 1, 0);
	va_start(ap, fmt);
	vsnprintf(&s[0], n + 1, fmt, ap);
	va_end(ap);
	s.resize(n);
	return s;
}
vector<string> split(const string &s, char c, bool keep_empty)
{
	vector<string> r;
	size_t i = 0;
	while (i <= s.size()) {
		size_t j = s.find(c, i);
		if (j == string::npos) j = s.size();
		if (j > i || keep_empty) r.push_back(s.substr(i, j - i));
		i = j + 1;
	}
	if (keep_empty && !r.empty() && r.back().empty()) r.pop_back();
	return r;
}
bool starts_with(const string &s, const string &p) { return s.compare(0, p.size(), p) == 0; }
bool ends_with(const string &s, const string &p) { return s.size() >= p.size() && s.compare(s.size() - p.size(), p.size(), p) == 0; }
string replace_all(string s, const string &a, const string &b)
{
	size_t i = 0;
	while (!a.empty() && (i = s.find(a, i)) != string::npos) {
		s.replace(i, a.size(), b);
		i += b.size();
	}
	return s;
}
string norm_abs(const string &p, const string &cwd)
{
	string full = (!p.empty() && p[0] == '/') ? p : cwd + "/" + p;
	vector<string> out;
	for (auto &c : split(full, '/')) {
		if (c == ".") continue;
		if (c == "..") {
			if (!out.empty()) out.pop_back();
			continue;
		}
		out.push_back(c);
	}
	string r;
	for (auto &c : out) r += "/" + c;
	return r.empty() ? "/" : r;
}

// ---------------------------------------------------------------- vfs
Vfs::Vfs()
{
	root = std::make_shared<Inode>();
	root->type = N_DIR;
	root->ino = 1;
	root->mode = 0755;
	root->parent = root;
}
InodeP Vfs::mk(NodeType t, u32 mode)
{
	InodeP i = std::make_shared<Inode>();
	i->type = t;
	i->ino = next_ino++;
	i->mode = mode;
	i->mtime = os.now / os.mtime_gran * os.mtime_gran;
	return i;
}
static InodeP walk(const Vfs &fs, InodeP base, const string &path, bool follow, int depth, int &err, InodeP *parent, string *last)
{
	if (depth > 20) {
		err = ELOOP;
		return nullptr;
	}
	InodeP at = (!path.empty() && path[0] == '/') ? fs.root : base;
	if (path.empty()) {
		err = ENOENT;
		return nullptr;
	}
	vector<string> parts = split(path, '/');
	bool trail = path.back() == '/';
	if (parent) *parent = at;
	if (last) last->clear();
	for (size_t i = 0; i < parts.size(); i++) {
		const string &c = parts[i];
		bool fin = i + 1 == parts.size();
		if (at->type != N_DIR) {
			err = ENOTDIR;
			if (parent) *parent = nullptr;
			return nullptr;
		}
		if (c.size() > 255) {
			err = ENAMETOOLONG;
			if (parent) *parent = nullptr;
			return nullptr;
		}
		if (c == ".") continue;
		if (c == "..") {
			InodeP p = at->parent.lock();
			at = p ? p : fs.root;
			if (parent) *parent = at;
			if (last) last->clear();
			continue;
		}
		if (fin) {
			if (parent) *parent = at;
			if (last) *last = c;
		}
		auto it = at->ents.find(c);
		if (it == at->ents.end()) {
			err = ENOENT;
			if (!fin && parent) *parent = nullptr;
			return nullptr;
		}
		InodeP n = it->second;
		if (n->type == N_LNK && (!fin || follow || trail)) {
			InodeP pd;
			string l;
			InodeP t = walk(fs, at, n->content(), true, depth + 1, err, &pd, &l);
			if (!t) {
				if (parent) {
					if (fin && err == ENOENT) {
						*parent = pd;
						if (last) *last = l;
					} else
						*parent = nullptr;
				}
				return nullptr;
			}
			n = t;
			if (fin && parent) {
				*parent = pd;
				if (last) *last = l;
			}
		}
		at = n;
	}
	if (trail && at->type != N_DIR) {
		err = ENOTDIR;
		return nullptr;
	}
	err = 0;
	return at;
}
InodeP resolve(const string &path, bool follow, int &err, InodeP *parent, string *last)
{
	return walk(os.fs, os.cur && os.cur->cwd ? os.cur->cwd : os.fs.root, path, follow, 0, err, parent, last);
}
InodeP Vfs::find(const string &path, bool follow) const
{
	int err = 0;
	return walk(*this, root, path, follow, 0, err, nullptr, nullptr);
}
static void add_ent(InodeP dir, const string &name, InodeP n)
{
	dir->ents[name] = n;
	if (n->type == N_DIR) n->parent = dir;
	dir->mtime = os.now / os.mtime_gran * os.mtime_gran;
}
InodeP Vfs::mkdirs(const string &path)
{
	InodeP at = root;
	for (auto &c : split(path, '/')) {
		auto it = at->ents.find(c);
		if (it == at->ents.end()) {
			InodeP n = mk(N_DIR, 0755);
			add_ent(at, c, n);
			at = n;
		} else {
			at = it->second;
			if (at->type == N_LNK) at = find(path, true);
		}
	}
	return at;
}
static string dirname_of(const string &p)
{
	size_t i = p.rfind('/');
	if (i == string::npos || i == 0) return "/";
	return p.substr(0, i);
}
static string basename_of(const string &p)
{
	size_t i = p.rfind('/');
	return i == string::npos ? p : p.substr(i + 1);
}
InodeP Vfs::write(const string &path, const string &content, u32 mode)
{
	InodeP d = mkdirs(dirname_of(path));
	InodeP n;
	auto it = d->ents.find(basename_of(path));
	if (it != d->ents.end() && it->second->type == N_FILE)
		n = it->second;
	else {
		n = mk(N_FILE, mode);
		add_ent(d, basename_of(path), n);
	}
	n->data = std::make_shared<string>(content);
	n->mode = mode;
	n->mtime = os.now / os.mtime_gran * os.mtime_gran;
	return n;
}
bool Vfs::read(const string &path, string &out) const
{
	InodeP i = find(path);
	if (!i || i->type != N_FILE) return false;
	out = i->content();
	return true;
}
void Vfs::symlink(const string &path, const string &target)
{
	InodeP d = mkdirs(dirname_of(path));
	InodeP n = mk(N_LNK, 0777);
	n->data = std::make_shared<string>(target);
	add_ent(d, basename_of(path), n);
}
bool Vfs::remove_all(const string &path)
{
	InodeP d = find(dirname_of(path));
	if (!d || d->type != N_DIR) return false;
	return d->ents.erase(basename_of(path)) > 0;
}
static InodeP clone_rec(const InodeP &i, const InodeP &parent, std::map<Inode *, InodeP> &m)
{
	auto it = m.find(i.get());
	if (it != m.end()) return it->second;
	InodeP n = std::make_shared<Inode>(*i);
	m[i.get()] = n;
	n->ents.clear();
	n->parent = parent;
	for (auto &e : i->ents) {
		InodeP c = clone_rec(e.second, n, m);
		n->ents[e.first] = c;
	}
	return n;
}
Vfs Vfs::clone() const
{
	Vfs v;
	std::map<Inode *, InodeP> m;
	v.root = clone_rec(root, nullptr, m);
	v.root->parent = v.root;
	v.next_ino = next_ino;
	v.bytes = bytes;
	return v;
}
void Vfs::list(const string &path, std::map<string, InodeP> &out, const string &rel) const
{
	InodeP i = find(path, rel.empty());
	if (!i) return;
	if (!rel.empty()) out[rel] = i;
	if (i->type == N_DIR)
		for (auto &e : i->ents) list(path + "/" + e.first, out, rel.empty() ? e.first : rel + "/" + e.first);
}
static u64 usage_rec(const InodeP &i)
{
	u64 s = i->type == N_FILE ? i->content().size() : 0;
	for (auto &e : i->ents) s += usage_rec(e.second);
	return s;
}
u64 Vfs::usage() const { return usage_rec(root); }
string inode_path(InodeP i)
{
	string r;
	while (i && i != os.fs.root) {
		InodeP p = i->parent.lock();
		if (!p) return "/?";
		bool f = false;
		for (auto &e : p->ents)
			if (e.second == i) {
				r = "/" + e.first + r;
				f = true;
				break;
			}
		if (!f) return "/(deleted)";
		i = p;
	}
	return r.empty() ? "/" : r;
}

// ---------------------------------------------------------------- context switch
extern "C" void sim_ctx_switch(Ctx *from, Ctx *to);
asm(R"(
.text
.globl sim_ctx_switch
.type sim_ctx_switch,@function
sim_ctx_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	subq $8, %rsp
	stmxcsr (%rsp)
	fnstcw 4(%rsp)
	movq %rsp, (%rdi)
	movq (%rsi), %rsp
	ldmxcsr (%rsp)
	fldcw 4(%rsp)
	addq $8, %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
.size sim_ctx_switch,.-sim_ctx_switch
)");

static const size_t STACK_SZ = 8u << 20;
static char *const STACK_BASE = (char *)0x300000000000ull;
static const int NSTACK = 512;
static bool stack_used[NSTACK], stack_mapped[NSTACK];
struct Stack {
	int slot;
	char *base;
	Stack()
	{
		for (slot = 0; slot < NSTACK && stack_used[slot]; slot++)
			;
		if (slot == NSTACK) {
			fprintf(stderr, "simos: out of stacks\n");
			_exit(3);
		}
		stack_used[slot] = true;
		base = STACK_BASE + (size_t)slot * (STACK_SZ + 65536);
		if (!stack_mapped[slot]) {
			void *p = mmap(base, STACK_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
			if (p != base) {
				perror("simos: stack mmap");
				_exit(3);
			}
			stack_mapped[slot] = true;
		}
	}
	char *top() const { return base + STACK_SZ; }
	~Stack()
	{
		madvise(base, STACK_SZ, MADV_DONTNEED);
		stack_used[slot] = false;
	}
};
static vector<std::shared_ptr<Stack>> dead_stacks;

// ---------------------------------------------------------------- muon globals
static vector<char> pristine;
static std::weak_ptr<Proc> globals_owner;
static size_t gsize() { return (size_t)(__stop_mudata - __start_mudata); }
static void globals_in(const ProcP &p)
{
	ProcP o = globals_owner.lock();
	if (o == p) return;
	if (pristine.empty()) pristine.assign(__start_mudata, __stop_mudata);
	if (o && o->kind == PK_MUON && o->st != PS_ZOMBIE && o->st != PS_DEAD) o->globals.assign(__start_mudata, __stop_mudata);
	if (p->globals.empty())
		memcpy(__start_mudata, pristine.data(), gsize());
	else
		memcpy(__start_mudata, p->globals.data(), gsize());
	globals_owner = p;
}

// ---------------------------------------------------------------- fds, pipes
Proc::~Proc()
{
	for (char *s : environ_mem) free(s);
}
Ofd::~Ofd()
{
	if (pipe) {
		if (kind == O_PIPE_R) pipe->readers--;
		if (kind == O_PIPE_W) pipe->writers--;
	}
}
OfdP fd_get(int fd)
{
	auto it = os.cur->fds.find(fd);
	return it == os.cur->fds.end() ? nullptr : it->second.o;
}
static int fd_alloc(OfdP o, int min = 0, bool cloexec = false)
{
	auto &m = os.cur->fds;
	int fd = min;
	while (m.count(fd)) fd++;
	if (fd >= os.fp.fd_limit) {
		os.fault_count["fd-limit"]++;
		return -EMFILE;
	}
	m[fd] = Fd{ o, cloexec };
	if ((int)m.size() > os.cur->max_fds) os.cur->max_fds = (int)m.size();
	if (os.res && os.cur->root && (int)m.size() > os.res->max_fds) os.res->max_fds = (int)m.size();
	return fd;
}

// ---------------------------------------------------------------- history
void Os::hist(const string &kind, const string &a, const string &b, i64 n)
{
	HistEv e{ ++seq, now, cur ? cur->pid : 0, kind, a, b, n };
	evhash = hash_str(kind, hash_str(a, hash_str(b, evhash ^ (u64)n)));
	if (trace && tracef) fprintf(tracef, "[%lld.%06lld] pid=%d EVENT %s %s %s %lld\n", (long long)((now - boot) / 1000000000), (long long)((now - boot) / 1000 % 1000000), e.pid, kind.c_str(), a.c_str(), b.c_str(), (long long)n);
	if (res) {
		res->hist.push_back(e);
		if (on_event) on_event(res->hist.back());
	}
}

// ---------------------------------------------------------------- scheduler
static bool runnable(Proc &p)
{
	switch (p.st) {
	case PS_READY: return true;
	case PS_BLOCKED:
		if (p.pred && p.pred()) {
			p.st = PS_READY;
			p.pred = nullptr;
			return true;
		}
		return false;
	case PS_SLEEP:
		if (os.now >= p.wake) {
			p.st = PS_READY;
			return true;
		}
		return false;
	default: return false;
	}
}
static const int IDLE_K = 48;

// choose who runs next; nullptr: nobody can
static ProcP pick()
{
	for (;;) {
		static vector<Proc *> c, idle;
		c.clear();
		idle.clear();
		i64 next_wake = -1;
		for (auto &kv : os.procs) {
			Proc &p = *kv.second;
			if (runnable(p)) {
				if (p.idle_polls >= IDLE_K)
					idle.push_back(&p);
				else
					c.push_back(&p);
			} else if (p.st == PS_SLEEP && (next_wake < 0 || p.wake < next_wake))
				next_wake = p.wake;
		}
		if (c.empty() && next_wake >= 0) {
			if (next_wake > os.now) os.now = next_wake;
			for (auto *p : idle) p->idle_polls = 0;
			continue;
		}
		if (c.empty()) {
			if (idle.empty()) return nullptr;
			// only pollers: let time pass
			for (auto *p : idle) {
				p->idle_polls = IDLE_K - 8;
				c.push_back(p);
			}
			os.now += 1000000;
		}
		// pollers stay schedulable now and then, so their interleavings exist
		if (!idle.empty() && c.size() && os.srng.below(8) == 0)
			for (auto *p : idle) c.push_back(p);
		Proc *sel = nullptr;
		if (c.size() == 1)
			sel = c[0];
		else {
			bool cur_in = false;
			for (auto *p : c)
				if (p == os.cur.get()) cur_in = true;
			switch (os.smode) {
			case SM_RANDOM: sel = c[os.srng.below(c.size())]; break;
			case SM_STICKY:
				if (cur_in && (int)os.srng.below(100) < os.stick)
					sel = os.cur.get();
				else
					sel = c[os.srng.below(c.size())];
				break;
			case SM_PRIO:
				if (os.srng.below(64) == 0) c[os.srng.below(c.size())]->prio = (int)os.srng.below(1000);
				if (os.srng.below(16) == 0) {
					sel = c[os.srng.below(c.size())];
					break;
				}
				sel = c[0];
				for (auto *p : c)
					if (p->prio > sel->prio) sel = p;
				break;
			case SM_FIFO:
				if (cur_in)
					sel = os.cur.get();
				else
					sel = c[0];
				break;
			}
			os.nchoices++;
			os.schedhash = mix64(os.schedhash ^ (u64)sel->pid);
		}
		return os.procs[sel->pid];
	}
}
static void to_sched()
{
	ProcP me = os.cur;
	me->saved_errno = errno;
	Ctx *c = &me->ctx;
	Proc *raw = me.get();
	me.reset();
	sim_ctx_switch(c, &os.sched_ctx);
	(void)raw;
	errno = os.cur->saved_errno;
	if (os.cur->pending_kill && os.cur->kind == PK_NATIVE) {
		int s = os.cur->pending_kill;
		throw SimKill{ s };
	}
}
void k_yield()
{
	if (os.stop) {
		to_sched();
		return;
	}
	ProcP n = pick();
	if (n == os.cur) return;
	to_sched();
}
void k_block(const std::function<bool()> &pred)
{
	while (!pred()) {
		os.cur->st = PS_BLOCKED;
		os.cur->pred = pred;
		os.cur->idle_polls = 0;
		to_sched();
	}
}
void k_sleep(i64 ns)
{
	k_enter(SY_SLEEP, false);
	os.cur->idle_polls = 0;
	os.cur->wake = os.now + ns;
	os.cur->st = PS_SLEEP;
	to_sched();
}
i64 k_clock(bool mono)
{
	k_enter(SY_CLOCK, false);
	if (mono) return os.now - os.boot + 1000000000ll;
	if (os.fp.wall_pct && (int)os.frng.below(100) < os.fp.wall_pct) {
		os.wall_off = (i64)os.frng.below((u64)os.fp.wall_max * 2) - os.fp.wall_max;
		os.fault_count["wall-clock-jump"]++;
	}
	return os.now + os.wall_off;
}

// ---------------------------------------------------------------- process end
static ProcP find_proc(int pid)
{
	auto it = os.procs.find(pid);
	return it == os.procs.end() ? nullptr : it->second;
}
static void end_borrow(const ProcP &c)
{
	ProcP p = c->vfork_parent;
	if (!p) return;
	c->vfork_parent.reset();
	// give the image back
	memcpy(p->ctx.sp, p->vsave_stack.data(), p->vsave_stack.size());
	p->vsave_stack.clear();
	if (globals_owner.lock() == c) globals_owner.reset();
	p->globals.swap(p->vsave_globals);
	p->vsave_globals.clear();
	if (p->st == PS_VFORK) p->st = PS_READY;
	c->stack.reset();
}
// mark the process dead; the caller must not run it again
static void finish(const ProcP &p, int wstatus)
{
	if (p->st == PS_ZOMBIE || p->st == PS_DEAD) return;
	if (p->kind == PK_MUON && !p->vfork_parent) {
		heap_check(*p);
		heap_release(*p);
	}
	if (p->root && os.res) {
		os.res->leaked_fds = 0;
		for (auto &f : p->fds)
			if (f.first > 2) os.res->leaked_fds++;
	}
	p->fds.clear();
	p->files.clear();
	p->dirs.clear();
	vector<char>().swap(p->globals);
	p->status = wstatus;
	p->st = PS_ZOMBIE;
	p->pred = nullptr;
	os.hist("died", p->prog, strf("%x", wstatus), p->pid);
	if (os.trace && os.tracef) fprintf(os.tracef, "[%lld.%06lld] pid=%d %s ends status=0x%x\n", (long long)((os.now - os.boot) / 1000000000), (long long)((os.now - os.boot) / 1000 % 1000000), p->pid, p->prog.c_str(), wstatus);
	// children become orphans
	bool has_parent = p->ppid && find_proc(p->ppid) && find_proc(p->ppid)->st != PS_ZOMBIE;
	for (auto &kv : os.procs)
		if (kv.second->ppid == p->pid) {
			if (kv.second->st == PS_DEAD) continue;
			if (p->root && os.res) {
				if (kv.second->st == PS_ZOMBIE)
					os.res->zombies++;
				else
					os.res->orphans++;
			}
			kv.second->ppid = 0;
			if (kv.second->st == PS_ZOMBIE) kv.second->st = PS_DEAD;
		}
	if (!has_parent) p->st = p->root ? PS_ZOMBIE : PS_DEAD;
}
static Ctx *unwind_return = nullptr;
static void unwind_native(const ProcP &p, int sig)
{
	if (p->kind != PK_NATIVE || !p->stack || p == os.cur || p->vfork_parent) return;
	ProcP save = os.cur;
	int e = errno;
	Ctx here;
	p->pending_kill = sig;
	unwind_return = &here;
	os.cur = p;
	sim_ctx_switch(&here, &p->ctx);
	os.cur = save;
	unwind_return = nullptr;
	errno = e;
}
static void kill_proc(const ProcP &p, int sig)
{
	if (p->st == PS_ZOMBIE || p->st == PS_DEAD) return;
	if (p->st == PS_VFORK) {
		// the borrowing child keeps running on our stack; detach: kill it too (cannot happen for a real signal race of that width)
		for (auto &kv : os.procs)
			if (kv.second->vfork_parent == p) {
				ProcP c = kv.second;
				end_borrow(c);
				finish(c, sig);
			}
	}
	if (p->vfork_parent) end_borrow(p);
	unwind_native(p, sig);
	finish(p, sig);
	if (p->stack) {
		dead_stacks.push_back(p->stack);
		p->stack.reset();
	}
}
void k_exit(int status)
{
	ProcP p = os.cur;
	if (p->kind == PK_NATIVE && !p->vfork_parent) throw SimExit{ status };
	k_enter(SY_MISC, false);
	if (p->vfork_parent) {
		// fork child that never exec'd
		ProcP parent = p->vfork_parent;
		finish(p, (status & 0xff) << 8);
		// give back later, from the scheduler
		p->pending_kill = -1;
		to_sched();
		abort();
	}
	finish(p, (status & 0xff) << 8);
	dead_stacks.push_back(p->stack);
	p->stack.reset();
	p.reset();
	Ctx dummy;
	sim_ctx_switch(&dummy, &os.sched_ctx);
	abort();
}
void k_crash(const char *fmt, ...)
{
	char buf[512];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof buf, fmt, ap);
	va_end(ap);
	if (os.res && !os.res->crash) {
		os.res->crash = true;
		os.res->crash_msg = buf;
	}
	if (os.trace && os.tracef) fprintf(os.tracef, "CRASH: %s\n", buf);
}
static void die_by_signal(int sig)
{
	ProcP p = os.cur;
	if (p->kind == PK_NATIVE && !p->vfork_parent) throw SimKill{ sig };
	finish(p, sig);
	if (p->vfork_parent) {
		p->pending_kill = -1;
		to_sched();
		abort();
	}
	dead_stacks.push_back(p->stack);
	p->stack.reset();
	p.reset();
	Ctx dummy;
	sim_ctx_switch(&dummy, &os.sched_ctx);
	abort();
}

// ---------------------------------------------------------------- coroutine entry
struct SimExecReq {
	string path;
	vector<string> argv;
	std::map<string, string> env;
};
static void entry();
static void new_coroutine(const ProcP &p)
{
	if (p->stack) dead_stacks.push_back(p->stack);
	p->stack = std::make_shared<Stack>();
	char *top = p->stack->top() - 256;
	top = (char *)((uintptr_t)top & ~15ull);
	u64 *sp = (u64 *)top;
	*--sp = 0; // alignment / fake return
	*--sp = (u64)(uintptr_t)&entry; // ret
	for (int i = 0; i < 6; i++) *--sp = 0;
	--sp;
	unsigned mx = 0x1f80;
	unsigned short cw = 0x037f;
	memcpy((char *)sp, &mx, 4);
	memcpy((char *)sp + 4, &cw, 2);
	p->ctx.sp = sp;
}
static int do_exec(const ProcP &p, const string &path, vector<string> argv, const std::map<string, string> &env);
static void run_muon()
{
	ProcP p = os.cur;
	libc_start(*p);
	static thread_local int dummy;
	(void)dummy;
	size_t n = p->argv.size();
	// argv lives in the coroutine's stack: stable addresses
	char **av = (char **)alloca(sizeof(char *) * (n + 1));
	for (size_t i = 0; i < n; i++) {
		av[i] = (char *)alloca(p->argv[i].size() + 1);
		memcpy(av[i], p->argv[i].c_str(), p->argv[i].size() + 1);
	}
	av[n] = nullptr;
	p.reset();
	int rc = muon_main((int)n, av, nullptr);
	stdio_flush_all(*os.cur);
	k_exit(rc);
}
static void entry()
{
	if (os.cur->kind == PK_MUON) {
		run_muon();
		abort();
	}
	int status = 0;
	bool ex = false;
	{
		SimExecReq req;
		try {
			if (os.cur->pending_kill) throw SimKill{ os.cur->pending_kill };
			NativeMain m = os.cur->nmain;
			vector<string> argv = os.cur->argv;
			status = (m(argv) & 0xff) << 8;
		} catch (SimExit &e) {
			status = (e.code & 0xff) << 8;
		} catch (SimKill &e) {
			status = e.sig;
		} catch (SimExecReq &r) {
			req = r;
			ex = true;
		}
		if (os.cur->pending_kill) {
			// being unwound by a killer
			Ctx *r = unwind_return;
			req = SimExecReq();
			Ctx dummy;
			sim_ctx_switch(&dummy, r);
			abort();
		}
		if (ex) {
			ProcP p = os.cur;
			if (do_exec(p, req.path, req.argv, req.env) != 0) {
				status = 127 << 8;
				ex = false;
			}
		}
	}
	if (!ex) {
		ProcP p = os.cur;
		finish(p, status);
		dead_stacks.push_back(p->stack);
		p->stack.reset();
	}
	Ctx dummy;
	sim_ctx_switch(&dummy, &os.sched_ctx);
	abort();
}

static int exec_lookup(const string &path, vector<string> &argv, string &prog, string &exe, int depth = 0)
{
	if (depth > 4) return ELOOP;
	int err = 0;
	InodeP i = resolve(path, true, err);
	if (!i) return err ? err : ENOENT;
	if (i->type != N_FILE) return EACCES;
	if (!(i->mode & 0111)) return EACCES;
	const string &c = i->content();
	if (starts_with(c, "\x7fSIM:")) {
		prog = c.substr(5, c.find('\n') == string::npos ? string::npos : c.find('\n') - 5);
		exe = path;
		return 0;
	}
	if (starts_with(c, "#!")) {
		string l = c.substr(2, c.find('\n') == string::npos ? string::npos : c.find('\n') - 2);
		while (!l.empty() && l[0] == ' ') l.erase(0, 1);
		string interp = l, arg;
		size_t sp = l.find(' ');
		if (sp != string::npos) {
			interp = l.substr(0, sp);
			arg = l.substr(sp + 1);
		}
		vector<string> na{ interp };
		if (!arg.empty()) na.push_back(arg);
		na.push_back(path);
		for (size_t k = 1; k < argv.size(); k++) na.push_back(argv[k]);
		argv = na;
		return exec_lookup(interp, argv, prog, exe, depth + 1);
	}
	return ENOEXEC;
}
static int do_exec(const ProcP &p, const string &path, vector<string> argv, const std::map<string, string> &env)
{
	string prog, exe;
	int e = exec_lookup(path, argv, prog, exe);
	if (e) return e;
	if (prog != "muon" && !os.natives.count(prog)) return ENOEXEC;
	// point of no return
	ProcP vp = p->vfork_parent;
	if (p->kind == PK_MUON && !vp) {
		heap_release(*p);
		if (globals_owner.lock() == p) globals_owner.reset();
	}
	for (auto it = p->fds.begin(); it != p->fds.end();) {
		if (it->second.cloexec)
			it = p->fds.erase(it);
		else
			++it;
	}
	p->files.clear();
	p->dirs.clear();
	p->atexits.clear();
	if (vp) {
		// the borrowed stack goes back to the parent (copied back by the scheduler)
		end_borrow(p);
		p->arena = -1;
	}
	p->globals.clear();
	p->prog = prog;
	p->argv = argv;
	p->exe = exe;
	p->env = env;
	p->kind = prog == "muon" ? PK_MUON : PK_NATIVE;
	p->nmain = p->kind == PK_NATIVE ? os.natives[prog] : nullptr;
	p->idle_polls = 0;
	p->start_time = os.now;
	new_coroutine(p);
	string cl;
	for (auto &a : argv) cl += (cl.empty() ? "" : " ") + a;
	os.hist("exec", path, cl, p->pid);
	if (os.trace && os.tracef) fprintf(os.tracef, "[%lld.%06lld] pid=%d exec %s\n", (long long)((os.now - os.boot) / 1000000000), (long long)((os.now - os.boot) / 1000 % 1000000), p->pid, cl.substr(0, 600).c_str());
	return 0;
}

// ---------------------------------------------------------------- fork/exec/wait/kill
static ProcP exec_pending_proc;
static SimExecReq exec_pending;
static ProcP fork_pending;

static ProcP clone_proc(const ProcP &p)
{
	ProcP c = std::make_shared<Proc>();
	c->pid = os.next_pid++;
	c->ppid = p->pid;
	c->prog = p->prog;
	c->argv = p->argv;
	c->exe = p->exe;
	c->fds = p->fds;
	c->cwd = p->cwd;
	c->env = p->env;
	c->umask = p->umask;
	c->prio = (int)os.srng.below(1000);
	c->start_time = os.now;
	os.procs[c->pid] = c;
	return c;
}
int k_fork()
{
	int e = k_enter(SY_FORK, false);
	if (e) return -e;
	ProcP p = os.cur;
	ProcP c = clone_proc(p);
	c->kind = p->kind;
	c->arena = p->arena;
	c->stack = p->stack;
	c->vfork_parent = p;
	stdio_on_fork(*p, *c);
	c->fork_ret = 0;
	p->fork_ret = c->pid;
	p->st = PS_VFORK;
	fork_pending = c;
	if (p->root) os.hist("fork", "", strf("%zu", p->fds.size()), c->pid);
	p.reset();
	c.reset();
	to_sched(); // returns twice: first as the child, later as the parent
	return os.cur->fork_ret;
}
int k_execve(const string &path, const vector<string> &argv, const std::map<string, string> &env)
{
	int e = k_enter(SY_EXEC, false, path.c_str());
	if (e) return -e;
	{
		vector<string> av = argv;
		string prog, exe;
		e = exec_lookup(path, av, prog, exe);
		if (e) return -e;
		if (prog != "muon" && !os.natives.count(prog)) return -ENOEXEC;
	}
	if (os.cur->kind == PK_NATIVE && !os.cur->vfork_parent) throw SimExecReq{ path, argv, env };
	exec_pending = SimExecReq{ path, argv, env };
	exec_pending_proc = os.cur;
	Ctx *c = &os.cur->ctx;
	sim_ctx_switch(c, &os.sched_ctx);
	abort();
}
int k_spawn(const string &path, const vector<string> &argv)
{
	int e = k_enter(SY_FORK, false);
	if (e) return -e;
	ProcP p = os.cur;
	{
		vector<string> av = argv;
		string prog, exe;
		e = exec_lookup(path, av, prog, exe);
		if (e) return -e;
		if (prog != "muon" && !os.natives.count(prog)) return -ENOEXEC;
	}
	ProcP c = clone_proc(p);
	e = do_exec(c, path, argv, p->env);
	if (e) {
		os.procs.erase(c->pid);
		return -e;
	}
	return c->pid;
}
int k_waitpid(int pid, int *st, int flags)
{
	int e = k_enter(SY_WAIT, false);
	if (e) return -e;
	for (;;) {
		bool any = false;
		for (auto &kv : os.procs) {
			ProcP c = kv.second;
			if (c->ppid != os.cur->pid || c->st == PS_DEAD) continue;
			if (pid > 0 && c->pid != pid) continue;
			any = true;
			if (c->st == PS_ZOMBIE) {
				if (st) *st = c->status;
				int r = c->pid;
				c->st = PS_DEAD;
				os.cur->idle_polls = 0;
				if (os.cur->root) os.hist("reap", strf("%x", c->status), "", r);
				return r;
			}
		}
		if (!any) return -ECHILD;
		if (flags & WNOHANG) {
			os.cur->idle_polls++;
			return 0;
		}
		int me = os.cur->pid;
		k_block([me, pid]() {
			bool any2 = false;
			for (auto &kv : os.procs) {
				Proc &c = *kv.second;
				if (c.ppid != me || c.st == PS_DEAD || (pid > 0 && c.pid != pid)) continue;
				any2 = true;
				if (c.st == PS_ZOMBIE) return true;
			}
			return !any2;
		});
	}
}
int k_kill(int pid, int sig)
{
	int e = k_enter(SY_KILL, false);
	if (e) return -e;
	if (pid <= 0) {
		os.hist("kill-group", strf("%d", pid), "", sig);
		return 0;
	}
	ProcP t = find_proc(pid);
	if (!t || t->st == PS_DEAD) return -ESRCH;
	os.hist("kill", strf("%d", pid), t->st == PS_ZOMBIE ? "zombie" : "", sig);
	if (sig == 0 || t->st == PS_ZOMBIE) return 0;
	if (sig == SIGTERM && t->ign_term) {
		os.probes["sigterm-ignored"]++;
		return 0;
	}
	if (t == os.cur)
		die_by_signal(sig);
	else
		kill_proc(t, sig);
	return 0;
}

// ---------------------------------------------------------------- entering the kernel
static void trace_sys(Sys s, const char *path, int err)
{
	if (!os.trace || !os.tracef) return;
	fprintf(os.tracef, "[%lld.%06lld] pid=%d %s %s%s", (long long)((os.now - os.boot) / 1000000000), (long long)((os.now - os.boot) / 1000 % 1000000), os.cur->pid, os.cur->prog.c_str(), sys_names[s], os.cur->kind == PK_MUON ? "*" : "");
	if (path) fprintf(os.tracef, " %s", path);
	if (err) fprintf(os.tracef, " INJECT errno=%d", err);
	fputc('\n', os.tracef);
}
// reads and writes of pipes do not fail with I/O errors: neither counted nor failed
static bool g_nofault;
int k_enter(Sys s, bool mut, const char *path, bool *tear)
{
	bool nofault = g_nofault;
	g_nofault = false;
	Os &o = os;
	ProcP p = o.cur;
	if (s != SY_MALLOC) {
		if (o.stop) to_sched();
		p->nsys++;
		o.tot_steps++;
		if (o.res) {
			o.res->steps++;
			if (o.res->steps > o.max_steps) {
				o.res->hang = true;
				o.stop = true;
				to_sched();
			}
		}
		if (s != SY_WAIT && s != SY_READ && s != SY_CLOCK) p->idle_polls = 0;
		o.now += 1000 + (i64)(mix64(o.tot_steps) % 15000);
		if (o.fp.delay_pct && (int)o.frng.below(1000) < o.fp.delay_pct) {
			o.now += (i64)o.frng.below((u64)o.fp.delay_max + 1);
			o.fault_count["scheduling-delay"]++;
		}
		o.evhash = (o.evhash ^ ((u64)s << 8) ^ (u64)p->pid) * 0x9E3779B97F4A7C15ull;
		o.evhash ^= o.evhash >> 31;
		if (path && s != SY_WRITE) o.evhash = hash_bytes(path, strlen(path), o.evhash);
	}
	if (o.res && p->kind == PK_MUON && !nofault) {
		o.res->sysn[s]++;
		if (p->root) o.res->sysr[s]++;
	}
	if (mut && o.res) {
		o.res->muts++;
		if (o.fp.kill_mut && (int)o.res->muts == o.fp.kill_mut) {
			if (tear && o.fp.kill_tear >= 0)
				*tear = true; // the caller writes a part, then calls us again through kill_now
			else {
				trace_sys(s, path, 0);
				if (o.trace && o.tracef) fprintf(o.tracef, "KILL here\n");
				o.res->killed = true;
				if (o.fp.kill_who == 'a') {
					o.fault_count["kill-all"]++;
					o.stop = true;
					to_sched();
				} else {
					o.fault_count["kill-root"]++;
					for (auto &kv : o.procs)
						if (kv.second->root) {
							ProcP r = kv.second;
							if (r == o.cur) {
								p.reset();
								r.reset();
								die_by_signal(SIGKILL);
							}
							kill_proc(r, SIGKILL);
							break;
						}
				}
			}
		}
	}
	int inj = 0;
	if (!o.fp.faults.empty() && o.res) {
		for (auto &f : o.fp.faults) {
			if (f.sys != s || nofault) continue;
			if (f.who == 'm' && p->kind != PK_MUON) continue;
			if (f.who == 'r' && !p->root) continue;
			if (f.who == 'n' && p->kind == PK_MUON) continue;
			if (!f.path.empty() && (!path || !strstr(path, f.path.c_str()))) continue;
			f.seen++;
			if (f.seen >= f.nth && (f.count == 0 || f.seen < f.nth + f.count)) {
				inj = f.err;
				f.fired++;
				string k = strf("%s-errno%d", sys_names[s], f.err);
				o.fault_count[k]++;
				o.res->faults_fired.push_back(k + (path ? string(":") + path : string()));
			}
		}
	}
	if (s != SY_MALLOC) {
		trace_sys(s, path, inj);
		p.reset();
		k_yield();
	} else if (inj)
		trace_sys(s, path, inj);
	return inj;
}
static void kill_now()
{
	os.res->killed = true;
	os.fault_count["kill-torn-write"]++;
	if (os.fp.kill_who == 'a') {
		os.stop = true;
		to_sched();
	} else {
		for (auto &kv : os.procs)
			if (kv.second->root) {
				ProcP r = kv.second;
				if (r == os.cur) {
					r.reset();
					die_by_signal(SIGKILL);
				}
				kill_proc(r, SIGKILL);
				break;
			}
	}
}

// ---------------------------------------------------------------- file syscalls
static i64 mt() { return os.now / os.mtime_gran * os.mtime_gran; }
static bool room(i64 n, i64 &can)
{
	can = n;
	if (os.fp.disk_limit < 0) return true;
	i64 left = os.fp.disk_limit - (i64)os.fs.usage();
	if (left < 0) left = 0;
	if (n > left) {
		can = left;
		return false;
	}
	return true;
}
int k_open(const char *path, int flags, u32 mode)
{
	bool wr = (flags & O_ACCMODE) != O_RDONLY;
	int err = 0;
	// would this call change state?
	bool mut = false;
	if (wr && (flags & (O_CREAT | O_TRUNC))) {
		InodeP x = resolve(path, true, err);
		mut = !x || (x->type == N_FILE && !x->content().empty() && (flags & O_TRUNC));
	}
	int e = k_enter(wr ? SY_OPEN_W : SY_OPEN_R, mut, path);
	if (e) return -e;
	InodeP par;
	string last;
	InodeP i = resolve(path, !(flags & O_NOFOLLOW), err, &par, &last);
	if (!i) {
		if (!(flags & O_CREAT) || err != ENOENT || !par || last.empty()) return -(err ? err : ENOENT);
		if (par->type != N_DIR) return -ENOTDIR;
		i64 can;
		if (os.fp.disk_limit >= 0 && !room(1, can) && os.fp.disk_limit == 0) return -ENOSPC;
		i = os.fs.mk(N_FILE, mode & ~os.cur->umask & 0777);
		i->parent = par;
		add_ent(par, last, i);
	} else {
		if ((flags & O_CREAT) && (flags & O_EXCL)) return -EEXIST;
		if (i->type == N_LNK) return -ELOOP;
		if (i->type == N_DIR && wr) return -EISDIR;
		if ((flags & O_DIRECTORY) && i->type != N_DIR) return -ENOTDIR;
		if (i->type == N_FILE && wr && !(i->mode & 0222)) return -EACCES; // muon runs unprivileged here
		if (i->type == N_FILE && !wr && !(i->mode & 0444)) return -EACCES;
		if (i->type == N_FILE && (flags & O_TRUNC) && wr) {
			i->data = std::make_shared<string>();
			i->mtime = mt();
		}
	}
	OfdP o = std::make_shared<Ofd>();
	o->kind = i->type == N_DIR ? O_DIR_K : i->type == N_NULL ? O_NULL_K : O_FILE_K;
	o->ino = i;
	o->flags = flags;
	int fd = fd_alloc(o, 0, flags & O_CLOEXEC);
	return fd;
}
int k_close(int fd)
{
	int e = k_enter(SY_CLOSE, false);
	auto it = os.cur->fds.find(fd);
	if (it == os.cur->fds.end()) return -EBADF;
	os.cur->fds.erase(it);
	if (e) return -e;
	return 0;
}
i64 k_read(int fd, void *buf, size_t n)
{
	{
		auto it = os.cur->fds.find(fd);
		g_nofault = it != os.cur->fds.end() && it->second.o->kind == O_PIPE_R;
	}
	int e = k_enter(SY_READ, false);
	if (e) return -e;
	OfdP o = fd_get(fd);
	if (!o) return -EBADF;
	switch (o->kind) {
	case O_NULL_K: return 0;
	case O_DIR_K: return -EISDIR;
	case O_FILE_K: {
		if ((o->flags & O_ACCMODE) == O_WRONLY) return -EBADF;
		const string &d = o->ino->content();
		if (o->off >= d.size()) return 0;
		size_t k = std::min(n, (size_t)(d.size() - o->off));
		memcpy(buf, d.data() + o->off, k);
		o->off += k;
		os.cur->idle_polls = 0;
		return (i64)k;
	}
	case O_PIPE_R: {
		std::shared_ptr<Pipe> p = o->pipe;
		if (p->buf.empty()) {
			if (p->writers == 0) return 0;
			if (o->flags & O_NONBLOCK) {
				os.cur->idle_polls++;
				return -EAGAIN;
			}
			o.reset();
			k_block([p]() { return !p->buf.empty() || p->writers == 0; });
			if (p->buf.empty()) return 0;
		}
		size_t k = std::min(n, p->buf.size());
		if (k > 1 && os.fp.short_r && (int)os.frng.below(100) < os.fp.short_r) {
			k = 1 + os.frng.below(k - 1);
			os.fault_count["short-read"]++;
		}
		for (size_t i = 0; i < k; i++) ((char *)buf)[i] = p->buf[i];
		p->buf.erase(p->buf.begin(), p->buf.begin() + k);
		os.cur->idle_polls = 0;
		return (i64)k;
	}
	case O_SINK_K: return 0;
	default: return -EBADF;
	}
}
i64 k_write(int fd, const void *buf, size_t n)
{
	bool tear = false, isfile = false;
	{
		auto it = os.cur->fds.find(fd);
		isfile = it != os.cur->fds.end() && it->second.o->kind == O_FILE_K;
		g_nofault = it != os.cur->fds.end() && it->second.o->kind == O_PIPE_W;
	}
	char pth[512] = "";
	if (isfile && (!os.fp.faults.empty() || os.trace)) snprintf(pth, sizeof pth, "%s", inode_path(os.cur->fds[fd].o->ino).c_str());
	int e = k_enter(SY_WRITE, isfile && n > 0, *pth ? pth : nullptr, isfile ? &tear : nullptr);
	OfdP o = fd_get(fd);
	if (e) {
		// an injected error may come after a part was written, as on a real disk
		if (!(isfile && e == ENOSPC && n > 1 && os.frng.chance(0.5))) return -e;
	}
	if (!o) return -EBADF;
	switch (o->kind) {
	case O_NULL_K: return (i64)n;
	case O_SINK_K:
		o->sink->data.append((const char *)buf, n);
		os.evhash = hash_bytes(buf, n, os.evhash);
		return (i64)n;
	case O_FILE_K: {
		if ((o->flags & O_ACCMODE) == O_RDONLY) return -EBADF;
		size_t k = n;
		if (e) k = 1 + os.frng.below(n - 1);
		i64 can;
		if (!room((i64)k, can)) {
			os.fault_count["disk-full"]++;
			if (os.res) os.res->faults_fired.push_back("disk-full");
			if (can == 0) return -ENOSPC;
			k = (size_t)can;
		}
		if (!e && k > 1 && os.fp.short_w && (int)os.frng.below(100) < os.fp.short_w) {
			k = 1 + os.frng.below(k - 1);
			os.fault_count["short-write"]++;
		}
		if (tear) k = (size_t)((double)k * os.fp.kill_tear);
		string &d = o->ino->wr();
		if (o->flags & O_APPEND) o->off = d.size();
		if (o->off > d.size()) d.resize(o->off, 0);
		if (o->off + k > d.size()) d.resize(o->off + k);
		memcpy(&d[o->off], buf, k);
		o->off += k;
		o->ino->mtime = mt();
		os.evhash = hash_bytes(buf, k, os.evhash);
		if (tear) {
			o.reset();
			kill_now();
		}
		return (i64)k;
	}
	case O_PIPE_W: {
		std::shared_ptr<Pipe> p = o->pipe;
		o.reset(); // do not keep the write end alive while blocked
		size_t done = 0;
		const char *b = (const char *)buf;
		while (done < n) {
			if (p->readers == 0) {
				os.probes["sigpipe"]++;
				die_by_signal(SIGPIPE);
			}
			size_t space = p->cap > p->buf.size() ? p->cap - p->buf.size() : 0;
			size_t k = std::min(space, n - done);
			if (k == 0) {
				OfdP o2 = fd_get(fd);
				if (o2 && (o2->flags & O_NONBLOCK)) return done ? (i64)done : -EAGAIN;
				o2.reset();
				os.probes["pipe-full"]++;
				k_block([p]() { return p->buf.size() < p->cap || p->readers == 0; });
				continue;
			}
			p->buf.insert(p->buf.end(), b + done, b + done + k);
			done += k;
		}
		os.evhash = hash_bytes(buf, n, os.evhash);
		return (i64)done;
	}
	default: return -EBADF;
	}
}
i64 k_lseek(int fd, i64 off, int whence)
{
	int e = k_enter(SY_MISC, false);
	if (e) return -e;
	OfdP o = fd_get(fd);
	if (!o) return -EBADF;
	if (o->kind == O_NULL_K) return 0;
	if (o->kind != O_FILE_K && o->kind != O_DIR_K) return -ESPIPE;
	i64 b = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (i64)o->off : (i64)o->ino->content().size();
	if (b + off < 0) return -EINVAL;
	o->off = (u64)(b + off);
	return (i64)o->off;
}
int k_pipe(int fds[2])
{
	int e = k_enter(SY_PIPE, false);
	if (e) return -e;
	auto p = std::make_shared<Pipe>();
	p->cap = os.pipe_cap;
	OfdP r = std::make_shared<Ofd>(), w = std::make_shared<Ofd>();
	r->kind = O_PIPE_R;
	r->pipe = p;
	p->readers++;
	w->kind = O_PIPE_W;
	w->pipe = p;
	w->flags = O_WRONLY;
	p->writers++;
	int a = fd_alloc(r);
	if (a < 0) return a;
	int b = fd_alloc(w);
	if (b < 0) {
		os.cur->fds.erase(a);
		return b;
	}
	fds[0] = a;
	fds[1] = b;
	return 0;
}
int k_dup2(int a, int b)
{
	int e = k_enter(SY_DUP, false);
	if (e) return -e;
	OfdP o = fd_get(a);
	if (!o || b < 0) return -EBADF;
	if (a != b) os.cur->fds[b] = Fd{ o, false };
	return b;
}
int k_dup(int a, int min, bool cloexec)
{
	int e = k_enter(SY_DUP, false);
	if (e) return -e;
	OfdP o = fd_get(a);
	if (!o) return -EBADF;
	return fd_alloc(o, min, cloexec);
}
int fd_flags_get(int fd)
{
	OfdP o = fd_get(fd);
	return o ? o->flags : -EBADF;
}
int fd_flags_set(int fd, int fl)
{
	int e = k_enter(SY_FCNTL, false);
	if (e) return -e;
	OfdP o = fd_get(fd);
	if (!o) return -EBADF;
	o->flags = (o->flags & O_ACCMODE) | (fl & ~O_ACCMODE);
	return 0;
}
static void fill_stat(const InodeP &i, struct stat *st)
{
	memset(st, 0, sizeof *st);
	st->st_dev = 7;
	st->st_ino = i->ino;
	st->st_nlink = i->nlink;
	st->st_mode = i->mode | (i->type == N_DIR ? S_IFDIR : i->type == N_LNK ? S_IFLNK : i->type == N_FILE ? S_IFREG : S_IFCHR);
	st->st_uid = st->st_gid = 1000;
	st->st_size = i->type == N_DIR ? 4096 : (off_t)i->content().size();
	st->st_blksize = 4096;
	st->st_mtim.tv_sec = i->mtime / 1000000000;
	st->st_mtim.tv_nsec = i->mtime % 1000000000;
	st->st_atim = st->st_ctim = st->st_mtim;
}
int k_stat(const char *path, struct stat *st, bool follow, int dirfd)
{
	int e = k_enter(SY_STAT, false, path);
	if (e) return -e;
	(void)dirfd;
	int err = 0;
	InodeP i = resolve(path, follow, err);
	if (!i) return -(err ? err : ENOENT);
	fill_stat(i, st);
	return 0;
}
int k_fstat(int fd, struct stat *st)
{
	int e = k_enter(SY_STAT, false);
	if (e) return -e;
	OfdP o = fd_get(fd);
	if (!o) return -EBADF;
	if (o->ino)
		fill_stat(o->ino, st);
	else {
		memset(st, 0, sizeof *st);
		st->st_mode = S_IFIFO | 0600;
		st->st_blksize = 4096;
	}
	return 0;
}
int k_access(const char *path, int mode)
{
	int e = k_enter(SY_STAT, false, path);
	if (e) return -e;
	int err = 0;
	InodeP i = resolve(path, true, err);
	if (!i) return -(err ? err : ENOENT);
	if ((mode & X_OK) && !(i->mode & 0111)) return -EACCES;
	if ((mode & W_OK) && !(i->mode & 0222)) return -EACCES;
	if ((mode & R_OK) && !(i->mode & 0444)) return -EACCES;
	return 0;
}
int k_mkdir(const char *path, u32 mode)
{
	int err = 0;
	InodeP par;
	string last;
	string p = path;
	while (p.size() > 1 && p.back() == '/') p.pop_back();
	InodeP pre = resolve(p, true, err);
	int e = k_enter(SY_MKDIR, !pre, path);
	if (e) return -e;
	InodeP i = resolve(p, true, err, &par, &last);
	if (i) return -EEXIST;
	if (err != ENOENT || !par || last.empty()) return -(err ? err : ENOENT);
	if (os.fp.disk_limit == 0) return -ENOSPC;
	InodeP n = os.fs.mk(N_DIR, mode & ~os.cur->umask & 0777);
	add_ent(par, last, n);
	return 0;
}
int k_unlink(const char *path, bool dir, bool file)
{
	int e = k_enter(SY_UNLINK, true, path);
	if (e) return -e;
	int err = 0;
	InodeP par;
	string last;
	InodeP i = resolve(path, false, err, &par, &last);
	if (!i) return -(err ? err : ENOENT);
	if (i->type == N_DIR) {
		if (!dir) return -EISDIR;
		if (!i->ents.empty()) return -ENOTEMPTY;
		if (last.empty()) return -EINVAL;
	} else if (!file)
		return -ENOTDIR;
	par->ents.erase(last);
	par->mtime = mt();
	i->nlink--;
	return 0;
}
int k_rename(const char *a, const char *b)
{
	int e = k_enter(SY_RENAME, true, b);
	if (e) return -e;
	int err = 0;
	InodeP pa, pb;
	string la, lb;
	InodeP i = resolve(a, false, err, &pa, &la);
	if (!i) return -(err ? err : ENOENT);
	InodeP j = resolve(b, false, err, &pb, &lb);
	if (!j && (err != ENOENT || !pb || lb.empty())) return -(err ? err : ENOENT);
	if (j && j == i) return 0;
	if (j) {
		if (j->type == N_DIR && i->type != N_DIR) return -EISDIR;
		if (i->type == N_DIR && j->type != N_DIR) return -ENOTDIR;
		if (j->type == N_DIR && !j->ents.empty()) return -ENOTEMPTY;
	}
	pa->ents.erase(la);
	add_ent(pb, lb, i);
	pa->mtime = mt();
	return 0;
}
int k_chmod(const char *path, u32 mode, bool follow)
{
	int e = k_enter(SY_CHMOD, true, path);
	if (e) return -e;
	int err = 0;
	InodeP i = resolve(path, follow, err);
	if (!i) return -(err ? err : ENOENT);
	if (i->type == N_LNK) return -EOPNOTSUPP;
	i->mode = mode & 07777;
	return 0;
}
int k_fchmod(int fd, u32 mode)
{
	int e = k_enter(SY_CHMOD, true);
	if (e) return -e;
	OfdP o = fd_get(fd);
	if (!o || !o->ino) return -EBADF;
	o->ino->mode = mode & 07777;
	return 0;
}
int k_symlink(const char *target, const char *path)
{
	int e = k_enter(SY_SYMLINK, true, path);
	if (e) return -e;
	int err = 0;
	InodeP par;
	string last;
	InodeP i = resolve(path, false, err, &par, &last);
	if (i) return -EEXIST;
	if (err != ENOENT || !par || last.empty()) return -(err ? err : ENOENT);
	InodeP n = os.fs.mk(N_LNK, 0777);
	n->data = std::make_shared<string>(target);
	n->parent = par;
	add_ent(par, last, n);
	return 0;
}
int k_link(const char *a, const char *b)
{
	int e = k_enter(SY_SYMLINK, true, b);
	if (e) return -e;
	int err = 0;
	InodeP s = resolve(a, false, err);
	if (!s) return -(err ? err : ENOENT);
	InodeP par;
	string last;
	InodeP i = resolve(b, false, err, &par, &last);
	if (i) return -EEXIST;
	if (err != ENOENT || !par || last.empty()) return -(err ? err : ENOENT);
	s->nlink++;
	add_ent(par, last, s);
	return 0;
}
i64 k_readlink(const char *path, char *buf, size_t n)
{
	int e = k_enter(SY_READLINK, false, path);
	if (e) return -e;
	int err = 0;
	InodeP i = resolve(path, false, err);
	if (!i) return -(err ? err : ENOENT);
	if (i->type != N_LNK) return -EINVAL;
	size_t k = std::min(n, i->content().size());
	memcpy(buf, i->content().data(), k);
	return (i64)k;
}
int k_truncate(const char *path, i64 len)
{
	int e = k_enter(SY_TRUNC, true, path);
	if (e) return -e;
	int err = 0;
	InodeP i = resolve(path, true, err);
	if (!i) return -(err ? err : ENOENT);
	i->wr().resize((size_t)len);
	i->mtime = mt();
	return 0;
}
int k_ftruncate(int fd, i64 len)
{
	int e = k_enter(SY_TRUNC, true);
	if (e) return -e;
	OfdP o = fd_get(fd);
	if (!o || o->kind != O_FILE_K) return -EBADF;
	o->ino->wr().resize((size_t)len);
	o->ino->mtime = mt();
	return 0;
}
int k_utimens(const char *path, i64 ns)
{
	int e = k_enter(SY_CHMOD, true, path);
	if (e) return -e;
	int err = 0;
	InodeP i = resolve(path, true, err);
	if (!i) return -(err ? err : ENOENT);
	i->mtime = ns < 0 ? mt() : ns;
	return 0;
}
int k_chdir(const char *path)
{
	int e = k_enter(SY_CHDIR, false, path);
	if (e) return -e;
	int err = 0;
	InodeP i = resolve(path, true, err);
	if (!i) return -(err ? err : ENOENT);
	if (i->type != N_DIR) return -ENOTDIR;
	os.cur->cwd = i;
	return 0;
}
string k_getcwd() { return inode_path(os.cur->cwd); }
bool listdir(const string &path, vector<string> &out, vector<int> &types)
{
	int err = 0;
	InodeP i = resolve(path, true, err);
	if (!i || i->type != N_DIR) {
		errno = i ? ENOTDIR : err;
		return false;
	}
	vector<std::pair<u64, string>> v;
	for (auto &e : i->ents) v.push_back({ os.fp.dirorder ? mix64(hash_str(e.first) ^ os.dir_seed) : 0, e.first });
	std::sort(v.begin(), v.end());
	if (os.fp.dirorder && v.size() > 1) os.fault_count["dir-order"]++;
	for (auto &x : v) {
		out.push_back(x.second);
		types.push_back(i->ents[x.second]->type);
	}
	return true;
}

// ---------------------------------------------------------------- running a command
static char altstack[65536];
static u64 last_tick_steps;
static int same_ticks;
static volatile int in_muon_code() { return os.cur && os.cur->kind == PK_MUON; }
static void on_fault(int sig, siginfo_t *si, void *)
{
	if (!os.res || !in_muon_code()) {
		fprintf(stderr, "simos: harness fault signal %d addr %p cur=%s\n", sig, si->si_addr, os.cur ? os.cur->prog.c_str() : "-");
		_exit(3);
	}
	ProcP p = os.cur;
	bool so = p->stack && (char *)si->si_addr < p->stack->base + 4096 && (char *)si->si_addr > p->stack->base - 65536;
	k_crash("muon pid %d died of signal %d%s", p->pid, sig, so ? " (stack exhausted)" : sig == SIGSEGV && (uintptr_t)si->si_addr < 65536 ? " (null dereference)" : "");
	finish(p, sig);
	if (p->vfork_parent)
		p->pending_kill = -1;
	else {
		dead_stacks.push_back(p->stack);
		p->stack.reset();
	}
	p.reset();
	Ctx dummy;
	sim_ctx_switch(&dummy, &os.sched_ctx);
}
static void on_tick(int)
{
	if (!os.res || !in_muon_code()) {
		same_ticks = 0;
		return;
	}
	if (os.tot_steps != last_tick_steps) {
		last_tick_steps = os.tot_steps;
		same_ticks = 0;
		return;
	}
	if (++same_ticks < 8) return;
	same_ticks = 0;
	k_crash("muon pid %d: no system call for 8 CPU seconds (endless loop)", os.cur->pid);
	os.res->hang = true;
	os.stop = true;
	ProcP p = os.cur;
	finish(p, SIGKILL);
	if (p->vfork_parent)
		p->pending_kill = -1;
	else {
		dead_stacks.push_back(p->stack);
		p->stack.reset();
	}
	p.reset();
	Ctx dummy;
	sim_ctx_switch(&dummy, &os.sched_ctx);
}
static void install_handlers()
{
	static bool done;
	if (done) return;
	done = true;
	stack_t ss;
	memset(&ss, 0, sizeof ss);
	ss.ss_sp = altstack;
	ss.ss_size = sizeof altstack;
	sigaltstack(&ss, nullptr);
	struct sigaction sa;
	memset(&sa, 0, sizeof sa);
	sa.sa_sigaction = on_fault;
	sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
	for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL }) sigaction(s, &sa, nullptr);
	memset(&sa, 0, sizeof sa);
	sa.sa_handler = on_tick;
	sa.sa_flags = SA_ONSTACK | SA_NODEFER | SA_RESTART;
	sigaction(SIGVTALRM, &sa, nullptr);
	struct itimerval it;
	it.it_interval.tv_sec = 1;
	it.it_interval.tv_usec = 0;
	it.it_value = it.it_interval;
	setitimer(ITIMER_VIRTUAL, &it, nullptr);
}
void Os::reset(u64 sched_seed)
{
	install_handlers();
	if (pristine.empty()) pristine.assign(__start_mudata, __stop_mudata);
	procs.clear();
	cur.reset();
	dead_stacks.clear();
	fs = Vfs();
	now = 1700000000ll * 1000000000ll;
	boot = now;
	wall_off = 0;
	net.clear();
	git.clear();
	jobs.clear();
	ms_seed = 0;
	ms_max = 0;
	seq = 0;
	evhash = schedhash = 1469598103934665603ull;
	srng = Rng(sched_seed);
	frng = Rng(sched_seed ^ 0x77);
	fp = FaultPlan();
	next_pid = 100;
	tot_steps = 0;
	nchoices = 0;
	smode = SM_RANDOM;
	stick = 70;
	pipe_cap = 65536;
	stdio_buf = 4096;
	heap_fill = 0xA5;
	heap_seed = 0;
	dir_seed = 0;
	mtime_gran = 1;
	on_event = nullptr;
	jobs.clear();
	net.clear();
	git.clear();
	ms_seed = 0;
	ms_max = 0;
	ncpu = 4;
}
static OfdP sink_ofd(std::shared_ptr<Sink> s)
{
	OfdP o = std::make_shared<Ofd>();
	o->kind = O_SINK_K;
	o->sink = s;
	o->flags = O_WRONLY;
	return o;
}
RunResult Os::run(const vector<string> &argv, const string &cwd, const std::map<string, string> &env)
{
	RunResult R;
	res = &R;
	stop = false;
	procs.clear();
	dead_stacks.clear();
	cur.reset();
	fork_pending.reset();
	exec_pending_proc.reset();
	same_ticks = 0;
	auto so = std::make_shared<Sink>(), se = std::make_shared<Sink>();
	i64 t0 = now;
	u64 steps0 = tot_steps;
	(void)steps0;
	if (trace && tracef) {
		string cl;
		for (auto &a : argv) cl += " " + a;
		fprintf(tracef, "==== run%s (cwd %s)\n", cl.c_str(), cwd.c_str());
	}
	ProcP root = std::make_shared<Proc>();
	root->pid = next_pid++;
	root->root = true;
	root->cwd = fs.find(cwd);
	if (!root->cwd) root->cwd = fs.root;
	root->env = env;
	OfdP nul = std::make_shared<Ofd>();
	nul->kind = O_NULL_K;
	root->fds[0] = Fd{ nul };
	root->fds[1] = Fd{ sink_ofd(so) };
	root->fds[2] = Fd{ sink_ofd(se) };
	root->prio = 500;
	procs[root->pid] = root;
	cur = root;
	int e = do_exec(root, argv[0], argv, env);
	cur.reset();
	if (e) {
		R.status = 127 << 8;
		R.err = strf("simos: cannot exec %s: %s", argv[0].c_str(), strerror(e));
		res = nullptr;
		procs.clear();
		return R;
	}
	i64 root_end = -1;
	u64 root_steps = 0;
	while (!stop) {
		dead_stacks.clear();
		// reap dead entries
		for (auto it = procs.begin(); it != procs.end();) {
			Proc &p = *it->second;
			if (p.vfork_parent && (p.st == PS_ZOMBIE || p.st == PS_DEAD)) end_borrow(it->second);
			if (p.st == PS_DEAD && !p.root)
				it = procs.erase(it);
			else
				++it;
		}
		if (root->st == PS_ZOMBIE || root->st == PS_DEAD) {
			bool alive = false, muons = false;
			for (auto &kv : procs)
				if (kv.second != root && kv.second->st != PS_ZOMBIE && kv.second->st != PS_DEAD) alive = true, muons = muons || kv.second->kind == PK_MUON;
			if (!alive) break;
			// programs that outlive the command and never end are abandoned, unless muon waits for them
			if (root_end < 0) root_end = now, root_steps = R.steps;
			if (!muons && (now - root_end > 3ll * 3600 * 1000000000 || R.steps - root_steps > 20000)) break;
		}
		ProcP n;
		if (fork_pending) {
			// the child runs on the parent's image
			ProcP c = fork_pending;
			fork_pending.reset();
			ProcP p = c->vfork_parent;
			globals_in(p);
			char *sp = (char *)p->ctx.sp;
			p->vsave_stack.assign(sp, p->stack->top());
			p->vsave_globals.assign(__start_mudata, __stop_mudata);
			c->ctx = p->ctx;
			c->saved_errno = p->saved_errno;
			p->globals = p->vsave_globals;
			globals_owner = c;
			n = c;
		} else if (exec_pending_proc) {
			ProcP p = exec_pending_proc;
			exec_pending_proc.reset();
			cur = p;
			SimExecReq r = exec_pending;
			int err = do_exec(p, r.path, r.argv, r.env);
			cur.reset();
			if (err) {
				fprintf(stderr, "simos: exec failed late\n");
				_exit(3);
			}
			continue;
		} else
			n = pick();
		if (!n) {
			R.deadlock = true;
			break;
		}
		cur = n;
		if (n->kind == PK_MUON) {
			globals_in(n);
			libc_switch_in(*n);
		}
		n->st = PS_READY;
		ProcP keep = n;
		Ctx *to = &keep->ctx;
		sim_ctx_switch(&sched_ctx, to);
		if (keep->kind == PK_MUON) libc_switch_out(*keep);
		cur.reset();
	}
	R.status = root->status;
	if (root->st != PS_ZOMBIE && root->st != PS_DEAD) R.status = SIGKILL;
	if (R.killed && fp.kill_who == 'a') R.status = SIGKILL;
	// abandon whatever is left
	stop = true;
	for (int pass = 0; pass < 3; pass++) {
		vector<ProcP> all;
		for (auto &kv : procs) all.push_back(kv.second);
		for (auto &p : all)
			if (p->st != PS_ZOMBIE && p->st != PS_DEAD && (pass > 0 || p->vfork_parent)) {
				cur.reset();
				kill_proc(p, SIGKILL);
			}
	}
	for (auto &kv : procs) kv.second->vfork_parent.reset();
	procs.clear();
	dead_stacks.clear();
	globals_owner.reset();
	R.out = so->data;
	R.err = se->data;
	R.dur = now - t0;
	res = nullptr;
	stop = false;
	return R;
}
} // namespace sim
