// simos: a deterministic simulated operating system (one real process, no real I/O).
#pragma once
#include <cerrno>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <sys/stat.h>

namespace sim {
using std::string;
using std::vector;
typedef int64_t i64;
typedef uint64_t u64;
typedef uint32_t u32;

// ---------------------------------------------------------------- randomness
static inline u64 mix64(u64 z)
{
	z += 0x9e3779b97f4a7c15ull;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
struct Rng {
	u64 s = 1;
	explicit Rng(u64 seed = 1) : s(mix64(seed ^ 0x5bd1e995u)) {}
	u64 next() { s += 0x9e3779b97f4a7c15ull; return mix64(s); }
	u64 below(u64 n) { return n ? next() % n : 0; }
	int range(int a, int b) { return a + (int)below((u64)(b - a + 1)); }
	bool chance(double p) { return (double)(next() >> 11) / 9007199254740992.0 < p; }
	double unit() { return (double)(next() >> 11) / 9007199254740992.0; }
	template <class T> const T &pick(const vector<T> &v) { return v[below(v.size())]; }
};
u64 hash_bytes(const void *p, size_t n, u64 h = 1469598103934665603ull);
static inline u64 hash_str(const string &s, u64 h = 1469598103934665603ull) { return hash_bytes(s.data(), s.size(), h); }
string hex64(u64 v);
string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
vector<string> split(const string &s, char c, bool keep_empty = false);
bool starts_with(const string &s, const string &p);
bool ends_with(const string &s, const string &p);
string replace_all(string s, const string &a, const string &b);

// ---------------------------------------------------------------- file system
struct Inode;
typedef std::shared_ptr<Inode> InodeP;
enum NodeType { N_FILE, N_DIR, N_LNK, N_NULL, N_TTY };
struct Inode {
	NodeType type = N_FILE;
	u32 ino = 0;
	u32 mode = 0644;
	u32 nlink = 1;
	i64 mtime = 0;
	std::shared_ptr<string> data; // file content or link target (copy on write)
	std::map<string, InodeP> ents; // directory entries
	std::weak_ptr<Inode> parent;
	const string &content() const { static const string e; return data ? *data : e; }
	string &wr() { if (!data) data = std::make_shared<string>(); else if (data.use_count() > 1) data = std::make_shared<string>(*data); return *data; }
};
struct Vfs {
	InodeP root;
	u32 next_ino = 2;
	u64 bytes = 0;
	Vfs();
	InodeP mk(NodeType t, u32 mode);
	// host-side (harness) helpers: absolute paths, never fault
	InodeP find(const string &path, bool follow = true) const;
	InodeP mkdirs(const string &path);
	InodeP write(const string &path, const string &content, u32 mode = 0644);
	bool exists(const string &p) const { return !!find(p, false); }
	bool read(const string &path, string &out) const;
	string get(const string &path) const { string s; read(path, s); return s; }
	void symlink(const string &path, const string &target);
	bool remove_all(const string &path);
	Vfs clone() const;
	// flatten a subtree: path -> description ("f<mode>:content", "l:target", "d<mode>")
	void list(const string &path, std::map<string, InodeP> &out, const string &rel = "") const;
	u64 usage() const;
};

// ---------------------------------------------------------------- processes
struct Pipe {
	std::deque<char> buf;
	size_t cap = 65536;
	int readers = 0, writers = 0;
};
enum OfdKind { O_FILE_K, O_DIR_K, O_PIPE_R, O_PIPE_W, O_NULL_K, O_SINK_K };
struct Sink { string data; };
struct Ofd {
	OfdKind kind;
	InodeP ino;
	u64 off = 0;
	int flags = 0;
	std::shared_ptr<Pipe> pipe;
	std::shared_ptr<Sink> sink;
	bool dev_tty = false;
	~Ofd();
};
typedef std::shared_ptr<Ofd> OfdP;
struct Fd { OfdP o; bool cloexec = false; };

enum PState { PS_READY, PS_BLOCKED, PS_SLEEP, PS_VFORK, PS_ZOMBIE, PS_DEAD };
enum PKind { PK_MUON, PK_NATIVE };
struct Stack;
struct SimFile;
struct SimDir;
struct Proc;
typedef std::shared_ptr<Proc> ProcP;
typedef int (*NativeMain)(const vector<string> &argv);
struct Ctx { void *sp = nullptr; };

struct Proc {
	int pid = 0, ppid = 0;
	PKind kind = PK_NATIVE;
	string prog; // program name (basename of exec'd path)
	vector<string> argv;
	PState st = PS_READY;
	std::function<bool()> pred; // when blocked
	i64 wake = 0;
	int status = 0; // wait status when zombie
	bool reaped = false;
	Ctx ctx;
	std::shared_ptr<Stack> stack;
	ProcP vfork_parent; // set while borrowing the parent's image
	vector<char> vsave_stack, vsave_globals;
	int fork_ret = 0;
	std::map<int, Fd> fds;
	InodeP cwd;
	std::map<string, string> env;
	// muon image
	vector<char> globals; // saved image when not current
	bool globals_live = false;
	int arena = -1;
	std::map<SimFile *, std::shared_ptr<SimFile>> files; // per-process stdio state, by handle
	std::map<void *, std::shared_ptr<SimDir>> dirs;
	vector<void (*)(void)> atexits;
	vector<char *> environ_mem;
	int saved_errno = 0;
	u64 nsys = 0;
	int idle_polls = 0;
	int prio = 0;
	bool ign_term = false;
	int pending_kill = 0; // native: raise at the next opportunity
	bool handling = false;
	NativeMain nmain = nullptr;
	string exe; // path of the executed image
	u32 umask = 022;
	bool root = false;
	i64 start_time = 0;
	int max_fds = 0;
	~Proc();
};
struct SimKill { int sig; };
struct SimExit { int code; };

// ---------------------------------------------------------------- faults
enum Sys {
	SY_OPEN_R, SY_OPEN_W, SY_READ, SY_WRITE, SY_CLOSE, SY_MKDIR, SY_UNLINK, SY_RENAME, SY_CHMOD, SY_SYMLINK,
	SY_STAT, SY_OPENDIR, SY_READDIR, SY_FORK, SY_PIPE, SY_EXEC, SY_WAIT, SY_SLEEP, SY_CLOCK, SY_CHDIR, SY_MALLOC,
	SY_DUP, SY_KILL, SY_MISC, SY_READLINK, SY_TRUNC, SY_NET, SY_FCNTL, SY_SYNC, SY_COUNT
};
extern const char *sys_names[];
struct Fault {
	int sys = -1; // which call
	int nth = 1; // 1-based among matching calls in this command
	int count = 1; // how many consecutive matching calls fail (0 = all from nth on)
	int err = 5;
	char who = 'm'; // 'm' muon processes, 'r' root muon only, 'n' native children, 'a' any
	string path; // optional path substring
	int seen = 0;
	int fired = 0;
};
struct FaultPlan {
	vector<Fault> faults;
	int kill_mut = 0; // kill everything before the n-th state-changing call (0 = never)
	double kill_tear = -1; // if that call is a write, first write this fraction
	char kill_who = 'a'; // 'a' whole process group, 'r' only the root process
	i64 disk_limit = -1; // total bytes
	int short_r = 0, short_w = 0; // percent of reads/writes made short
	int fd_limit = 1024;
	bool dirorder = false;
	int delay_pct = 0; // per-mille of steps at which the clock jumps
	i64 delay_max = 0;
	int wall_pct = 0; // percent of wall-clock reads at which the wall clock is set elsewhere
	i64 wall_max = 0;
};
enum SchedMode { SM_RANDOM, SM_STICKY, SM_PRIO, SM_FIFO };

struct HistEv { u64 seq; i64 t; int pid; string kind; string a, b; i64 n = 0; };

struct RunResult {
	int status = 0; // wait status
	bool killed = false; // by the kill plan
	bool hang = false; // step budget exceeded
	bool deadlock = false;
	bool crash = false; // memory fault / assertion / heap corruption inside muon
	string crash_msg;
	string out, err;
	vector<HistEv> hist;
	int orphans = 0; // children still alive when the root exited
	int zombies = 0; // children not reaped by the root when it exited
	int max_fds = 0;
	int leaked_fds = 0;
	u64 muts = 0; // number of state-changing calls
	u64 steps = 0;
	i64 dur = 0;
	int sysn[SY_COUNT] = { 0 }; // calls by muon processes
	int sysr[SY_COUNT] = { 0 }; // calls by the root process
	vector<string> faults_fired;
	int exit_code() const { return (status & 0x7f) ? 128 + (status & 0x7f) : (status >> 8) & 0xff; }
	bool ok() const { return !killed && !hang && !deadlock && !crash && status == 0; }
	bool abnormal() const { return hang || deadlock || crash; }
};

// behaviour of a simulated program instance, decided by the plan, not by the command line
struct JobSpec {
	int ms = 0; // duration
	int outn = 0, errn = 0; // bytes of output
	int chunk = 0; // 0: one write
	int exit = 0;
	int sig = 0;
	bool fail_late = false; // write outputs, then fail
	bool partial = false; // write half of the output, then fail
	int ec = 0; // closes stdout (1) or stderr (2) before the end
	bool bg = false; // a background process writes the second half
};
struct NetFile {
	string data;
	int mode = 0; // 0 ok, 1 cannot connect, 2 transport error after part, 3 silently truncated, 4 http error page, 5 corrupted
	double part = 0.5;
	int fails = 0; // >0: only the first n requests misbehave
};
struct Knobs {
	unsigned char heap_fill;
	u64 dir_seed, ms_seed, heap_seed;
	size_t stdio_buf;
	int ms_max;
};
struct Os {
	std::map<string, NetFile> net;
	std::map<string, std::map<string, std::map<string, string>>> git; // url -> revision -> path -> content
	std::map<string, JobSpec> jobs;
	u64 ms_seed = 0; // durations of compiler jobs and the like
	int ms_max = 0;
	Vfs fs;
	i64 now = 1700000000ll * 1000000000ll;
	i64 boot = 0;
	i64 wall_off = 0;
	i64 mtime_gran = 1;
	u64 seq = 0;
	u64 evhash = 1469598103934665603ull; // every event of every run
	u64 schedhash = 1469598103934665603ull; // scheduling choices only
	Rng srng; // scheduling
	Rng frng; // faults (short reads etc.)
	SchedMode smode = SM_RANDOM;
	int stick = 70;
	u64 max_steps = 3000000;
	size_t pipe_cap = 65536;
	size_t stdio_buf = 4096;
	unsigned char heap_fill = 0xA5;
	u64 dir_seed = 0;
	u64 heap_seed = 0; // order of the addresses malloc returns; 0: ascending
	FaultPlan fp;
	std::map<int, ProcP> procs;
	int next_pid = 100;
	ProcP cur;
	Ctx sched_ctx;
	RunResult *res = nullptr;
	bool stop = false; // end the current command now
	int nchoices = 0;
	u64 tot_steps = 0;
	std::map<string, u64> fault_count; // kinds that actually fired
	std::map<string, u64> probes;
	bool trace = false;
	FILE *tracef = nullptr;
	int ncpu = 4;
	std::map<string, NativeMain> natives;
	std::function<void(HistEv &)> on_event;

	void reset(u64 sched_seed);
	RunResult run(const vector<string> &argv, const string &cwd, const std::map<string, string> &env);
	void hist(const string &kind, const string &a = "", const string &b = "", i64 n = 0);
	void tick_time(i64 ns) { now += ns; }
	Knobs fill_knobs() const { return { heap_fill, dir_seed, ms_seed, heap_seed, stdio_buf, ms_max }; }
	void set_knobs(const Knobs &k) { heap_fill = k.heap_fill, dir_seed = k.dir_seed, ms_seed = k.ms_seed, heap_seed = k.heap_seed, stdio_buf = k.stdio_buf, ms_max = k.ms_max; }
};
extern Os os;

// kernel entry points (used by the libc layer and by native programs)
int k_enter(Sys s, bool mut, const char *path = nullptr, bool *tear = nullptr);
void k_yield();
void k_block(const std::function<bool()> &pred);
int k_open(const char *path, int flags, u32 mode);
int k_close(int fd);
i64 k_read(int fd, void *buf, size_t n);
i64 k_write(int fd, const void *buf, size_t n);
i64 k_lseek(int fd, i64 off, int whence);
int k_pipe(int fds[2]);
int k_dup2(int a, int b);
int k_dup(int a, int min, bool cloexec);
int k_stat(const char *path, struct stat *st, bool follow, int dirfd = -100);
int k_fstat(int fd, struct stat *st);
int k_access(const char *path, int mode);
int k_mkdir(const char *path, u32 mode);
int k_unlink(const char *path, bool dir, bool file);
int k_rename(const char *a, const char *b);
int k_chmod(const char *path, u32 mode, bool follow);
int k_fchmod(int fd, u32 mode);
int k_symlink(const char *target, const char *path);
int k_link(const char *a, const char *b);
i64 k_readlink(const char *path, char *buf, size_t n);
int k_truncate(const char *path, i64 len);
int k_ftruncate(int fd, i64 len);
int k_utimens(const char *path, i64 ns);
int k_chdir(const char *path);
string k_getcwd();
int k_fork();
int k_execve(const string &path, const vector<string> &argv, const std::map<string, string> &env);
[[noreturn]] void k_exit(int status);
int k_waitpid(int pid, int *st, int flags);
int k_kill(int pid, int sig);
void k_sleep(i64 ns);
i64 k_clock(bool mono);
int k_spawn(const string &path, const vector<string> &argv); // native helper: fork+exec
void k_crash(const char *fmt, ...); // the current muon process did something illegal
int fd_flags_get(int fd);
int fd_flags_set(int fd, int fl);
OfdP fd_get(int fd);
bool listdir(const string &path, vector<string> &out, vector<int> &types);
string inode_path(InodeP i);
InodeP resolve(const string &path, bool follow, int &err, InodeP *parent = nullptr, string *last = nullptr);
void stdio_on_fork(Proc &parent, Proc &child);
void stdio_flush_all(Proc &p);
void heap_reset(Proc &p);
void heap_release(Proc &p);
void heap_check(Proc &p);
void libc_start(Proc &p); // set up environ, stdio for a fresh muon image
void libc_switch_in(Proc &p);
void libc_switch_out(Proc &p);
void register_programs();
string norm_abs(const string &p, const string &cwd);
} // namespace sim
