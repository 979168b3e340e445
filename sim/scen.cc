#include "scen.h"
#include <algorithm>
#include <cstdlib>
#include <sys/wait.h>
namespace sim {
string Plan::text() const
{
	string t = "plan 1\nscen " + scen + "\n";
	for (auto &kv : hdr) t += "hdr " + kv.first + " " + kv.second + "\n";
	for (auto &l : lines) t += l + "\n";
	return t;
}
bool Plan::parse(const string &t, Plan &p)
{
	p = Plan();
	bool ok = false;
	for (auto &l : split(t, '\n')) {
		if (starts_with(l, "plan ")) {
			ok = true;
			continue;
		}
		if (starts_with(l, "#")) continue;
		if (starts_with(l, "scen ")) {
			p.scen = l.substr(5);
			continue;
		}
		if (starts_with(l, "hdr ")) {
			string r = l.substr(4);
			size_t s = r.find(' ');
			p.hdr[r.substr(0, s)] = s == string::npos ? "" : r.substr(s + 1);
			continue;
		}
		p.lines.push_back(l);
	}
	return ok;
}
Line::Line(const string &s)
{
	for (auto &t : split(s, ' ')) {
		size_t e = t.find('=');
		if (e != string::npos && e > 0 && t[0] != '-')
			kv[t.substr(0, e)] = t.substr(e + 1);
		else
			w.push_back(t);
	}
}
void parse_faults(const Line &l, FaultPlan &fp)
{
	fp = FaultPlan();
	fp.kill_mut = (int)l.num("kill");
	if (l.has("tear")) fp.kill_tear = atof(l.get("tear").c_str());
	if (l.has("who")) fp.kill_who = l.get("who")[0];
	if (l.has("disk")) fp.disk_limit = l.num("disk");
	if (l.has("sr")) fp.short_r = (int)l.num("sr");
	if (l.has("sw")) fp.short_w = (int)l.num("sw");
	if (l.has("fds")) fp.fd_limit = (int)l.num("fds");
	if (l.has("dirorder")) fp.dirorder = l.num("dirorder");
	if (l.has("delay")) {
		fp.delay_pct = (int)l.num("delay");
		fp.delay_max = (i64)l.num("delaymax", 20) * 1000000;
	}
	if (l.has("wall")) {
		fp.wall_pct = (int)l.num("wall");
		fp.wall_max = (i64)l.num("wallmax", 3600) * 1000000000;
	}
	for (auto &f : split(l.get("fault"), ';')) {
		auto p = split(f, ':');
		if (p.size() < 4) continue;
		Fault x;
		for (int i = 0; i < SY_COUNT; i++)
			if (p[0] == sys_names[i]) x.sys = i;
		x.nth = atoi(p[1].c_str());
		x.count = atoi(p[2].c_str());
		x.err = atoi(p[3].c_str());
		if (p.size() > 4) x.who = p[4][0];
		if (p.size() > 5) x.path = p[5];
		fp.faults.push_back(x);
	}
}
string fault_tokens(Rng &r, const OpStat &st, bool kill, const string &kinds)
{
	if (kill) {
		string f = strf(" kill=%d", 1 + (int)r.below(st.muts ? st.muts : 1));
		if (r.chance(.5)) f += strf(" tear=%.2f", r.unit());
		if (r.chance(.2)) f += " who=r";
		return f;
	}
	auto ks = split(kinds, ',');
	for (int tries = 0; tries < 20; tries++) {
		string k = ks[r.below(ks.size())];
		if (k == "disk") return strf(" disk=%d", (int)r.below(r.chance(.5) ? 300 : r.chance(.5) ? 3000 : 20000));
		if (k == "fds") return strf(" fds=%d", r.range(3, 12));
		int sy = -1;
		for (int i = 0; i < SY_COUNT; i++)
			if (k == sys_names[i]) sy = i;
		if (sy < 0) continue;
		bool root = r.chance(.5);
		int n = root ? st.sysr[sy] : st.sysn[sy];
		if (n <= 0) continue;
		vector<int> es;
		switch (sy) {
		case SY_OPEN_W: es = { ENOSPC, EACCES, EMFILE, EIO, ENOMEM }; break;
		case SY_OPEN_R: es = { EMFILE, EACCES, EIO, ENOMEM }; break;
		case SY_WRITE: es = { ENOSPC, EIO, EDQUOT }; break;
		case SY_FORK: es = { EAGAIN, ENOMEM }; break;
		case SY_PIPE: es = { EMFILE, ENFILE }; break;
		case SY_MKDIR: case SY_SYMLINK: case SY_RENAME: es = { ENOSPC, EACCES, EIO }; break;
		case SY_STAT: es = { EACCES, EIO, ENOMEM }; break;
		case SY_OPENDIR: es = { EMFILE, EACCES, ENOMEM }; break;
		case SY_EXEC: es = { ENOENT, E2BIG, ENOMEM, EACCES }; break;
		case SY_MALLOC: es = { ENOMEM }; break;
		case SY_CHMOD: es = { EPERM, EIO }; break;
		case SY_UNLINK: es = { EACCES, EIO, EBUSY }; break;
		default: es = { EIO }; break;
		}
		return strf(" fault=%s:%d:%d:%d:%c", k.c_str(), 1 + (int)r.below((u64)n), r.chance(.7) ? 1 : r.chance(.5) ? 0 : r.range(2, 4), r.pick(es), root ? 'r' : 'm');
	}
	return "";
}
string first_lines(const string &s, size_t n) { return s.size() <= n ? s : s.substr(0, n) + "..."; }
void Exec::begin()
{
	os.reset((u64)strtoull(plan.h("seed", "1").c_str(), nullptr, 10));
	string m = plan.h("sched", "random");
	os.smode = m == "sticky" ? SM_STICKY : m == "prio" ? SM_PRIO : m == "fifo" ? SM_FIFO : SM_RANDOM;
	os.stick = (int)plan.n("stick", 70);
	os.pipe_cap = (size_t)plan.n("pipecap", 65536);
	os.stdio_buf = (size_t)plan.n("stdio", 4096);
	os.ncpu = (int)plan.n("ncpu", 4);
	os.mtime_gran = plan.n("gran", 1);
	os.heap_fill = (unsigned char)plan.n("fill", 0xA5);
	os.heap_seed = (u64)plan.n("heapseed");
	os.dir_seed = (u64)plan.n("dirseed", 0);
	os.max_steps = (u64)plan.n("maxsteps", 2000000);
	os.probes.clear();
	os.fault_count.clear();
	base_fs();
}
void Exec::base_fs()
{
	Vfs &f = os.fs;
	for (auto d : { "/tmp", "/bin", "/usr/bin", "/usr/lib", "/lib", "/etc", "/home" }) f.mkdirs(d);
	f.root->ents["tmp"]->mode = 01777;
	f.mkdirs("/dev");
	InodeP n = f.mk(N_NULL, 0666);
	f.find("/dev")->ents["null"] = n;
	auto prog = [&](const string &path, const string &name) { f.write(path, "\x7fSIM:" + name + "\n", 0755); };
	prog("/usr/bin/muon", "muon");
	prog("/bin/sh", "sh");
	for (auto c : { "cc", "gcc", "c++", "g++" }) prog(string("/usr/bin/") + c, "cc");
	prog("/usr/bin/ar", "ar");
	prog("/usr/bin/ld", "ld");
	prog("/usr/bin/ld.bfd", "ld");
	for (auto u : { "true", "false", "echo", "cat", "cp", "touch", "rm", "mkdir", "sleep", "git", "patch", "sh" }) prog(string("/usr/bin/") + u, u);
	prog("/sim/prog", "prog");
	prog("/sim/job", "job");
}
std::map<string, string> Exec::env()
{
	return { { "PATH", "/usr/bin:/bin" }, { "HOME", "/home" }, { "LANG", "C" } };
}
RunResult Exec::run(int line, const Line &l, const vector<string> &argv, const string &cwd, const std::map<string, string> &e)
{
	u64 s = (u64)strtoull(l.get("s", "0").c_str(), nullptr, 10) ^ mix64((u64)strtoull(plan.h("seed", "1").c_str(), nullptr, 10));
	os.srng = Rng(s);
	os.frng = Rng(s ^ 0xfa);
	parse_faults(l, os.fp);
	if (os.dir_seed) os.fp.dirorder = true;
	if (os.fp.disk_limit >= 0) os.fp.disk_limit += (i64)os.fs.usage();
	RunResult r = os.run(argv, cwd, e);
	os.fp = FaultPlan();
	out.commands++;
	out.steps += r.steps;
	OpStat st;
	st.line = line;
	st.muts = r.muts;
	memcpy(st.sysr, r.sysr, sizeof st.sysr);
	memcpy(st.sysn, r.sysn, sizeof st.sysn);
	out.ops.push_back(st);
	os.now += 20000000 + (i64)(mix64(s) % 50000000); // time passes between commands
	os.now = os.now / 4000000 * 4000000 + 4000000;
	return r;
}
bool Exec::abnormal(const string &p, const RunResult &r, const string &what)
{
	if (r.crash) bad(p, "crash", what + ": " + r.crash_msg);
	else if (r.hang) bad(p, "hang", what + ": no end after " + strf("%llu", (unsigned long long)r.steps) + " system calls");
	else if (r.deadlock) bad(p, "deadlock", what + ": every process is blocked forever");
	return r.crash || r.hang || r.deadlock;
}
Outcome execute(const Plan &p)
{
	Exec x(p);
	Scenario *s = scenario(p.scen);
	if (!s) {
		x.out.note = "unknown scenario " + p.scen;
		return x.out;
	}
	x.begin();
	s->run(x);
	x.out.evhash = os.evhash;
	x.out.schedhash = os.schedhash;
	x.out.choices = os.nchoices;
	x.out.simtime = os.now - os.boot;
	x.out.faults = os.fault_count;
	x.out.probes = os.probes;
	return x.out;
}
string diff_files(const Vfs &a, const string &pa, const Vfs &b, const string &pb, const std::function<bool(const string &)> &skip)
{
	std::map<string, InodeP> A, B;
	a.list(pa, A);
	b.list(pb, B);
	for (auto &kv : A) {
		if (skip && skip(kv.first)) continue;
		auto it = B.find(kv.first);
		if (it == B.end()) return kv.first + " exists only in the first tree";
		if (kv.second->type != it->second->type) return kv.first + " has another type";
		if (kv.second->type != N_DIR && kv.second->content() != it->second->content()) {
			const string &x = kv.second->content(), &y = it->second->content();
			size_t i = 0;
			while (i < x.size() && i < y.size() && x[i] == y[i]) i++;
			size_t from = i > 40 ? i - 40 : 0;
			return kv.first + strf(" differs at byte %zu (sizes %zu, %zu): ", i, x.size(), y.size()) + "'" + x.substr(from, 100) + "' vs '" + y.substr(from, 100) + "'";
		}
		if (kv.second->mode != it->second->mode && kv.second->type != N_LNK) return kv.first + strf(" has mode %o vs %o", kv.second->mode, it->second->mode);
	}
	for (auto &kv : B)
		if (!A.count(kv.first) && !(skip && skip(kv.first))) return kv.first + " exists only in the second tree";
	return "";
}
} // namespace sim

namespace sim {
Scenario *scenario(const string &name)
{
	if (name == "graph") return scen_graph();
	if (name == "tests") return scen_tests();
	if (name == "proj") return scen_proj();
	if (name == "fmt") return scen_fmt();
	if (name == "wrap") return scen_wrap();
	return nullptr;
}
// which scenarios decide a property; the seed chooses one of them
string scen_for(const string &prop, u64 seed)
{
	static const std::map<string, vector<string>> m = {
		{ "C07", { "proj" } }, { "C08", { "proj" } }, { "C09", { "proj" } }, { "C10", { "proj" } }, { "C17", { "proj" } }, { "C21", { "proj" } },
		{ "C11", { "tests", "proj" } }, { "C12", { "graph", "tests" } },
		{ "C13", { "tests" } }, { "C14", { "tests" } }, { "C15", { "tests" } }, { "C16", { "tests" } },
		{ "C18", { "wrap" } }, { "C19", { "fmt" } }, { "C20", { "tests", "proj" } }, { "C22", { "graph", "tests", "proj", "fmt", "wrap" } },
	};
	auto i = m.find(prop);
	if (i == m.end()) return "graph";
	return i->second[mix64(seed ^ 0x5ce7) % i->second.size()];
}
} // namespace sim
