// driver: seeded search, gates, minimisation, replay, evidence
#include "scen.h"
#include <algorithm>
#include <csignal>
#include <cstdlib>
#include <ctime>
#include <fcntl.h>
#include <fstream>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>
#include <poll.h>
using namespace sim;

static double wall()
{
	struct timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return (double)t.tv_sec + (double)t.tv_nsec / 1e9;
}
static bool rd(const string &p, string &o)
{
	std::ifstream f(p, std::ios::binary);
	if (!f) return false;
	std::stringstream s;
	s << f.rdbuf();
	o = s.str();
	return true;
}
static void wr(const string &p, const string &d)
{
	std::ofstream f(p, std::ios::binary | std::ios::trunc);
	f << d;
}
static string jesc(const string &s)
{
	string r = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') r += '\\', r += (char)c;
		else if (c == '\n') r += "\\n";
		else if (c < 32 || c > 126) r += strf("\\u%04x", c);
		else r += (char)c;
	}
	return r + "\"";
}
struct Known {
	string prop, cls, sub, what, plan_sub, plan;
	bool matches(const Violation &v, const string &plan) const
	{
		return prop == v.prop && (cls.empty() || cls == v.cls) && (sub.empty() || v.msg.find(sub) != string::npos) && (plan_sub.empty() || plan.find(plan_sub) != string::npos);
	}
};
static vector<Known> load_known(const string &f)
{
	// known: property=ID class=CLS match="substring of the message" | what fails
	vector<Known> r;
	string t;
	if (f.empty() || !rd(f, t)) return r;
	for (auto &l : split(t, '\n')) {
		if (!starts_with(l, "known: ")) continue;
		Known k;
		size_t bar = l.find(" | ");
		string head = l.substr(7, bar == string::npos ? string::npos : bar - 7);
		k.what = bar == string::npos ? "" : l.substr(bar + 3);
		auto val = [&](const string &key) {
			size_t p = head.find(key + "=");
			if (p == string::npos) return string();
			p += key.size() + 1;
			if (p < head.size() && head[p] == '"') {
				size_t e = head.find('"', p + 1);
				return head.substr(p + 1, e - p - 1);
			}
			size_t e = head.find(' ', p);
			return head.substr(p, e == string::npos ? string::npos : e - p);
		};
		k.prop = val("property");
		k.cls = val("class");
		k.sub = val("match");
		k.plan = val("plan");
		r.push_back(k);
	}
	return r;
}

// ---- execution in a forked child, result over a pipe
struct Small {
	bool died = false; // the harness itself died
	u64 evhash = 0, schedhash = 0;
	vector<Violation> v;
	string note;
};
static string enc(const string &s) { return replace_all(replace_all(s, "%", "%25"), "\n", "%0a"); }
static string dec(const string &s) { return replace_all(replace_all(s, "%0a", "\n"), "%25", "%"); }
static Small run_forked(const Plan &p, double limit = 60)
{
	Small r;
	int fd[2];
	if (pipe(fd)) abort();
	pid_t c = fork();
	if (c == 0) {
		close(fd[0]);
		Outcome o = execute(p);
		string t = strf("H %llu %llu\n", (unsigned long long)o.evhash, (unsigned long long)o.schedhash);
		for (auto &v : o.v) t += "V " + v.prop + " " + v.cls + " " + enc(v.msg) + "\n";
		if (!o.note.empty()) t += "N " + enc(o.note) + "\n";
		t += "END\n";
		size_t i = 0;
		while (i < t.size()) {
			ssize_t w = write(fd[1], t.data() + i, t.size() - i);
			if (w <= 0) break;
			i += (size_t)w;
		}
		_exit(0);
	}
	close(fd[1]);
	string t;
	char buf[65536];
	double end = wall() + limit;
	for (;;) {
		struct pollfd pf = { fd[0], POLLIN, 0 };
		double left = end - wall();
		if (left <= 0 || poll(&pf, 1, (int)(left * 1000) + 1) <= 0) {
			kill(c, SIGKILL);
			break;
		}
		ssize_t n = read(fd[0], buf, sizeof buf);
		if (n <= 0) break;
		t.append(buf, (size_t)n);
	}
	close(fd[0]);
	int st;
	waitpid(c, &st, 0);
	r.died = !ends_with(t, "END\n");
	for (auto &l : split(t, '\n')) {
		if (l[0] == 'H') sscanf(l.c_str(), "H %llu %llu", (unsigned long long *)&r.evhash, (unsigned long long *)&r.schedhash);
		if (l[0] == 'N') r.note = dec(l.substr(2));
		if (l[0] == 'V') {
			auto w = split(l, ' ');
			if (w.size() >= 3) {
				size_t pos = 3 + w[1].size() + w[2].size();
				r.v.push_back({ w[1], w[2], dec(l.substr(std::min(l.size(), pos + 1))) });
			}
		}
	}
	return r;
}
static const Violation *pick_v(const vector<Violation> &v, const string &prop, const vector<Known> &known, const string &plan, const string &cls = "")
{
	for (auto &x : v) {
		if (x.prop != prop) continue;
		if (!cls.empty() && x.cls != cls) continue;
		bool k = false;
		for (auto &kn : known)
			if (kn.matches(x, plan)) k = true;
		if (!k) return &x;
	}
	return nullptr;
}

// ---- minimisation: lines, then tokens, then header knobs; same property and class
static Plan minimise(Plan p, const string &prop, const string &cls, const vector<Known> &known, double secs, int &execs)
{
	double end = wall() + secs;
	auto fails = [&](const Plan &q) {
		execs++;
		Small s = run_forked(q, 20);
		return !s.died && s.note.empty() && pick_v(s.v, prop, known, q.text(), cls);
	};
	bool changed = true;
	while (changed && wall() < end) {
		changed = false;
		for (size_t chunk = std::max<size_t>(1, p.lines.size() / 2); chunk >= 1 && wall() < end; chunk /= 2) {
			for (size_t i = 0; i < p.lines.size() && wall() < end;) {
				Plan q = p;
				size_t n = std::min(chunk, p.lines.size() - i);
				q.lines.erase(q.lines.begin() + (long)i, q.lines.begin() + (long)(i + n));
				if (fails(q)) {
					p = q;
					changed = true;
				} else
					i += n;
			}
			if (chunk == 1) break;
		}
		for (size_t i = 0; i < p.lines.size() && wall() < end; i++) {
			auto toks = split(p.lines[i], ' ');
			for (size_t k = toks.size(); k-- > 1 && wall() < end;) {
				if (toks[k].find('=') == string::npos) continue;
				auto without = [&](const vector<string> &t) {
					string l;
					for (auto &s : t) l += (l.empty() ? "" : " ") + s;
					return l;
				};
				vector<string> t2 = toks;
				t2.erase(t2.begin() + (long)k);
				Plan q = p;
				q.lines[i] = without(t2);
				if (fails(q)) {
					p = q;
					toks = t2;
					changed = true;
					continue;
				}
				// shorten comma lists
				size_t e = toks[k].find('=');
				auto items = split(toks[k].substr(e + 1), ',');
				for (size_t m = items.size(); m-- > 0 && items.size() > 1 && wall() < end;) {
					auto it2 = items;
					it2.erase(it2.begin() + (long)m);
					string v;
					for (auto &s : it2) v += (v.empty() ? "" : ",") + s;
					t2 = toks;
					t2[k] = toks[k].substr(0, e + 1) + v;
					q = p;
					q.lines[i] = without(t2);
					if (fails(q)) {
						p = q;
						toks = t2;
						items = it2;
						changed = true;
					}
				}
			}
		}
		auto hd = p.hdr;
		for (auto &kv : hd) {
			if (kv.first == "prop" || kv.first == "seed" || wall() > end) continue;
			Plan q = p;
			q.hdr.erase(kv.first);
			if (fails(q)) {
				p = q;
				changed = true;
			}
		}
	}
	return p;
}

struct Stats {
	u64 runs = 0, nontrivial = 0, commands = 0, steps = 0, choices = 0, dup = 0;
	i64 simtime = 0;
	std::set<u64> ev, sched, ntev;
	std::map<string, u64> faults, probes, other;
	vector<string> samples;
	void save(const string &f) const
	{
		string t = strf("S %llu %llu %llu %llu %llu %lld %llu\n", (unsigned long long)runs, (unsigned long long)nontrivial, (unsigned long long)commands, (unsigned long long)steps, (unsigned long long)choices, (long long)simtime, (unsigned long long)dup);
		for (auto h : ev) t += strf("E %llu\n", (unsigned long long)h);
		for (auto h : sched) t += strf("C %llu\n", (unsigned long long)h);
		for (auto h : ntev) t += strf("T %llu\n", (unsigned long long)h);
		for (auto &kv : faults) t += "F " + strf("%llu ", (unsigned long long)kv.second) + kv.first + "\n";
		for (auto &kv : probes) t += "P " + strf("%llu ", (unsigned long long)kv.second) + kv.first + "\n";
		for (auto &kv : other) t += "O " + strf("%llu ", (unsigned long long)kv.second) + kv.first + "\n";
		for (auto &s : samples) t += "X " + enc(s) + "\n";
		wr(f, t);
	}
	void load(const string &f)
	{
		string t;
		rd(f, t);
		for (auto &l : split(t, '\n')) {
			unsigned long long a = 0, b = 0, c = 0, d = 0, e = 0, g = 0;
			long long s = 0;
			if (l[0] == 'S') {
				sscanf(l.c_str(), "S %llu %llu %llu %llu %llu %lld %llu", &a, &b, &c, &d, &e, &s, &g);
				runs += a, nontrivial += b, commands += c, steps += d, choices += e, simtime += s, dup += g;
			}
			if (strchr("ECT", l[0])) {
				a = strtoull(l.c_str() + 2, nullptr, 10);
				(l[0] == 'E' ? ev : l[0] == 'C' ? sched : ntev).insert(a);
			}
			if (strchr("FPO", l[0])) {
				char *q;
				a = strtoull(l.c_str() + 2, &q, 10);
				(l[0] == 'F' ? faults : l[0] == 'P' ? probes : other)[q + 1] += a;
			}
			if (l[0] == 'X' && samples.size() < 4) samples.push_back(dec(l.substr(2)));
		}
	}
};
static u64 seed_of(u64 base, u64 idx) { return mix64(base * 0x100000001b3ull + idx) >> 16; }

static u64 g_minruns; // go on until so many runs are done, up to g_hardend, on a slow machine
static double g_hardend;
static int worker(const string &prop, u64 base, int w, int W, u64 maxruns, double end, const string &tmp, const vector<Known> &known)
{
	Stats st;
	int rc = 0;
	u64 idx = (u64)w;
	string cur = tmp + strf("/cur.%d", w);
	for (; idx < maxruns && (wall() < end || (idx < g_minruns && wall() < g_hardend)); idx += (u64)W) {
		u64 seed = seed_of(base, idx);
		if (access((tmp + "/stop").c_str(), F_OK) == 0) break;
		wr(cur, strf("%llu %llu\n", (unsigned long long)idx, (unsigned long long)seed));
		Scenario *s = scenario(scen_for(prop, seed));
		Plan p = s->generate(seed, prop);
		Outcome o = execute(p);
		st.runs++;
		st.commands += (u64)o.commands;
		st.steps += o.steps;
		st.choices += (u64)o.choices;
		st.simtime += o.simtime;
		if (!st.ev.insert(o.evhash).second) st.dup++;
		st.sched.insert(o.schedhash);
		if (o.nontrivial) {
			st.nontrivial++;
			st.ntev.insert(o.evhash);
		}
		for (auto &kv : o.faults) st.faults[kv.first] += kv.second;
		for (auto &kv : o.probes) st.probes[kv.first] += kv.second;
		for (auto &v : o.v)
			if (v.prop != prop) {
				st.other[v.prop + "/" + v.cls]++;
				const char *want = getenv("SIM_OTHER"); // development: keep a plan of a class another property owns
				if (want && v.prop + "/" + v.cls == want) wr(tmp + strf("/other.%d.plan", w), "# " + v.msg.substr(0, v.msg.find('\n')) + "\n" + p.text());
			}
		if (st.samples.size() < 2 && idx < (u64)W * 2 && w < 2) st.samples.push_back(strf("seed %llu:\n", (unsigned long long)seed) + p.text());
		if (!o.note.empty()) {
			wr(tmp + strf("/err.%d", w), "harness note: " + o.note + strf(" (seed %llu)", (unsigned long long)seed));
			rc = 3;
			break;
		}
		for (auto &v : o.v)
			for (size_t i = 0; i < known.size(); i++)
				if (known[i].matches(v, p.text())) st.other[strf("known:%zu", i)]++;
		const Violation *v = pick_v(o.v, prop, known, p.text());
		if (v) {
			wr(tmp + strf("/viol.%d", w), p.text());
			wr(tmp + strf("/violmsg.%d", w), v->prop + "\n" + v->cls + "\n" + v->msg + "\n" + strf("%llu %llu\n", (unsigned long long)idx, (unsigned long long)o.evhash));
			wr(tmp + "/stop", "");
			rc = 1;
			break;
		}
		if (idx / (u64)W % 61 == 7) { // determinism: again, in this process
			Outcome o2 = execute(p);
			if (o2.evhash != o.evhash) {
				wr(tmp + strf("/err.%d", w), strf("nondeterminism: seed %llu gave two event logs\n", (unsigned long long)seed));
				wr(tmp + strf("/nondet.%d", w), p.text());
				rc = 3;
				break;
			}
			st.other["determinism-rechecks"]++;
		}
	}
	st.save(tmp + strf("/stats.%d.%d", w, (int)getpid()));
	unlink(cur.c_str());
	return rc;
}

int main(int argc, char **argv)
{
	register_programs();
	setvbuf(stdout, nullptr, _IOLBF, 0);
	string mode = argc > 1 ? argv[1] : "";
	if (mode == "gen" && argc >= 4) {
		u64 seed = strtoull(argv[3], nullptr, 10);
		if (argc > 4) seed = seed_of(seed, strtoull(argv[4], nullptr, 10));
		printf("%s", scenario(scen_for(argv[2], seed))->generate(seed, argv[2]).text().c_str());
		return 0;
	}
	if (mode == "exec" && argc >= 3) {
		string t;
		Plan p;
		if (!rd(argv[2], t) || !Plan::parse(t, p)) {
			fprintf(stderr, "cannot read plan\n");
			return 2;
		}
		if (getenv("SIM_TRACE")) os.trace = true, os.tracef = stderr;
		Outcome o = execute(p);
		for (auto &v : o.v) printf("violation %s/%s: %s\n", v.prop.c_str(), v.cls.c_str(), v.msg.c_str());
		for (auto &kv : o.faults) printf("fault %s: %llu\n", kv.first.c_str(), (unsigned long long)kv.second);
		printf("evhash %s schedhash %s commands %d steps %llu simtime %.3f s%s\n", hex64(o.evhash).c_str(), hex64(o.schedhash).c_str(), o.commands, (unsigned long long)o.steps, (double)o.simtime / 1e9, o.note.empty() ? "" : (" note " + o.note).c_str());
		return o.v.empty() ? 0 : 1;
	}
	if (mode == "hash" && argc >= 5) { // hash PROP BASE N: event hashes of N runs (determinism proof)
		u64 base = strtoull(argv[3], nullptr, 10), n = strtoull(argv[4], nullptr, 10), from = argc > 5 ? strtoull(argv[5], nullptr, 10) : 0, step = argc > 6 ? strtoull(argv[6], nullptr, 10) : 1;
		for (u64 i = from; i < n; i += step) {
			u64 seed = seed_of(base, i);
			Plan p = scenario(scen_for(argv[2], seed))->generate(seed, argv[2]);
			Outcome o = execute(p);
			printf("%llu %s %s %zu\n", (unsigned long long)i, hex64(hash_str(p.text())).c_str(), hex64(o.evhash).c_str(), o.v.size());
		}
		return 0;
	}
	// replay PLAN PROP [known]
	if (mode == "replay" && argc >= 4) {
		string t;
		Plan p;
		if (!rd(argv[2], t) || !Plan::parse(t, p)) return 2;
		auto known = load_known(argc > 4 ? argv[4] : "");
		Small s = run_forked(p);
		if (s.died) {
			fprintf(stderr, "the simulator died\n");
			return 2;
		}
		const Violation *v = pick_v(s.v, argv[3], known, p.text());
		printf("evhash %s\n", hex64(s.evhash).c_str());
		if (v) {
			printf("%s/%s: %s\n", v->prop.c_str(), v->cls.c_str(), v->msg.c_str());
			printf("VIOLATION property=%s replay=%s\n", argv[3], argv[2]);
			return 1;
		}
		printf("no violation of %s\n", argv[3]);
		return 0;
	}
	if (mode == "minimise" && argc >= 5) {
		string t;
		Plan p;
		if (!rd(argv[2], t) || !Plan::parse(t, p)) return 2;
		int ex = 0;
		Small s = run_forked(p);
		const Violation *v = pick_v(s.v, argv[3], {}, p.text());
		if (!v) return 2;
		printf("# %s/%s: %s\n", v->prop.c_str(), v->cls.c_str(), v->msg.c_str());
		Plan q = minimise(p, v->prop, v->cls, {}, atof(argv[4]), ex);
		printf("%s", q.text().c_str());
		return 0;
	}
	if (mode != "check") {
		fprintf(stderr, "usage: simrun check|replay|exec|gen|hash|minimise ...\n");
		return 2;
	}
	std::map<string, string> opt;
	for (int i = 2; i + 1 < argc; i += 2) opt[argv[i]] = argv[i + 1];
	string prop = opt["--prop"], tmp = opt["--tmp"], rdir = opt["--replays"], evf = opt["--evidence"];
	double secs = atof(opt["--secs"].c_str());
	u64 maxruns = strtoull(opt["--runs"].c_str(), nullptr, 10), base = strtoull(opt["--seed"].c_str(), nullptr, 10);
	int W = atoi(opt["--jobs"].c_str());
	if (W < 1) W = 8;
	string tier = opt["--tier"];
	auto known = load_known(opt["--known"]);
	double t0 = wall(), end = t0 + secs;
	g_minruns = strtoull(opt["--minruns"].c_str(), nullptr, 10);
	g_hardend = t0 + secs * 6;
	printf("VERIF_SEED=%llu property=%s tier=%s workers=%d\n", (unsigned long long)base, prop.c_str(), tier.c_str(), W);
	fflush(stdout);
	std::map<pid_t, int> kids;
	vector<pid_t> pids;
	for (int w = 0; w < W; w++) {
		pid_t c = fork();
		if (c == 0) {
			int rc = worker(prop, base, w, W, maxruns, end, tmp, known);
			_exit(rc);
		}
		kids[c] = w;
	}
	bool err = false;
	string errmsg;
	while (!kids.empty()) {
		int st;
		pid_t c = waitpid(-1, &st, WNOHANG);
		if (c == 0) {
			if (wall() > (g_minruns ? g_hardend : end) + 120) {
				for (auto &kv : kids) kill(kv.first, SIGKILL);
				errmsg = "a worker did not finish";
				for (auto &kv : kids) {
					string t;
					rd(tmp + strf("/cur.%d", kv.second), t);
					errmsg += " (index, seed " + t + ")";
				}
				err = true;
				end = wall() + 1e9;
			}
			usleep(20000);
			continue;
		}
		if (c < 0) break;
		int w = kids[c];
		kids.erase(c);
		if (WIFSIGNALED(st) || (WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 1)) {
			err = true;
			string t;
			if (!rd(tmp + strf("/err.%d", w), t)) {
				rd(tmp + strf("/cur.%d", w), t);
				t = strf("worker %d died (status %x) at index, seed ", w, st) + t;
			}
			errmsg += t;
			wr(tmp + "/stop", "");
		}
	}
	// gather
	Stats S;
	{
		FILE *ls = popen(("ls " + tmp + "/stats.* 2>/dev/null").c_str(), "r");
		char b[4096];
		while (ls && fgets(b, sizeof b, ls)) {
			string f = b;
			while (!f.empty() && f.back() == '\n') f.pop_back();
			S.load(f);
		}
		if (ls) pclose(ls);
	}
	double dt = wall() - t0;
	int result = 0;
	string vline;
	u64 best = ~0ull;
	int bw = -1;
	for (int w = 0; w < W; w++) {
		string t;
		if (rd(tmp + strf("/violmsg.%d", w), t)) {
			auto l = split(t, '\n');
			u64 idx = strtoull(l.back().c_str(), nullptr, 10);
			if (idx < best) best = idx, bw = w;
		}
	}
	string minplan;
	int execs = 0;
	if (bw >= 0) {
		string t, m;
		rd(tmp + strf("/viol.%d", bw), t);
		rd(tmp + strf("/violmsg.%d", bw), m);
		auto l = split(m, '\n');
		Plan p;
		Plan::parse(t, p);
		string cls = l[1];
		// gate: twice in fresh processes, same event hash, same class
		Small a = run_forked(p), b = run_forked(p);
		const Violation *va = pick_v(a.v, prop, known, t, cls), *vb = pick_v(b.v, prop, known, t, cls);
		if (a.died || b.died || !va || !vb || a.evhash != b.evhash) {
			fprintf(stderr, "gate: violation %s did not reproduce in a fresh process (index %llu): %s\n", cls.c_str(), (unsigned long long)best, l[2].c_str());
			wr(rdir + "/" + prop + "-unreproduced.plan", t);
			return 2;
		}
		Plan q = minimise(p, prop, cls, known, tier == "thorough" ? 180 : 60, execs);
		Small c = run_forked(q), d = run_forked(q);
		const Violation *vc = pick_v(c.v, prop, known, q.text(), cls);
		if (!vc || c.evhash != d.evhash) {
			q = p;
			c = a;
			vc = va;
		}
		string f = rdir + "/" + prop + "-" + hex64(hash_str(q.text())).substr(0, 12) + ".plan";
		string body = q.text();
		wr(f, "# property " + prop + ", class " + cls + "\n# " + replace_all(vc->msg, "\n", "\n# ") + strf("\n# event hash %s; VERIF_SEED %llu run index %llu; minimised from %zu to %zu plan lines with %d executions\n# replay: python3 check.py --replay %s %s\n", hex64(c.evhash).c_str(), (unsigned long long)base, (unsigned long long)best, p.lines.size(), q.lines.size(), execs, f.c_str(), prop.c_str()) + body);
		printf("%s/%s: %s\n", prop.c_str(), cls.c_str(), vc->msg.c_str());
		printf("minimised to %zu lines (%d executions):\n%s", q.lines.size(), execs, body.c_str());
		vline = "VIOLATION property=" + prop + " replay=" + f;
		minplan = body;
		result = 1;
	} else if (err) {
		fprintf(stderr, "check error: %s\n", errmsg.c_str());
		string nd;
		for (int w = 0; w < W; w++)
			if (rd(tmp + strf("/nondet.%d", w), nd)) wr(rdir + "/nondet.plan", nd);
		return 2;
	}
	if (S.runs == 0) {
		fprintf(stderr, "check error: nothing was run\n");
		return 2;
	}
	// a recorded defect is reported for as long as its committed plan still shows it
	for (auto &k : known) {
		if (k.prop != prop) continue;
		string t, dir = opt["--known"].substr(0, opt["--known"].rfind('/') + 1);
		bool there = k.plan.empty();
		Plan p;
		if (!there && rd(dir + k.plan, t) && Plan::parse(t, p))
			for (auto &v : run_forked(p).v)
				if (k.matches(v, t)) there = true;
		if (there) printf("KNOWN-FINDING: property=%s %s\n", prop.c_str(), k.what.c_str());
		else printf("listed finding no longer seen: property=%s class=%s (%s)\n", prop.c_str(), k.cls.c_str(), k.plan.c_str());
	}
	// evidence
	string js = "{\n";
	js += "\"property\": " + jesc(prop) + ",\n\"tier\": " + jesc(tier) + strf(",\n\"seed\": %llu,\n", (unsigned long long)base) + "\"level\": \"exploration\",\n";
	js += strf("\"wall_s\": %.2f,\n", dt);
	js += "\"coverage\": {\n";
	js += strf("  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %zu,\n", (unsigned long long)S.runs, S.ntev.size());
	js += "  \"rule\": \"One evaluation is one simulated run: a plan generated from (VERIF_SEED, index), i.e. a project, a history of edits and muon commands, a schedule seed per command and the faults, executed with muon's real code in the simulator. Non-trivial: at least one of muon's child jobs, tests or file operations that the property speaks about took place (see DESIGN.md per scenario). Distinct: different hash over the whole event log (system calls of all processes in order, with their results' effects).\",\n";
	js += strf("  \"simulated_commands\": %llu,\n  \"system_calls\": %llu,\n  \"scheduling_choices\": %llu,\n  \"simulated_seconds\": %.1f,\n", (unsigned long long)S.commands, (unsigned long long)S.steps, (unsigned long long)S.choices, (double)S.simtime / 1e9);
	js += strf("  \"runs_per_hour\": %.0f,\n  \"seeds_per_hour\": %.0f,\n", (double)S.runs / dt * 3600, (double)S.runs / dt * 3600);
	js += strf("  \"distinct_event_logs\": %zu,\n  \"distinct_schedules\": %zu,\n  \"distinct_schedules_measure\": \"hash of the sequence of processes chosen by the scheduler\",\n", S.ev.size(), S.sched.size());
	auto mapj = [&](const std::map<string, u64> &m, const string &pref = "") {
		string r = "{";
		bool f = true;
		for (auto &kv : m) {
			if (!pref.empty() && !starts_with(kv.first, pref)) continue;
			r += (f ? "" : ", ") + jesc(kv.first) + strf(": %llu", (unsigned long long)kv.second);
			f = false;
		}
		return r + "}";
	};
	js += "  \"faults_fired\": " + mapj(S.faults) + ",\n  \"probes\": " + mapj(S.probes) + ",\n";
	js += strf("  \"determinism_rechecks\": %llu,\n", (unsigned long long)S.other["determinism-rechecks"]);
	js += "  \"real_components\": \"all of muon's C sources of the posix configuration selected by src/**/meson.build (interpreter, ninja backend, samurai, run_cmd, filesystem, test, install, wrap, formatter, tiny-json), compiled from the working tree\",\n";
	js += "  \"stub_components\": \"libc and kernel (file system, processes, pipes, clock, allocator: simos), /bin/sh, cc, ar, git, patch and test programs (native simulated programs), libcurl and libarchive API\",\n";
	js += "  \"samples\": [";
	for (size_t i = 0; i < S.samples.size(); i++) js += (i ? ", " : "") + jesc(S.samples[i]);
	js += "]\n}";
	if (!minplan.empty()) js += ",\n\"violation\": " + jesc(minplan);
	js += "\n}\n";
	if (!evf.empty()) wr(evf, js);
	printf("%llu runs (%zu distinct non-trivial), %llu commands, %llu system calls, %.1f simulated s, %.1f s wall\n", (unsigned long long)S.runs, S.ntev.size(), (unsigned long long)S.commands, (unsigned long long)S.steps, (double)S.simtime / 1e9, dt);
	string fs;
	for (auto &kv : S.faults) fs += " " + kv.first + strf("=%llu", (unsigned long long)kv.second);
	if (!fs.empty()) printf("faults fired:%s\n", fs.c_str());
	if (opt.count("--verbose"))
		for (auto &kv : S.other) printf("other %s %llu\n", kv.first.c_str(), (unsigned long long)kv.second);
	if (result) printf("%s\n", vline.c_str());
	return result;
}
