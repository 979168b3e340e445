// S3: `muon test` on generated test suites: verdicts, timeouts, parallelism, fail-fast.
#include "scen.h"
#include <algorithm>
#include <cmath>
#include <cstdlib>
namespace sim {
namespace {
struct TBeh {
	int exit = 0, sig = 0, ms = 0, outn = 0, errn = 0, chunk = 0;
	bool hang = false, ign = false, flood = false;
	int bg = 0; // seconds a background child keeps the streams open
	string tapl;
	bool nonl = false; // the tap stream ends without a newline
};
struct TTest {
	string name;
	int proj = 0;
	bool exe = false, serial = false, sf = false, tap = false, dep = false, bench = false, verbose = false;
	int prio = 0, to = 0;
	bool has_to = false;
	vector<string> suites, args, eo, env; // env: K=V, set by the test
	bool wd = false, depargs = false;
	TBeh b;
	bool broken = false, gone = false;
};
struct TSetup {
	string name;
	int mult = 0;
	vector<string> excl;
	bool def = false, env = false, wrap = false;
};
enum Verdict { V_PASS, V_FAIL, V_SKIP, V_TIMEOUT, V_ANYOK, V_UNKNOWN };
TBeh parse_beh(const Line &l)
{
	TBeh b;
	b.exit = (int)l.num("exit");
	b.sig = (int)l.num("sig");
	b.ms = (int)l.num("ms");
	b.outn = (int)l.num("outn");
	b.errn = (int)l.num("errn");
	b.chunk = (int)l.num("chunk");
	b.hang = l.num("hang");
	b.ign = l.num("ign");
	b.flood = l.num("flood");
	b.bg = (int)l.num("bg");
	b.tapl = l.get("tapl");
	b.nonl = l.num("nonl");
	return b;
}
string tap_line(char c, int n)
{
	switch (c) {
	case 'o': return strf("ok %d - fine", n);
	case 'O': return "ok";
	case 'n': return strf("not ok %d - broken", n);
	case 's': return strf("ok %d # skip no reason", n);
	case 'k': return strf("ok %d - z # SKIP", n);
	case 'S': return strf("not ok %d # SKIP", n);
	case 't': return strf("not ok %d # TODO later", n);
	case 'T': return strf("ok %d - x # todo later", n);
	case 'K': return strf("not ok %d - q # tOdO", n);
	case 'd': return strf("ok %d - x # time=3ms", n);
	case 'D': return strf("not ok %d - x # flaky", n);
	case 'h': return strf("ok %d - see #12", n);
	case 'H': return strf("not ok %d - #todo, #skip", n);
	case 'B': return "Bail out! gone wrong";
	case 'c': return "# a comment";
	default: return "some noise";
	}
}
string script_of(const TTest &t)
{
	const TBeh &b = t.b;
	string s = "start " + t.name + "\n";
	if (b.ign) s += "ignterm\n";
	if (t.dep) s += "same /w/ct.in /w/build/ct.out\n";
	if (b.chunk) s += strf("chunk %d\n", b.chunk);
	if (b.bg) s += strf("bg %d\n", b.bg);
	if (b.outn) s += strf("outn %d %s\n", b.outn / 2, t.name.c_str());
	if (b.ms) s += strf("sleep %d\n", b.ms);
	if (!b.tapl.empty()) {
		int n = 0;
		vector<string> ls;
		for (auto &e : split(b.tapl, '.')) {
			if (e[0] == 'p') ls.push_back("1.." + e.substr(1));
			else
				for (char c : e) ls.push_back(tap_line(c, ++n));
		}
		for (size_t i = 0; i < ls.size(); i++) s += "out " + ls[i] + (b.nonl && i + 1 == ls.size() ? "\n" : "\\n\n");
	}
	if (b.errn) s += strf("errn %d %s\n", b.errn, t.name.c_str());
	if (b.outn) s += strf("outn %d %s\n", b.outn - b.outn / 2, t.name.c_str());
	if (b.flood) s += "flood\n";
	if (b.hang) s += "forever\n";
	if (b.sig) s += strf("signal %d\n", b.sig);
	s += strf("exit %d\n", b.exit);
	return s;
}
// What the protocol and the exit say, timeouts aside. known: a recorded defect of `muon test` that concerns this
// test (see known_findings.txt); the verdict is V_UNKNOWN then.
Verdict verdict(const TTest &t, int vv, string &known)
{
	Verdict v;
	const TBeh &b = t.b;
	known = "";
	if (b.sig) {
		if (t.sf) return V_UNKNOWN;
		v = V_FAIL;
	} else if (t.tap) {
		int n = 0, plan = -1;
		bool bad = false, allskip = true, ex = b.exit != 0;
		for (auto &e : split(b.tapl, '.')) {
			if (e[0] == 'p') {
				plan = atoi(e.c_str() + 1);
				continue;
			}
			for (char c : e) {
				if (strchr("oOnskStTKdDhH", c)) n++;
				if (strchr("nSTBDH", c)) bad = true;
				if (strchr("oOntKdDhH", c)) allskip = false;
			}
		}
		if (plan > 0 && plan != n) bad = true;
		if (plan == 0 && n) return V_UNKNOWN;
		if (vv >= 2) {
			if ((bad || ex) && !t.sf) known = "known-tap-vv";
			return V_UNKNOWN;
		}
		if (!bad && ex) {
			if (!t.sf) known = "known-tap-exit";
			return V_UNKNOWN;
		}
		v = bad ? V_FAIL : allskip ? V_ANYOK : V_PASS;
	} else if (b.exit == 0) v = V_PASS;
	else if (b.exit == 77) return t.sf ? V_UNKNOWN : V_SKIP;
	else {
		if (b.exit == 99 && t.sf) return V_UNKNOWN;
		v = V_FAIL;
	}
	if (t.sf) {
		if (v == V_PASS) known = "known-should-fail-pass";
		v = v == V_FAIL ? V_PASS : V_UNKNOWN;
	}
	return v;
}
string q(const string &s) { return "'" + s + "'"; }
struct TestScen : Scenario {
	Plan generate(u64 seed, const string &prop) override;
	void run(Exec &x) override;
};
struct TProj {
	vector<TTest> tests;
	vector<TSetup> setups;
	bool sub = false;
	int ctv = 1;
	bool extra_out = false;
	bool hasdep() const
	{
		for (auto &t : tests)
			if (t.dep) return true;
		return false;
	}
	string meson(int proj)
	{
		bool c = false, any = false;
		for (auto &t : tests)
			if (t.proj == proj) {
				any = true;
				if (t.exe) c = true;
			}
		(void)any;
		string m = "project(" + q(proj ? "sub1" : "top") + (c ? ", 'c'" : "") + ")\n";
		if (!proj && hasdep()) m += "ct = custom_target('ct', input: 'ct.in', output: 'ct.out', command: ['cp', '@INPUT@', '@OUTPUT@'])\n";
		if (!proj)
			for (auto &s : setups) {
				m += "add_test_setup(" + q(s.name);
				if (s.mult) m += strf(", timeout_multiplier: %d", s.mult);
				if (!s.excl.empty()) {
					m += ", exclude_suites: [";
					for (auto &e : s.excl) m += q(e) + ", ";
					m += "]";
				}
				if (s.def) m += ", is_default: true";
				if (s.env) m += ", env: ['T_SETUP=" + s.name + "']";
				if (s.wrap) m += ", exe_wrapper: [find_program('./wrap.prog'), 'w']";
				m += ")\n";
			}
		for (auto &t : tests) {
			if (t.proj != proj) continue;
			string exe = t.exe ? "executable(" + q("x" + t.name) + ", " + q(t.name + ".c") + (t.prio % 2 ? ", build_by_default: false" : "") + ")" : "find_program(" + q("./" + t.name + ".prog") + ")";
			m += string(t.bench ? "benchmark" : "test") + "(" + q(t.name) + ", " + exe;
			if (!t.suites.empty()) {
				m += ", suite: [";
				for (auto &s : t.suites) m += q(s) + ", ";
				m += "]";
			}
			if (t.serial && !t.bench) m += ", is_parallel: false";
			if (t.sf) m += ", should_fail: true";
			if (t.tap) m += ", protocol: 'tap'";
			if (t.prio) m += strf(", priority: %d", t.prio);
			if (t.has_to) m += strf(", timeout: %d", t.to);
			if (t.dep && !proj && !t.depargs) m += ", depends: ct";
			if (!t.args.empty() || (t.dep && t.depargs)) {
				m += ", args: [";
				if (t.dep && t.depargs) m += "ct, ";
				for (auto &a : t.args) m += a == "@f" ? "files('meson.build'), " : q(a) + ", ";
				m += "]";
			}
			if (!t.eo.empty()) {
				string e = "e_" + t.name + " = environment()\n";
				for (auto &o : t.eo) e += "e_" + t.name + (o[0] == 's' ? ".set" : o[0] == 'a' ? ".append" : ".prepend") + "('T_O', " + q(o.substr(1)) + ", separator: ':')\n";
				m.insert(m.rfind(string(t.bench ? "benchmark" : "test") + "("), e);
				m += ", env: e_" + t.name;
			} else if (!t.env.empty()) {
				m += ", env: [";
				for (auto &a : t.env) m += q(a) + ", ";
				m += "]";
			}
			if (t.wd) m += ", workdir: '/w/wd'";
			if (t.verbose && !t.bench) m += ", verbose: true"; // (muon: no such keyword for benchmarks)
			m += ")\n";
		}
		if (!proj && sub) m += "subproject('sub1')\n";
		return m;
	}
};
} // namespace

void TestScen::run(Exec &x)
{
	TProj P;
	Vfs &fs = os.fs;
	fs.mkdirs("/w");
	for (auto &ls : x.plan.lines) {
		Line l(ls);
		if (l.w.size() < 2) continue;
		if (l.w[0] == "t") {
			TTest t;
			t.name = l.w[1];
			bool dup = false;
			for (auto &u : P.tests)
				if (u.name == t.name) dup = true;
			if (dup) continue;
			t.proj = (int)l.num("proj");
			t.exe = l.num("exe");
			t.serial = l.num("serial");
			t.sf = l.num("sf");
			t.dep = l.num("dep") && !t.proj;
			t.bench = l.num("bench");
			t.verbose = l.num("verbose");
			t.prio = (int)l.num("prio");
			t.has_to = l.has("to");
			t.to = (int)l.num("to", 30);
			t.suites = split(l.get("suites"), ',');
			t.args = split(l.get("args"), ',');
			for (auto &a : t.args)
				if (starts_with(a, "@L")) a = string((size_t)atoi(a.c_str() + 2), 'l') + a.substr(2);
			for (auto &a : split(l.get("env"), ',')) t.env.push_back("T_" + a);
			t.eo = split(l.get("eo"), ','); // an environment object: s, a or p (set, append, prepend) and the value
			t.wd = l.num("wd");
			t.depargs = l.num("depargs");
			t.b = parse_beh(l);
			t.tap = !t.b.tapl.empty();
			P.tests.push_back(t);
		}
		if (l.w[0] == "setup") {
			TSetup s;
			s.name = l.w[1];
			s.mult = (int)l.num("mult");
			s.excl = split(l.get("excl"), ',');
			s.def = l.num("def");
			s.env = l.num("env");
			s.wrap = l.num("wrap");
			bool dup = false;
			for (auto &u : P.setups)
				if (u.name == s.name || (u.def && s.def)) dup = true;
			if (!dup) P.setups.push_back(s);
		}
	}
	for (auto &t : P.tests)
		if (t.proj) P.sub = true;
	int described = 0, description = 0; // the build description muon has last processed, the current one
	auto put = [&](const string &p, const string &c, u32 mode = 0644) {
		if (!fs.exists(p) || fs.get(p) != c) {
			fs.write(p, c, mode);
			if (p.find("meson.build") != string::npos) description++;
		}
	};
	auto flush = [&]() {
		put("/w/meson.build", P.meson(0));
		fs.mkdirs("/w/wd");
		put("/w/wrap.prog", "#!/sim/prog\nevent wrap\nexecargs 2\n", 0755);
		put("/w/ct.in", strf("version %d\n", P.ctv));
		if (P.sub) {
			fs.mkdirs("/w/subprojects/sub1");
			put("/w/subprojects/sub1/meson.build", P.meson(1));
		}
		for (auto &t : P.tests) {
			string dir = t.proj ? "/w/subprojects/sub1/" : "/w/";
			if (t.exe) {
				string s;
				if (t.broken) s += "#error told to\n";
				for (auto &l : split(script_of(t), '\n')) s += "//@ " + l + "\n";
				put(dir + t.name + ".c", s + "int main(void) { return 0; }\n");
			} else if (t.gone)
				fs.remove_all(dir + t.name + ".prog");
			else
				put(dir + t.name + ".prog", "#!/sim/prog\n" + script_of(t), 0755);
		}
	};
	bool damaged = false, have_setup = false, regen_unknown = false;
	std::map<string, string> saved;
	int ncmd = 0;
	for (size_t li = 0; li < x.plan.lines.size(); li++) {
		Line l(x.plan.lines[li]);
		if (l.w.size() < 2 || l.w[0] != "op") continue;
		string op = l.w[1], arg = l.w.size() > 2 ? l.w[2] : "";
		auto show = [&](const RunResult &r, const string &what) {
			if (!getenv("SIM_SHOW")) return;
			fprintf(stderr, "--- %s: exit %d killed=%d muts=%llu steps=%llu\n%s%s", what.c_str(), r.exit_code(), r.killed, (unsigned long long)r.muts, (unsigned long long)r.steps, r.out.c_str(), r.err.c_str());
			for (auto &f : r.faults_fired) fprintf(stderr, "   fault %s\n", f.c_str());
			for (auto &e : r.hist) fprintf(stderr, "   [%lld us] %d %s %s %s %lld\n", (long long)(e.t - os.boot) / 1000, e.pid, e.kind.c_str(), e.a.c_str(), e.b.c_str(), (long long)e.n);
		};
		if (op == "mod" || op == "attr" || op == "brk" || op == "unbrk" || op == "ctv" || op == "gone" || op == "back") {
			flush();
			os.now += 8000000;
			if (op == "ctv") P.ctv++;
			for (auto &t : P.tests) {
				if (t.name != arg) continue;
				if (op == "mod") {
					TBeh b = parse_beh(l);
					if (t.tap == !b.tapl.empty() && !((b.hang || b.flood || b.bg) && t.has_to && !t.to)) t.b = b;
				}
				if (op == "attr") {
					if (l.has("sf")) t.sf = l.num("sf");
					if (l.has("to")) t.has_to = true, t.to = (int)l.num("to");
					if (l.has("serial")) t.serial = l.num("serial");
					if (l.has("prio")) t.prio = (int)l.num("prio");
				}
				if (op == "brk") t.broken = true;
				if (op == "gone" && !t.exe) t.gone = true;
				if (op == "back") t.gone = false;
				if (op == "unbrk") t.broken = false;
			}
			flush();
			continue;
		}
		if (op == "dmg") {
			string f = "/w/build/.muon/" + l.get("file", "tests.dat"), c;
			if (!fs.read(f, c)) continue;
			string how = l.get("how", "trunc"), o = c;
			size_t p = (size_t)(atof(l.get("at", "0.5").c_str()) * (double)c.size());
			if (long cut = l.num("cut")) p = c.size() - std::min(c.size(), (size_t)cut); // counted from the end
			if (how == "trunc") c = c.substr(0, p);
			else if (how == "empty") c = "";
			else if (how == "head")
				for (size_t i = 0; i < c.size() && i < 8; i++) c[i] = (char)(c[i] ^ 0x5a);
			if (!saved.count(f)) saved[f] = o;
			if (how == "rm") fs.remove_all(f);
			else fs.write(f, c);
			damaged = false;
			for (auto &kv : saved)
				if (fs.get(kv.first) != kv.second || !fs.exists(kv.first)) damaged = true;
			os.probes["state-damaged-" + how]++;
			continue;
		}
		flush();
		string what = strf("%s (plan line %zu)", op.c_str(), li);
		if (op == "setup") {
			RunResult r = x.run((int)li, l, { "/usr/bin/muon", "setup", "build" }, "/w", x.env());
			show(r, what);
			if (x.abnormal(x.prop, r, what)) return;
			if (r.status) {
				if (!r.faults_fired.empty() || r.killed) return;
				for (auto &t : P.tests)
					if (t.gone) return;
				x.out.note = what + ": setup failed: " + first_lines(r.out + r.err, 600);
				return;
			}
			have_setup = true;
			described = description;
			regen_unknown = false;
			damaged = false;
			saved.clear();
			continue;
		}
		if (op != "test" && op != "bench") continue;
		if (!have_setup) return;
		bool any_gone = false;
		for (auto &t : P.tests) any_gone = any_gone || t.gone;
		bool must_regen = described != description;
		ncmd++;
		bool bench = op == "bench";
		bool ff = l.num("f");
		int v = (int)l.num("v"), j = (int)l.num("j", 1);
		// mes=N: the same through `muon meson test` (bits of N: how the options are spelled)
		long mes = l.num("mes");
		if (mes && v < 1) v = 1;
		vector<string> av = { "/usr/bin/muon", "-C", "build", bench ? "benchmark" : "test" };
		auto mopt = [&](int bit, const string &o, const string &val) {
			if (o.size() > 2) {
				if (mes & bit) av.push_back(o + "=" + val);
				else av.push_back(o), av.push_back(val);
			} else if (mes & bit) av.push_back(o + val);
			else av.push_back(o), av.push_back(val);
		};
		if (mes) {
			av = { "/usr/bin/muon", "meson", "test" };
			if (!(mes & 16)) mopt(2, "-C", "build");
			if (bench) av.push_back("--benchmark");
			if (mes & 32) av.push_back("--print-errorlogs");
			mopt(4, "--num-processes", strf("%d", j));
			if (ff) mopt(8, "--maxfail", "1");
			for (int i = 1; i < v; i++) av.push_back("-v");
			if (mes & 64) av.push_back("-t"), av.push_back("3");
		} else {
		av.push_back(strf("-j%d", j));
		if (ff) av.push_back("-f");
		for (int i = 0; i < v; i++) av.push_back("-v");
		if (l.num("S")) av.push_back("-S");
		if (l.has("d")) av.push_back("-d"), av.push_back(l.get("d"));
		}
		vector<string> ss = split(l.get("suites"), ',');
		for (auto &s : ss) {
			if (mes) mopt(4, "--suite", s);
			else av.push_back("-s"), av.push_back(s);
		}
		const TSetup *su = nullptr;
		string sname = l.get("e");
		{
			bool known = false;
			for (auto &s : P.setups) known = known || s.name == sname;
			if (!known) sname = "";
		}
		for (auto &s : P.setups)
			if (sname.empty() ? s.def : s.name == sname) su = &s;
		if (!sname.empty() && su) {
			if (mes) mopt(8, "--setup", sname);
			else av.push_back("-e"), av.push_back(sname);
		}
		vector<string> names = split(l.get("names"), ',');
		for (auto &n : names) av.push_back(n);
		if (mes & 16) mopt(2, "-C", "build");
		// which tests are selected
		std::set<string> sel, selD; // selD: by what `muon test` really compares with (known-project-match)
		std::map<string, TTest *> T;
		bool broken = false, abortD = false;
		for (auto &t : P.tests) {
			T[t.name] = &t;
			if (t.bench != bench) continue;
			bool in = true;
			auto suite_match = [&](const string &spec) {
				string pj, s = spec;
				size_t c = spec.find(':');
				if (c != string::npos) pj = spec.substr(0, c), s = spec.substr(c + 1);
				if (pj.empty() ? t.proj != 0 : pj != (t.proj ? "sub1" : "top")) return false;
				return std::find(t.suites.begin(), t.suites.end(), s) != t.suites.end();
			};
			if (!ss.empty()) {
				in = false;
				for (auto &s : ss) in = in || suite_match(s);
			} else if (su)
				for (auto &s : su->excl)
					if (suite_match(s)) in = false;
			if (!names.empty()) {
				bool m = false;
				for (auto &n : names) {
					size_t c = n.find(':');
					string pj = c == string::npos ? "" : n.substr(0, c), nm = c == string::npos ? n : n.substr(c + 1);
					if (!pj.empty() && pj != (t.proj ? "sub1" : "top")) continue;
					if (nm == "*" || nm == t.name || nm.empty()) m = true;
				}
				in = in && m;
			}
			if (in) {
				sel.insert(t.name);
				if (t.broken && t.exe) broken = true;
			}
		}
		{
			vector<int> dict = { 0 };
			for (auto &t : P.tests)
				if (t.proj && dict.size() == 1) dict.push_back(1);
			string cur = su ? "top" : dict.size() > 1 ? "sub1" : "top";
			int pi = 0;
			for (int pj : dict) {
				bool any = false;
				auto match = [&](const string &spec, const TTest &t) {
					size_t c = spec.find(':');
					if (c != string::npos ? spec.substr(0, c) != cur : pi != 0) return false;
					return std::find(t.suites.begin(), t.suites.end(), c == string::npos ? spec : spec.substr(c + 1)) != t.suites.end();
				};
				for (auto &t : P.tests) {
					if (t.proj != pj || t.bench != bench) continue;
					bool in = true;
					if (!ss.empty()) {
						in = false;
						for (auto &e : ss) in = in || match(e, t);
					} else if (su) {
						if (!su->excl.empty() && t.suites.empty()) abortD = true;
						for (auto &e : su->excl)
							if (match(e, t)) in = false;
					}
					if (in && !names.empty()) {
						in = false;
						for (auto &e : names) {
							size_t c = e.find(':');
							if (c != string::npos && e.substr(0, c) != cur) continue;
							string nm = c == string::npos ? e : e.substr(c + 1);
							if (nm == "*" || nm == t.name || nm.empty()) in = true;
						}
					}
					if (in) selD.insert(t.name), any = true;
				}
				if (any) {
					cur = pj ? "sub1" : "top";
					pi++;
				}
			}
		}
		double mult = su && su->mult ? su->mult : 1;
		RunResult r = x.run((int)li, l, av, "/w", x.env());
		show(r, what);
		bool disturbed = r.killed || !r.faults_fired.empty() || l.has("fds");
		x.out.nontrivial = x.out.nontrivial || !sel.empty();
		string own = damaged ? "C20" : disturbed ? "C22" : "";
		if (abortD && WIFSIGNALED(r.status) && !r.killed && own.empty()) {
			x.bad("C13", "known-suites-abort", what + ": died by a signal, the setup excludes suites and a test has none");
			return;
		}
		if (abortD && (r.killed || WIFSIGNALED(r.status))) return;
		if (x.abnormal(!own.empty() ? own : x.prop, r, what)) return;
		if (r.killed) return;
		if (any_gone && regen_unknown) continue;
		bool brokenD = false;
		for (auto &n : selD) brokenD = brokenD || (T[n]->broken && T[n]->exe);
		if (brokenD != broken && !(any_gone && must_regen)) {
			if (must_regen) regen_unknown = true;
			continue; // known-project-match, and a program of the one selection does not build
		}
		// the build description cannot be processed while a program it looks for is missing
		if (any_gone && must_regen) broken = true;
		if (must_regen && !broken) {
			if (disturbed) regen_unknown = true;
			else described = description;
		} else if (must_regen)
			regen_unknown = true;
		auto ow = [&](const char *p) { return own.empty() ? string(p) : own; };
		if (broken && !r.status) {
			x.bad(ow("C13"), "stale-tests", what + ": exit 0 although what a selected test needs does not build");
			return;
		}
		if (broken) {
			os.probes["broken-build"]++;
			continue;
		}
		if (damaged && r.status) {
			os.probes["damage-rejected"]++;
			continue;
		}
		// ---- what happened
		struct Ran { int pid = 0; i64 fork_t = -1, start_t = 0, died_t = -1; u64 fork_s = 0, reap_s = 0, start_s = 0; int st = -1; int terms = 0, kills = 0; i64 first_kill = -1; int starts = 0; };
		std::map<string, Ran> R;
		std::map<int, string> bypid;
		std::map<int, std::pair<i64, u64>> forks;
		for (auto &h : r.hist) {
			if (h.kind == "fork") forks[(int)h.n] = { h.t, h.seq };
			else if (h.kind == "prog-start") {
				Ran &n = R[h.a];
				n.starts++;
				n.pid = h.pid;
				n.start_t = h.t;
				n.start_s = h.seq;
				bypid[h.pid] = h.a;
				if (forks.count(h.pid)) n.fork_t = forks[h.pid].first, n.fork_s = forks[h.pid].second;
			} else if (h.kind == "died" && bypid.count((int)h.n)) {
				Ran &n = R[bypid[(int)h.n]];
				n.died_t = h.t;
				n.st = (int)strtol(h.b.c_str(), nullptr, 16);
			} else if (h.kind == "reap" && bypid.count((int)h.n)) {
				R[bypid[(int)h.n]].reap_s = h.seq;
			} else if (h.kind == "kill" && h.pid != atoi(h.a.c_str()) && bypid.count(atoi(h.a.c_str()))) {
				Ran &n = R[bypid[atoi(h.a.c_str())]];
				if (n.first_kill < 0 && h.b != "zombie") n.first_kill = h.t;
				(h.n == 9 ? n.kills : n.terms)++;
			}
		}
		if (sel != selD) {
			std::set<string> a, b, c;
			for (auto &kv : R) a.insert(kv.first);
			for (auto &n : sel)
				if (!T[n]->gone) b.insert(n);
			for (auto &n : selD)
				if (!T[n]->gone) c.insert(n);
			bool subD = true, sub = true; // when failing fast
			for (auto &n : a) subD = subD && c.count(n), sub = sub && b.count(n);
			os.probes["selection-depends-on-project"]++;
			if (own.empty()) {
				if (ff ? sub : a == b) continue;
				if (ff ? subD : a == c) {
					x.bad("C13", "known-project-match", what + ": the tests selected by a project, suite or setup are those of another project");
					continue;
				}
				x.bad("C13", "not-selected", what + ": the tests that were run are not those selected");
			}
			continue;
		}
		// ---- verdict of every selected test, from what it really did
		std::map<string, Verdict> V;
		int nfail = 0, nskip = 0, nexp = 0, nunk = 0;
		i64 slack = 300000000;
		if (l.has("delay")) slack += 40ll * l.num("delaymax", 20) * 1000000;
		for (auto &n : sel) {
			TTest &t = *T[n];
			string kn;
			Verdict ve = verdict(t, v, kn);
			auto it = R.find(n);
			if (t.gone) ve = t.sf || (t.tap && su && su->wrap) ? V_UNKNOWN : V_FAIL; // cannot be started
			bool expf = false;
			i64 lim = (i64)((t.has_to ? t.to : 30) * mult * 1e9);
			if (it != R.end() && lim > 0) {
				Ran &q = it->second;
				if (ff && !q.reap_s) {
					V[n] = V_UNKNOWN;
					nunk++;
					continue; // left behind (known-ff-orphans)
				}
				i64 end = q.died_t < 0 ? os.now : q.died_t;
				i64 lived = end - q.fork_t;
				bool natural = t.b.hang || t.b.flood ? false : q.terms + q.kills == 0 || q.st == (t.b.sig ? t.b.sig : t.b.exit << 8);
				if (q.first_kill >= 0 && q.first_kill - q.fork_t < lim - 1000000 - (slack - 300000000) / 4 && own.empty())
					x.bad("C14", "early", what + strf(": test %s was signalled after %.3f s, its timeout is %.3f s", n.c_str(), (double)(q.first_kill - q.fork_t) / 1e9, (double)lim / 1e9));
				if (lived > lim + 500000000 + slack && own.empty())
					x.bad(ow("C14"), "late", what + strf(": test %s ran %.3f s, its timeout is %.3f s", n.c_str(), (double)lived / 1e9, (double)lim / 1e9));
				if (!natural || (t.b.hang || t.b.flood)) ve = V_TIMEOUT;
				else if (t.b.sig && (t.b.sig == 15 || t.b.sig == 9) && q.terms + q.kills) ve = V_UNKNOWN; // which of the two ended it?
				else if (lived > lim - 1000000 && lived <= lim + slack && !t.b.bg) ve = V_UNKNOWN; // finished about when the time was over
				else if (lived > lim + slack) ve = V_TIMEOUT;
				if (t.b.bg && ve != V_TIMEOUT) ve = V_UNKNOWN; // a child of the test kept its output open
				if (ve == V_TIMEOUT) os.probes["timeouts"]++;
				if (q.kills) os.probes["sigkill-after-grace"]++;
			}
			if (t.sf && (ve == V_PASS)) expf = true;
			V[n] = ve;
			if (ve == V_UNKNOWN && !kn.empty() && !r.status && it != R.end() && it->second.reap_s && own.empty())
				x.bad("C13", kn, what + ": exit 0, test " + n + (kn == "known-should-fail-pass" ? " passed and is marked should_fail" : kn == "known-tap-vv" ? " failed, its tap output is not looked at with -vv" : " printed good tap and exited with a failure"));
			if (ve == V_FAIL || ve == V_TIMEOUT) nfail++;
			if (ve == V_SKIP) nskip++;
			if (ve == V_UNKNOWN || ve == V_ANYOK) nunk++;
			if (expf) nexp++;
			os.probes[strf("verdict-%d", (int)ve)]++;
		}
		bool stopped = false; // by fail-fast
		for (auto &kv : R)
			if (!sel.count(kv.first)) x.bad(ow("C13"), "not-selected", what + ": test " + kv.first + " was run although it is not selected");
			else if (kv.second.starts > 1) x.bad(ow("C13"), "twice", what + ": test " + kv.first + " was run more than once");
		if (ff) {
			u64 stop_s = 0;
			string first;
			for (auto &kv : R)
				if (V.count(kv.first) && (V[kv.first] == V_FAIL || V[kv.first] == V_TIMEOUT) && kv.second.reap_s && (!stop_s || kv.second.reap_s < stop_s)) stop_s = kv.second.reap_s, first = kv.first;
			if (stop_s) {
				stopped = true;
				os.probes["fail-fast-stops"]++;
				string after;
				int na = 0;
				for (auto &kv : R)
					if (kv.second.fork_s > stop_s) after += " " + kv.first, na++;
				if (na == 1) x.bad("C16", "known-ff-one-more", what + ": one more test was started after the failure of " + first + " was known:" + after);
				if (na > 1) x.bad("C16", "started-after", what + ": tests were started after the failure of " + first + " was known:" + after);
				if (!r.status) x.bad("C16", "exit", what + ": exit 0 although " + first + " failed");
			}
			if (nunk) stopped = true;
			// a test that cannot be started leaves no event: it may have been reached or not
			for (auto &n : sel)
				if (T[n]->gone) {
					stopped = true;
					if (nfail && !r.status) x.bad("C16", "exit", what + ": exit 0 although a test failed or could not be started");
				}
		}
		// (an I/O error of muon itself may end it at once; a command that cannot be started may not)
		bool start_only = !l.has("fds") && !r.killed, startf = false, execf = false;
		for (auto &f : r.faults_fired) {
			execf |= starts_with(f, "exec");
			if (starts_with(f, "exec") || starts_with(f, "fork") || starts_with(f, "pipe")) startf = true; // that test counts as failed
			else start_only = false;
		}
		if (ff && r.status && (nfail || nunk || startf)) {
			if (r.orphans + r.zombies && start_only) x.bad("C16", "known-ff-orphans", what + strf(": %d tests still running and %d never waited for when muon exited", r.orphans, r.zombies));
			if (r.orphans + r.zombies >= std::max(2, j + 1) && start_only) x.bad("C16", "orphans", what + strf(": %d tests left behind with -j%d", r.orphans + r.zombies, j));
		} else {
			if (r.orphans && start_only) x.bad("C12", "orphans", what + strf(": %d tests still running when muon exited", r.orphans));
			if (r.zombies && start_only) x.bad("C12", "zombies", what + strf(": %d finished tests never waited for", r.zombies));
		}
		if (!stopped && !disturbed)
			for (auto &n : sel)
				if (!R.count(n) && !T[n]->gone) x.bad(ow("C13"), "not-run", what + ": test " + n + " was not run");
		if (disturbed && !stopped && !r.status)
			for (auto &n : sel)
				if (!R.count(n) && !T[n]->sf && !T[n]->gone) x.bad("C22", T[n]->tap && execf ? "known-tap-exit" : "not-run", what + ": exit 0 although test " + n + " was not run");
		// exit status
		int ran_fail = 0;
		for (auto &n : sel)
			if (T[n]->gone && V[n] == V_FAIL && !stopped) {
				if (!r.status) x.bad(ow("C13"), "silent", what + ": exit 0 although " + n + " could not be started");
				os.probes["tests-not-startable"]++;
			}
		for (auto &kv : R)
			if (V.count(kv.first) && (V[kv.first] == V_FAIL || V[kv.first] == V_TIMEOUT)) ran_fail++;
		if (!r.status && ran_fail) {
			string s;
			for (auto &kv : R)
				if (V.count(kv.first) && (V[kv.first] == V_FAIL || V[kv.first] == V_TIMEOUT)) s += " " + kv.first;
			x.bad(ow("C13"), "silent", what + ": exit 0 although tests failed:" + s);
		}
		if (r.status && !nfail && !nunk && !disturbed) x.bad(ow("C13"), "false-fail", what + strf(": exit %d although no test failed: ", r.exit_code()) + first_lines(r.out + r.err, 800));
		// reported lines
		if (!disturbed && (v || (l.num("S") && !mes))) {
			auto rep = split(replace_all(replace_all(r.out + "\n" + r.err, "\r", "\n"), "\033[K", ""), '\n');
			for (auto &n : sel) {
				TTest &t = *T[n];
				if ((!R.count(n) && !(t.gone && !stopped)) || V[n] == V_UNKNOWN) continue;
				if (stopped && (!R[n].reap_s || t.b.bg)) continue;
				string lab = V[n] == V_FAIL ? (t.sf ? "ok*" : "fail") : V[n] == V_SKIP ? "skip" : V[n] == V_TIMEOUT ? "timeout" : t.sf ? "fail*" : "ok";
				int seen = 0, wrong = 0;
				string wl;
				for (auto &ln : rep) {
					// "<label> <secs>s [p/t subtests, ][suite:]name[ - ...][: ...]"
					size_t sp = ln.find(' '), sec = ln.find("s ", sp == string::npos ? 0 : sp);
					if (sp == string::npos || sec == string::npos) continue;
					string lb = ln.substr(0, sp);
					if (lb != "ok" && lb != "fail" && lb != "skip" && lb != "timeout" && lb != "ok*" && lb != "fail*") continue;
					size_t at = ln.find(n, sec);
					if (at == string::npos || at == 0 || (ln[at - 1] != ' ' && ln[at - 1] != ':')) continue;
					size_t e = at + n.size();
					if (e < ln.size() && ln[e] != ' ' && ln[e] != ':') continue;
					seen++;
					if (lb != lab && !(V[n] == V_ANYOK && (lb == "ok" || lb == "skip"))) wrong++, wl = ln;
				}
				if (!seen && v < 2) x.bad(V[n] == V_TIMEOUT ? ow("C14") : ow("C13"), "not-reported", what + ": the result of test " + n + " is not reported");
				if (wrong) x.bad(V[n] == V_TIMEOUT || starts_with(wl, "timeout") ? ow("C14") : ow("C13"), "wrong-verdict", what + ": test " + n + " should be reported as '" + lab + "', the line is '" + wl + "'");
			}
		}
		if (!disturbed && !stopped && !sel.empty()) {
			string all = r.out + r.err, key = "finished ";
			size_t at = all.find(key);
			int a = -1, b = -1, c = -1, d = -1;
			char w[32] = "";
			if (at != string::npos) sscanf(all.c_str() + at, "finished %d %31[a-z], %d expected fail, %d fail, %d skipped", &a, w, &b, &c, &d);
			if (a != (int)sel.size()) x.bad(ow("C13"), "count", what + strf(": %zu tests selected, reported: '", sel.size()) + (at == string::npos ? "" : all.substr(at, 80)) + "'");
			else if (!nunk && (b != nexp || c != nfail || d != nskip)) x.bad(ow("C13"), "count", what + strf(": %d expected failures, %d failures, %d skipped; reported: '", nexp, nfail, nskip) + all.substr(at, 80) + "'");
		}
		// what the tests were given
		for (auto &h : r.hist) {
			if (h.kind != "prog-start" || !T.count(h.a)) continue;
			TTest &t = *T[h.a];
			string root = t.proj ? "/w/subprojects/sub1" : "/w", e = t.wd ? "/w/wd" : "/w/build";
			e += "|";
			vector<string> a;
			if (t.dep && t.depargs) a.push_back("/w/build/ct.out");
			for (auto &z : t.args) a.push_back(z == "@f" ? root + "/meson.build" : z);
			for (size_t i = 0; i < a.size(); i++) e += (i ? "," : "") + a[i];
			e += "|";
			std::map<string, string> ev;
			for (auto &o : t.eo) {
				string &e2 = ev["T_O"], v2 = o.substr(1);
				e2 = o[0] == 's' || e2.empty() ? v2 : o[0] == 'a' ? e2 + ":" + v2 : v2 + ":" + e2;
			}
			if (t.eo.empty()) for (auto &z : t.env) ev[z.substr(0, z.find('='))] = z.substr(z.find('=') + 1);
			if (su && su->env) ev["T_SETUP"] = su->name;
			for (auto &kv : ev) e += kv.first + "=" + kv.second + ";";
			if (h.b != e) x.bad(ow("C13"), "given", what + ": test " + t.name + " was given '" + h.b + "' as working directory, arguments and environment, expected '" + e + "'");
			if (a.size() + t.env.size() + t.wd) os.probes["test-args-env-workdir"]++;
			bool w = false;
			for (auto &g : r.hist)
				if (g.kind == "prog-event" && g.b == "wrap" && g.pid == h.pid) w = true;
			if (w != (su && su->wrap)) x.bad(ow("C13"), "wrapper", what + ": test " + t.name + (w ? " was run by the wrapper of another setup" : " was not run by the wrapper of the setup"));
			if (w) os.probes["tests-wrapped"]++;
		}
		// parallelism and order
		{
			int alive = 0;
			std::set<string> live;
			vector<std::pair<u64, string>> order;
			for (auto &h : r.hist) {
				if (h.kind == "prog-start" && T.count(h.a)) {
					TTest &t = *T[h.a];
					alive++;
					live.insert(h.a);
					order.push_back({ R[h.a].fork_s, h.a });
					if (alive > j) x.bad("C15", "jobs", what + strf(": %d tests running at once with -j%d", alive, j));
					if (alive == j && j > 1) os.probes["test-j-limit-reached"]++;
					for (auto &o : live)
						if (o != h.a && ((t.serial || t.bench) || T[o]->serial || T[o]->bench)) x.bad("C15", "serial", what + ": tests " + o + " and " + h.a + " ran at the same time, one of them is not parallel");
				}
				if (h.kind == "died" && bypid.count((int)h.n)) {
					alive--;
					live.erase(bypid[(int)h.n]);
				}
			}
			std::sort(order.begin(), order.end());
			for (size_t i = 1; i < order.size(); i++) {
				TTest &a = *T[order[i - 1].second], &b = *T[order[i].second];
				if (a.proj == b.proj && a.prio < b.prio) x.bad("C15", "priority", what + ": test " + a.name + strf(" (priority %d) was started before %s (priority %d)", a.prio, b.name.c_str(), b.prio));
			}
		}
		// output of failed tests
		if (!disturbed && !stopped && v < 2)
			for (auto &n : sel) {
				TTest &t = *T[n];
				if (!R.count(n) || V[n] != V_FAIL || t.tap || t.sf) continue;
				string o = pattern(n, t.b.outn / 2, 'o') + pattern(n, t.b.outn - t.b.outn / 2, 'o'), e = pattern(n, t.b.errn, 'e');
				if (t.b.sig) continue;
				string all = r.out + r.err;
				if (!o.empty() && all.find(o) == string::npos) x.bad("C11", "test-output", what + strf(": the %zu bytes test %s wrote to stdout are not shown as they were", o.size(), n.c_str()));
				if (!e.empty() && all.find(e) == string::npos) x.bad("C11", "test-output", what + strf(": the %zu bytes test %s wrote to stderr are not shown as they were", e.size(), n.c_str()));
				if (!o.empty() || !e.empty()) os.probes["test-output-checked"]++;
			}
		// descriptors
		bool anybg = false;
		for (auto &n : sel) anybg = anybg || T[n]->b.bg;
		if (!anybg) {
			int live = 0, first = -1, mx = 0;
			for (auto &h : r.hist) {
				if (h.kind == "fork") {
					int n = atoi(h.b.c_str());
					if (first < 0) first = n;
					mx = std::max(mx, n - first - 4 * live);
					live++;
				}
				if (h.kind == "reap") live--;
			}
			if (mx > 8) x.bad("C12", "fd-growth", what + strf(": %d descriptors beyond those of the running tests are open", mx));
		}
	}
}

Plan TestScen::generate(u64 seed, const string &prop)
{
	Rng r(seed ^ hash_str("tests" + prop));
	Plan p;
	p.scen = "tests";
	p.hdr["prop"] = prop;
	p.hdr["seed"] = strf("%llu", (unsigned long long)(seed & 0xffffffff));
	static const char *modes[] = { "random", "sticky", "prio", "fifo" };
	p.hdr["sched"] = modes[r.below(4)];
	if (r.chance(.3)) p.hdr["pipecap"] = r.chance(.5) ? "512" : "4096";
	if (r.chance(.2)) p.hdr["stdio"] = r.chance(.5) ? "64" : "512";
	p.hdr["fill"] = strf("%d", (int)r.below(256));
	p.hdr["ncpu"] = strf("%d", r.range(1, 4));
	bool many = prop == "C12" || r.chance(.08);
	int n = many ? r.range(20, 60) : r.range(1, 9);
	bool sub = r.chance(.3);
	double pfail = r.chance(.35) ? 0 : prop == "C16" ? .4 : r.unit() * .4;
	double phang = prop == "C14" ? .35 : r.chance(.3) ? .1 : 0, ptap = r.unit() * .5, pexe = r.chance(.4) ? .4 : 0, pser = prop == "C15" ? r.unit() * .5 : r.chance(.3) ? .2 : 0;
	double psf = r.chance(.5) ? .2 : 0, pprio = r.chance(.4) ? .6 : 0, pdep = r.chance(.15) ? .3 : 0, pbench = r.chance(.1) ? .3 : 0;
	bool bgs = (prop == "C14" || prop == "C13") && r.chance(.15);
	vector<string> nm;
	auto beh = [&](bool tap, bool sf) {
		string l;
		double pf = sf ? r.chance(.97) ? 1 : 0 : pfail;
		if (r.chance(.7)) l += strf(" ms=%d", r.chance(.3) ? r.range(100, 3000) : r.chance(.5) ? r.range(1, 12) : r.range(12, 200));
		if (tap) {
			string body;
			int m = r.range(0, 6), cnt = 0;
			bool wild = sf ? pf > 0 : r.chance(pfail * 1.5);
			for (int i = 0; i < m; i++) {
				char c = wild ? "oOnskStTBc?KdDhH"[r.below(16)] : "oOsktc?Kdh"[r.below(10)];
				body += c;
				if (strchr("oOnskStTKdDhH", c)) cnt++;
			}
			if (sf && wild) body += 'n', cnt++;
			int plan = wild && r.chance(.4) ? std::max(1, cnt + r.range(-2, 2)) : cnt;
			string pl = strf("p%d", plan);
			int where = (int)r.below(3);
			if (cnt == 0 && body.empty()) where = 0;
			string t = where == 0 ? pl + (body.empty() ? "" : "." + body) : where == 1 && !body.empty() ? body + "." + pl : body.empty() ? pl : cnt ? body : pl + "." + body;
			l += " tapl=" + t;
			if (r.chance(.2)) l += " nonl=1";
			if (r.chance(pfail * (wild ? .5 : .02))) l += strf(" exit=%d", r.range(1, 3));
			if (r.chance(pfail * (wild ? .1 : .01))) l += " sig=11";
		} else {
			int sz[] = { 7, 100, 4096, 4097, 5000, 16384, 70000, 140000 };
			if (r.chance(.35)) l += strf(" outn=%d", sz[r.below(8)]);
			if (r.chance(.25)) l += strf(" errn=%d", sz[r.below(8)]);
			if (r.chance(.3)) l += strf(" chunk=%d", r.range(97, 3000));
			if (r.chance(pf)) {
				int w = (int)r.below(sf ? 6 : 10);
				if (w < 6) l += strf(" exit=%d", r.chance(.6) ? 1 : r.range(2, 255));
				else if (w < 7) l += " exit=99";
				else l += strf(" sig=%d", r.chance(.5) ? 11 : r.chance(.5) ? 9 : 15);
			} else if (!sf && r.chance(.08)) l += " exit=77";
		}
		if (bgs && r.chance(.2)) l += strf(" bg=%d", r.chance(.5) ? 4 : 5000);
		if (r.chance(phang)) {
			l += r.chance(.8) ? " hang=1" : " flood=1";
			if (r.chance(.5)) l += " ign=1";
		}
		return l;
	};
	std::map<string, bool> istap, isexe, issf;
	bool anytap = false;
	double pargs = r.chance(.3) ? .6 : 0;
	int ns = r.chance(.3) ? r.range(1, 2) : 0;
	bool excl = false;
	vector<string> setups;
	for (int i = 0; i < ns; i++) {
		string l = strf("setup su%d", i);
		if (r.chance(.6)) l += strf(" mult=%d", r.range(1, 3));
		if (r.chance(.4)) l += string(" excl=") + (r.chance(.5) ? "a" : sub && r.chance(.1) ? "sub1:a" : "b"), excl = true;
		if (r.chance(.3)) l += " def=1";
		if (r.chance(.3)) l += " env=1";
		if (r.chance(.3)) l += " wrap=1";
		setups.push_back(l);
	}
	bool filters = !sub || r.chance(.1); // (with a subproject most of them run into known-project-match)
	if (sub && excl && r.chance(.9)) sub = false, filters = true;
	for (int i = 0; i < n; i++) {
		string l = strf("t q%d", i);
		nm.push_back(strf("q%d", i));
		if (sub && r.chance(.3)) l += " proj=1";
		bool tap = r.chance(ptap);
		if (r.chance(pexe)) l += " exe=1", isexe[nm.back()] = true;
		if (r.chance(pser)) l += " serial=1";
		bool sf = r.chance(psf);
		if (sf) l += " sf=1", issf[nm.back()] = true;
		if (r.chance(pprio)) l += strf(" prio=%d", r.range(-2, 5));
		if (r.chance(pdep)) l += " dep=1";
		if (r.chance(pbench)) l += " bench=1";
		if (r.chance(.1)) l += " verbose=1";
		if (r.chance(pargs)) {
			if (r.chance(.6)) l += string(" args=") + (r.chance(.3) ? "--x=1" : r.chance(.5) ? "a,-b,c:d" : r.chance(.7) ? "@f,z" : strf("@L%d,q", r.range(4000, 9000)));
			if (r.chance(.4)) l += string(" env=") + (r.chance(.5) ? "A=1" : "B=x:y,A=q/r");
			if (r.chance(.3)) {
				l += " eo=";
				int k = r.range(1, 4);
				for (int z = 0; z < k; z++) l += strf("%s%cv%d", z ? "," : "", "aaps"[r.below(4)], z);
			}
			if (r.chance(.4)) l += " wd=1";
			if (r.chance(.5)) l += " depargs=1";
		}
		if (r.chance(excl ? .99 : .5)) l += string(" suites=") + (r.chance(.3) ? "a,b" : r.chance(.4) ? "a" : r.chance(.3) && excl ? "c" : "b");
		anytap = anytap || tap;
		string b = beh(tap, sf);
		bool hang = b.find("hang=") != string::npos || b.find("flood=") != string::npos || b.find("bg=") != string::npos;
		if (r.chance(hang ? .9 : .4)) l += strf(" to=%d", r.chance(.2) && !hang ? 0 : r.range(1, 4));
		istap[nm.back()] = tap;
		p.lines.push_back(l + b);
	}
	for (auto &l : setups) p.lines.push_back(l);
	p.lines.push_back(strf("op setup s=%d", (int)r.below(1000000)));
	int nc = r.range(1, 3);
	vector<size_t> tests;
	for (int c = 0; c < nc; c++) {
		if (c) {
			int m = r.range(0, 3);
			for (int i = 0; i < m; i++) {
				string t = r.pick(nm);
				int w = (int)r.below(10);
				if (w < 5) p.lines.push_back("op mod " + t + beh(istap[t], issf[t]));
				else if (w < 7) p.lines.push_back("op attr " + t + (r.chance(.05) ? strf(" sf=%d", r.range(0, 1)) : r.chance(.5) ? strf(" to=%d", r.range(1, 4)) : strf(" serial=%d", r.range(0, 1))));
				else if (w < 8) p.lines.push_back(r.chance(.4) ? "op ctv" : r.chance(.6) ? "op gone " + t : "op back " + t);
				else if (w < 9 && isexe[t]) p.lines.push_back("op brk " + t);
				else for (auto &kv : isexe)
					if (kv.second) p.lines.push_back("op unbrk " + kv.first);
			}
		}
		if (prop == "C20") {
			static const char *files[] = { "tests.dat", "tests.dat", "option_info.dat", "tests.dat" };
			static const char *how[] = { "trunc", "trunc", "trunc", "empty", "rm", "head" };
			p.lines.push_back(strf("op dmg file=%s how=%s at=%.4f", files[r.below(4)], how[r.below(6)], r.unit()) + (r.chance(.4) ? strf(" cut=%d", r.range(1, r.chance(.5) ? 16 : 400)) : ""));
		}
		string l = pbench > 0 && r.chance(.3) ? "op bench" : "op test";
		l += strf(" j=%d", r.chance(.15) ? r.range(5, 16) : r.range(1, 4));
		if (r.chance(prop == "C16" ? .8 : .1)) l += " f=1";
		if (r.chance(.7)) l += strf(" v=%d", r.chance(anytap ? .99 : .8) ? 1 : 2);
		if (r.chance(.3)) l += " S=1";
		if (r.chance(.15)) l += r.chance(.5) ? " d=dots" : " d=bar";
		if (filters && r.chance(.2)) l += string(" suites=") + (r.chance(.3) ? "a" : r.chance(.4) ? "b,a" : r.chance(.5) ? "top:a" : "sub1:a");
		if (ns && r.chance(.4)) l += strf(" e=su%d", (int)r.below((u64)ns));
		if (r.chance(.1)) l += strf(" mes=%d", 1 + 2 * (int)r.below(64));
		if (r.chance(.15)) l += " names=" + (r.chance(.4) ? r.pick(nm) : !filters || r.chance(.5) ? r.pick(nm) + "," + r.pick(nm) : r.chance(.5) ? "top:*" : "sub1:" + r.pick(nm));
		l += strf(" s=%d", (int)r.below(1000000));
		if (r.chance(.15)) l += strf(" sr=%d sw=%d", r.range(0, 40), r.range(0, 40));
		if (r.chance(prop == "C14" ? .3 : .1)) l += strf(" delay=%d delaymax=%d", r.range(1, 10), r.range(1, 30));
		if (r.chance(prop == "C14" ? .3 : .05)) l += strf(" wall=%d wallmax=%d", r.range(1, 50), r.chance(.5) ? 5 : 100000);
		tests.push_back(p.lines.size());
		p.lines.push_back(l);
		if (prop == "C20" && r.chance(.5)) p.lines.push_back(strf("op setup s=%d", (int)r.below(1000000)));
	}
	if (prop == "C22" || (prop == "C12" && r.chance(.3))) {
		Outcome o = execute(p);
		if (!o.note.empty()) return p;
		for (int i = 0; i < 1; i++) {
			size_t line = tests[r.below(tests.size())];
			for (auto &s : o.ops)
				if (s.line == (int)line) {
					p.lines[line] += fault_tokens(r, s, false, "malloc,open_w,open_r,write,read,close,fork,pipe,mkdir,unlink,stat,exec,disk,fds");
					break;
				}
		}
	}
	return p;
}
Scenario *scen_tests()
{
	static TestScen s;
	return &s;
}
} // namespace sim
