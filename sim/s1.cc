// S1: `muon samu` on generated build graphs, with histories of edits, failures, kills and damaged logs.
#include "scen.h"
#include <algorithm>
#include <csignal>
#include <cstdlib>
#include <cctype>
namespace sim {
u64 job_hash(const string &id, const string &v, const vector<string> &ins, const string *rsp, bool proj, bool inc, vector<string> &hdrs,
	string &missing, const std::function<bool(const string &, string &)> &rd);
string job_body(const string &id, const string &out, u64 h);

static string unesc(const string &s)
{
	string r;
	for (size_t i = 0; i < s.size(); i++)
		if (s[i] == '%' && i + 2 < s.size()) {
			r += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16);
			i += 2;
		} else
			r += s[i];
	return r;
}
static vector<string> names(const string &s)
{
	vector<string> r;
	for (auto &x : split(s, ',')) r.push_back(unesc(x));
	return r;
}
static string nj(const string &s, bool path)
{
	string r;
	for (char c : s) {
		if (c == '$' || (path && (c == ' ' || c == ':'))) r += '$';
		r += c;
	}
	return r;
}
static string shq(const string &s)
{
	bool plain = !s.empty();
	for (char c : s)
		if (!isalnum((unsigned char)c) && !strchr("_+-./", c)) plain = false;
	if (plain) return s;
	string r = "'";
	for (char c : s) {
		if (c == '\'') r += "'\\''";
		else r += c;
	}
	return r + "'";
}

struct GEdge {
	string id;
	vector<string> outs, ins, imp, ord;
	bool phony = false, restat = false, proj = false, rsp = false, always = false, desc = false, p2 = false;
	int dep = 0; // 1: deps = gcc, 2: depfile only
	int spell = 0; // how the depfile spells its paths
	string pool;
	int v = 1, rv = 1;
	// bookkeeping of the oracle
	bool may = true;
	bool fresh = true; // never completed
	std::set<string> disc; // discovered includes, old and new
	bool pend = false; // failed, not yet rerun
};
struct Graph {
	std::map<string, string> src; // current text of every source
	std::map<string, int> srcv;
	std::map<string, vector<string>> inc;
	std::map<string, int> tails;
	std::map<string, int> pools;
	vector<GEdge> edges;
	string root = "/w";
	string bdir; // builddir variable
	int split = 0;
	GEdge *edge(const string &id)
	{
		for (auto &e : edges)
			if (e.id == id) return &e;
		return nullptr;
	}
	GEdge *producer(const string &f)
	{
		for (auto &e : edges)
			for (auto &o : e.outs)
				if (o == f) return &e;
		return nullptr;
	}
	bool known(const string &f) { return src.count(f) || producer(f); }
	// drop references to files nobody produces
	vector<string> live(const vector<string> &v)
	{
		vector<string> r;
		for (auto &f : v)
			if (known(f)) r.push_back(f);
		return r;
	}
	void render_src(const string &n)
	{
		string t = n + strf(" v%d\n", srcv[n]);
		for (auto &h : inc[n])
			if (known(h)) t += "#include " + h + "\n";
		for (int i = 0; i < tails[n]; i++) t += strf("// tail %d\n", i);
		src[n] = t;
	}
	vector<string> impfiles(const GEdge &e);
	string rspc(const GEdge &e)
	{
		string s = strf("rv%d", e.rv);
		for (auto &f : const_cast<Graph *>(this)->live(e.ins)) s += "\n" + shq(f);
		return s;
	}
	string manifest(string &second)
	{
		string m = "ninja_required_version = 1.7\n";
		if (!bdir.empty()) m += "builddir = " + bdir + "\n";
		m += "job = /sim/job\n";
		for (auto &p : pools) m += strf("pool %s\n  depth = %d\n", p.first.c_str(), p.second);
		for (int restat = 0; restat < 2; restat++)
			for (int dep = 0; dep < 3; dep++)
				for (int rsp = 0; rsp < 2; rsp++) {
					m += strf("rule r%d%d%d\n  command = $job $id v=$v $flags -o $out -i $in\n", restat, dep, rsp);
					if (restat) m += "  restat = 1\n";
					if (dep) m += "  depfile = $df\n";
					if (dep == 1) m += "  deps = gcc\n";
					if (rsp) m += "  rspfile = $rf\n  rspfile_content = $rc\n";
				}
		string body[2];
		size_t k = 0;
		for (auto &e : edges) {
			string t = "build";
			for (auto &o : e.outs) t += " " + nj(o, true);
			if (e.phony) t += ": phony";
			else t += strf(": r%d%d%d", e.restat, e.dep, e.rsp);
			for (auto &f : live(e.ins)) t += " " + nj(f, true);
			auto im = live(e.imp), od = live(e.ord);
			if (e.phony && live(e.ins).empty() && im.empty()) t += " anchor"; // a phony without inputs means "always"
			if (e.always) im.push_back("FORCE");
			if (!im.empty()) t += " |";
			for (auto &f : im) t += " " + nj(f, true);
			if (!od.empty()) t += " ||";
			for (auto &f : od) t += " " + nj(f, true);
			t += "\n";
			if (!e.phony) {
				t += "  id = " + e.id + strf("\n  v = %d\n", e.v);
				string fl;
				auto im2 = impfiles(e);
				if (!im2.empty()) {
					string l;
					for (auto &f : im2) l += (l.empty() ? "" : ",") + f;
					fl += " " + shq("imp=" + l);
				}
				if (e.dep) fl += " " + shq("dep=" + e.outs[0] + ".d");
				if (e.dep == 2) fl += " depa=1";
				if (e.dep && e.spell) fl += strf(" spell=%d", e.spell);
				if (e.proj) fl += " proj=1";
				if (e.p2) fl += " p2=1";
				if (e.restat) fl += " restat=1";
				if (e.rsp) fl += " " + shq("rsp=" + e.outs[0] + ".rsp");
				if (!fl.empty()) t += "  flags = " + nj(fl.substr(1), false) + "\n";
				if (e.dep) t += "  df = " + nj(e.outs[0], false) + ".d\n";
				if (e.rsp) {
					t += "  rf = " + nj(e.outs[0], false) + ".rsp\n  rc = " + nj(replace_all(rspc(e), "\n", " "), false) + "\n";
				}
				if (!e.pool.empty() && (e.pool == "console" || pools.count(e.pool))) t += "  pool = " + e.pool + "\n";
				if (e.desc) t += "  description = making " + e.id + "\n";
			}
			body[split && k >= edges.size() / 2 ? 1 : 0] += t;
			k++;
		}
		bool force = false;
		for (auto &e : edges)
			if (e.always) force = true;
		m += body[0];
		if (force) m += "build FORCE: phony\n";
		if (split) {
			m += (split == 1 ? "include" : "subninja") + string(" rest.ninja\n");
			second = body[1];
		}
		return m;
	}
};
// ids reachable upstream of an edge through every kind of manifest input
static void upstream(Graph &g, GEdge *e, std::set<string> &out)
{
	for (auto *l : { &e->ins, &e->imp, &e->ord })
		for (auto &f : *l) {
			GEdge *p = g.producer(f);
			if (p && out.insert(p->id).second) upstream(g, p, out);
		}
}
// the files behind a name: a phony name stands for its inputs
static void through_phony(Graph &g, const string &f, std::set<string> &out, int depth = 0)
{
	GEdge *p = g.producer(f);
	if (p && p->phony && depth < 50) {
		for (auto *l : { &p->ins, &p->imp })
			for (auto &x : *l) through_phony(g, x, out, depth + 1);
	} else
		out.insert(f);
}
vector<string> Graph::impfiles(const GEdge &e)
{
	std::set<string> s;
	for (auto &f : live(e.imp)) through_phony(*this, f, s);
	vector<string> r;
	for (auto &f : s)
		if (known(f)) r.push_back(f);
	return r;
}
struct Model {
	Graph &g;
	std::map<string, string> memo;
	std::set<string> busy;
	explicit Model(Graph &g_) : g(g_) {}
	bool content(const string &f, string &c)
	{
		auto s = g.src.find(f);
		if (s != g.src.end()) {
			c = s->second;
			return true;
		}
		auto m = memo.find(f);
		if (m != memo.end()) {
			c = m->second;
			return true;
		}
		GEdge *e = g.producer(f);
		if (!e || e->phony || !busy.insert(f).second) return false;
		std::function<bool(const string &, string &)> rd = [this](const string &p, string &o) { return content(p, o); };
		vector<string> ins = g.live(e->ins), hd;
		for (auto &x : g.impfiles(*e)) ins.push_back(x);
		// phony names are not files: the job is never given one as explicit or implicit input
		string miss, rc = replace_all(g.rspc(*e), "\n", " ");
		u64 h = job_hash(e->id, strf("%d", e->v), ins, e->rsp ? &rc : nullptr, e->proj, e->dep != 0, hd, miss, rd);
		if (!miss.empty()) return false;
		u64 hfull = h;
		if (e->p2) {
			vector<string> hd2;
			hfull = job_hash(e->id, strf("%d", e->v), ins, e->rsp ? &rc : nullptr, false, e->dep != 0, hd2, miss, rd);
		}
		for (auto &o : e->outs) memo[o] = job_body(e->id, o, o == e->outs[0] ? h : hfull);
		c = memo[f];
		busy.erase(f);
		return true;
	}
	std::set<string> includes(GEdge *e)
	{
		vector<string> hd, ins = g.live(e->ins);
		for (auto &x : g.impfiles(*e)) ins.push_back(x);
		string miss;
		std::function<bool(const string &, string &)> rd = [this](const string &p, string &o) { return content(p, o); };
		if (e->dep) job_hash(e->id, "", ins, nullptr, false, true, hd, miss, rd);
		return std::set<string>(hd.begin(), hd.end());
	}
};

struct GraphScen : Scenario {
	Plan generate(u64 seed, const string &prop) override;
	void run(Exec &x) override;
};

static GEdge parse_edge(const Line &l)
{
	GEdge e;
	e.id = l.w.size() > 1 ? l.w[l.w[0] == "op" ? 2 : 1] : "?";
	e.outs = names(l.get("outs"));
	e.ins = names(l.get("in"));
	e.imp = names(l.get("imp"));
	e.ord = names(l.get("ord"));
	e.phony = l.num("phony");
	e.restat = l.num("restat");
	e.proj = l.num("proj");
	e.p2 = l.num("p2");
	e.spell = (int)l.num("spell");
	e.rsp = l.num("rsp");
	e.always = l.num("always");
	e.desc = l.num("desc");
	e.dep = (int)l.num("dep");
	e.pool = l.get("pool");
	return e;
}

void GraphScen::run(Exec &x)
{
	Graph g;
	g.bdir = x.plan.h("builddir");
	g.split = (int)x.plan.n("split");
	Vfs &fs = os.fs;
	fs.mkdirs(g.root);
	fs.write(g.root + "/anchor", "");
	string last_m, last_s;
	bool first_write = true;
	bool killed_ever = false;
	bool logs_flipped = false;
	bool hasdep2 = false;
	auto path = [&](const string &f) { return g.root + "/" + f; };
	auto put_src = [&](const string &n) {
		string old = g.src[n];
		g.render_src(n);
		if (!fs.exists(path(n)) || old != g.src[n]) fs.write(path(n), g.src[n]);
	};
	auto mark_readers = [&](const string &f) {
		for (auto &e : g.edges) {
			std::set<string> in;
			for (auto *l : { &e.ins, &e.imp })
				for (auto &y : *l) through_phony(g, y, in);
			for (auto &y : e.disc) in.insert(y);
			if (in.count(f)) e.may = true;
		}
	};
	auto later = [&]() { os.now += 8000000; };
	auto flush_manifest = [&]() {
		for (auto &kv : g.src) put_src(kv.first);
		string s, m = g.manifest(s);
		if (first_write || m != last_m || s != last_s) {
			fs.write(g.root + "/build.ninja", m);
			if (g.split) fs.write(g.root + "/rest.ninja", s);
			last_m = m;
			last_s = s;
			first_write = false;
		}
	};
	std::set<string> used;
	auto add_edge = [&](GEdge e) {
		if (g.edge(e.id)) return;
		vector<string> outs;
		for (auto &o : e.outs)
			if (!g.known(o)) outs.push_back(o);
		e.outs = outs;
		if (outs.empty()) return;
		// inputs must exist already: keeps the graph acyclic
		for (auto *l : { &e.ins, &e.imp, &e.ord }) *l = g.live(*l);
		// a job cannot read a phony name ($in); as implicit input it stands for its files
		if (!e.phony)
			e.ins.erase(std::remove_if(e.ins.begin(), e.ins.end(),
					    [&](const string &f) {
						    GEdge *p = g.producer(f);
						    return p && p->phony;
					    }),
				e.ins.end());
		if (e.dep == 2) hasdep2 = true;
		// whatever an include may name must be ordered before the job
		if (e.dep)
			for (auto &q : g.edges)
				if (!q.phony && starts_with(q.outs[0], "gen/")) {
					std::set<string> b;
					for (auto &f : e.ord) through_phony(g, f, b);
					if (!b.count(q.outs[0])) e.ord.push_back(q.outs[0]);
				}
		g.edges.push_back(e);
	};
	string prev_sig; // signature of the previous successful build command, for the no-op check
	bool prev_ok = false;
	int nbuild = 0;
	for (size_t li = 0; li < x.plan.lines.size(); li++) {
		Line l(x.plan.lines[li]);
		if (l.w.empty()) continue;
		if (l.w[0] == "src" && l.w.size() > 1) {
			string n = unesc(l.w[1]);
			if (g.known(n)) continue;
			g.srcv[n] = 1;
			g.inc[n] = names(l.get("inc"));
			g.src[n];
			continue;
		}
		if (l.w[0] == "pool" && l.w.size() > 1) {
			g.pools[l.w[1]] = (int)l.num("depth", 1);
			continue;
		}
		if (l.w[0] == "edge" && l.w.size() > 1) {
			add_edge(parse_edge(l));
			continue;
		}
		if (l.w[0] != "op" || l.w.size() < 2) continue;
		string op = l.w[1], arg = l.w.size() > 2 ? unesc(l.w[2]) : "";
		if (op != "build") prev_ok = false;
		if (op == "edit" || op == "tail" || op == "inc" || op == "touch") {
			if (!g.src.count(arg)) continue;
			if (first_write) flush_manifest();
			later();
			if (op == "edit") g.srcv[arg]++;
			if (op == "tail") g.tails[arg]++;
			if (op == "inc") g.inc[arg] = names(l.get("inc"));
			mark_readers(arg);
			if (op == "touch") {
				auto n = fs.find(path(arg));
				if (n) n->mtime = os.now;
			} else
				put_src(arg);
			continue;
		}
		if (op == "cmd") {
			GEdge *e = g.edge(arg);
			if (!e || e->phony) continue;
			if (e->rsp && l.num("rsp")) e->rv++;
			// the previous command again (a log that lost its tail cannot tell: C06 does without)
			else if (l.num("back") && e->v > 1 && x.prop != "C06") e->v--;
			else e->v++;
			e->may = true;
			continue;
		}
		if (op == "rmdep") {
			GEdge *e = g.edge(arg);
			if (!e || e->phony || e->dep != 2) continue;
			fs.remove_all(path(e->outs[0] + ".d"));
			e->may = true;
			continue;
		}
		if (op == "rmout") {
			GEdge *e = g.producer(arg);
			if (!e || e->phony) continue;
			fs.remove_all(path(arg));
			e->may = true;
			continue;
		}
		if (op == "rmedge") {
			for (size_t i = 0; i < g.edges.size(); i++)
				if (g.edges[i].id == arg) {
					vector<string> gone = g.edges[i].outs;
					for (auto &f : gone) mark_readers(f);
					bool ph = g.edges[i].phony;
					std::set<string> behind;
					if (ph)
						for (auto &f : gone) through_phony(g, f, behind);
					g.edges.erase(g.edges.begin() + (long)i);
					for (auto &e : g.edges)
						for (auto *v : { &e.ins, &e.imp, &e.ord })
							for (auto &f : gone) {
								size_t n0 = v->size();
								v->erase(std::remove(v->begin(), v->end(), f), v->end());
								if (v->size() != n0) {
									if (v != &e.ord) e.may = true;
									// keep what the alias stood for, so that generated headers stay ordered
									for (auto &b : behind) v->push_back(b);
								}
							}
					later();
					for (auto &kv : g.inc)
						for (auto &f : gone)
							if (std::find(kv.second.begin(), kv.second.end(), f) != kv.second.end()) {
								mark_readers(kv.first);
								kv.second.erase(std::remove(kv.second.begin(), kv.second.end(), f), kv.second.end());
								put_src(kv.first);
							}
					break;
				}
			continue;
		}
		if (op == "addedge") {
			add_edge(parse_edge(l));
			continue;
		}
		if (op == "job") {
			JobSpec s;
			s.ms = (int)l.num("ms");
			s.outn = (int)l.num("outn");
			s.errn = (int)l.num("errn");
			s.chunk = (int)l.num("chunk");
			s.exit = (int)l.num("exit");
			s.sig = (int)l.num("sig");
			s.fail_late = l.num("late");
			s.partial = l.num("partial");
			s.ec = (int)l.num("ec");
			s.bg = l.num("bg");
			os.jobs[arg] = s;
			continue;
		}
		if (op == "log") {
			string lp = path((g.bdir.empty() ? "" : g.bdir + "/") + (l.get("which") == "deps" ? ".ninja_deps" : ".ninja_log"));
			string c;
			if (!fs.read(lp, c)) continue;
			double at = atof(l.get("at", "0.5").c_str());
			size_t p = (size_t)(at * (double)c.size());
			string how = l.get("how", "trunc");
			Rng rr((u64)l.num("r", 1));
			if (how == "trunc") c = c.substr(0, p);
			else if (how == "rm") {
				fs.remove_all(lp);
			} else if (how == "flip") {
				logs_flipped = true;
				int nf = (int)l.num("n", 1);
				for (int i = 0; i < nf && p < c.size(); i++) {
					c[p] = (char)(c[p] ^ (1 << rr.below(8)));
					p = rr.below(c.size());
				}
			} else if (how == "garbage") {
				c = c.substr(0, p);
				int nf = (int)l.num("n", 16);
				for (int i = 0; i < nf; i++) c += (char)rr.below(256);
				if (l.get("which") == "deps") logs_flipped = true;
			} else if (how == "zero") {
				for (size_t i = p; i < c.size(); i++) c[i] = 0;
			} else if (how == "head") {
				for (size_t i = 0; i < c.size() && i < 16; i++) c[i] = (char)rr.below(256);
			} else if (how == "idflip") { // plausible but wrong record contents
				logs_flipped = true;
				p &= ~(size_t)3;
				if (p + 4 <= c.size()) {
					u32 v = (u32)rr.below(40);
					memcpy(&c[p], &v, 4);
				}
			}
			if (how != "rm") fs.write(lp, c);
			for (auto &e : g.edges) e.may = true;
			continue;
		}
		if (op == "bad") { // a build that cannot be done: it has to say so
			string how = l.get("how", "cycle");
			GEdge *e = g.edge(arg);
			if (!e || e->phony) continue;
			flush_manifest();
			vector<string> av = { "/usr/bin/muon", "samu", strf("-j%d", (int)l.num("j", 2)) };
			std::set<string> not_these;
			vector<string> ord = e->ord;
			string hidden, text;
			size_t n = (size_t)l.num("n");
			auto behind = [&]() { // what depends on e
				for (auto &q : g.edges) {
					std::set<string> u;
					upstream(g, &q, u);
					if (&q == e || u.count(e->id)) not_these.insert(q.id);
				}
			};
			if (how == "cycle") {
				behind();
				vector<string> c;
				for (auto &q : g.edges)
					if (not_these.count(q.id) && !q.phony) c.push_back(q.outs[n % q.outs.size()]);
				e->ord.push_back(c[n % c.size()]);
				av.push_back(e->outs[0]); // (a cycle has no end, so no default build gets there)
			} else if (how == "nosrc") {
				vector<string> c;
				for (auto *v : { &e->ins, &e->imp, &e->ord })
					for (auto &f : *v)
						if (g.src.count(f)) c.push_back(f);
				if (c.empty()) continue;
				hidden = c[n % c.size()];
				behind();
			} else if (how == "target") {
				av.push_back("o/nosuch");
				if (n % 2) av.push_back(e->outs[0]);
			}
			string rest, m = g.manifest(rest);
			e->ord = ord;
			if (how == "dup") m += "build " + nj(e->outs[0], true) + ": phony\n";
			if (how == "rule") m += "build o/other: nosuchrule\n";
			if (how == "pool") m += "rule onlyhere\n  command = true\nbuild o/other: onlyhere\n  pool = nosuchpool\n";
			fs.write(g.root + "/build.ninja", m);
			if (g.split) fs.write(g.root + "/rest.ninja", rest);
			InodeP kept = hidden.empty() ? nullptr : fs.find(path(hidden));
			i64 kept_t = kept ? kept->mtime : 0;
			bool ran = false;
			if (!hidden.empty()) fs.remove_all(path(hidden));
			string bwhat = strf("impossible build (plan line %zu, %s)", li, how.c_str());
			std::set<string> before_ok;
			os.on_event = [&](HistEv &h) {
				if (h.kind == "job-start") ran = true;
				if (h.kind == "job-start" && not_these.count(h.a)) x.bad("C03", "impossible", bwhat + ": job " + h.a + " was started");
				if (h.kind == "job-write") mark_readers(h.b);
			};
			RunResult r = x.run((int)li, l, av, g.root, x.env());
			os.on_event = nullptr;
			if (x.abnormal(logs_flipped ? "C06" : x.prop, r, bwhat)) return;
			if (r.killed) killed_ever = true;
			else if (r.exit_code() == 0) x.bad("C01", "impossible", bwhat + ": exit 0");
			os.probes["impossible-" + how]++;
			later();
			fs.write(g.root + "/build.ninja", last_m);
			if (g.split) fs.write(g.root + "/rest.ninja", last_s);
			if (!hidden.empty()) {
				fs.write(path(hidden), g.src[hidden]);
				if (auto i = fs.find(path(hidden))) i->mtime = kept_t;
			}
			if (ran || r.killed)
				for (auto &q : g.edges) q.may = true;
			continue;
		}
		if (op == "clean" || op == "dry") { // `samu -t clean`, `samu -n`
			flush_manifest();
			bool clean = op == "clean";
			vector<string> av = { "/usr/bin/muon", "samu" }, ts;
			if (clean) av.insert(av.end(), { "-t", "clean" });
			else if (l.has("tool")) av.insert(av.end(), { "-t", l.get("tool") });
			else av.insert(av.end(), { strf("-j%d", (int)l.num("j", 2)), "-n" });
			for (auto &t : names(l.get("t"))) {
				GEdge *e = g.producer(t);
				if (e && !(clean && e->phony)) ts.push_back(t), av.push_back(t);
			}
			if (l.get("tool") == "query" && ts.empty()) continue; // it needs a target
			// what is to go
			std::set<string> go, may_go;
			if (clean)
				for (auto &e : g.edges) {
					if (e.phony) continue;
					if (ts.empty()) go.insert(e.outs.begin(), e.outs.end());
					may_go.insert(e.outs.begin(), e.outs.end());
					for (auto &o : e.outs) may_go.insert(o + ".d"), may_go.insert(o + ".rsp");
				}
			for (auto &t : ts) {
				if (!clean) break;
				go.insert(t);
				may_go.insert(t);
			}
			string bwhat = strf("%s (plan line %zu)", clean ? "samu -t clean" : l.has("tool") ? ("samu -t " + l.get("tool")).c_str() : "samu -n", li);
			std::map<string, InodeP> before, after;
			fs.list(g.root, before);
			std::map<string, string> content;
			std::map<string, i64> mt;
			for (auto &kv : before)
				if (kv.second->type == N_FILE) content[kv.first] = kv.second->content(), mt[kv.first] = kv.second->mtime;
			bool ran = false;
			os.on_event = [&](HistEv &h) {
				if (h.kind == "job-start") ran = true;
			};
			RunResult r = x.run((int)li, l, av, g.root, x.env());
			os.on_event = nullptr;
			if (x.abnormal(logs_flipped ? "C06" : x.prop, r, bwhat)) return;
			if (!clean && r.status && logs_flipped) continue;
			if (ran) x.bad(clean ? "C01" : "C02", "ran", bwhat + ": a job was started");
			if (r.killed) killed_ever = true;
			bool calm = !r.killed && r.faults_fired.empty();
			if (calm && r.status) x.bad("C01", "clean-fails", bwhat + strf(": exit %d: ", r.exit_code()) + first_lines(r.out + r.err, 400));
			fs.list(g.root, after);
			for (auto &kv : content) {
				const string &f = kv.first;
				if (starts_with(f, ".ninja_") || (g.root + "/" + f).find("/.ninja_") != string::npos) continue;
				auto it = after.find(f);
				bool gone = it == after.end();
				if (gone && clean) {
					if (!may_go.count(f) && ts.empty()) x.bad("C01", "clean-removed", bwhat + ": " + f + ", which no job makes, was removed");
					else if (g.src.count(f)) x.bad("C01", "clean-removed", bwhat + ": the source " + f + " was removed");
					if (GEdge *e = g.producer(f)) e->may = true;
					else
						for (auto &e : g.edges)
							if (!e.phony && (f == e.outs[0] + ".d")) e.may = true;
				} else if (gone)
					x.bad("C02", "dry-wrote", bwhat + ": " + f + " was removed");
				else if (it->second->content() != kv.second || it->second->mtime != mt[f])
					x.bad(clean ? "C01" : "C02", "dry-wrote", bwhat + ": " + f + " was changed");
			}
			for (auto &o : go)
				if (calm && !r.status && after.count(o)) x.bad("C01", "clean-left", bwhat + ": exit 0, but " + o + " is still there");
			os.probes[clean ? "cleaned" : "dry-run"]++;
			later();
			continue;
		}
		if (op != "build") continue;
		// -------------------------------------------------------------- one build
		flush_manifest();
		nbuild++;
		vector<string> targets;
		for (auto &t : names(l.get("t")))
			if (g.producer(t)) targets.push_back(t);
		int j = (int)l.num("j", 4);
		bool has_k = l.has("k");
		int k = (int)l.num("k", 1);
		vector<string> av = { "/usr/bin/muon", "samu" };
		string cwd = g.root;
		if (l.num("C")) {
			cwd = "/";
			av.push_back("-C");
			av.push_back(g.root);
		}
		if (l.has("j")) av.push_back(strf("-j%d", j));
		else j = os.ncpu + 2;
		if (has_k) {
			av.push_back("-k");
			av.push_back(strf("%d", k));
		}
		if (l.num("v")) av.push_back("-v");
		for (auto &t : targets) av.push_back(t);
		// closure of the requested targets
		std::set<string> clos;
		if (targets.empty())
			for (auto &e : g.edges) clos.insert(e.id);
		else
			for (auto &t : targets) {
				GEdge *e = g.producer(t);
				clos.insert(e->id);
				upstream(g, e, clos);
			}
		std::map<string, std::set<string>> up;
		for (auto &e : g.edges) upstream(g, &e, up[e.id]);
		{
			Model m(g);
			for (auto &e : g.edges)
				for (auto &h : m.includes(&e)) e.disc.insert(h);
		}
		// live oracle over the events
		std::map<string, int> started, running;
		std::set<string> failed, okset;
		std::map<string, int> poolrun;
		int nrun = 0;
		vector<Violation> ev;
		bool clean_run = !l.has("kill") && !l.has("fault") && !l.has("disk") && !l.has("fds");
		vector<string> unneeded;
		os.on_event = [&](HistEv &h) {
			if (h.kind == "job-start") {
				GEdge *e = g.edge(h.a);
				if (!e) {
					ev.push_back({ "C02", "unknown-job", "job " + h.a + " is not in the build file" });
					return;
				}
				if (started[h.a]++) ev.push_back({ "C03", "twice", "job " + h.a + " was started twice in one build" });
				if (!clos.count(h.a)) ev.push_back({ "C02", "not-requested", "job " + h.a + " was started but no requested target needs it" });
				if (!e->may && !e->always) unneeded.push_back(h.a);
				for (auto &u : up[h.a]) {
					if (running[u]) ev.push_back({ "C03", "order", "job " + h.a + " started while its input's job " + u + " was running" });
					if (failed.count(u)) ev.push_back({ "C04", "after-failed", "job " + h.a + " was started although " + u + ", which it depends on, failed" });
				}
				for (auto &kv : running)
					if (kv.second && up[kv.first].count(h.a))
						ev.push_back({ "C03", "order", "job " + h.a + " started after " + kv.first + ", which depends on it, was started" });
				for (auto &s : started)
					if (s.second && s.first != h.a && up[s.first].count(h.a) && !running[s.first])
						ev.push_back({ "C03", "order", "job " + h.a + " started after " + s.first + ", which depends on it, had run" });
				running[h.a] = 1;
				nrun++;
				if (nrun > j) ev.push_back({ "C03", "jobs", strf("%d jobs running at once with -j%d", nrun, j) });
				if (nrun == j && j > 1) os.probes["j-limit-reached"]++;
				if (!e->pool.empty()) {
					int lim = e->pool == "console" ? 1 : g.pools.count(e->pool) ? g.pools[e->pool] : 1 << 30;
					if (++poolrun[e->pool] > lim) ev.push_back({ "C03", "pool", strf("%d jobs of pool %s (depth %d) at once", poolrun[e->pool], e->pool.c_str(), lim) });
					if (poolrun[e->pool] == lim && lim > 1) os.probes["pool-limit-reached"]++;
				}
			} else if (h.kind == "job-end") {
				GEdge *e = g.edge(h.a);
				if (!e) return;
				running[h.a] = 0;
				nrun--;
				if (!e->pool.empty()) poolrun[e->pool]--;
				if (h.b == "ok") okset.insert(h.a);
				else failed.insert(h.a);
				if (starts_with(h.b, "missing-input") && clean_run) {
					string f = h.b.substr(14);
					Model m(g);
					string c;
					if (m.content(f, c)) ev.push_back({ "C03", "missing-input", "job " + h.a + " ran before its input " + f + " existed" });
				}
			} else if (h.kind == "job-write") {
				mark_readers(h.b);
			}
		};
		std::map<string, bool> may_before;
		for (auto &e : g.edges) may_before[e.id] = e.may;
		std::map<string, InodeP> before;
		for (auto &kv : os.jobs) // what a console job leaves behind writes between all other output
			if (GEdge *e = g.edge(kv.first))
				if (e->pool == "console") kv.second.bg = false;
		RunResult r = x.run((int)li, l, av, cwd, x.env());
		os.on_event = nullptr;
		x.out.nontrivial = x.out.nontrivial || !started.empty();
		for (auto &v : ev) x.out.v.push_back(v);
		string what = strf("build %d (plan line %zu)", nbuild, li);
		bool disturbed = r.killed || !r.faults_fired.empty() || l.has("fds");
		string p = x.prop;
		if (x.abnormal(logs_flipped ? "C06" : disturbed ? "C22" : p, r, what)) return;
		if (r.killed) killed_ever = true;
		if (getenv("SIM_SHOW")) {
			fprintf(stderr, "--- %s: exit %d killed=%d muts=%llu steps=%llu\n%s%s", what.c_str(), r.exit_code(), r.killed, (unsigned long long)r.muts,
				(unsigned long long)r.steps, r.out.c_str(), r.err.c_str());
			for (auto &f : r.faults_fired) fprintf(stderr, "   fault %s\n", f.c_str());
			for (auto &e : r.hist) fprintf(stderr, "   [%lld us] %s %s %s %lld\n", (long long)(e.t - os.boot) / 1000, e.kind.c_str(), e.a.c_str(), e.b.c_str(), (long long)e.n);
		}
		// C02: unneeded work
		if (!unneeded.empty()) {
			string s;
			for (auto &u : unneeded) s += " " + u;
			x.bad("C02", "unneeded", what + ": started jobs whose inputs, command and outputs had not changed:" + s);
		}
		// C04: reporting, containment
		bool injected_fail = false;
		std::set<string> planned_fail;
		for (auto &e : g.edges) {
			auto it = os.jobs.find(e.id);
			if (it != os.jobs.end() && (it->second.exit || it->second.sig)) planned_fail.insert(e.id);
		}
		for (auto &f : failed)
			if (planned_fail.count(f)) injected_fail = true;
		if (!r.killed) {
			if (!failed.empty() && r.status == 0) {
				string s;
				for (auto &f : failed) s += " " + f;
				x.bad("C04", "silent", what + ": exit 0 although jobs failed:" + s);
			}
			if (r.orphans) x.bad("C04", "orphans", what + strf(": %d jobs still running when the build exited", r.orphans));
			if (r.zombies && !r.faults_fired.size()) x.bad("C12", "zombies", what + strf(": %d finished jobs never waited for", r.zombies));
			// budget: after the reap of the failure that exhausts it no fork follows
			int budget = has_k ? (k > 0 ? k : 1 << 30) : 1, nf = 0;
			bool over = false;
			for (auto &h : r.hist) {
				if (h.kind == "reap" && h.a != "0") {
					if (++nf >= budget) over = true;
				}
				if (h.kind == "fork" && over) {
					x.bad("C04", "budget", what + strf(": a job was started after %d jobs had failed (limit %d)", nf, budget));
					break;
				}
			}
			// with failures left in the budget everything independent of them is brought up to date
			if (!disturbed && (int)failed.size() < budget && !failed.empty()) {
				Model m(g);
				for (auto &e : g.edges) {
					if (e.phony || !clos.count(e.id) || failed.count(e.id)) continue;
					bool down = false;
					for (auto &u : up[e.id])
						if (failed.count(u)) down = true;
					if (down) continue;
					for (auto &o : e.outs) {
						string want;
						if (m.content(o, want) && fs.get(path(o)) != want) {
							x.bad("C04", "not-run", what + ": with -k, " + e.id + " does not depend on a failed job but was not brought up to date");
							break;
						}
					}
				}
			}
			// a fault-free build of a sound project succeeds
			bool torn_depfile = hasdep2 && killed_ever;
			if (!disturbed && failed.empty() && r.status != 0 && !torn_depfile && !logs_flipped)
				x.bad("C01", "spurious-failure", what + strf(": exit %d although no job failed: ", r.exit_code()) + first_lines(r.err + r.out));
		}
		// C04: a job that failed is run again
		if (r.status == 0 && !r.killed)
			for (auto &e : g.edges)
				if (e.pend && clos.count(e.id) && !started.count(e.id)) x.bad("C04", "not-rerun", what + ": " + e.id + " failed before but was not run again, and the build exited 0");
		for (auto &e : g.edges) {
			if (okset.count(e.id)) e.pend = false;
			if (failed.count(e.id) && planned_fail.count(e.id)) e.pend = true;
		}
		// C01
		if (r.status == 0 && !r.killed && !(logs_flipped && killed_ever)) {
			Model m(g);
			for (auto &e : g.edges) {
				if (e.phony || !clos.count(e.id)) continue;
				for (auto &o : e.outs) {
					string want;
					if (!m.content(o, want)) continue;
					string got;
					bool there = fs.read(path(o), got);
					if (!there || got != want) {
						string how = !there ? "is missing" : "has content '" + got + "', a clean build gives '" + want + "'";
						string pp = logs_flipped ? "" : x.prop == "C06" ? "C06" : x.prop == "C22" && disturbed ? "C22" : x.prop == "C12" ? "" : "C01";
						if (!pp.empty()) x.bad(pp, there ? "stale" : "missing", what + ": exit 0 but " + o + " " + how);
						goto c01done;
					}
				}
			}
		c01done:;
		}
		// bookkeeping of what a later build may run
		if (r.killed || disturbed) {
			for (auto &e : g.edges) e.may = true;
		} else {
			Model m(g);
			for (auto &id : okset) {
				GEdge *e = g.edge(id);
				if (!e) continue;
				// a job that read something a later job of this build changed stays dirty (cannot happen when C03 holds)
				e->may = false;
				e->fresh = false;
				e->disc = m.includes(e);
			}
			// what ran before a reader was marked by job-write; failed ones stay marked
			for (auto &id : failed)
				if (GEdge *e = g.edge(id)) e->may = true;
			if (r.status == 0)
				for (auto &e : g.edges)
					if (clos.count(e.id) && !e.phony) e.may = false;
			if (r.status == 0 && logs_flipped)
				for (auto &e : g.edges) e.may = true;
		}
		// no-op: the same build again
		string sig;
		for (auto &a : av) sig += a + "\n";
		if (prev_ok && sig == prev_sig && clean_run && !r.killed) {
			bool any = false;
			for (auto &s : started) {
				if (!s.second) continue;
				GEdge *e = g.edge(s.first);
				bool force = e && e->always;
				if (e)
					for (auto &u : up[e->id])
						if (GEdge *ue = g.edge(u))
							if (ue->always) force = true;
				if (!force) any = true;
			}
			if (any || r.status) x.bad("C02", "not-noop", what + ": repeating a successful build with nothing changed " + (any ? "started jobs" : "failed"));
			os.probes["noop-checked"]++;
		}
		prev_ok = r.status == 0 && !r.killed && !disturbed && !logs_flipped;
		prev_sig = sig;
		// C05
		if (!r.killed && r.faults_fired.empty()) {
			for (auto &s : started) {
				GEdge *e = g.edge(s.first);
				if (!e || !s.second || (!okset.count(e->id) && !failed.count(e->id))) continue;
				if (failed.count(e->id) && !planned_fail.count(e->id)) continue;
				JobSpec sp;
				auto it = os.jobs.find(e->id);
				if (it != os.jobs.end()) sp = it->second;
				string o = pattern(e->id, sp.outn, 'o'), er = pattern(e->id, sp.errn, 'e');
				string all = r.out + "\n" + r.err;
				size_t dp = string::npos;
				string cmdtext = "/sim/job " + e->id + strf(" v=%d", e->v), dtext = e->desc && !l.num("v") ? "making " + e->id + "\n" : cmdtext;
				dp = r.out.find(dtext);
				size_t at[2] = { string::npos, string::npos };
				int q = 0;
				for (auto *pp : { &o, &er }) {
					q++;
					if (pp->size() < 7) continue; // too short to be told from other output
					if (e->pool == "console") {
						continue;
					}
					size_t a = all.find(*pp);
					at[q - 1] = a;
					if (a == string::npos) {
						string head = pp->substr(0, std::min<size_t>(pp->size(), 4));
						string frag = "<" + e->id + (q == 1 ? "o" : "e");
						bool some = all.find(frag) != string::npos;
						x.bad("C05", some ? "broken" : "lost", what + ": the " + (q == 1 ? "stdout" : "stderr") + strf(" of job %s (%zu bytes) is %s", e->id.c_str(), pp->size(), some ? "incomplete or mixed with other output" : "not shown at all"));
					} else {
						string frag = "<" + e->id + (q == 1 ? "o0>" : "e0>");
						if (pp->size() > frag.size() && all.find(frag, a + 1) != string::npos) x.bad("C05", "twice", what + ": the output of job " + e->id + " is shown twice");
						if (dp != string::npos && a < dp) x.bad("C05", "order", what + ": output of job " + e->id + " precedes its description");
					}
				}
				if (at[0] != string::npos && at[1] != string::npos) {
					size_t lo = std::min(at[0], at[1]), hi = std::max(at[0], at[1]);
					size_t lolen = at[0] < at[1] ? o.size() : er.size();
					for (auto &s2 : started)
						if (s2.first != e->id && hi > lo + lolen) {
							string mid = all.substr(lo + lolen, hi - lo - lolen);
							if (mid.find("<" + s2.first + "o") != string::npos || mid.find("<" + s2.first + "e") != string::npos)
								x.bad("C05", "mixed", what + ": output of job " + s2.first + " appears inside that of " + e->id);
						}
				}
				if (failed.count(e->id) && all.find(cmdtext) == string::npos) x.bad("C05", "no-command", what + ": the command of the failed job " + e->id + " is not shown");
			}
		}
		// C12
		if (!r.killed) {
			int live = 0, first = -1;
			int mx = 0;
			for (auto &h : r.hist) {
				if (h.kind == "fork") {
					int n = atoi(h.b.c_str());
					if (first < 0) first = n;
					int extra = n - first - 4 * live;
					mx = std::max(mx, extra);
					live++;
				}
				if (h.kind == "reap") live--;
			}
			if (mx > 8) x.bad("C12", "fd-growth", what + strf(": %d descriptors beyond those of the running jobs are open", mx));
		}
	}
}

// ------------------------------------------------------------------ generation
static string join(const vector<string> &v)
{
	string r;
	for (auto &s : v) r += (r.empty() ? "" : ",") + s;
	return r;
}
Plan GraphScen::generate(u64 seed, const string &prop)
{
	Rng r(seed ^ hash_str(prop));
	Plan p;
	p.scen = "graph";
	p.hdr["prop"] = prop;
	p.hdr["seed"] = strf("%llu", (unsigned long long)(seed & 0xffffffff));
	static const char *modes[] = { "random", "sticky", "prio", "fifo" };
	p.hdr["sched"] = modes[r.below(4)];
	if (r.chance(.3)) p.hdr["pipecap"] = r.chance(.5) ? "512" : "4096";
	if (r.chance(.3)) p.hdr["stdio"] = r.chance(.5) ? "64" : "512";
	if (r.chance(.3)) p.hdr["gran"] = r.chance(.5) ? "4000000" : "1000000";
	p.hdr["fill"] = strf("%d", (int)r.below(256));
	if (r.chance(.1)) p.hdr["builddir"] = "bd";
	if (r.chance(.15)) p.hdr["split"] = strf("%d", r.range(1, 2));
	bool big = prop == "C12" || (prop == "C03" && r.chance(.3)) || r.chance(.05);
	bool lots = r.chance(.01); // tables that have to grow
	int nsrc = r.range(1, big ? 8 : 5), nhdr = lots ? (r.chance(.1) ? 1030 : r.range(30, 70)) : r.range(0, 3), ngen = r.chance(.4) ? r.range(1, 2) : 0;
	int ne = lots && r.chance(.3) ? r.range(60, 130) : big ? r.range(15, 40) : r.range(2, 9);
	bool weird = r.chance(.15);
	vector<string> src, hdr, genh, all, outs, ids;
	auto nm = [&](const string &b) { return weird && r.chance(.3) ? b + (r.chance(.5) ? "%20x" : r.chance(.5) ? "%24y" : "+z") : b; };
	for (int i = 0; i < nhdr; i++) hdr.push_back(nm(strf("h%d.h", i)));
	for (int i = 0; i < nsrc; i++) src.push_back(nm(strf("s%d", i)));
	for (int i = 0; i < ngen; i++) genh.push_back(strf("gen/g%d.h", i));
	auto some = [&](const vector<string> &v, double pr, size_t mx) {
		vector<string> o;
		for (auto &s : v)
			if (o.size() < mx && r.chance(pr)) o.push_back(s);
		return o;
	};
	for (size_t i = 0; i < hdr.size(); i++) {
		vector<string> in;
		for (size_t k = 0; k < i && i < 5; k++)
			if (r.chance(.3)) in.push_back(hdr[k]);
		p.lines.push_back("src " + hdr[i] + (in.empty() ? "" : " inc=" + join(in)));
	}
	vector<string> incable = hdr;
	for (auto &g : genh) incable.push_back(g);
	for (auto &s : src) {
		auto in = lots && r.chance(.7) ? some(incable, .95, 2000) : some(incable, .4, 4);
		p.lines.push_back("src " + s + (in.empty() ? "" : " inc=" + join(in)));
	}
	int np = r.chance(prop == "C03" ? .8 : .35) ? r.range(1, 2) : 0;
	for (int i = 0; i < np; i++) p.lines.push_back(strf("pool p%d depth=%d", i, r.range(1, 3)));
	for (int i = 0; i < ngen; i++) {
		string l = strf("edge g%d outs=%s in=%s", i, genh[(size_t)i].c_str(), r.pick(src).c_str());
		if (r.chance(.5)) l += " restat=1 proj=1";
		p.lines.push_back(l);
		ids.push_back(strf("g%d", i));
	}
	string ghref;
	if (ngen && r.chance(.4)) {
		p.lines.push_back("edge gens phony=1 outs=gens in=" + join(genh));
		ghref = "gens";
	} else
		ghref = join(genh);
	vector<string> phonies;
	double pdep = r.unit() * .6, prestat = r.unit() * .6, prsp = r.unit() * .3, pcons = r.chance(.3) ? .2 : 0, palways = r.chance(.1) ? .2 : 0;
	int shape = (int)r.below(3); // 0 mixed, 1 chain, 2 wide
	auto mk_edge = [&](const string &id, bool isnew) {
		vector<string> ins, imp, ord;
		vector<string> cand = src;
		if (shape == 1 && !outs.empty()) ins.push_back(outs.back());
		else if (shape == 2 || outs.empty() || r.chance(.4)) ins.push_back(r.pick(src));
		else ins.push_back(r.pick(outs));
		if (!outs.empty() && r.chance(.4)) {
			string o = r.pick(outs);
			if (o != ins[0]) ins.push_back(o);
		}
		if (r.chance(.25)) {
			string o = outs.empty() || r.chance(.3) ? r.pick(src) : r.pick(outs);
			if (std::find(ins.begin(), ins.end(), o) == ins.end()) imp.push_back(o);
		}
		if (!outs.empty() && r.chance(.25)) ord.push_back(r.pick(outs));
		if (!phonies.empty() && r.chance(.3)) (r.chance(.5) ? ord : imp).push_back(r.pick(phonies));
		int no = r.chance(.2) ? 2 : 1;
		vector<string> o;
		string dir = r.chance(.3) ? "d" + strf("%d", (int)r.below(3)) + "/" : r.chance(.2) ? "x/y/" : "o/";
		for (int i = 0; i < no; i++) o.push_back(nm(dir + id + (i ? "b" : "")));
		string l = strf("%s %s outs=%s in=%s", isnew ? "op addedge" : "edge", id.c_str(), join(o).c_str(), join(ins).c_str());
		bool dep = r.chance(pdep);
		if (dep) {
			l += r.chance(.08) ? " dep=2" : " dep=1";
			if (r.chance(.25)) l += strf(" spell=%d", r.range(1, 3));
			if (!ghref.empty())
				for (auto &gx : split(ghref, ',')) ord.push_back(gx);
		}
		if (!imp.empty()) l += " imp=" + join(imp);
		std::sort(ord.begin(), ord.end());
		ord.erase(std::unique(ord.begin(), ord.end()), ord.end());
		if (!ord.empty()) l += " ord=" + join(ord);
		if (r.chance(prestat)) {
			l += " restat=1";
			if (r.chance(.8)) l += no > 1 && r.chance(.6) ? " proj=1 p2=1" : " proj=1";
		}
		if (r.chance(prsp)) l += " rsp=1";
		if (np && r.chance(.4)) l += strf(" pool=p%d", (int)r.below((u64)np));
		else if (r.chance(pcons)) l += " pool=console";
		if (r.chance(palways)) l += " always=1";
		if (r.chance(.3)) l += " desc=1";
		p.lines.push_back(l);
		ids.push_back(id);
		for (auto &x : o) outs.push_back(x);
	};
	for (int i = 0; i < ne; i++) {
		mk_edge(strf("e%d", i), false);
		if (r.chance(.1) && outs.size() > 1) {
			string n = strf("ph%d", i);
			p.lines.push_back("edge " + n + " phony=1 outs=" + n + " in=" + r.pick(outs));
			phonies.push_back(n);
		}
	}
	auto jobline = [&](const string &id, bool fail) {
		string l = "op job " + id;
		if (r.chance(.6)) l += strf(" ms=%d", r.chance(.2) ? r.range(100, 900) : r.range(1, 20));
		if (prop == "C05" || r.chance(.15)) {
			int sz[] = { 1, 7, 100, 1000, 4095, 4096, 4097, 5000, 16384, 70000 };
			if (r.chance(.7)) l += strf(" outn=%d", sz[r.below(10)]);
			if (r.chance(.5)) l += strf(" errn=%d", sz[r.below(10)]);
			if (r.chance(.4)) l += strf(" chunk=%d", r.chance(.5) ? r.range(97, 999) : r.range(1000, 5000));
			if (r.chance(.2)) l += strf(" ec=%d", r.range(1, 2));
			if (prop == "C05" && r.chance(.2)) l += " bg=1";
		}
		if (fail) {
			if (r.chance(.75)) l += strf(" exit=%d", r.chance(.5) ? 1 : r.range(2, 255));
			else l += strf(" sig=%d", r.chance(.5) ? 9 : 11);
			if (r.chance(.4)) l += " late=1";
			else if (r.chance(.4)) l += " partial=1";
		}
		p.lines.push_back(l);
	};
	for (auto &id : ids)
		if (r.chance(prop == "C03" || prop == "C05" || prop == "C04" ? .8 : .3)) jobline(id, false);
	int nb = prop == "C12" ? r.range(1, 2) : prop == "C05" ? r.range(1, 2) : r.range(2, 6);
	int nid = ne;
	vector<string> failing;
	string lastcmd;
	vector<size_t> builds;
	double pfail = prop == "C04" ? .7 : prop == "C05" ? .3 : .12;
	for (int b = 0; b < nb; b++) {
		if (b > 0) {
			for (auto &f : failing) jobline(f, false);
			failing.clear();
			int n = r.chance(.15) ? 0 : r.range(1, 3);
			for (int i = 0; i < n; i++) {
				int w = (int)r.below(20);
				if (w < 6) p.lines.push_back("op edit " + r.pick(src));
				else if (w < 8 && !hdr.empty()) p.lines.push_back("op edit " + r.pick(hdr));
				else if (w < 11) p.lines.push_back("op tail " + (hdr.empty() || r.chance(.6) ? r.pick(src) : r.pick(hdr)));
				else if (w < 13 && !incable.empty()) {
					auto in = some(incable, .5, 4);
					p.lines.push_back("op inc " + r.pick(src) + " inc=" + join(in));
				} else if (w < 14) p.lines.push_back("op touch " + r.pick(src));
				else if (w < 16) {
					bool back = !lastcmd.empty() && r.chance(.5);
					if (!back) lastcmd = r.pick(ids);
					p.lines.push_back("op cmd " + lastcmd + (back ? " back=1" : r.chance(.4) ? " rsp=1" : ""));
				} else if (w < 17 && prop != "C06" && r.chance(.25)) {
					bool cl = r.chance(.5);
					static const char *tools[] = { "commands", "compdb", "graph", "query", "targets" };
					int tool = cl || r.chance(.6) ? -1 : (int)r.below(5);
					p.lines.push_back(string("op ") + (cl ? "clean" : "dry") + (tool >= 0 ? string(" tool=") + tools[tool] : "") + (tool == 3 || (tool != 1 && tool != 4 && r.chance(.4)) ? " t=" + r.pick(outs) : string()) + strf(" j=%d s=%d", r.range(1, 3), (int)r.below(100000)));
				} else if (w < 17 && r.chance(.3)) p.lines.push_back("op rmdep " + r.pick(ids));
				else if (w < 17) p.lines.push_back("op rmout " + r.pick(outs));
				else if (w < 18 && ids.size() > 2) {
					p.lines.push_back("op rmedge " + r.pick(ids));
				} else if (w < 19) mk_edge(strf("e%d", nid++), true);
				else if (r.chance(.5) && prop != "C06") {
					static const char *how[] = { "cycle", "nosrc", "target", "dup", "rule", "pool" };
					p.lines.push_back("op bad " + r.pick(ids) + " how=" + how[r.below(6)] + strf(" n=%d j=%d s=%d", (int)r.below(20), r.range(1, 3), (int)r.below(100000)));
				} else if (r.chance(.3) || prop == "C06") p.lines.push_back(strf("op log which=%s how=rm", r.chance(.5) ? "log" : "deps"));
			}
			if (prop == "C06") {
				static const char *how[] = { "trunc", "trunc", "trunc", "rm", "flip", "garbage", "zero", "head", "idflip" };
				int m = r.range(1, 2);
				for (int i = 0; i < m; i++)
					p.lines.push_back(strf("op log which=%s how=%s at=%.4f n=%d r=%d", r.chance(.5) ? "log" : "deps", how[r.below(9)], r.unit(), r.range(1, 20), (int)r.below(100000)));
			}
		}
		if (r.chance(pfail)) {
			int n = r.range(1, prop == "C04" ? 3 : 1);
			for (int i = 0; i < n; i++) {
				failing.push_back(r.pick(ids));
				jobline(failing.back(), true);
			}
		}
		string l = "op build";
		if (r.chance(.85)) l += strf(" -j=%d", 0).substr(0, 1) + strf("j=%d", r.range(1, 6));
		if (r.chance(prop == "C04" ? .7 : .2)) l += strf(" k=%d", r.range(0, 4));
		if (r.chance(.2)) l += " v=1";
		if (r.chance(.1)) l += " C=1";
		if (r.chance(.3)) {
			auto t = some(outs, .3, 3);
			if (!phonies.empty() && r.chance(.3)) t.push_back(r.pick(phonies));
			if (!t.empty()) l += " t=" + join(t);
		}
		l += strf(" s=%d", (int)r.below(1000000));
		if (r.chance(.15)) l += strf(" sr=%d sw=%d", r.range(0, 40), r.range(0, 40));
		if (r.chance(.15)) l += strf(" delay=%d delaymax=%d", r.range(1, 40), r.range(1, 200));
		builds.push_back(p.lines.size());
		p.lines.push_back(l);
		if (prop != "C12" && r.chance(.35)) {
			// same build again
			string l2 = l.substr(0, l.find(" s=")) + strf(" s=%d", (int)r.below(1000000));
			p.lines.push_back(l2);
		}
	}
	// a last, full, undisturbed build
	for (auto &f : failing) jobline(f, false);
	p.lines.push_back(strf("op build j=%d s=%d", r.range(1, 4), (int)r.below(1000000)));
	// faults: placed inside what a fault-free execution of the same plan did
	double pk = prop == "C01" ? .5 : prop == "C06" ? .5 : prop == "C02" ? .1 : 0, pf = prop == "C22" ? 1 : prop == "C01" ? .15 : prop == "C12" ? .3 : 0;
	if (r.chance(pk) || r.chance(pf)) {
		Outcome o = execute(p);
		bool kills = pk > 0 && (pf == 0 || r.chance(.7));
		int n = r.range(1, 3);
		for (int i = 0; i < n; i++) {
			size_t bi = r.below(builds.size());
			size_t line = builds[bi];
			OpStat *st = nullptr;
			for (auto &s : o.ops)
				if (s.line == (int)line) st = &s;
			if (!st || p.lines[line].find("kill=") != string::npos || p.lines[line].find("fault=") != string::npos) continue;
			string f = fault_tokens(r, *st, kills, prop == "C01" ? "malloc,open_w,open_r,write,read,close,fork,pipe,mkdir,unlink,exec,disk,fds" : "malloc,open_w,open_r,write,read,close,fork,pipe,mkdir,unlink,stat,exec,disk,fds");
			p.lines[line] += f;
			// the build after a disturbed one is undisturbed and follows at once, half of the time
			if (r.chance(.5)) {
				p.lines.insert(p.lines.begin() + (long)line + 1, strf("op build j=%d s=%d", r.range(1, 4), (int)r.below(1000000)));
				break;
			}
		}
	}
	return p;
}
Scenario *scen_graph()
{
	static GraphScen s;
	return &s;
}
} // namespace sim
