// S5: wraps: fetching subprojects from archives, git repositories and package files.
#include "scen.h"
#include <algorithm>
#include <cstdlib>
namespace sim {
namespace {
// an independent SHA-256 (the code under test has its own)
string sha256(const string &in)
{
	static const u32 K[64] = { 0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5, 0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174, 0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da, 0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967, 0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85, 0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070, 0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3, 0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2 };
	u32 h[8] = { 0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19 };
	string d = in;
	d += (char)0x80;
	while (d.size() % 64 != 56) d += (char)0;
	u64 bits = (u64)in.size() * 8;
	for (int i = 7; i >= 0; i--) d += (char)(bits >> (8 * i));
	auto rr = [](u32 x, int n) { return x >> n | x << (32 - n); };
	for (size_t o = 0; o < d.size(); o += 64) {
		u32 w[64], v[8];
		for (int i = 0; i < 16; i++) {
			w[i] = 0;
			for (int j = 0; j < 4; j++) w[i] = w[i] << 8 | (unsigned char)d[o + (size_t)(i * 4 + j)];
		}
		for (int i = 16; i < 64; i++) {
			u32 a = w[i - 15], b = w[i - 2];
			w[i] = w[i - 16] + (rr(a, 7) ^ rr(a, 18) ^ a >> 3) + w[i - 7] + (rr(b, 17) ^ rr(b, 19) ^ b >> 10);
		}
		for (int i = 0; i < 8; i++) v[i] = h[i];
		for (int i = 0; i < 64; i++) {
			u32 t1 = v[7] + (rr(v[4], 6) ^ rr(v[4], 11) ^ rr(v[4], 25)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + K[i] + w[i];
			u32 t2 = (rr(v[0], 2) ^ rr(v[0], 13) ^ rr(v[0], 22)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
			for (int j = 7; j > 0; j--) v[j] = v[j - 1];
			v[4] += t1;
			v[0] = t1 + t2;
		}
		for (int i = 0; i < 8; i++) h[i] += v[i];
	}
	string r;
	for (u32 x : h) r += strf("%08x", x);
	return r;
}
struct Ent {
	char kind;
	u32 mode;
	string path, data, link;
};
struct Want {
	bool link = false;
	string data;
	int mode = -1;
};
struct Wrap {
	string id, kind; // file git local localdir present
	bool lead = false, pm = false, dnew = false, req = true;
	int broken = 0; // its meson.build
	int hash = 0, phash = 0, patch = 0, diff = 0, n = 3, big = 0;
	u64 seed = 1;
	string dirn;
	// what is known about the copy in the tree
	bool done = false, tried = false, unjudged = false;
	std::map<string, Want> user; // edits of the user

	int provide() const { return (int)(seed % 7) % 4 % 3; } // 0: nothing 1: the name of a variable 2: overridden
	string dest() const { return dirn.empty() ? id : dirn; }
	string url() const { return "https://sim.example/" + id + (kind == "git" ? ".git" : ".tar"); }
	string purl() const { return "https://sim.example/" + id + "-patch.tar"; }
	string text(const string &p, int v = 0) const
	{
		Rng r(hash_str(id + "/" + p) ^ seed * 977 ^ (u64)v);
		string s = p + strf(" v%d\n", v);
		int len = r.chance(.6) ? r.range(0, 200) : r.chance(.7) ? r.range(500, 5000) : r.range(5000, big ? 60000 : 12000);
		while ((int)s.size() < len) s += strf("%llx\n", (unsigned long long)r.next());
		return s;
	}
	string mb() const
	{
		static const char *b[] = { "", "projecu('x')\n", "project('x'\n", "project('x')\nerror('no')\n", "project('x')\nsubdir('nowhere')\n" };
		if (broken) return b[broken];
		return "project('" + id + "', version: '1.0')\n" + id + "_dep = declare_dependency(version: '1.0')\n" + (provide() == 2 ? "meson.override_dependency('" + id + "', " + id + "_dep)\n" : "") + (seed % 3 ? string() : "# " + string((size_t)(seed % 5000), 'p') + "\n");
	}
	vector<Ent> base() const
	{
		Rng r(seed * 5 + 3);
		vector<Ent> e;
		if (!pm) e.push_back({ 'F', 0644, "meson.build", mb(), "" });
		for (int i = 0; i < n; i++) {
			static const char *d[] = { "", "src/", "src/deep/", "include/" };
			string p = d[r.below(4)] + strf("f%d.c", i);
			u32 m = r.chance(.7) ? 0644 : r.chance(.5) || kind == "localdir" || patch == 2 ? 0755 : 0444; // (package files are not copied over read-only files)
			e.push_back({ r.chance(.1) ? 'W' : 'F', m, p, text(p), "" });
		}
		if (kind != "git") std::rotate(e.begin(), e.begin() + (long)r.below(e.size() + 0 ? e.size() : 1), e.end());
		if (kind == "file" || kind == "local") {
			if (r.chance(.3)) e.push_back({ 'D', 0755, "emptydir", "", "" });
			if (n && r.chance(.25)) e.push_back({ 'L', 0777, "link.c", "", e[0].path });
			if (n && r.chance(.25)) {
				size_t k = r.below(e.size());
				if (e[k].kind == 'F') e.push_back({ 'H', 0644, "hard.c", e[k].data, e[k].path });
			}
		}
		return e;
	}
	vector<Ent> over() const
	{
		Rng r(seed * 7 + 1);
		vector<Ent> e;
		if (!patch) return e;
		if (pm) e.push_back({ 'F', 0644, "meson.build", mb(), "" });
		e.push_back({ 'F', 0644, "patched.txt", text("patched.txt"), "" });
		if (r.chance(.4)) e.push_back({ 'F', r.chance(.7) ? 0644u : 0755u, "pdir/deep/new.c", text("new.c"), "" });
		if (r.chance(.3)) e.push_back({ 'F', 0644, "src/deep/added.c", text("added.c"), "" });
		for (auto &b : base())
			if (b.kind == 'F' && b.path != "meson.build" && r.chance(.3)) {
				bool hl = false;
				for (auto &h : base()) hl |= h.kind == 'H' && h.link == b.path;
				if (!hl) e.push_back({ 'F', b.mode, b.path, text(b.path, 1), "" });
			}
		return e;
	}
	static string tar(const vector<Ent> &es, const string &prefix)
	{
		string s = "SIMTAR\n";
		for (auto &e : es) {
			s += string(1, e.kind) + strf(" %o %zu ", e.mode, e.kind == 'F' || e.kind == 'W' ? e.data.size() : 0) + prefix + e.path;
			if (e.kind == 'L') s += " " + e.link;
			if (e.kind == 'H') s += " " + prefix + e.link;
			s += "\n";
			if (e.kind == 'F' || e.kind == 'W') s += e.data;
		}
		return s + "END\n";
	}
	// the diffs: (file, text appended)
	vector<std::pair<string, string>> diffs() const
	{
		vector<std::pair<string, string>> r;
		Rng g(seed * 11 + 5);
		vector<string> c;
		for (auto &b : base())
			if (b.kind == 'F') {
				bool hl = false;
				for (auto &h : base()) hl |= (h.kind == 'H' || h.kind == 'L') && h.link == b.path;
				if (!hl) c.push_back(b.path);
			}
		for (int i = 0; i < diff; i++) {
			if (dnew && i == diff - 1) r.push_back({ "new.c", "created\n" });
			else if (!c.empty()) r.push_back({ g.pick(c), strf("# appended by diff %d\n", i) });
		}
		return r;
	}
	std::map<string, Want> want() const
	{
		std::map<string, Want> w;
		auto add = [&](const vector<Ent> &es, bool modes) {
			for (auto &e : es) {
				if (e.kind == 'D') continue;
				Want x;
				x.link = e.kind == 'L';
				x.data = e.kind == 'L' ? e.link : e.data;
				x.mode = modes && (e.kind == 'F' || e.kind == 'W') ? (int)e.mode : -1;
				w[e.path] = x;
			}
		};
		add(base(), kind == "file" || kind == "local");
		add(over(), patch == 1 || patch == 3);
		for (auto &d : diffs()) {
			w[d.first].data += d.second;
			w[d.first].mode = -1;
		}
		for (auto &u : user) w[u.first] = u.second;
		return w;
	}
};
struct WrapScen : Scenario {
	Plan generate(u64 seed, const string &prop) override;
	void run(Exec &x) override;
};
void WrapScen::run(Exec &x)
{
	Vfs &fs = os.fs;
	vector<Wrap> ws;
	string sd = x.plan.n("sd") ? "deps" : "subprojects", S = "/w/" + sd + "/";
	fs.mkdirs(S + "packagefiles");
	bool show = getenv("SIM_SHOW");
	auto find = [&](const string &id) -> Wrap * {
		for (auto &w : ws)
			if (w.id == id) return &w;
		return nullptr;
	};
	auto put = [&](const string &path, const string &data, u32 mode = 0644) {
		fs.mkdirs(path.substr(0, path.rfind('/')));
		fs.write(path, data, mode);
	};
	auto tree = [&](const Vfs &f, const Wrap &w) {
		std::map<string, InodeP> l;
		f.list(S + w.dest(), l);
		return l;
	};
	auto differs = [&](const Wrap &w) -> string {
		auto want = w.want();
		auto have = tree(fs, w);
		for (auto &kv : want) {
			auto it = have.find(kv.first);
			if (it == have.end()) return kv.first + " is missing";
			if ((it->second->type == N_LNK) != kv.second.link || (it->second->type != N_LNK && it->second->type != N_FILE)) return kv.first + " is of another type";
			if (it->second->content() != kv.second.data) return kv.first + strf(" has %zu bytes, and differs from the %zu bytes it should have", it->second->content().size(), kv.second.data.size());
			if (kv.second.mode >= 0 && (int)(it->second->mode & 0777) != kv.second.mode) return kv.first + strf(" has mode %o, not %o", it->second->mode & 0777, kv.second.mode);
		}
		for (auto &kv : have)
			if (kv.second->type != N_DIR && !want.count(kv.first) && !starts_with(kv.first, ".git/")) return kv.first + " should not exist";
		return "";
	};
	for (size_t li = 0; li < x.plan.lines.size(); li++) {
		Line l(x.plan.lines[li]);
		if (l.w.size() < 2) continue;
		if (l.w[0] == "wrap") {
			if (find(l.w[1])) continue;
			Wrap w;
			w.id = l.w[1];
			w.kind = l.get("kind", "file");
			w.lead = l.num("lead");
			w.pm = l.num("pm");
			w.dnew = l.num("dnew");
			w.req = l.num("req", 1);
			w.hash = (int)l.num("hash");
			w.phash = (int)l.num("phash");
			w.patch = (int)l.num("patch");
			w.diff = (int)l.num("diff");
			w.broken = (int)l.num("broken") % 5;
			w.n = (int)l.num("n", 3);
			w.big = (int)l.num("big");
			w.seed = (u64)l.num("seed", 1);
			w.dirn = l.get("dir");
			if (w.pm && (!w.patch || w.n == 0 || w.kind == "present")) w.pm = false;
			bool clash = false;
			for (auto &o : ws) clash |= o.dest() == w.dest() || o.id == w.dest() || o.dest() == w.id;
			if (clash) continue;
			if (w.kind == "present") w.patch = w.diff = 0;
			string t = w.kind == "git" ? "[wrap-git]\n" : "[wrap-file]\n";
			if (!w.dirn.empty()) t += "directory = " + w.dirn + "\n";
			string arch = Wrap::tar(w.base(), w.lead ? "" : w.dest() + "/"), parch = Wrap::tar(w.over(), w.dest() + "/");
			if (w.kind == "git") {
				t += "url = " + w.url() + "\nrevision = v1\n";
				auto &g = os.git[w.url()];
				for (auto &e : w.base()) g["v1"][e.path] = e.data;
				g["HEAD"] = g["v1"];
				g["HEAD"]["meson.build"] = w.mb() + "# newer\n";
				g["HEAD"]["head.c"] = "newer\n";
				if (w.n) g["HEAD"].erase(w.base().back().path == "meson.build" ? w.base()[0].path : w.base().back().path);
			} else {
				string fn = w.kind == "localdir" ? w.id + "-src" : w.id + ".tar";
				t += "source_filename = " + fn + "\n";
				if (w.kind == "file" || w.kind == "present") t += "source_url = " + w.url() + "\n";
				else if (w.kind == "local") put(S + "packagefiles/" + fn, arch);
				else
					for (auto &e : w.base()) put(S + "packagefiles/" + fn + "/" + (w.lead ? "" : w.dest() + "/") + e.path, e.data, e.mode);
				string h = sha256(arch);
				if (w.hash == 3) h = h.substr(0, w.seed % 2 ? 62 : w.seed % 31 * 2 + 2); // too short
				else if (w.hash == 2) h[w.seed % 64] = h[w.seed % 64] == '0' ? '1' : '0';
				if (w.hash && w.kind != "localdir") t += "source_hash = " + h + "\n";
				if (w.lead) t += "lead_directory_missing = true\n";
			}
			if (w.patch == 1 || w.patch == 3) {
				t += "patch_filename = " + w.id + "-patch.tar\n";
				if (w.patch == 1) t += "patch_url = " + w.purl() + "\n";
				else put(S + "packagefiles/" + w.id + "-patch.tar", parch);
				string h = sha256(parch);
				if (w.phash == 2) h[w.seed % 61] = h[w.seed % 61] == '0' ? '1' : '0';
				if (w.phash) t += "patch_hash = " + h + "\n";
			} else if (w.patch == 2) {
				t += "patch_directory = " + w.id + "-pd\n";
				for (auto &e : w.over()) put(S + "packagefiles/" + w.id + "-pd/" + e.path, e.data, e.mode);
			}
			auto ds = w.diffs();
			string dl;
			std::map<string, size_t> sz;
			auto w0 = w;
			w0.diff = 0;
			for (auto &kv : w0.want()) sz[kv.first] = kv.second.data.size();
			for (size_t i = 0; i < ds.size(); i++) {
				string n = w.id + strf("-%zu.diff", i);
				put(S + "packagefiles/" + n, ds[i].first + "\n" + (sz.count(ds[i].first) ? strf("%zu", sz[ds[i].first]) : string("-1")) + "\n" + ds[i].second);
				sz[ds[i].first] += ds[i].second.size();
				dl += (dl.empty() ? "" : w.seed % 2 ? ", " : ",") + n;
			}
			if (!dl.empty()) t += "diff_files = " + dl + "\n";
			if (w.provide() == 1) t += "\n[provide]\n" + w.id + " = " + w.id + "_dep\n";
			if (w.provide() == 2) t += "\n[provide]\ndependency_names = " + string(w.seed % 2 ? "other, " : "") + w.id + "\n";
			put(S + w.id + ".wrap", t);
			NetFile nf;
			nf.data = arch;
			nf.mode = (int)l.num("net");
			if (nf.mode == 5 && w.hash == 0) nf.mode = 3; // nothing could tell corrupted data without a hash
			nf.part = atof(l.get("part", "0.5").c_str());
			nf.fails = (int)l.num("fails");
			os.net[w.url()] = nf;
			nf.data = parch;
			nf.mode = (int)l.num("pnet");
			if (nf.mode == 5 && w.phash == 0) nf.mode = 3;
			os.net[w.purl()] = nf;
			if (w.kind == "present") {
				for (auto &e : w.base())
					if (e.kind != 'D') put(S + w.dest() + "/" + e.path, e.data, e.mode);
				w.done = true;
			}
			ws.push_back(w);
			continue;
		}
		if (l.w[0] != "op") continue;
		string op = l.w[1], what = strf("%s (plan line %zu)", op.c_str(), li);
		if (op == "heal" || op == "rm" || op == "user") {
			Wrap *w = find(l.get("w"));
			if (!w) continue;
			if (op == "heal") os.net[w->url()].mode = os.net[w->purl()].mode = 0;
			else if (op == "rm") {
				fs.remove_all(S + w->dest());
				w->done = w->tried = w->unjudged = false;
				w->user.clear();
			} else if (w->done) {
				string p = S + w->dest() + "/" + (l.num("mb") ? "meson.build" : "mine.c");
				Want u;
				u.data = l.num("mb") ? w->mb() + "# edited\n" : "of the user\n";
				fs.remove_all(p);
				put(p, u.data);
				w->user[l.num("mb") ? "meson.build" : "mine.c"] = u;
			}
			continue;
		}
		if (op != "download" && op != "setup") continue;
		vector<Wrap *> in;
		for (auto &id : split(l.get("names"), ','))
			if (Wrap *w = find(id)) in.push_back(w);
		bool named = !in.empty();
		if (!named)
			for (auto &w : ws) in.push_back(&w);
		vector<string> c = { "/usr/bin/muon" };
		bool nd = false;
		if (op == "download") {
			c.push_back("subprojects");
			if (x.plan.n("sd")) c.insert(c.end(), { "-d", sd });
			c.push_back("download");
			if (named)
				for (auto *w : in) c.push_back(w->id);
		} else {
			string m = "project('main'" + string(x.plan.n("sd") ? ", subproject_dir: 'deps'" : "") + ")\n";
			for (auto *w : in) {
				long how = l.num("dep");
				string rq = string(", required: ") + (w->req ? "true" : "false") + ")\nmessage('got " + w->id + "', s.found())\n";
				if (how == 1 && w->provide()) m += "s = dependency('" + w->id + "'" + rq;
				else if (how == 2) m += "s = dependency('" + string(w->provide() == 2 ? "" : "other-") + w->id + "', fallback: " + (w->provide() == 2 ? "'" + w->id + "'" : "['" + w->id + "', '" + w->id + "_dep']") + rq;
				else m += "s = subproject('" + w->id + "'" + rq;
			}
			put("/w/meson.build", m);
			fs.remove_all("/w/build");
			nd = l.num("nd");
			c.push_back("setup");
			if (nd) c.push_back("-Dwrap_mode=nodownload");
			c.push_back("build");
		}
		std::map<string, int> mode0, pmode0;
		for (auto &w : ws) mode0[w.id] = os.net[w.url()].mode, pmode0[w.id] = os.net[w.purl()].mode;
		Vfs A = fs.clone();
		RunResult r = x.run((int)li, l, c, "/w", x.env());
		string outp = r.out + r.err;
		if (show) {
			fprintf(stderr, "--- %s: exit %d killed=%d muts=%llu\n%s%s\n", what.c_str(), r.exit_code(), r.killed, (unsigned long long)r.muts, r.out.c_str(), r.err.c_str());
			for (auto &ff : r.faults_fired) fprintf(stderr, "   fault %s\n", ff.c_str());
		}
		bool disturbed = r.killed || !r.faults_fired.empty() || l.has("fds") || l.has("disk");
		x.out.nontrivial = true;
		if (x.abnormal("C18", r, what)) return;
		auto bad = [&](const string &cls, const string &m) { x.bad(x.prop == "C22" && disturbed && !r.killed ? "C22" : "C18", cls, what + ": " + m); };
		bool ok = !r.killed && !r.status, expect_ok = !disturbed;
		std::set<string> got;
		for (auto &e : r.hist)
			if (e.kind == "net-get") got.insert(e.a);
		if (nd && !got.empty()) bad("nodownload", "fetches " + *got.begin() + " although downloading is disabled");
		for (auto &w : ws) {
			bool involved = std::find(in.begin(), in.end(), &w) != in.end();
			if (w.broken && involved && op == "setup") {
				if (w.req) expect_ok = false;
				if (outp.find("got " + w.id + " true") != string::npos || (ok && w.req)) bad("broken", "uses " + w.id + " although its meson.build cannot be evaluated");
			}
			if (w.unjudged) { // its archive was corrupted, and nothing could tell
				if (involved) expect_ok = false;
				continue;
			}
			if (w.done) {
				// a complete subproject is left alone
				string d = differs(w);
				if (!w.unjudged && !d.empty()) bad("damaged", "the complete subproject " + w.id + " was touched: " + d);
				if (got.count(w.url()) || got.count(w.purl())) bad("refetched", "fetches " + w.id + " again although it is complete");
				if (involved && op == "setup" && ok && !disturbed && w.req && !w.broken && outp.find("got " + w.id + " true") == string::npos) bad("unused", "does not use the complete subproject " + w.id);
				continue;
			}
			if (!involved) {
				if (!w.unjudged && !tree(A, w).empty() != !tree(fs, w).empty()) bad("uninvolved", w.id + " is not asked for, but its directory came or went");
				continue;
			}
			bool file = w.kind == "file" || w.kind == "present", url = file || w.kind == "git";
			int m = mode0[w.id], pm = pmode0[w.id];
			bool usepatch = w.patch == 1 || w.patch == 3;
			bool badsrc = (w.hash >= 2 && (file || w.kind == "local")) || (url && m);
			bool badpatch = (usepatch && w.phash == 2) || (w.patch == 1 && pm);
			bool stuck = w.tried && (w.kind == "git" || w.dnew) && !tree(A, w).empty();
			// (git does not clone into a directory that exists, a diff does not create a file twice)
			bool needs_net = url || w.patch == 1;
			bool opt = op == "setup" && !w.req; // an optional subproject that cannot be had is disabled
			if (!opt && (badsrc || badpatch || stuck || (nd && needs_net))) expect_ok = false;
			// data of the wrong checksum is not unpacked
			if (file || w.kind == "local") {
				bool never = w.hash >= 2 || (file && m && os.net[w.url()].fails == 0 && os.net[w.url()].mode && (m == 1 || m == 2 || m == 4 || w.hash));
				if (never) {
					for (auto &kv : tree(fs, w))
						if (kv.second->type != N_DIR) {
							InodeP o = A.find(S + w.dest() + "/" + kv.first, false);
							if (!o || o->content() != kv.second->content()) {
								bad("unverified", kv.first + " of " + w.id + " was unpacked from data that " + (m == 1 || m == 2 ? "was not transferred completely" : m == 4 ? "is an error page" : "does not have the recorded checksum"));
								break;
							}
						}
					os.probes["unpack-refused"]++;
				}
			}
			if ((m == 5 && url && w.hash == 0) || (w.patch == 1 && pm == 5 && w.phash == 0)) w.unjudged = true; // nothing tells that data apart
			bool claimed = op == "download" ? ok : outp.find("got " + w.id + " true") != string::npos;
			if (op == "setup" && ok && w.req && !w.broken && !claimed && disturbed) claimed = true; // (the message may be what was lost)
			if (op == "setup" && ok && w.req && !w.broken && !claimed) bad("silent", "succeeds without the required subproject " + w.id);
			if (claimed) {
				string d = differs(w);
				if (!w.unjudged && !d.empty()) bad("incomplete", w.id + " is taken for complete: " + d);
				w.done = true;
				os.probes[w.tried ? "complete-after-retry" : "complete"]++;
			} else {
				w.tried = true;
				os.probes[tree(fs, w).empty() ? "nothing-left" : "partial-left"]++;
			}
		}
		if (expect_ok && !ok) bad("fails", "fails although everything can be had: " + first_lines(outp));
		// nothing else changes
		string d = diff_files(A, "/w", fs, "/w", [&](const string &p) {
			if (p == "build" || starts_with(p, "build/")) return true;
			for (auto &w : ws)
				if (p == sd + "/" + w.dest() || starts_with(p, sd + "/" + w.dest() + "/")) return true;
			// files of muon's own
			return starts_with(p, sd + "/") && !starts_with(p, sd + "/packagefiles") && !ends_with(p, ".wrap") && p.find('/', sd.size() + 1) == string::npos;
		});
		if (!d.empty()) bad("other", d);
	}
}
Plan WrapScen::generate(u64 seed, const string &prop)
{
	Rng r(seed ^ hash_str("wrap" + prop));
	Plan p;
	p.scen = "wrap";
	p.hdr["prop"] = prop;
	p.hdr["seed"] = strf("%llu", (unsigned long long)(seed & 0xffffffff));
	p.hdr["fill"] = strf("%d", (int)r.below(256));
	if (r.chance(.3)) p.hdr["stdio"] = r.chance(.5) ? "64" : "512";
	if (r.chance(.4)) p.hdr["dirseed"] = strf("%d", r.range(1, 1000));
	if (r.chance(.2)) p.hdr["sd"] = "1";
	int n = r.chance(.5) ? 1 : r.range(2, 4);
	vector<string> ids;
	for (int i = 0; i < n; i++) {
		string id = strf("w%d", i);
		ids.push_back(id);
		static const char *ks[] = { "file", "file", "file", "file", "git", "git", "local", "local", "localdir", "present" };
		string k = ks[r.below(10)];
		string l = "wrap " + id + " kind=" + k + strf(" seed=%d n=%d", (int)r.below(100000), r.chance(.8) ? r.range(0, 6) : r.range(6, 25));
		if (r.chance(.1)) l += " big=1";
		if (r.chance(.35)) l += " dir=" + id + "-1.0";
		if (r.chance(.35)) l += " lead=1";
		if (r.chance(.25)) l += " req=0";
		if (r.chance(.65)) l += r.chance(.88) ? " hash=1" : r.chance(.7) ? " hash=2" : " hash=3";
		if (r.chance(.4)) {
			l += strf(" patch=%d", r.range(1, 3));
			if (r.chance(.5)) l += " pm=1";
			if (r.chance(.6)) l += r.chance(.9) ? " phash=1" : " phash=2";
			if (r.chance(.15)) l += strf(" pnet=%d", r.range(1, 5));
		}
		if (r.chance(.1)) l += strf(" broken=%d", r.range(1, 4));
		if (r.chance(.3)) l += strf(" diff=%d", r.range(1, 2)) + (r.chance(.3) ? " dnew=1" : "");
		if (r.chance(.3)) l += strf(" net=%d part=%.3f", r.range(1, 5), r.unit()) + (r.chance(.5) ? strf(" fails=%d", r.range(1, 2)) : "");
		p.lines.push_back(l);
	}
	int nops = r.range(1, 5);
	vector<size_t> cand;
	for (int o = 0; o < nops; o++) {
		string nm;
		if (r.chance(.35))
			for (auto &i : ids)
				if (r.chance(.5)) nm += (nm.empty() ? "" : ",") + i;
		string l = string("op ") + (r.chance(.55) ? "download" : "setup") + (nm.empty() ? "" : " names=" + nm) + strf(" s=%d", (int)r.below(1000000));
		if (l.find("setup") != string::npos && r.chance(.1)) l += " nd=1";
		if (l.find("setup") != string::npos && r.chance(.4)) l += strf(" dep=%d", r.range(1, 2));
		if (r.chance(.2)) l += strf(" sr=%d sw=%d", r.range(0, 60), r.range(0, 60));
		cand.push_back(p.lines.size());
		p.lines.push_back(l);
		if (r.chance(.4)) p.lines.push_back("op heal w=" + r.pick(ids));
		if (r.chance(.15)) p.lines.push_back("op rm w=" + r.pick(ids));
		if (r.chance(.2)) p.lines.push_back("op user w=" + r.pick(ids) + (r.chance(.5) ? " mb=1" : ""));
	}
	if (prop == "C22" || r.chance(.75)) {
		Outcome o = execute(p);
		if (!o.v.empty() || !o.note.empty()) return p;
		int want = r.chance(.75) ? 1 : 2;
		for (int t = 0; t < 8 && want; t++) {
			bool kill = prop != "C22" && r.chance(.5);
			size_t line = r.chance(.6) ? cand[0] : r.pick(cand);
			if (p.lines[line].find("kill=") != string::npos || p.lines[line].find("fault=") != string::npos) continue;
			for (auto &s : o.ops)
				if (s.line == (int)line) {
					string k = fault_tokens(r, s, kill, "malloc,open_w,open_w,open_r,write,write,write,read,close,disk,disk,disk,fds,mkdir,unlink,symlink,fork,pipe,opendir,readdir,rename,net");
					if (k.empty()) break;
					p.lines[line] += k;
					want--;
					// what is left has to be dealt with afterwards
					if (line == cand.back()) {
						if (r.chance(.3)) p.lines.push_back("op heal w=" + r.pick(ids));
						cand.push_back(p.lines.size());
						p.lines.push_back(string("op ") + (r.chance(.6) ? "download" : "setup") + strf(" s=%d", (int)r.below(1000000)));
					}
					break;
				}
		}
	}
	return p;
}
} // namespace
Scenario *scen_wrap()
{
	static WrapScen s;
	return &s;
}
} // namespace sim
