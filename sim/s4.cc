// S4: `muon fmt` rewriting files in place.
#include "scen.h"
#include <algorithm>
#include <cstdlib>
namespace sim {
namespace {
struct FFile {
	string id, kind, dir;
	u64 seed = 0;
	int lines = 0, v = 1, mode = 0644;
	bool opt = false;
	string name() const { return dir + id + (opt ? ".txt" : ".meson"); }
};
string indent(Rng &r) { return r.chance(.3) ? "" : r.chance(.5) ? string((size_t)r.range(1, 6), ' ') : "\t"; }
string expr(Rng &r, int depth)
{
	auto sp = [&]() { return string((size_t)(r.chance(.5) ? 0 : r.range(1, 3)), ' '); };
	switch (depth <= 0 ? r.below(4) : r.below(9)) {
	case 0: return strf("%d", r.range(0, 1000));
	case 1: return "'str" + strf("%d", r.range(0, 99)) + (r.chance(.2) ? " with\\nescapes \\'" : "") + "'";
	case 2: return r.chance(.5) ? "true" : "a";
	case 3: return r.chance(.8) ? "b_var" : "'''multi\n  line   '''";
	case 4: return "(" + sp() + expr(r, depth - 1) + sp() + ")";
	case 5: {
		string s = "[";
		int n = r.range(0, 6);
		for (int i = 0; i < n; i++) s += sp() + expr(r, depth - 1) + (i + 1 < n ? "," : r.chance(.3) ? "," : "") + (r.chance(.15) ? " # note\n" : "");
		return s + sp() + "]";
	}
	case 6: {
		string s = "f" + strf("%d", r.range(0, 3)) + "(";
		int n = r.range(0, 4);
		for (int i = 0; i < n; i++) s += sp() + (i > 1 || r.chance(.3) ? strf("k%d", i) + sp() + ":" + sp() : string()) + expr(r, depth - 1) + (i + 1 < n ? "," : r.chance(.3) ? "," : "");
		// (positional arguments after keyword ones are an error only when it is evaluated)
		return s + sp() + ")";
	}
	case 7: return expr(r, depth - 1) + sp() + (r.chance(.5) ? "+" : r.chance(.5) ? "==" : "and ") + " " + expr(r, depth - 1);
	default: {
		string s = "{";
		int n = r.range(0, 3);
		for (int i = 0; i < n; i++) s += sp() + strf("'k%d'", i) + sp() + ":" + sp() + expr(r, depth - 1) + (i + 1 < n ? "," : "");
		return s + sp() + "}";
	}
	}
}
string stmt(Rng &r, int depth)
{
	string in = indent(r);
	switch (depth <= 0 ? r.below(4) : r.below(7)) {
	case 0: return in + "a" + (r.chance(.5) ? "=" : "   =  ") + expr(r, 2) + (r.chance(.2) ? "   # trailing" : "") + "\n";
	case 1: return in + "# comment  " + string((size_t)r.range(0, 90), 'c') + "\n";
	case 2: return in + "message(" + expr(r, 2) + ")" + (r.chance(.2) ? "  " : "") + "\n";
	case 3: return string((size_t)r.range(1, 4), '\n');
	case 4: {
		string s = in + "if " + expr(r, 1) + "\n";
		for (int i = 0, n = r.range(0, 3); i < n; i++) s += stmt(r, depth - 1);
		if (r.chance(.4)) s += "else\n" + stmt(r, depth - 1);
		return s + indent(r) + "endif\n";
	}
	case 5: {
		string s = in + "foreach i:" + expr(r, 1) + "\n";
		for (int i = 0, n = r.range(0, 3); i < n; i++) s += stmt(r, depth - 1);
		return s + indent(r) + "endforeach\n";
	}
	default: return in + "b_var +=  " + expr(r, 3) + "\n";
	}
}
string content(const FFile &f)
{
	Rng r(f.seed * 31 + (u64)f.v);
	if (f.kind == "empty") return "";
	if (f.kind == "blank") return "\n\n  \n";
	string s;
	for (int i = 0; i < f.lines; i++) s += stmt(r, 2);
	if (f.kind == "err") {
		static const char *e[] = { "if true\n", "a = [1, \n", "f(\n", "x = 'unterminated\n", "endif\n", "= 4\n" };
		string t = e[r.below(6)];
		s = r.chance(.5) ? t + s : s + t;
	}
	if (f.kind == "nonl" && !s.empty()) s.pop_back();
	if (f.kind == "crlf") s = replace_all(s, "\n", "\r\n");
	return s;
}
struct FmtScen : Scenario {
	Plan generate(u64 seed, const string &prop) override;
	void run(Exec &x) override;
};
void FmtScen::run(Exec &x)
{
	Vfs &fs = os.fs;
	vector<FFile> files;
	fs.mkdirs("/w/sub");
	bool show = getenv("SIM_SHOW");
	auto find = [&](const string &id) -> FFile * {
		for (auto &f : files)
			if (f.id == id) return &f;
		return nullptr;
	};
	std::set<string> left; // files that disturbed commands have left behind
	static const char *cfgs[] = { "max_line_len = 40\nindent_by = '  '\n", "space_array = true\nkwa_ml = true\n", "wide_colon = true\nno_single_comma_function = true\nmax_line_len = 20\n", "indent_by = '\t'", "no_such_key = 1\n", "max_line_len = many\n", "broken\n" };
	static const char *ecs[] = { "root = true\n[*]\nindent_style = tab\n", "[*.meson]\nindent_size = 2\n", "root = true\n[*]\nindent_style = space\nindent_size = 7\n", "[nothing.c]\nindent_size = 3\n", "[*.meson\nindent_size = 3\n" };
	if (x.plan.n("cfg")) fs.write("/w/fmt.ini", cfgs[(x.plan.n("cfg") - 1) % 7]);
	if (x.plan.n("ec")) fs.write("/w/.editorconfig", ecs[(x.plan.n("ec") - 1) % 5]);
	if (x.plan.n("ec2")) fs.write("/w/sub/.editorconfig", ecs[(x.plan.n("ec2") - 1) % 5]);
	for (size_t li = 0; li < x.plan.lines.size(); li++) {
		Line l(x.plan.lines[li]);
		if (l.w.size() < 2) continue;
		if (l.w[0] == "file") {
			if (find(l.w[1])) continue;
			FFile f;
			f.id = l.w[1];
			f.kind = l.get("kind", "ok");
			f.dir = l.num("sub") ? "sub/" : "";
			f.seed = (u64)l.num("seed", 1);
			f.lines = (int)l.num("n", 3);
			f.opt = l.num("opt");
			f.mode = (int)strtol(l.get("mode", "644").c_str(), nullptr, 8);
			files.push_back(f);
			string p = "/w/" + f.name();
			if (f.kind == "dir") fs.mkdirs(p);
			else if (f.kind == "missing") ;
			else if (f.kind == "dangling") fs.symlink(p, "/w/nowhere");
			else if (f.kind == "link") {
				fs.mkdirs("/w/real");
				fs.write("/w/real/" + f.id, content(f), (u32)f.mode);
				fs.symlink(p, f.seed % 2 ? "/w/real/" + f.id : (f.dir.empty() ? "real/" : "../real/") + f.id);
			} else fs.write(p, content(f), (u32)f.mode);
			continue;
		}
		if (l.w[0] != "op") continue;
		string op = l.w[1], what = strf("%s (plan line %zu)", op.c_str(), li);
		if (op == "edit") {
			FFile *f = find(l.get("f"));
			if (!f || f->kind == "dir" || f->kind == "missing" || f->kind == "dangling") continue;
			f->v++;
			InodeP i = fs.find("/w/" + f->name());
			if (i) i->wr() = content(*f);
			continue;
		}
		if (op != "fmt") continue;
		vector<FFile *> named;
		for (auto &id : split(l.get("files"), ','))
			if (FFile *f = find(id)) named.push_back(f);
		if (named.empty()) continue;
		bool inplace = l.num("i", 1), check = l.num("q");
		if (check) inplace = false;
		vector<string> base = { "/usr/bin/muon", "fmt" };
		if (l.num("cfg")) base.insert(base.end(), { "-c", "fmt.ini" });
		if (l.num("ec")) base.push_back("-e");
		// what each file is, formatted
		struct Ref { bool ok; string orig, out; InodeP node; u32 mode; };
		std::map<string, Ref> ref;
		bool all_ok = true, crashes = false; // crashes: the formatter itself does, on one of them
		for (auto *f : named) {
			string p = "/w/" + f->name();
			InodeP i = fs.find(p);
			Ref r = { false, "", "", i, i ? i->mode : 0 };
			if (i && i->type == N_FILE) {
				r.orig = i->content();
				auto keep = fs.clone();
				auto ops = x.out.ops;
				Line sl("op side s=1");
				auto c = base;
				c.push_back(f->name());
				RunResult rr = x.run(-1, sl, c, "/w", x.env());
				os.fs = keep;
				x.out.ops = ops;
				if (rr.abnormal()) crashes = true, os.probes["formatter-crashes"]++; // (a property of the formatter alone)
				r.ok = !rr.status && !rr.abnormal();
				r.out = rr.out;
				r.node = fs.find(p);
			}
			ref[f->name()] = r;
			all_ok &= r.ok;
		}
		vector<string> c = base;
		if (inplace) c.push_back("-i");
		if (check) c.push_back("-q");
		for (auto *f : named) c.push_back(f->name());
		Vfs A = fs.clone();
		RunResult r = x.run((int)li, l, c, "/w", x.env());
		if (show) {
			fprintf(stderr, "--- %s: exit %d killed=%d muts=%llu\n%s%s\n", what.c_str(), r.exit_code(), r.killed, (unsigned long long)r.muts, r.out.c_str(), r.err.c_str());
			for (auto &ff : r.faults_fired) fprintf(stderr, "   fault %s\n", ff.c_str());
		}
		bool disturbed = crashes || r.killed || !r.faults_fired.empty() || l.has("fds") || l.has("disk");
		x.out.nontrivial = true;
		if (!crashes && x.abnormal("C19", r, what)) return;
		auto bad = [&](const string &cls, const string &m) { x.bad(x.prop == "C22" && disturbed && !r.killed ? "C22" : "C19", cls, what + ": " + m); };
		std::set<string> seen;
		for (auto *f : named) {
			string n = f->name(), p = "/w/" + n;
			auto it = ref.find(n);
			if (it == ref.end() || !seen.insert(n).second) continue;
			Ref &q = it->second;
			InodeP before = A.find(p), i = fs.find(p), l0 = A.find(p, false), l1 = fs.find(p, false);
			if (!before || before->type != N_FILE) continue;
			if (!i || i->type != N_FILE) {
				bad("lost", n + " is gone");
				continue;
			}
			if (l0->type != l1->type) bad("link", n + " was a symbolic link and is a file now");
			if (i->mode != q.mode) bad("mode", n + strf(" has mode %o, it had %o", i->mode & 07777, q.mode & 07777));
			string got = i->content();
			bool formatted = q.ok && got == q.out, same = got == q.orig;
			if (!same && !(inplace && formatted)) {
				size_t k = 0;
				const string &w = q.ok && inplace ? q.out : q.orig;
				while (k < got.size() && k < w.size() && got[k] == w[k]) k++;
				bad("torn", n + strf(" (%zu bytes) is neither its original (%zu bytes) nor its formatted text (%zu bytes); byte %zu: '", got.size(), q.orig.size(), q.out.size(), k) + got.substr(k, 60) + "'");
			}
			if (!r.killed && !r.status && inplace && !formatted) bad("silent", "exit 0 but " + n + (q.ok ? " is not formatted" : " cannot be formatted"));
			if (!r.killed && !r.status && check && (!q.ok || q.out != q.orig)) bad("silent-check", "exit 0 of -q although " + n + " is not formatted");
			os.probes[formatted && !same ? "files-reformatted" : same ? "files-kept" : "files-other"]++;
		}
		if (!r.killed && !r.status && !all_ok && inplace) bad("silent", "exit 0 although not every named file could be processed");
		bool want_ok = all_ok;
		if (check)
			for (auto &kv : ref)
				if (kv.second.ok && kv.second.out != kv.second.orig) want_ok = false;
		if (!disturbed && r.status && want_ok && ref.size()) bad("fails", "fails on files that can be formatted: " + first_lines(r.out + r.err));
		// nothing else changes
		string d = diff_files(A, "/w", fs, "/w", [&](const string &p) {
			for (auto *f : named)
				if (p == f->name() || (f->kind == "link" && p == "real/" + f->id)) return true;
			if (disturbed && !A.exists("/w/" + p)) left.insert(p);
			return left.count(p) > 0; // a temporary file
		});
		if (!d.empty()) bad("other", d);
		// it can be run again
		if ((r.killed || r.status) && inplace && disturbed) {
			os.probes[r.killed ? "fmt-killed" : "fmt-failed-loudly"]++;
			auto keep = fs.clone();
			auto ops = x.out.ops;
			Line sl("op side s=1");
			// (formatting what is formatted is another matter)
			auto c2 = base;
			c2.push_back("-i");
			for (auto *f : named)
				if (ref.count(f->name()) && fs.get("/w/" + f->name()) == ref[f->name()].orig) c2.push_back(f->name());
			RunResult rr = x.run(-1, sl, c2, "/w", x.env());
			if (all_ok && rr.status) bad("stuck", "running it again fails: " + first_lines(rr.out + rr.err));
			os.fs = keep;
			x.out.ops = ops;
		}
	}
}
Plan FmtScen::generate(u64 seed, const string &prop)
{
	Rng r(seed ^ hash_str("fmt" + prop));
	Plan p;
	p.scen = "fmt";
	p.hdr["prop"] = prop;
	p.hdr["seed"] = strf("%llu", (unsigned long long)(seed & 0xffffffff));
	p.hdr["fill"] = strf("%d", (int)r.below(256));
	if (r.chance(.4)) p.hdr["stdio"] = r.chance(.5) ? "64" : "512";
	if (r.chance(.4)) p.hdr["cfg"] = strf("%d", r.chance(.8) ? r.range(1, 4) : r.range(5, 7));
	if (r.chance(.4)) p.hdr["ec"] = strf("%d", r.chance(.9) ? r.range(1, 4) : 5);
	if (r.chance(.2)) p.hdr["ec2"] = strf("%d", r.chance(.9) ? r.range(1, 4) : 5);
	int n = r.range(1, 4);
	vector<string> ids;
	for (int i = 0; i < n; i++) {
		static const char *ks[] = { "ok", "ok", "ok", "ok", "err", "nonl", "crlf", "link", "link", "empty", "blank" };
		string k = r.chance(.05) ? (r.chance(.4) ? "missing" : r.chance(.5) ? "dir" : "dangling") : ks[r.below(11)];
		string l = "file f" + std::to_string(i) + " kind=" + k + strf(" seed=%d n=%d", (int)r.below(100000), r.chance(.7) ? r.range(1, 8) : r.chance(.7) ? r.range(10, 60) : r.range(100, 900));
		if (r.chance(.3)) l += " sub=1";
		if (r.chance(.2)) l += " opt=1";
		if (r.chance(.4)) l += string(" mode=") + (r.chance(.3) ? "755" : r.chance(.4) ? "600" : r.chance(.5) ? "664" : "444");
		p.lines.push_back(l);
		ids.push_back(strf("f%d", i));
	}
	int nops = r.range(1, 3);
	vector<size_t> cand;
	for (int o = 0; o < nops; o++) {
		string fl;
		for (auto &i : ids)
			if (r.chance(.75)) fl += (fl.empty() ? "" : ",") + i;
		if (fl.empty()) fl = ids[0];
		string l = "op fmt files=" + fl + strf(" s=%d", (int)r.below(1000000));
		if (p.hdr.count("cfg") && r.chance(.6)) l += " cfg=1";
		if (r.chance(p.hdr.count("ec") || p.hdr.count("ec2") ? .6 : .1)) l += " ec=1";
		if (r.chance(.15)) l += " q=1";
		if (r.chance(.3)) l += strf(" sr=%d sw=%d", r.range(0, 60), r.range(0, 60));
		cand.push_back(p.lines.size());
		p.lines.push_back(l);
		if (r.chance(.5)) p.lines.push_back("op edit f=" + r.pick(ids));
	}
	if (prop == "C22" || r.chance(.9)) {
		Outcome o = execute(p);
		if (!o.v.empty() || !o.note.empty()) return p;
		bool kill = prop != "C22" && r.chance(.45);
		for (int t = 0; t < 8; t++) {
			size_t line = r.pick(cand);
			for (auto &s : o.ops)
				if (s.line == (int)line) {
					string k = fault_tokens(r, s, kill, "malloc,open_w,open_w,open_r,write,write,write,read,close,close,disk,disk,fds,rename,chmod,unlink,misc");
					if (k.empty()) break;
					p.lines[line] += k;
					return p;
				}
		}
	}
	return p;
}
} // namespace
Scenario *scen_fmt()
{
	static FmtScen s;
	return &s;
}
} // namespace sim
