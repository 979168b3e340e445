// S2: whole projects: muon setup, build with regeneration, test, install; sources, options and
// build descriptions that change; kills, I/O errors, damaged state.
#include "scen.h"
#include <algorithm>
#include <cstdlib>
namespace sim {
namespace {
struct El {
	string id, kind, dir;
	Line l;
	bool active = true;
	int nfiles = 1;
	El() : l("") {}
	string get(const string &k, const string &d = "") const { return l.get(k, d); }
	long num(const string &k, long d = 0) const { return l.num(k, d); }
	bool has(const string &k) const { return l.has(k); }
};
struct SrcFile {
	int v = 1;
	bool fail = false, gone = false;
};
string q(const string &s) { return "'" + s + "'"; }
string mq(const string &s) { return q(replace_all(replace_all(s, "\\", "\\\\"), "'", "\\'")); } // any text
// values of options: d0 ... d3 stand for themselves, the others are awkward
string optv(const string &t)
{
	static const char *v[] = { "a b", "it's", "x$y", "q\"q", "", "b\\s", "c:d=e,f", "#h;i&j|k", "$HOME `ls` $(id)", "*?[a-z]~", "-dash", "end\\", "$$", "tab\there", " lead", "@at@", "%s%d", "<in>out", "a;b", "(p)|q", "`id`" };
	int n = t.size() > 1 && t[0] == 'd' ? atoi(t.c_str() + 1) : 0;
	if (n >= 25 && n < 30) { // around the size of what muon keeps strings in, and well above
		static const int len[] = { 4094, 4095, 4096, 4097, 9000 };
		return string((size_t)len[n - 25] - 2, 'x') + " y";
	}
	return n >= 4 && n < 25 ? v[n - 4] : t;
}
string envv(long n) // the value of an environment variable
{
	return n < 1000 ? strf("e%ld", n) : string((size_t)n, 'e');
}
struct InstEnt { // one expected installed object
	char type = 'f'; // f file, d directory, l symlink
	int mode = -1; // -1: not specified
	string from; // absolute path of the file whose content (and mode) it gets
	string text; // link target
	bool opt = false;
};
// checks that give a number, and that number
const char *chkhows[] = { "sizeof", "alignment", "compute_int", "run" };
int chkval(const El &e)
{
	for (auto *h : chkhows)
		if (e.kind == "chk" && e.get("how") == h) return (int)e.num("v", 1) * 31 + 2;
	return -1;
}
struct Proj {
	vector<El> els;
	std::map<string, SrcFile> files; // absolute path
	std::map<string, string> optval; // defaults in the options file
	bool broken = false;
	string pdef; // prefix by default_options
	El *find(const string &id)
	{
		for (auto &e : els)
			if (e.id == id) return &e;
		return nullptr;
	}
	int rank(const El &e) const
	{
		int d = e.kind == "sp" || e.kind == "opt" ? -1 : e.dir.empty() ? 0 : e.dir == "a" ? 1 : 2;
		return d * 1000 + (int)(&e - &els[0]);
	}
	// an element E may refer to: active, of one of these kinds, defined before it
	El *ref(const El &e, const string &id, const string &kinds)
	{
		El *t = find(id);
		if (!t || !t->active || t == &e || rank(*t) >= rank(e)) return nullptr;
		for (auto &k : split(kinds, ','))
			if (t->kind == k) return t;
		return nullptr;
	}
	vector<El *> refs(const El &e, const string &key, const string &kinds)
	{
		vector<El *> r;
		for (auto &s : split(e.get(key), ','))
			if (El *t = ref(e, s, kinds))
				if (std::find(r.begin(), r.end(), t) == r.end()) r.push_back(t);
		return r;
	}
	static string sdir(const El &e) { return e.kind == "sp" ? "/w/subprojects/" + e.id + "/" : "/w/" + (e.dir.empty() ? "" : e.dir + "/"); }
	static string bdir(const El &e) { return e.kind == "sp" ? "/w/build/subprojects/" + e.id + "/" : "/w/build/" + (e.dir.empty() ? "" : e.dir + "/"); }
	// files an element owns
	vector<string> owned(const El &e)
	{
		vector<string> r;
		string s = sdir(e), k = e.kind;
		if (k == "tgt") {
			for (int i = 0; i < std::max(1, (int)e.num("n", 1)); i++) r.push_back(s + e.id + strf("_%d.c", i));
			r.push_back(s + e.id + ".h");
		} else if (k == "ct") {
			r.push_back(s + e.id + ".in");
			r.push_back(s + e.id + ".prog");
			if (e.get("mode") == "depfile") r.push_back(s + e.id + ".extra");
		} else if (k == "cfg") {
			if (e.get("mode") != "conf") r.push_back(s + e.id + ".hin");
			if (e.get("mode") == "command" || e.get("mode") == "capture") r.push_back(s + e.id + ".prog");
		} else if (k == "rc") {
			r.push_back(s + e.id + ".prog");
			r.push_back(s + e.id + ".tin");
		} else if (k == "fsr")
			r.push_back(s + e.id + ".txt");
		else if (k == "chk" && e.get("how") == "file")
			r.push_back(s + e.id + ".c");
		else if (k == "gen") {
			r.push_back(s + e.id + ".prog");
			r.push_back(s + e.id + "_in.gin");
		} else if (k == "vcs")
			r.push_back(s + e.id + ".vin");
		else if (k == "sp") {
			r.push_back(s + e.id + ".c");
			r.push_back(s + e.id + "_sp.h");
			if (e.num("prov")) r.push_back("/w/subprojects/" + e.id + ".wrap");
		} else if (k == "inst") {
			string w = e.get("what", "data");
			if (w == "headers") r.push_back(s + e.id + ".hh");
			else if (w == "man") r.push_back(s + e.id + (e.has("loc") && e.num("locn") ? "." + e.get("loc") : "") + ".1");
			else if (w == "paths") {
				r.push_back(s + e.id + "_p.hh");
				r.push_back(s + e.id + ".p/one/" + e.id + "_q.hh");
				r.push_back(s + e.id + ".p/" + e.id + "_r.hh");
			}
			else if (w == "script") r.push_back(s + e.id + ".prog");
			else if (w == "subdir" && e.num("none")) ; // the source directory does not exist
			else if (w == "subdir") {
				for (int i = 0; i < std::max(1, (int)e.num("n", 2)); i++) r.push_back(s + e.id + ".d/" + (i % 2 ? "sub/" : "") + strf("%s_f%d", e.id.c_str(), i));
				if (e.num("lnk")) r.push_back(s + e.id + ".d/" + e.id + "_l");
			} else if (w == "data") {
				for (int i = 0; i < std::max(1, (int)e.num("n", 1)); i++) r.push_back(s + e.id + strf("_%d.dat", i));
			}
		}
		return r;
	}
	string content(const El &e, const string &path)
	{
		if (e.kind == "inst" && ends_with(path, "_l")) return string("SYMLINK:") + (e.num("lnk") == 1 ? e.id + "_f0" : e.num("lnk") == 2 ? "sub" : "no/such/thing");
		SrcFile &f = files[path];
		string s = strf("v%d", f.v), name = path.substr(path.rfind('/') + 1);
		if (ends_with(path, ".wrap")) return "[wrap-file]\nwrapdb_version = " + s + "\n\n[provide]\nx-" + e.id + " = " + (f.v % 2 ? "dep" : "dep2") + "\n";
		if (ends_with(path, ".c")) {
			string c = "// " + name + " " + s + "\n";
			if (e.kind == "tgt") {
				c += "#include \"" + e.id + ".h\"\n";
				for (auto *t : refs(e, "inc", "cfg,vcs")) c += "#include \"" + t->id + ".h\"\n";
				for (auto *t : refs(e, "sps", "sp")) c += "#include \"" + t->id + "_sp.h\"\n";
				if (e.get("tk", "exe") == "exe" && ends_with(path, "_0.c")) {
					c += "//@ start " + e.id + "\n";
					if (f.fail) c += "//@ exit 1\n";
				}
			}
			if (f.fail && !(e.kind == "tgt" && e.get("tk", "exe") == "exe" && ends_with(path, "_0.c"))) c += "#error told to\n";
			return c;
		}
		if (ends_with(path, ".prog")) {
			string sb = replace_all(sdir(e), " ", "\x01"); // see unblank()
			string c = "#!/sim/prog\n# " + name + " " + s + "\n";
			string m = e.get("mode", "plain");
			if (e.kind == "inst") {
				c += "start " + e.id + "\nhistenv MESON_INSTALL_DRY_RUN\nhistenv MESON_SOURCE_ROOT\nhistenv MESON_BUILD_ROOT\nexitifenv MESON_INSTALL_DRY_RUN\naccenv DESTDIR\naccenv MESON_INSTALL_PREFIX\naccenv MESON_INSTALL_DESTDIR_PREFIX\n";
				if (f.fail) return c + "err told to fail\\n\nexit 3\n";
				return c + "mkdirenv MESON_INSTALL_DESTDIR_PREFIX\nwriteenv MESON_INSTALL_DESTDIR_PREFIX/" + e.id + ".stamp by script " + s + " DESTDIR=%DESTDIR% P=%MESON_INSTALL_PREFIX% DP=%MESON_INSTALL_DESTDIR_PREFIX%" + (e.num("sargs") ? " args=%ARGS%" : "") + "\n";
			}
			if (e.kind == "rc") {
				if (e.num("chunk")) c += strf("chunk %ld\n", e.num("chunk"));
				if (e.num("ms")) c += strf("sleep %ld\n", e.num("ms"));
				c += "env RCENV\nargs\n";
				if (e.num("ec") == 1) c += strf("outn %ld %s\n", e.num("outn", 20), e.id.c_str()) + "out " + s + "\\n\nclose 1\nsleep 3\n" + strf("errn %ld %s\n", e.num("outn", 20), e.id.c_str());
				else {
					c += strf("both %ld %s\n", e.num("outn", 20), e.id.c_str());
					if (e.num("ec")) c += "close 2\nsleep 3\n";
					c += "out " + s + "\\n\n";
				}
				if (e.num("sig")) return c + strf("signal %ld\n", e.num("sig"));
				return c + strf("exit %ld\n", e.num("exit"));
			}
			if (e.kind == "gen") return c + "failunless $1 good\ngen $2 $1\n";
			if (e.kind == "cfg") return m == "capture" ? c + "failunless $1 good\ncat $1\n" + strf("outn %ld %s\n", e.num("outn"), e.id.c_str()) : c + "failunless $1 good\nwrite $2 part\ngen $2 $1\n";
			if (e.kind == "ct") {
				if (e.num("chunk")) c += strf("chunk %ld\n", e.num("chunk"));
				string tail;
				string fu = (e.num("dsig") ? strf("dieunless %ld ", e.num("dsig")) : string("failunless ")) + sb + e.id + ".in good\n";
				if (e.num("late")) tail += fu; // writes, then fails
				else c += fu;
				if (e.num("ms")) c += strf("sleep %ld\n", e.num("ms"));
				if (e.num("mute") && (m == "capture" || m == "capfeed") && !e.num("c")) return c + (m == "capfeed" ? "stdinacc\n" : "") + tail; // writes nothing at all
				if (e.num("nl")) c += "args1\n"; // (goes to the console unless captured)
				if (m == "capture") c += "cat $1\nenv CTENV\n" + string(e.num("ec") ? "close 2\nsleep 3\n" : "") + strf("outn %ld %s\n", e.num("outn"), e.id.c_str());
				else if (m == "feed") c += "stdinacc\naccenv CTENV\ngen $1 " + sb + e.id + ".in\n";
				else if (m == "capfeed") c += "stdin\nenv CTENV\n" + strf("outn %ld %s\n", e.num("outn"), e.id.c_str());
				else if (m == "depfile") c += "accenv CTENV\nin " + sb + e.id + ".extra\ngen $2 $1\ndep $3 $2 " + sb + e.id + ".extra\n";
				else {
					c += "accenv CTENV\n";
					if (e.num("nl")) c += "acc $8$9\n";
					c += "gen $2 $1\n";
					if (e.num("multi")) c += "gen $3 $1\n";
				}
				return c + tail;
			}
		}
		string g = f.fail ? "bad" : "good";
		if (e.kind == "cfg") {
			if (e.get("mode") == "input") return "/* " + g + " " + s + " */\n#define V_" + e.id + " @V@\n#mesondefine O\n#mesondefine U\n#define S @V@-@V@ @O@\n" + string(f.v % 2 ? "end @V@" : "#mesondefine V\n") + (e.num("keys") ? strf("keys @K0@ @K%ld@\n", e.num("keys") - 1) : string());
			return "/* " + g + " " + name + " " + s + " */\n";
		}
		if (e.kind == "rc") return "@OUT@|@ERR@|@RC@|" + s + "\n";
		if (e.kind == "vcs") return "/* @VCS_TAG@ " + s + " */\n";
		if (e.kind == "fsr" && e.get("how") == "keyval") return "A=" + g + s + "\n# a comment\nB=\"b b\"\n";
		if (e.kind == "fsr" && e.get("how") == "size") return g + string((size_t)f.v, '.') + "\n";
		string big;
		if (e.kind == "ct" && e.num("inn")) big = pattern(e.id, (int)e.num("inn"), 'i');
		return string(ends_with(path, ".h") ? "// " : "") + g + " " + name + " " + s + "\n" + big;
	}
	string optexpr(const El &e)
	{
		El *o = ref(e, e.get("uses"), "opt");
		if (!o) return q(strf("k%ld", e.num("v", 1)));
		return "get_option(" + q(o->id) + ")";
	}
	string options()
	{
		string s;
		for (auto &e : els)
			if (e.kind == "opt" && e.active) {
				string v = optval.count(e.id) ? optval[e.id] : e.get("val", "d0");
				if (e.get("ok") == "combo" && atoi(v.c_str() + 1) > 3) v = "d2";
				if (e.get("ok") == "combo") s += "option(" + q(e.id) + ", type: 'combo', choices: ['d0', 'd1', 'd2', 'd3'], value: " + q(v) + ")\n";
				else s += "option(" + q(e.id) + ", type: 'string', value: " + mq(optv(v)) + ")\n";
			}
		return s;
	}
	string envkw(const El &e)
	{
		if (!e.num("env")) return "";
		string more; // enough of them to change how a dict is kept
		if (e.num("env") % 7 == 3)
			for (int i = 0; i < 17; i++) more += strf("'EX%d': 'x%d', ", i, i);
		return ", env: {" + more + "'CTENV': " + q(envv(e.num("env"))) + "}";
	}
	string emit(const El &e, const std::set<string> &dirs)
	{
		string k = e.kind, m, v = "v_" + e.id;
		if (!e.active) return "";
		if (k == "tgt") {
			string tk = e.get("tk", "exe"), f = tk == "exe" ? "executable" : tk == "static" ? "static_library" : tk == "shared" ? "shared_library" : tk == "both" ? "both_libraries" : "library";
			m = v + " = " + f + "(" + q(e.id);
			for (int i = 0; i < std::max(1, (int)e.num("n", 1)); i++) m += ", " + q(e.id + strf("_%d.c", i));
			for (auto *t : refs(e, "gens", "gen")) m += ", g_" + t->id + ".process(f_" + t->id + ")";
			for (auto *t : refs(e, "cts", "ct"))
				if (t->get("mode", "plain") == "plain" && !t->num("multi") && t->num("c")) m += ", v_" + t->id;
			for (auto *t : refs(e, "inc", "cfg,vcs")) m += ", v_" + t->id;
			m += ", include_directories: inc";
			m += ", c_args: ['-DV=' + " + optexpr(e) + strf(", '-DK=%ld']", e.num("v", 1));
			string lw;
			for (auto *t : refs(e, "link", "tgt"))
				if (t->get("tk", "exe") != "exe") lw += "v_" + t->id + ", ";
			if (!lw.empty()) m += ", link_with: [" + lw + "]";
			string dp;
			for (auto *t : refs(e, "sps", "sp")) dp += "v_" + t->id + ", ";
			if (!dp.empty()) m += ", dependencies: [" + dp + "]";
			if (e.num("inst")) m += ", install: true";
			if (e.has("imode")) m += ", install_mode: " + q(e.get("imode"));
			if (e.has("idir")) m += ", install_dir: " + q(e.get("idir"));
			if (e.num("ver") && tk == "shared") m += strf(", version: '%ld.2.3'", e.num("ver"));
			m += ")\n";
			if (e.num("pc") && tk != "exe") m += strf("import('pkgconfig').generate(v_%s, name: '%s', description: 'd%ld', version: '%ld.5', variables: ['aa=b c', 'k=%ld']", e.id.c_str(), e.id.c_str(), e.num("v", 1), e.num("pc"), e.num("v", 1)) + (e.num("pc") == 2 ? ", filebase: 'base-" + e.id + "'" : string()) + (e.num("pc") == 3 ? ", install_dir: 'share/pcs', url: 'u'" : "") + ")\n";
			if (e.num("test") && tk == "exe") m += "test(" + q(e.id) + ", " + v + strf(", timeout: %ld)\n", 20 + e.num("v", 1));
		} else if (k == "ct") {
			string md = e.get("mode", "plain");
			string outs = q(e.id + (e.num("c") ? ".gen.c" : ".out"));
			if (e.num("multi") && md == "plain") outs += ", " + q(e.id + ".out2");
			string args;
			if (md == "capture") args = "'@INPUT@'";
			else if (md == "feed") args = "'@OUTPUT@'";
			else if (md == "capfeed") args = "'x'";
			else if (md == "depfile") args = "'@INPUT@', '@OUTPUT@', '@DEPFILE@'";
			else args = e.num("multi") ? "'@INPUT@', '@OUTPUT0@', '@OUTPUT1@'" : "'@INPUT@', '@OUTPUT@', 'y'";
			args += strf(", 'a%ld'", e.num("v", 1));
			if (e.num("nl")) args += ", 'q', 'q', 'q', 'l1\\nl2', " + q(strf("n%ld", e.num("nl")));
			m = v + " = custom_target(" + q(e.id) + ", input: " + q(e.id + ".in") + ", output: [" + outs + "], command: [find_program(" + q("./" + e.id + ".prog") + "), " + args + "]";
			if (md == "capture" || md == "capfeed") m += ", capture: true";
			if (md == "feed" || md == "capfeed") m += ", feed: true";
			if (md == "depfile") m += ", depfile: " + q(e.id + ".d");
			m += envkw(e);
			string dp;
			for (auto *t : refs(e, "deps", "ct,tgt")) dp += "v_" + t->id + ", ";
			if (!dp.empty()) m += ", depends: [" + dp + "]";
			m += e.num("inst") ? ", install: true, install_dir: " + (e.num("idirs") && e.num("multi") && e.get("mode", "plain") == "plain" ? e.num("idirs") == 1 ? "[false, 'share/second']" : e.num("idirs") == 2 ? "[" + q(e.get("idir", "share")) + ", false]" : "[" + q(e.get("idir", "share")) + ", 'share/second']" : q(e.get("idir", "share"))) + (e.num("nobd") ? ", build_by_default: false" : "") : ", build_by_default: true";
			if (e.num("inst") && e.has("imode")) m += ", install_mode: " + q(e.get("imode"));
			m += ")\n";
		} else if (k == "cfg") {
			string md = e.get("mode", "conf");
			string out = q(e.id + ".h"), cd;
			if (md == "conf" || md == "input") {
				cd = "cd_" + e.id;
				m = cd + " = configuration_data()\n" + cd + strf(".set('V', %ld)\n", e.num("v", 1)) + cd + ".set_quoted('O', " + optexpr(e) + ")\n";
				if (El *o = ref(e, e.get("from"), "fsr")) m += cd + ".set_quoted('F', v_" + o->id + ")\n";
				if (El *o = ref(e, e.get("from2"), "chk")) m += cd + ".set('C', v_" + o->id + ")\n";
				if (e.num("keys")) m += strf("foreach i : range(%ld)\n  ", e.num("keys")) + cd + ".set('K@0@'.format(i), i * 7 + 1)\nendforeach\n";
			}
			m += v + " = configure_file(output: " + out;
			if (md == "conf") m += ", configuration: " + cd;
			if (md == "input") m += ", input: " + q(e.id + ".hin") + ", configuration: " + cd;
			if (md == "copy") m += ", input: " + q(e.id + ".hin") + ", copy: true";
			if (md == "command") m += ", input: " + q(e.id + ".hin") + ", command: [find_program(" + q("./" + e.id + ".prog") + "), '@INPUT@', '@OUTPUT@']";
			if (md == "capture") m += ", input: " + q(e.id + ".hin") + ", capture: true, command: [find_program(" + q("./" + e.id + ".prog") + "), '@INPUT@']";
			if (e.num("inst")) m += ", install_dir: 'include'";
			if (e.num("inst") && e.has("imode")) m += ", install_mode: " + q(e.get("imode"));
			m += ")\n";
		} else if (k == "rc") {
			m = v + " = run_command(find_program(" + q("./" + e.id + ".prog") + "), 'one', 'two words', ''";
			if (e.num("env")) m += ", env: {'RCENV': " + q(envv(e.num("env"))) + "}";
			m += ", check: false)\n";
			m += "configure_file(input: " + q(e.id + ".tin") + ", output: " + q(e.id + ".txt") + ", configuration: {'OUT': " + v + ".stdout(), 'ERR': " + v + ".stderr(), 'RC': " + v + ".returncode()})\n";
		} else if (k == "fsr")
		{
			string h = e.get("how", "read"), f = q(e.id + ".txt");
			if (h == "size") m = v + " = fs.size(" + f + ").to_string()\n";
			else if (h == "hash") m = v + " = fs.hash(" + f + ", 'sha256')\n";
			else if (h == "keyval") m = v + " = import('keyval').load(" + (e.num("str") ? f : "files(" + f + ")") + ")['A']\n";
			else m = v + " = fs.read(" + (e.num("str") ? f : "files(" + f + ")") + ").strip()\n";
			m += "summary(" + q(e.id) + ", " + v + ")\n";
		}
		else if (k == "chk" && e.get("how") == "file") {
			m = v + " = meson.get_compiler('c').compiles(files(" + q(e.id + ".c") + "), name: " + q(e.id) + ")\n";
			m += "summary(" + q(e.id) + ", " + v + ")\n";
		} else if (k == "chk" && e.get("how") == "hdr") {
			m = v + " = meson.get_compiler('c').has_header(" + (e.num("v", 1) % 2 ? "'no-such-header.h'" : "'stdio.h'") + strf(", required: %s)\n", e.num("v", 1) == 3 ? "true" : "false");
			m += "summary(" + q(e.id) + ", " + v + ")\n";
		} else if (k == "chk" && chkval(e) >= 0) {
			string h = e.get("how");
			m = v + " = meson.get_compiler('c')." + h + "(";
			if (h == "run") {
				m = v + "r" + m.substr(v.size()) + strf("'//@ out x%ld\\n//@ exit %d\\nint main(void);', name: ", e.num("v", 1), chkval(e)) + q(e.id) + ")\n" + v + " = " + v + "r.returncode()\n";
				m += "summary(" + q(e.id + "_r") + ", ['@0@'.format(" + v + "r.compiled()), " + v + "r.stdout(), " + v + "r.stderr()])\n";
				m += "configure_file(output: " + q(e.id + "_r.h") + ", configuration: {'OK': " + v + "r.compiled(), 'OUT': " + v + "r.stdout()})\n";
			}
			else m += strf("'NAME%ld', prefix: '//@ out %d')\n", e.num("same"), chkval(e));
			m += "summary(" + q(e.id) + ", " + v + ")\n";
		} else if (k == "chk") {
			m = v + " = meson.get_compiler('c').compiles('int x; " + (e.num("v", 1) % 2 ? "" : "sim_syntax_error") + strf(" // %ld\\n', name: ", e.num("v", 1)) + q(e.id) + ")\n";
			m += "summary(" + q(e.id) + ", " + v + ")\n";
		} else if (k == "gen")
			m = "g_" + e.id + " = generator(find_program(" + q("./" + e.id + ".prog") + "), output: '@BASENAME@.gen.c', arguments: ['@INPUT@', '@OUTPUT@'])\nf_" + e.id + " = files(" + q(e.id + "_in.gin") + ")\n";
		else if (k == "vcs")
			m = v + " = vcs_tag(command: ['git', 'describe'], input: " + q(e.id + ".vin") + ", output: " + q(e.id + ".h") + ", fallback: 'none')\n";
		else if (k == "sp")
			m = e.num("prov") ? v + " = dependency(" + q("x-" + e.id) + (e.has("sod") && e.num("so") ? ", default_options: [" + mq("so=" + optv(e.get("sod"))) + "]" : "") + ")\n" : v + " = subproject(" + q(e.id) + (e.has("sod") && e.num("so") ? ", default_options: [" + mq("so=" + optv(e.get("sod"))) + "]" : "") + ").get_variable('dep')\n";
		else if (k == "inst") {
			string w = e.get("what", "data"), im = e.has("imode") ? ", install_mode: " + q(e.get("imode")) : "";
			string id = q(e.get("idir", "share/x"));
			if (w == "headers") m = "install_headers(" + q(e.id + ".hh") + (e.has("sub") ? ", subdir: " + q(e.get("sub")) : "") + im + ")\n";
			else if (w == "man") m = "install_man(" + q(e.id + (e.has("loc") && e.num("locn") ? "." + e.get("loc") : "") + ".1") + (e.num("mdir") ? ", install_dir: 'mm'" : "") + (e.has("loc") ? ", locale: " + q(e.get("loc")) : "") + im + ")\n";
			else if (w == "paths") m = string(e.num("dat") ? "install_data(" : "install_headers(") + q(e.id + "_p.hh") + ", " + q(e.id + ".p/one/" + e.id + "_q.hh") + (e.num("keep") ? ", " + q(e.id + ".p/" + e.id + "_r.hh") : ", files(" + q(e.id + ".p/" + e.id + "_r.hh") + ")") + (e.num("keep") ? ", preserve_path: true" : "") + (e.num("dat") ? (e.has("idir") ? ", install_dir: " + id : string()) : e.has("sub") ? ", subdir: " + q(e.get("sub")) : string()) + im + ")\n";
			else if (w == "subdir") m = "install_subdir(" + q(e.id + ".d") + ", install_dir: " + id + (e.num("strip") ? ", strip_directory: true" : "") + (e.num("excl") ? ", exclude_files: " + q(e.id + "_f0") : "") + (e.num("excld") ? ", exclude_directories: 'sub'" : "") + im + ")\n";
			else if (w == "symlink") m = "install_symlink(" + q(e.id + ".lnk") + strf(", pointing_to: 'to%ld', install_dir: ", e.num("v", 1)) + id + ")\n";
			else if (w == "emptydir") m = "install_emptydir(" + q(e.get("idir", "share/x") + "/" + e.id + ".empty") + im + ")\n";
			else if (w == "script") m = "meson.add_install_script(" + q(e.id + ".prog") + (e.num("sargs") ? strf(", 's%ld', 'two words'", e.num("sargs")) : "") + (e.num("dry") ? ", dry_run: true" : "") + ")\n";
			else {
				m = "install_data(";
				for (int i = 0; i < std::max(1, (int)e.num("n", 1)); i++) m += q(e.id + strf("_%d.dat", i)) + ", ";
				if (e.num("ren")) {
					m += "rename: [";
					for (int i = 0; i < std::max(1, (int)e.num("n", 1)); i++) m += q(strf("r%ld_", e.num("ren")) + (e.num("ren") == 2 ? "x/" : "") + e.id + strf("_%d.dat", i)) + ", ";
					m += "], ";
				}
				m += (e.num("noid") ? "sources: []" : "install_dir: " + id) + im + ")\n";
			}
		}
		(void)dirs;
		return m;
	}
	std::set<string> dirs()
	{
		std::set<string> d;
		for (auto &e : els)
			if (e.active && !e.dir.empty() && e.kind != "sp" && e.kind != "opt") d.insert(e.dir);
		return d;
	}
	int smode(const string &path)
	{
		for (auto &e : els)
			if (e.kind == "inst" && e.num("smode") && starts_with(path, sdir(e) + e.id)) return (int)strtol(e.get("smode").c_str(), nullptr, 8);
		return 0644;
	}
	// all files of the source tree
	std::map<string, string> tree()
	{
		std::map<string, string> t;
		auto ds = dirs();
		string opt = options();
		t["/w/meson_options.txt"] = opt;
		string root = "project('top', 'c', version: '1'" + (pdef.empty() ? "" : ", default_options: ['prefix=" + pdef + "']") + ")\nfs = import('fs')\ninc = include_directories('.'";
		for (auto &d : ds) root += ", " + q(d);
		root += ")\n";
		for (auto &e : els)
			if (e.kind == "sp") root += emit(e, ds);
		for (auto &e : els)
			if (e.dir.empty() && e.kind != "sp" && e.kind != "opt") root += emit(e, ds);
		for (auto &d : ds) {
			root += "subdir(" + q(d) + ")\n";
			string s;
			for (auto &e : els)
				if (e.dir == d && e.kind != "sp" && e.kind != "opt") s += emit(e, ds);
			t["/w/" + d + "/meson.build"] = s;
		}
		if (broken) root += "this is (not a build file\n";
		t["/w/meson.build"] = root;
		for (auto &e : els) {
			if (!e.active) continue;
			if (e.kind == "sp") t[sdir(e) + "meson.build"] = "project(" + q(e.id) + ", 'c', version: '1.1')\nlib = static_library(" + q(e.id) + ", " + q(e.id + ".c") + strf(", c_args: ['-DS=%ld'", e.num("v", 1)) + (e.num("so") ? ", '-DSO=' + get_option('so')" : "") + "]" + (e.num("inst") ? ", install: true" : "") + ")\n" + (e.num("inst") ? "install_headers(" + q(e.id + "_sp.h") + ", subdir: 'sph')\n" : "") + "dep = declare_dependency(link_with: lib, include_directories: include_directories('.'))\ndep2 = declare_dependency(dependencies: dep, compile_args: '-DWRAP2')\n";
			if (e.kind == "sp" && e.num("prov") == 2) {
				// another one that provides the same
				string o = "/w/subprojects/o" + e.id;
				t[o + "/meson.build"] = "project('o')\ndep = declare_dependency()\n";
				t[o + ".wrap"] = "[wrap-file]\n[provide]\nx-" + e.id + " = dep\n";
			}
			if (e.kind == "sp" && e.num("so")) t[sdir(e) + "meson_options.txt"] = "option('so', type: 'string', value: " + mq(optv(optval.count(e.id) ? optval[e.id] : "d1")) + ")\n";
			for (auto &f : owned(e))
				if (!files[f].gone) t[f] = content(e, f);
		}
		return t;
	}
};
struct ProjScen : Scenario {
	Plan generate(u64 seed, const string &prop) override;
	void run(Exec &x) override;
};
bool skipf(const string &p)
{
	return p == ".gitignore" || p == ".hgignore" || p == ".muon/.ninja_log" || p == ".muon/.ninja_deps" || starts_with(p, ".muon/compiler_check") || starts_with(p, ".muon/test.c") || ends_with(p, ".d");
}
bool skipcc(const string &p) { return skipf(p) || p == "compile_commands.json"; }
// every file of the first tree is in the second, the same
string sub_diff(const Vfs &a, const string &pa, const Vfs &b, const string &pb, const std::function<bool(const string &)> &skip)
{
	std::map<string, InodeP> A, B;
	a.list(pa, A);
	b.list(pb, B);
	for (auto &kv : A) {
		if (skip(kv.first)) continue;
		auto it = B.find(kv.first);
		if (it == B.end()) return kv.first + " is missing";
		if (kv.second->type != it->second->type) return kv.first + " has another type";
		if (kv.second->type == N_DIR) continue;
		if (kv.second->content() != it->second->content()) {
			string x = kv.second->content(), y = it->second->content();
			if (kv.first == "build.ninja") { // (the command that configures again names the build directory as the user did)
				for (string *z : { &x, &y }) *z = replace_all(*z, " /w/build\n description = Regen", " build\n description = Regen");
				if (x == y) continue;
			}
			size_t i = 0;
			while (i < x.size() && i < y.size() && x[i] == y[i]) i++;
			size_t from = i > 60 ? i - 60 : 0;
			return kv.first + strf(" differs at byte %zu (sizes %zu, %zu): expected '", i, x.size(), y.size()) + x.substr(from, 140) + "', got '" + y.substr(from, 140) + "'";
		}
		if (kv.second->type == N_FILE && (kv.second->mode & 0777) != (it->second->mode & 0777)) return kv.first + strf(" has mode %o, expected %o", it->second->mode & 0777, kv.second->mode & 0777);
	}
	return "";
}
struct Side { // result of commands run on a copy of the world
	bool ok = false;
	string why;
	Vfs fs;
	RunResult r;
};
} // namespace

void ProjScen::run(Exec &x)
{
	Proj P;
	Vfs &fs = os.fs;
	fs.mkdirs("/w");
	fs.mkdirs("/etc/simgit");
	for (auto &ls : x.plan.lines) {
		Line l(ls);
		if (l.w.size() < 3 || l.w[0] != "el") continue;
		El e;
		e.kind = l.w[1];
		e.id = l.w[2];
		e.l = l;
		e.dir = replace_all(l.get("dir"), "%20", " ");
		e.active = !l.num("off");
		if (P.find(e.id)) continue;
		P.els.push_back(e);
	}
	P.els.reserve(P.els.size());
	P.pdef = x.plan.h("pdef");
	int rev = 1;
	os.ms_max = (int)x.plan.n("ms");
	os.ms_seed = 77;
	i64 src_step = 8000000;
	std::set<string> written;
	auto flush = [&]() {
		auto t = P.tree();
		bool any = false;
		for (auto &kv : t) {
			if (starts_with(kv.second, "SYMLINK:")) {
				string to = kv.second.substr(8);
				InodeP i = fs.find(kv.first, false);
				if (i && i->type == N_LNK && i->content() == to) continue;
				fs.mkdirs(kv.first.substr(0, kv.first.rfind('/')));
				fs.remove_all(kv.first);
				fs.symlink(kv.first, to);
				any = true;
				continue;
			}
			if (fs.exists(kv.first) && fs.get(kv.first) == kv.second) continue;
			fs.mkdirs(kv.first.substr(0, kv.first.rfind('/')));
			fs.write(kv.first, kv.second, ends_with(kv.first, ".prog") ? 0755 : P.smode(kv.first));
			any = true;
		}
		for (auto &p : written)
			if (!t.count(p) && fs.find(p, false)) fs.remove_all(p), any = true;
		written.clear();
		for (auto &kv : t) written.insert(kv.first);
		fs.write("/etc/simgit/describe", strf("rev%d\n", rev));
		return any;
	};
	auto show = [&](const RunResult &r, const string &what) {
		if (!getenv("SIM_SHOW")) return;
		fprintf(stderr, "--- %s: exit %d killed=%d muts=%llu steps=%llu\n%s%s", what.c_str(), r.exit_code(), r.killed, (unsigned long long)r.muts, (unsigned long long)r.steps, r.out.c_str(), r.err.c_str());
		for (auto &f : r.faults_fired) fprintf(stderr, "   fault %s\n", f.c_str());
		if (const char *cat = getenv("SIM_CAT")) fprintf(stderr, "   file %s:\n%s\n", cat, fs.get(cat).c_str());
		if (getenv("SIM_HIST"))
			for (auto &e : r.hist) fprintf(stderr, "   [%lld us] %d %s %s %s %lld\n", (long long)(e.t - os.boot) / 1000, e.pid, e.kind.c_str(), e.a.c_str(), e.b.c_str(), (long long)e.n);
	};
	// commands on a copy of the world, undisturbed
	auto side = [&](const Vfs &from, const vector<vector<string>> &cmds, const std::function<void()> &knobs = nullptr) {
		Side s;
		Vfs keep = os.fs;
		auto ops = x.out.ops;
		i64 now = os.now;
		auto ff = os.fill_knobs();
		os.fs = from.clone();
		if (knobs) knobs();
		s.ok = true;
		for (auto &c : cmds) {
			Line l("op side s=1");
			auto env = x.env();
			env["DESTDIR"] = "/dest";
			s.r = x.run(-1, l, c, "/w", env);
			if (getenv("SIM_SHOW_SIDE")) {
				string w = "(side)";
				for (auto &a : c) w += " " + a;
				show(s.r, w);
			}
			if (x.abnormal(x.prop, s.r, "undisturbed " + (c.size() > 1 ? c[1] : c[0]))) s.ok = false;
			if (s.r.status) {
				s.ok = false;
				s.why = first_lines(s.r.out + s.r.err, 500);
				break;
			}
		}
		s.fs = os.fs;
		os.fs = keep;
		x.out.ops = ops;
		os.set_knobs(ff);
		os.now = knobs ? now : std::max(now, os.now); // (knobs may have moved the clock by years)
		return s;
	};
	auto dflags = [&](const string &D) {
		vector<string> r;
		for (auto &o : split(D, ';')) {
			auto p = split(o, ':');
			if (p.size() == 3) {
				El *e = P.find(p[0]);
				if (e && e->active && e->kind == "sp" && e->num("so")) r.push_back("-D" + p[0] + ":" + p[1] + "=" + optv(p[2]));
			}
			if (p.size() != 2) continue;
			if (p[0] == "prefix" || p[0] == "bindir" || p[0] == "libdir" || p[0] == "includedir" || p[0] == "mandir" || p[0] == "datadir") {
				r.push_back("-D" + p[0] + "=" + p[1]);
				continue;
			}
			El *e = P.find(p[0]);
			if (e && e->active) r.push_back("-D" + p[0] + "=" + optv(e->get("ok") == "combo" && atoi(p[1].c_str() + 1) > 3 ? string("d1") : p[1]));
		}
		return r;
	};
	auto setup_cmd = [&](const vector<string> &D) {
		vector<string> c = { "/usr/bin/muon", "setup" };
		for (auto &d : D) c.push_back(d);
		c.push_back("build");
		return c;
	};
	vector<string> build_cmd = { "/usr/bin/muon", "-C", "build", "samu" };
	if (getenv("SIM_EXPLAIN")) build_cmd.push_back("-d"), build_cmd.push_back("explain");
	vector<string> cur_D; // options of the configuration in place
	auto optset = [&](const string &name, const string &def) { // value given to an option
		string v = def;
		for (auto &d : cur_D)
			if (starts_with(d, "-D" + name + "=")) v = d.substr(name.size() + 3);
		return v;
	};
	string what;
	// is there a reason for setup or a build to fail?
	auto may_fail = [&](const vector<string> &D, bool build) {
		if (P.broken) return true;
		for (auto &d : D) { // an option that is not there any more
			string n = d.substr(2, d.find_first_of("=:") - 2);
			El *e = P.find(n);
			if (e && (!e->active || (e->kind == "sp" && !e->num("so")))) return true;
		}
		for (auto &e : P.els) {
			if (!e.active) continue;
			if (e.kind == "rc" && e.num("sig")) return true;
			if (e.kind == "chk" && e.get("how") == "hdr" && e.num("v", 1) == 3) return true;
			for (auto &f : P.owned(e))
				if (P.files.count(f) && P.files[f].fail && (build || e.kind == "cfg")) return true;
		}
		return false;
	};
	// fresh setup (+ build) of the current tree
	std::map<string, Side> cache;
	int wrev = 0; // changes of the world's sources
	auto fresh = [&](const vector<string> &D, bool build) -> Side & {
		string key = strf("%d %d ", wrev, build);
		for (auto &d : D) key += d + " ";
		auto it = cache.find(key);
		if (it != cache.end()) return it->second;
		Vfs c = os.fs.clone();
		c.remove_all("/w/build");
		vector<vector<string>> cmds = { setup_cmd(D) };
		if (build) cmds.push_back(build_cmd);
		Side &s = cache[key] = side(c, cmds);
		if (!s.ok && !may_fail(D, build) && x.out.v.empty()) x.bad(x.prop, "refused", what + (build ? ": a fresh setup and build of a valid tree fail: " : ": a fresh setup of a valid tree fails: ") + s.why);
		return s;
	};
	bool have = false; // a configuration is in place that we know
	bool unknown = false; // a disturbed setup or regeneration: old or new
	bool conf_dirty = false; // something configuration reads changed since
	bool any_dirty = true; // anything changed since the last good build
	bool dmg = false;
	bool dist_build = false;
	bool regen_failed = false;
	bool nocc = false; // compile_commands.json may be missing or old: setup only complains then
	std::map<string, string> dmg_saved;
	auto cfg_outputs = [&]() {
		vector<string> r;
		for (auto &e : P.els) {
			if (!e.active) continue;
			if (e.kind == "cfg" && e.get("mode") != "command") r.push_back(P.bdir(e) + e.id + ".h");
			if (e.kind == "rc") r.push_back(P.bdir(e) + e.id + ".txt");
			if (e.kind == "vcs") r.push_back(P.bdir(e) + e.id + ".h");
			if (e.kind == "chk" && e.get("how") == "run" && chkval(e) >= 0) r.push_back(P.bdir(e) + e.id + "_r.h");
		}
		return r;
	};
	struct Snap { string c; i64 m; };
	auto snapshot = [&]() {
		std::map<string, Snap> s;
		for (auto &p : cfg_outputs())
			if (InodeP i = fs.find(p)) s[p] = { i->content(), i->mtime };
		return s;
	};
	auto check_c10 = [&](const std::map<string, Snap> &before, const Vfs &want) {
		for (auto &p : cfg_outputs()) {
			InodeP w = want.find(p), g = fs.find(p);
			if (w && g && w->content() != g->content()) x.bad("C10", "old-content", what + ": " + p + " does not have the content a fresh setup gives it");
		}
		for (auto &kv : before) {
			InodeP i = fs.find(kv.first);
			if (!i) continue;
			if (i->content() == kv.second.c && i->mtime != kv.second.m) x.bad("C10", "touched", what + ": " + kv.first + " has the same content but was written again");
			os.probes["configured-output-kept"]++;
		}
	};
	auto regenerated = [&](const RunResult &r) {
		for (auto &h : r.hist)
			if (h.kind == "exec" && h.b.find("muon") != string::npos && h.b.find(" setup ") != string::npos) return true;
		return false;
	};
	auto forks = [&](const RunResult &r) {
		int n = 0;
		for (auto &h : r.hist)
			if (h.kind == "fork") n++;
		return n;
	};
	auto has_vcs = [&]() {
		for (auto &e : P.els)
			if (e.kind == "vcs" && e.active) return true;
		return false;
	};
	// what the model says the captured, fed and command outputs are (independent of muon)
	auto check_exact = [&](const string &own21) {
		for (auto &e : P.els) {
			if (!e.active) continue;
			if (e.kind == "ct" && !e.num("nobd")) {
				string md = e.get("mode", "plain"), want, in = P.content(e, P.sdir(e) + e.id + ".in");
				string env = "CTENV=" + (e.num("env") ? envv(e.num("env")) : string("(unset)")) + "\n";
				string sp = "../" + (e.dir.empty() ? "" : e.dir + "/") + e.id;
				if (md != "capture" && md != "capfeed") continue;
				want = "";
				if (e.num("nl")) want += "[" + (md == "capture" ? sp + ".in" : string("x")) + strf("]\n[a%ld]\n[q]\n[q]\n[q]\n[l1\nl2]\n[n%ld]\n", e.num("v", 1), e.num("nl"));
				want += in + env + pattern(e.id, (int)e.num("outn"), 'o');
				if (e.num("mute") && !e.num("c")) want = "";
				string p = P.bdir(e) + e.id + (e.num("c") ? ".gen.c" : ".out"), got;
				if (!fs.read(p, got)) x.bad(own21, "no-capture", what + ": " + p + " does not exist after a successful build");
				else if (got != want) {
					size_t i = 0;
					while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
					x.bad(own21, "capture", what + ": " + p + strf(" is not what the command wrote: differs at byte %zu (expected %zu bytes, got %zu): '", i, want.size(), got.size()) + want.substr(i, 60) + "' / '" + got.substr(i, 60) + "'");
				}
				os.probes["captures-checked"]++;
			}
		}
	};
	// each option's value is exactly the one given on the command line, or else the default
	auto check_opts = [&]() {
		std::map<string, InodeP> m;
		fs.list("/w/build", m);
		string nj;
		fs.read("/w/build/build.ninja", nj);
		auto in_objs = [&](const string &src, const string &flag, const string &name) {
			for (auto &kv : m) {
				if (kv.second->type != N_FILE || !ends_with(kv.first, src + ".o")) continue;
				if (nj.find(" " + kv.first + ":") == string::npos && nj.find(" " + kv.first + " ") == string::npos) continue; // of an earlier configuration
				string c = kv.second->content();
				if (c.find(flag) == string::npos) x.bad("C07", "option", what + ": " + kv.first + " was not compiled with the value option " + name + " has: expected '" + flag + "' in '" + c.substr(0, 300) + "'");
				os.probes["option-values-checked"]++;
			}
		};
		for (auto &e : P.els) {
			if (!e.active) continue;
			if (e.kind == "tgt") {
				El *o = P.ref(e, e.get("uses"), "opt");
				if (!o) continue;
				string dv = P.optval.count(o->id) ? P.optval[o->id] : o->get("val", "d0");
				if (o->get("ok") == "combo" && atoi(dv.c_str() + 1) > 3) dv = "d2";
				in_objs(e.id + "_0.c", " -DV=" + optset(o->id, optv(dv)) + " -DK=", o->id);
			}
			if (e.kind == "sp" && e.num("so") && e.num("prov") < 2) {
				string dv = P.optval.count(e.id) ? P.optval[e.id] : "d1";
				if (e.has("sod")) dv = e.get("sod");
				in_objs(e.id + ".c", " -DSO=" + optset(e.id + ":so", optv(dv)), "so of " + e.id);
			}
		}
	};
	// configured files have exactly the content their data, input or command give them
	auto check_cfg = [&]() {
		for (auto &e : P.els) {
			if (!e.active || e.kind != "cfg") continue;
			string md = e.get("mode", "conf"), p = P.bdir(e) + e.id + ".h", hin = P.sdir(e) + e.id + ".hin", got, want;
			if (md == "command" || (md == "capture" && P.files[hin].fail)) continue;
			string O = strf("k%ld", e.num("v", 1)), V = strf("%ld", e.num("v", 1));
			if (El *o = P.ref(e, e.get("uses"), "opt")) {
				string dv = P.optval.count(o->id) ? P.optval[o->id] : o->get("val", "d0");
				if (o->get("ok") == "combo" && atoi(dv.c_str() + 1) > 3) dv = "d2";
				O = optset(o->id, optv(dv));
			}
			O = "\"" + replace_all(O, "\"", "\\\"") + "\"";
			if (!fs.read(p, got)) {
				x.bad("C10", "no-output", what + ": " + p + " does not exist");
				continue;
			}
			if (md == "conf") {
				vector<string> lines = { "#define V " + V, "#define O " + O };
				if (El *t = P.ref(e, e.get("from"), "fsr")) {
					string h = t->get("how", "read"), tf = P.sdir(*t) + t->id + ".txt", c = P.content(*t, tf), v;
					if (h == "read") v = c.substr(0, c.find_last_not_of(" \n") + 1);
					if (h == "size") v = strf("%zu", c.size());
					if (h == "keyval") v = c.substr(2, c.find('\n') - 2);
					if (h != "hash") lines.push_back("#define F \"" + v + "\"");
				}
				if (El *t = P.ref(e, e.get("from2"), "chk")) {
					bool ok = t->get("how") == "file" ? !P.files[P.sdir(*t) + t->id + ".c"].fail : t->get("how") == "hdr" ? t->num("v", 1) % 2 == 0 : t->num("v", 1) % 2;
					int n = chkval(*t);
					lines.push_back(n >= 0 ? strf("#define C %d", n) : ok ? "#define C" : "#undef C");
				}
				for (long i = 0; i < e.num("keys"); i++) lines.push_back(strf("#define K%ld %ld", i, i * 7 + 1));
				for (auto &l : lines)
					if (("\n" + got).find("\n" + l + "\n") == string::npos) x.bad("C10", "content", what + ": " + p + " has no line '" + l + "': '" + got.substr(0, 300) + "'");
			} else {
				want = P.content(e, hin);
				if (md == "input") {
					want = replace_all(want, "#mesondefine O\n#mesondefine U\n", "#define O " + O + "\n/* undef U */\n");
					want = replace_all(want, "#mesondefine V\n", "#define V " + V + "\n");
					want = replace_all(replace_all(want, "@V@", V), "@O@", O);
					if (e.num("keys")) want = replace_all(want, strf("keys @K0@ @K%ld@", e.num("keys") - 1), strf("keys 1 %ld", (e.num("keys") - 1) * 7 + 1));
				}
				if (md == "capture") want += pattern(e.id, (int)e.num("outn"), 'o');
				if (got != want) {
					size_t i = 0;
					while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
					x.bad("C10", "content", what + ": " + p + strf(" differs at byte %zu from what it is configured to be: expected '", i) + want.substr(i, 80) + "', got '" + got.substr(i, 80) + "'");
				}
			}
			os.probes["configured-contents-checked"]++;
		}
	};
	auto check_rc = [&](const string &own11) {
		for (auto &e : P.els) {
			if (!e.active || e.kind != "rc") continue;
			string p = P.bdir(e) + e.id + ".txt", got;
			int n = (int)e.num("outn", 20);
			string want = "RCENV=" + (e.num("env") ? envv(e.num("env")) : string("(unset)")) + "\n[" + P.sdir(e) + e.id + ".prog]\n[one]\n[two words]\n[]\n" + pattern(e.id, n, 'o') + strf("v%d\n", P.files[P.sdir(e) + e.id + ".prog"].v) + "|" + pattern(e.id, n, 'e') + strf("|%ld|v%d\n", e.num("exit"), P.files[P.sdir(e) + e.id + ".tin"].v);
			if (!fs.read(p, got)) x.bad(own11, "no-output", what + ": " + p + " does not exist");
			else if (got != want) {
				size_t i = 0;
				while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
				x.bad(own11, "run_command", what + ": output or status of " + e.id + ".prog as run_command sees it" + strf(" differs at byte %zu (expected %zu bytes, got %zu): '", i, want.size(), got.size()) + want.substr(i, 60) + "' / '" + got.substr(i, 60) + "'");
			}
			os.probes["run-commands-checked"]++;
		}
	};
	auto has_sig = [&]() {
		for (auto &e : P.els)
			if (e.active && e.kind == "rc" && e.num("sig")) return true;
		return false;
	};
	// what installing this configuration must produce
	string droot = "/dest"; // where "muon install" is told to put things
	auto expected_install = [&]() {
		std::map<string, InstEnt> m;
		string prefix = optset("prefix", P.pdef.empty() ? "/usr/local" : P.pdef), bin = optset("bindir", "bin"), lib = optset("libdir", "lib"), inc = optset("includedir", "include"), man = optset("mandir", "share/man"), data = optset("datadir", "share");
		auto put = [&](const string &p, char t, const string &from, const El *e, const string &text = "") {
			InstEnt n;
			n.type = t;
			n.from = from;
			n.text = text;
			if (e && e->has("imode") && t != 'l') {
				string s = e->get("imode");
				int md = 0;
				for (int i = 0; i < 9 && i < (int)s.size(); i++) {
					char ch = s[(size_t)i];
					if (ch != '-' && ch != 'S' && ch != 'T') md |= 0400 >> i;
					if (ch == 's' || ch == 'S') md |= i == 2 ? 04000 : 02000;
					if (ch == 't' || ch == 'T') md |= 01000;
				}
				n.mode = md;
			}
			m[droot + (p[0] == '/' ? "" : prefix + "/") + p] = n;
		};
		for (auto &e : P.els) {
			if (!e.active) continue;
			string b = P.bdir(e), s = P.sdir(e), id = e.id;
			if (e.kind == "tgt" && e.num("inst")) {
				string tk = e.get("tk", "exe");
				string dir = e.has("idir") ? e.get("idir") : tk == "exe" ? bin : lib;
				if (tk == "exe") put(dir + "/" + id, 'f', b + id, &e);
				if (tk == "static" || tk == "both" || tk == "library") put(dir + "/lib" + id + ".a", 'f', b + "lib" + id + ".a", &e);
				if (tk == "shared" || tk == "both") {
					long ver = tk == "shared" ? e.num("ver") : 0;
					string so = "lib" + id + ".so";
					if (!ver) put(dir + "/" + so, 'f', b + so, &e);
					else {
						put(dir + "/" + so + strf(".%ld.2.3", ver), 'f', b + so + strf(".%ld.2.3", ver), &e);
						put(dir + "/" + so + strf(".%ld", ver), 'l', "", &e, so + strf(".%ld.2.3", ver));
						put(dir + "/" + so, 'l', "", &e, so + strf(".%ld", ver));
					}
				}
			}
			if (e.kind == "tgt" && e.num("pc") && e.get("tk", "exe") != "exe") {
				string f = (e.num("pc") == 2 ? "base-" : "") + id + ".pc";
				put((e.num("pc") == 3 ? string("share/pcs") : lib + "/pkgconfig") + "/" + f, 'f', "/w/build/.muon/" + f, nullptr);
			}
			if (e.kind == "ct" && e.num("nobd")) continue; // nothing builds it
			if (e.kind == "ct" && e.num("inst")) {
				bool mu = e.num("multi") && e.get("mode", "plain") == "plain";
				if (!(mu && e.num("idirs") == 1)) put(e.get("idir", "share") + "/" + id + (e.num("c") ? ".gen.c" : ".out"), 'f', b + id + (e.num("c") ? ".gen.c" : ".out"), &e);
				if (mu && e.num("idirs") != 2) put((e.num("idirs") ? "share/second" : e.get("idir", "share")) + "/" + id + ".out2", 'f', b + id + ".out2", &e);
			}
			if (e.kind == "sp" && e.num("inst") && e.num("prov") < 2) {
				put(lib + "/lib" + id + ".a", 'f', b + "lib" + id + ".a", nullptr);
				put(inc + "/sph/" + id + "_sp.h", 'f', s + id + "_sp.h", nullptr);
			}
			if (e.kind == "cfg" && e.num("inst")) put("include/" + id + ".h", 'f', b + id + ".h", &e);
			if (e.kind == "inst") {
				string w = e.get("what", "data"), d = e.get("idir", "share/x");
				if (w == "headers") put(inc + "/" + (e.has("sub") ? e.get("sub") + "/" : "") + id + ".hh", 'f', s + id + ".hh", &e);
				else if (w == "man") {
					string src = P.owned(e)[0];
					if (e.num("mdir")) put("mm/" + src.substr(src.rfind('/') + 1), 'f', src, &e);
					else put(man + "/" + (e.has("loc") ? e.get("loc") + "/" : "") + "man1/" + id + ".1", 'f', src, &e);
				}
				else if (w == "symlink") put(d + "/" + id + ".lnk", 'l', "", nullptr, strf("to%ld", e.num("v", 1)));
				else if (w == "emptydir") put(d + "/" + id + ".empty", 'd', "", &e);
				else if (w == "script") put(id + ".stamp", 's', "", nullptr, "by script " + strf("v%d DESTDIR=", P.files[s + id + ".prog"].v) + droot + " P=" + prefix + " DP=" + droot + prefix + (e.num("sargs") ? strf(" args=[s%ld][two words]", e.num("sargs")) : string()) + "\n");
				else if (w == "paths") {
					string base = e.num("dat") ? (e.has("idir") ? d : data + "/top") : inc + (e.has("sub") ? "/" + e.get("sub") : "");
					for (auto &f : P.owned(e)) {
						string rel = f.substr(s.size());
						put(base + "/" + (e.num("keep") ? rel : rel.substr(rel.rfind('/') == string::npos ? 0 : rel.rfind('/') + 1)), 'f', f, &e);
					}
				}
				else if (w == "subdir") {
					put(d + (e.num("strip") ? "" : "/" + id + ".d"), e.num("none") && e.num("strip") ? 'm' : 'd', "", nullptr);
					for (auto &f : P.owned(e)) {
						string rel = f.substr((s + id + ".d/").size());
						if (ends_with(f, "_l")) {
							put(d + "/" + (e.num("strip") ? "" : id + ".d/") + rel, 'l', "", nullptr, P.content(e, f).substr(8));
							continue;
						}
						if (e.num("excl") && rel == e.id + "_f0") continue;
						if (e.num("excld") && starts_with(rel, "sub/")) continue;
						put(d + "/" + (e.num("strip") ? "" : id + ".d/") + rel, 'f', f, &e);
					}
				} else
					for (auto &f : P.owned(e)) put((e.num("noid") ? data + "/top" : d) + (e.num("ren") ? strf("/r%ld_", e.num("ren")) + (e.num("ren") == 2 ? "x/" : "") + f.substr(f.rfind('/') + 1) : f.substr(f.rfind('/'))), 'f', f, &e);
			}
		}
		return m;
	};
	// what installing changed: nothing but what it was asked to, even if it did not end well
	auto check_outside = [&](const Vfs &before, const string &own, bool complete) {
		auto want = expected_install();
		std::set<string> par;
		for (auto &w : want)
			for (size_t k = w.first.rfind('/'); k != string::npos && k; k = w.first.rfind('/', k - 1)) par.insert(w.first.substr(0, k));
		std::map<string, InodeP> A, B;
		before.list("/", A);
		fs.list("/", B);
		auto same = [&](const InodeP &a, const InodeP &b) { return a->type == b->type && (a->mode & 07777) == (b->mode & 07777) && (a->type == N_DIR || a->content() == b->content()); };
		auto inside = [&](const string &p) { return !droot.empty() && (p == droot || starts_with(p, droot + "/")); };
		for (auto &kv : B) {
			string p = "/" + kv.first;
			auto it = A.find(kv.first);
			if (it != A.end() && same(it->second, kv.second)) continue;
			if (want.count(p) || par.count(p)) continue;
			if (kv.second->type == N_DIR && droot.empty() && (p == "/usr" || p == "/opt" || p == "/etc" || starts_with(p, "/usr/local") || starts_with(p, "/opt/") || starts_with(p, "/etc/q"))) continue;
			if (kv.second->type == N_DIR && inside(p)) continue; // on the way to something excluded
			string w = it == A.end() ? " was created" : " was changed";
			if (!inside(p)) x.bad(own, "outside", what + ": " + p + w + ", which is not where the project is to be installed");
			else if (complete) x.bad(own, "extra", what + ": " + p + w + " although nothing asked for it");
		}
		for (auto &kv : A)
			if (!B.count(kv.first) && !(want.count("/" + kv.first) && !complete)) x.bad(own, "removed", what + ": /" + kv.first + " was removed");
	};
	auto check_install = [&](const Vfs &before, const string &own) {
		auto want = expected_install();
		for (auto &kv : want) {
			InodeP i = fs.find(kv.first, false);
			const InstEnt &w = kv.second;
			if (w.type == 'm') continue; // a directory that may be there
			if (!i) {
				x.bad(own, "missing", what + ": exit 0 but " + kv.first + " was not installed");
				continue;
			}
			char t = i->type == N_DIR ? 'd' : i->type == N_LNK ? 'l' : 'f';
			if (t != (w.type == 's' ? 'f' : w.type)) {
				x.bad(own, "type", what + ": " + kv.first + strf(" is of type %c, expected %c", t, w.type));
				continue;
			}
			if (w.type == 'l' && i->content() != w.text) x.bad(own, "link", what + ": " + kv.first + " points to " + i->content() + ", expected " + w.text);
			string got = w.type == 's' ? replace_all(i->content(), "/dest/ P=", "/dest P=") : "";
			if (w.type == 's' && droot.empty()) got = replace_all(got, "DESTDIR=(unset)", "DESTDIR=");
			if (w.type == 's' && got != w.text) x.bad(own, "script", what + ": install script left '" + i->content() + "'");
			if (w.type == 'f') {
				InodeP o = fs.find(w.from);
				if (!o) {
					x.bad(own, "source", what + ": exit 0 but " + w.from + " does not exist");
					continue;
				}
				if (o->content() != i->content()) x.bad(own, "content", what + ": exit 0 but " + kv.first + strf(" (%zu bytes) is not ", i->content().size()) + w.from + strf(" (%zu bytes)", o->content().size()));
				if (w.mode < 0 && (o->mode & 0777) != (i->mode & 0777)) x.bad(own, "mode", what + ": " + kv.first + strf(" has mode %o, the original %o", i->mode & 0777, o->mode & 0777));
			}
			if (w.mode >= 0 && (int)(i->mode & 07777) != w.mode) x.bad(own, "mode", what + ": " + kv.first + strf(" has mode %o, requested %o", i->mode & 07777, w.mode));
			os.probes["installed-objects-checked"]++;
		}
		check_outside(before, own, true);
	};
	auto install_sig = [&](const Vfs &v) { // (side() installs to /dest)
		std::map<string, InodeP> g;
		v.list("/dest", g);
		string s;
		for (auto &kv : g) s += kv.first + strf(" %d %o ", (int)kv.second->type, kv.second->mode & 0777) + (kv.second->type == N_LNK ? kv.second->content() : "") + "\n";
		return s;
	};
	auto ran = [&](const RunResult &r) {
		std::set<string> s;
		string o;
		for (auto &h : r.hist)
			if (h.kind == "prog-start") s.insert(h.a);
		for (auto &n : s) o += n + " ";
		return o + strf("exit %d", r.exit_code());
	};
	auto fcmd = [&](const string &F) -> vector<string> {
		if (F == "test") return { "/usr/bin/muon", "-C", "build", "test" };
		if (F == "install") return { "/usr/bin/muon", "-C", "build", "install" };
		return build_cmd;
	};
	// compilers and linkers are probed for: one whose probe could not be run is taken as absent,
	// and the one used instead is printed
	auto detected = [&](const RunResult &r) {
		string s;
		for (auto &l : split(r.out + r.err, '\n'))
			if (l.find("detected compiler") != string::npos) s += l + "\n";
		return s;
	};
	// C08: after a disturbed command, F either fails or behaves as on the old or the new state
	auto follow = [&](const Vfs &A, bool haveA, const Vfs &B, const string &F, const string &own) {
		Side d = side(os.fs, { fcmd(F) });
		os.probes["followed-by-" + F]++;
		if (d.r.status) {
			os.probes["follow-up-refused"]++;
			return;
		}
		Side b = side(B, { fcmd(F) });
		Side a;
		if (haveA) a = side(A, { fcmd(F) });
		auto cmp = [&](Side &o) -> string {
			if (!o.ok && o.r.status) return "it fails there: " + o.why;
			if (F == "install") {
				string s = install_sig(o.fs), t = install_sig(d.fs);
				return s == t ? "" : "other files are installed:\n" + t + "instead of\n" + s;
			}
			if (F == "test" && ran(o.r) != ran(d.r)) return "other tests run: '" + ran(d.r) + "' instead of '" + ran(o.r) + "'";
			if (F == "test") // (builds what the tests need, no more)
				return sub_diff(o.fs, "/w/build", d.fs, "/w/build", [](const string &p) { return p != "build.ninja" && !(starts_with(p, ".muon/") && ends_with(p, ".dat") && p != ".muon/compiler_check_cache.dat"); });
			return sub_diff(o.fs, "/w/build", d.fs, "/w/build", skipcc);
		};
		string db = cmp(b);
		if (db.empty()) return;
		string da = haveA ? cmp(a) : "there was none";
		if (da.empty()) return;
		x.bad(own, "torn", what + ": " + F + " afterwards succeeds but behaves neither as with the new configuration (" + first_lines(db, 300) + ") nor as with the old one (" + first_lines(da, 300) + ")");
	};
	auto conf_el = [&](const string &kind, const string &path) {
		// does configuration read this file?
		if (ends_with(path, ".prog")) return kind != "inst";
		if (ends_with(path, ".wrap")) return true;
		return kind == "cfg" || kind == "rc" || kind == "fsr" || kind == "chk";
	};

	for (size_t li = 0; li < x.plan.lines.size(); li++) {
		Line l(x.plan.lines[li]);
		if (l.w.size() < 2 || l.w[0] != "op") continue;
		string op = l.w[1], arg = l.w.size() > 2 ? l.w[2] : "";
		what = strf("%s (plan line %zu)", op.c_str(), li);
		bool command = op == "setup" || op == "build" || op == "test" || op == "install" || op == "det" || op == "summary";
		if (!command) {
			flush();
			if (op == "dmg") {
				string f = "/w/build/.muon/" + l.get("file", "tests.dat"), c;
				if (!fs.read(f, c)) continue;
				string how = l.get("how", "trunc"), o = c;
				size_t p = (size_t)(atof(l.get("at", "0.5").c_str()) * (double)c.size());
				if (long cut = l.num("cut")) p = c.size() - std::min(c.size(), (size_t)cut); // counted from the end
				if (how == "trunc") c = c.substr(0, p);
				else if (how == "empty") c = "";
				else if (how == "head")
					for (size_t i = 0; i < c.size() && i < 8; i++) c[i] = (char)(c[i] ^ 0x5a);
				if (!dmg_saved.count(f)) dmg_saved[f] = o;
				if (how == "rm") fs.remove_all(f);
				else fs.write(f, c);
				dmg = true;
				os.probes["state-damaged-" + how]++;
				continue;
			}
			os.now += src_step;
			El *e = P.find(arg);
			if (op == "edit" && e) {
				auto o = P.owned(*e);
				if (o.empty()) continue;
				string p = o[(size_t)l.num("n") % o.size()];
				SrcFile &f = P.files[p];
				f.v++;
				f.fail = l.num("fail");
				if (conf_el(e->kind, p)) conf_dirty = true;
			} else if (op == "touch" && e) {
				auto o = P.owned(*e);
				if (o.empty()) continue;
				string p = o[(size_t)l.num("n") % o.size()];
				if (InodeP i = fs.find(p)) i->mtime = os.now;
				if (conf_el(e->kind, p)) conf_dirty = true;
			} else if (op == "mod" && e) {
				for (auto &kv : l.kv)
					// (build_by_default: false goes with install: true for good: what installing a left-over output does is nobody's guarantee)
					if (kv.first != "kind" && kv.first != "dir" && !(kv.first == "inst" && e->num("nobd"))) e->l.kv[kv.first] = kv.second;
				conf_dirty = true;
			} else if (op == "add" && e)
				e->active = true, conf_dirty = true;
			else if (op == "rm" && e)
				e->active = false, conf_dirty = true;
			else if (op == "optdef" && e) {
				P.optval[arg] = l.get("val", "d1");
				conf_dirty = true;
			} else if (op == "brk")
				P.broken = true, conf_dirty = true;
			else if (op == "unbrk")
				P.broken = false, conf_dirty = true;
			else if (op == "vcs")
				rev++;
			else if (op == "rmout") {
				std::map<string, InodeP> m;
				fs.list("/w/build", m);
				vector<string> c;
				for (auto &kv : m)
					if (kv.second->type == N_FILE && kv.first[0] != '.' && kv.first != "build.ninja" && kv.first != "compile_commands.json") {
						bool cfg = false;
						for (auto &p : cfg_outputs())
							if (p == "/w/build/" + kv.first) cfg = true;
						for (auto &e2 : P.els)
							if (e2.kind == "cfg" && "/w/build/" + kv.first == P.bdir(e2) + e2.id + ".h") cfg = true;
						if (!cfg) c.push_back(kv.first);
					}
				if (!c.empty()) fs.remove_all("/w/build/" + c[(size_t)l.num("n") % c.size()]);
			} else if (op == "rmdest")
				fs.remove_all("/dest");
			else
				continue;
			flush();
			wrev++;
			any_dirty = true;
			os.now += src_step;
			continue;
		}
		if (flush()) wrev++;
		bool fault = l.has("kill") || l.has("fault") || l.has("disk") || l.has("fds");
		string own = dmg ? "C20" : "";
		Vfs A;
		bool need_a = fault || dmg || op == "install";
		if (need_a) A = fs.clone();
		if (op == "det") {
			// the same configuration under other circumstances
			auto D = dflags(l.get("D"));
			Vfs c = fs.clone();
			c.remove_all("/w/build");
			Side s1 = side(c, { setup_cmd(D) });
			int n = 0;
			Rng r((u64)l.num("r", 1));
			for (int k = 0; k < 3; k++) {
				u64 hseed = r.chance(.7) ? r.next() : 0;
				u64 fill = r.below(256), dseed = r.next(), ns = r.next();
				int hours = r.range(1, 100000), pid = r.range(2, 30000), buf = r.chance(.5) ? 64 : 1024, msm = r.range(0, 50);
				int twice = k == 2;
				vector<vector<string>> cmds = { setup_cmd(D) };
				if (twice) {
					auto again = setup_cmd(D);
					if (r.chance(.6)) // as the build does it: with the results of earlier compiler checks
						again.insert(again.begin() + 2, { "-c", "/w/build/.muon/compiler_check_cache.dat" }), again.insert(again.begin() + 1, { "-C", "/w" });
					cmds.push_back(again);
				}
				Side s2 = side(c, cmds, [&]() {
					os.heap_fill = (unsigned char)fill;
					os.dir_seed = dseed;
					os.heap_seed = hseed;
					os.now += (i64)hours * 3600 * 1000000000ll;
					os.next_pid += pid;
					os.stdio_buf = (size_t)buf;
					os.ms_max = msm;
					os.ms_seed = ns;
				});
				n++;
				if (s1.ok != s2.ok) {
					x.bad("C09", "verdict", what + ": setup of the same tree succeeds or fails depending on the circumstances: " + s1.why + s2.why);
					continue;
				}
				if (!s1.ok) continue;
				auto sk = [&](const string &p) { return p == ".gitignore" || p == ".hgignore" || p == ".muon/.ninja_log" || p == ".muon/.ninja_deps" || (twice && starts_with(p, ".muon/compiler_check_cache")); };
				string d = diff_files(s1.fs, "/w/build", s2.fs, "/w/build", sk);
				if (!d.empty()) x.bad("C09", twice ? "repeated" : "differs", what + ": two setups of the same tree with the same options differ: " + d);
				x.out.nontrivial = true;
				os.probes["setups-compared"]++;
			}
			continue;
		}
		if (op == "setup") {
			auto D = dflags(l.get("D"));
			auto before = snapshot();
			bool same = have && !unknown && !conf_dirty && D == cur_D && !fault;
			vector<string> sc = setup_cmd(D);
			if (long mes = l.num("mes")) { // the same through `muon meson setup`
				sc = { "/usr/bin/muon", "meson", mes & 8 ? "configure" : "setup" };
				auto opts = [&]() {
					for (auto &d : D) {
						if (mes & 2) sc.push_back(d);
						else sc.push_back("-D"), sc.push_back(d.substr(2));
					}
				};
				if (mes & 16) sc.push_back("--reconfigure");
				if (mes & 4) opts();
				sc.push_back(mes & 128 ? "/w/build" : "build");
				if (mes & 32) sc.push_back(mes & 64 ? "." : "/w");
				if (!(mes & 4)) opts();
			}
			RunResult r = x.run((int)li, l, sc, "/w", x.env());
			show(r, what);
			bool disturbed = r.killed || !r.faults_fired.empty() || l.has("fds");
			if (x.abnormal(disturbed ? "C22" : x.prop, r, what)) return;
			nocc = disturbed;
			if (disturbed) {
				Side B = side(A, { setup_cmd(D) });
				if (!B.ok) {
					if (!r.status && !r.killed) x.bad("C22", "silent", what + ": exit 0 although the same setup without the fault fails: " + B.why);
					unknown = true;
					continue;
				}
				if (!r.killed && !r.status && detected(r) != detected(B.r)) {
					os.probes["other-compiler-detected"]++;
					if (l.num("undo")) os.fs = A;
					else unknown = any_dirty = true;
					continue;
				}
				x.out.nontrivial = true;
				string o = r.killed ? "C08" : x.prop == "C22" ? "C22" : "C08";
				if (!r.killed && !r.status) {
					// this file is optional: it may be missing when that was said, or could not be said
					bool cj = (r.out + r.err).find("compile_commands.json") != string::npos || r.out.find("setup complete") == string::npos;
					string d = sub_diff(B.fs, "/w/build", fs, "/w/build", [&](const string &p) { return skipf(p) || (cj && p == "compile_commands.json"); });
					if (!d.empty()) x.bad(o, "incomplete", what + ": exit 0 in spite of " + (r.faults_fired.empty() ? string("few descriptors") : r.faults_fired[0]) + " but " + d);
					os.probes["disturbed-setup-succeeded"]++;
				} else
					os.probes[r.killed ? "setup-killed" : "setup-failed-loudly"]++;
				follow(A, have && !unknown, B.fs, l.get("F", "build"), o);
				// setting up again succeeds and gives what a fresh one gives
				Side C = side(fs, { setup_cmd(D) });
				Side &R = fresh(D, false);
				if (R.ok && C.r.status) x.bad(o, "stuck", what + ": setup cannot be run again afterwards: " + C.why);
				else if (R.ok && C.ok) {
					string d = sub_diff(R.fs, "/w/build", C.fs, "/w/build", skipf);
					if (!d.empty()) x.bad(o, "not-fresh", what + ": setting up again afterwards does not give a fresh configuration: " + d);
				}
				if (l.num("undo")) os.fs = A;
				else if (r.status || r.killed) unknown = true, any_dirty = true;
				else have = true, unknown = false, cur_D = D, conf_dirty = false, any_dirty = true, dmg = false;
				continue;
			}
			if (P.broken || has_sig()) {
				if (!r.status) x.bad(P.broken ? "C07" : "C11", "silent", what + (P.broken ? ": exit 0 although the build description is broken" : ": exit 0 although a command run at configure time was killed"));
				unknown = unknown || !have;
				// the old configuration must still be usable: checked by the next build
				continue;
			}
			Side &R = fresh(D, false);
			if (r.status) {
				if (R.ok) x.bad(own.empty() ? unknown ? "C08" : "C07" : own, "setup-fails", what + ": fails although a fresh setup of the same tree succeeds: " + first_lines(r.out + r.err, 500));
				else unknown = true;
				continue;
			}
			dmg = false;
			dmg_saved.clear();
			if (!R.ok) {
				x.bad("C07", "setup-differs", what + ": succeeds although a fresh setup of the same tree fails: " + R.why);
				return;
			}
			string d = sub_diff(R.fs, "/w/build", fs, "/w/build", skipf);
			if (!d.empty()) x.bad(unknown ? "C08" : "C07", "not-fresh", what + ": does not equal a fresh setup: " + d);
			if (have && !unknown) check_c10(before, R.fs);
			check_rc("C11");
			for (auto &e : P.els) // its command writes the file each time
				if (e.active && e.kind == "cfg" && e.get("mode") == "command") any_dirty = true;
			if (same && !any_dirty) {
				// nothing changed at all: the next build has nothing to do
				Side s = side(fs, { build_cmd });
				if (s.ok && !has_vcs() && forks(s.r)) x.bad("C10", "rebuilt", what + ": nothing changed and setup ran again; the next build runs jobs");
				if (!s.ok) x.bad("C10", "rebuilt", what + ": the build after setting up again fails: " + s.why);
				os.probes["no-op-after-setup"]++;
			}
			if (!same) any_dirty = true;
			have = true;
			unknown = false;
			cur_D = D;
			conf_dirty = false;
			check_cfg();
			x.out.nontrivial = true;
			continue;
		}
		if (!have && !unknown) continue;
		if (op == "summary") {
			continue;
		}
		if (op == "build" || op == "test") {
			vector<string> c = op == "build" ? build_cmd : fcmd("test");
			if (l.has("j")) c.push_back(strf("-j%ld", l.num("j")));
			auto before = snapshot();
			std::map<string, Snap> caps; // captures of commands that are told to fail
			for (auto &e : P.els) {
				bool cap = e.kind == "ct" && (e.get("mode") == "capture" || e.get("mode") == "capfeed");
				if (!e.active || !cap || !P.files[P.sdir(e) + e.id + ".in"].fail) continue;
				string p = P.bdir(e) + e.id + ".out";
				InodeP i = fs.find(p);
				caps[p] = { i ? i->content() : "", i ? 1 : 0 };
			}
			bool reconf = conf_dirty;
			RunResult r = x.run((int)li, l, c, "/w", x.env());
			show(r, what);
			bool disturbed = r.killed || !r.faults_fired.empty() || l.has("fds");
			if (x.abnormal(dmg ? "C20" : disturbed ? "C22" : x.prop, r, what)) return;
			bool regen = regenerated(r);
			for (auto &kv : caps) {
				InodeP i = fs.find(kv.first);
				if (i && (!kv.second.m || i->content() != kv.second.c)) x.bad("C21", "written-on-failure", what + ": " + kv.first + " was written although its command failed");
				os.probes["failed-captures"]++;
			}
			if (regen) nocc = disturbed;
			bool regen_ok = regen && (r.out + r.err).find("setup complete") != string::npos;
			if (regen) regen_failed = regen_failed || !regen_ok;
			if (disturbed) {
				x.out.nontrivial = true;
				bool ok = !r.killed && !r.status;
				string o = r.killed ? "C08" : "C22";
				if (regen) {
					Side B = side(A, { c });
					if (ok && detected(r) != detected(B.r)) {
						os.probes["other-compiler-detected"]++;
						unknown = any_dirty = true;
						continue;
					}
					if (B.ok) {
						if (ok) {
							string d = sub_diff(B.fs, "/w/build", fs, "/w/build", skipcc);
							if (!d.empty()) x.bad(o, "incomplete", what + ": exit 0 in spite of " + (r.faults_fired.empty() ? string("few descriptors") : r.faults_fired[0]) + " but " + d);
						}
						if (x.prop == "C08" || x.prop == "C22") {
							follow(A, have && !unknown, B.fs, l.get("F", "build"), x.prop);
							Side C = side(fs, { setup_cmd(cur_D) });
							Side &R = fresh(cur_D, false);
							if (R.ok && C.r.status) x.bad(o, "stuck", what + ": setup cannot be run again afterwards: " + C.why);
							else if (R.ok && C.ok) {
								string d = sub_diff(R.fs, "/w/build", C.fs, "/w/build", skipf);
								if (!d.empty()) x.bad(o, "not-fresh", what + ": setting up again afterwards does not give a fresh configuration: " + d);
							}
						}
					}
					if (!ok) unknown = true;
				} else if (ok && op == "build") {
					Side &R = fresh(cur_D, true);
					if (R.ok) {
						string d = sub_diff(R.fs, "/w/build", fs, "/w/build", nocc ? skipcc : skipf);
						if (!d.empty() && !unknown && !conf_dirty) x.bad("C22", "incomplete", what + ": exit 0 in spite of " + (r.faults_fired.empty() ? string("few descriptors") : r.faults_fired[0]) + " but " + d);
					}
				}
				dist_build = true;
				any_dirty = true;
				continue;
			}
			string ob = dmg ? "C20" : unknown ? "C08" : x.prop == "C21" && (dist_build || !reconf) ? "C21" : "C07";
			if (unknown && r.status) {
				os.probes["build-refused"]++;
				continue;
			}
			if (dmg && r.status) {
				os.probes["damage-rejected"]++;
				// repair by setting up again
				continue;
			}
			if (unknown) continue; // judged by follow()
			if (P.broken) {
				if (!r.status && op == "build") x.bad("C07", "stale-build", what + ": exit 0 although the changed build description cannot be processed");
				continue;
			}
			// (a regeneration that failed is on record until one succeeds, even if "muon setup" was run by hand)
			bool owed = regen_failed;
			if (regen_ok) regen_failed = false;
			if (regen && !conf_dirty && !dmg && !owed) x.bad("C07", "spurious", what + ": build files were regenerated although nothing configuration reads has changed");
			if (has_sig() && (conf_dirty || regen)) continue;
			Side &R = fresh(cur_D, true);
			if (r.status) {
				if (R.ok && op == "build") x.bad(ob, "build-fails", what + ": fails although a fresh setup and build of the same tree succeed: " + first_lines(r.out + r.err, 600));
				any_dirty = true;
				if (regen) conf_dirty = true; // may or may not have completed
				if (op == "test" && R.ok) {
					Side T = side(R.fs, { c });
					if (T.r.status == 0) x.bad(ob, "test-fails", what + ": fails although it succeeds after a fresh setup and build: " + first_lines(r.out + r.err, 600));
					conf_dirty = false;
				}
				continue;
			}
			if (op == "test") {
				if (R.ok) {
					Side T = side(R.fs, { c });
					if (ran(T.r) != ran(r)) x.bad(ob, "tests", what + ": tests run '" + ran(r) + "', after a fresh setup and build '" + ran(T.r) + "'");
				}
				if (regen) conf_dirty = false;
				any_dirty = true;
				continue;
			}
			if (!R.ok) {
				x.bad(ob, "stale-build", what + ": exit 0 although a fresh setup and build of the same tree fail: " + R.why);
				return;
			}
			string d = sub_diff(R.fs, "/w/build", fs, "/w/build", [&](const string &p) { return dmg_saved.count("/w/build/" + p) || (nocc ? skipcc(p) : skipf(p)); });
			if (!d.empty()) x.bad(ob, "not-fresh", what + ": the build directory does not equal that of a fresh setup and build: " + d);
			check_exact("C21");
			check_opts();
			check_cfg();
			check_rc("C11");
			if (!dmg) check_c10(before, R.fs);
			if (!any_dirty) {
				bool jobs = false;
				for (auto &h : r.hist)
					if (h.kind == "cc-start" || h.kind == "gen-start") jobs = true;
				if (!has_vcs() && forks(r)) jobs = true;
				if (jobs && !dmg) x.bad("C07", "not-noop", what + ": nothing changed since the last build but jobs were run");
				os.probes["noop-builds"]++;
			}
			if (regen) os.probes["regenerations"]++;
			any_dirty = conf_dirty = dist_build = false;
			x.out.nontrivial = true;
			continue;
		}
		if (op == "install") {
			if (unknown || P.broken || any_dirty || conf_dirty) continue;
			vector<string> c = fcmd("install");
			long mes = l.num("mes");
			if (mes) { // the same through `muon meson install`
				c = { "/usr/bin/muon", "meson", "install" };
				if (mes & 2) c.push_back("-Cbuild");
				else c.push_back("-C"), c.push_back("build");
				if (mes & 4) c.push_back("--no-rebuild");
			}
			auto env = x.env();
			string dd = l.get("dd", "env");
			droot = dd == "none" || dd == "empty" ? "" : dd == "rel" ? "/w/build/dst" : "/dest";
			if (mes && dd == "opt") c.push_back("--destdir=/dest");
			else if (mes && dd == "opts") c.insert(c.end(), { "--destdir", "/dest/" }), env["DESTDIR"] = "/elsewhere";
			else if (dd == "opt") c.insert(c.end(), { "-d", "/dest" });
			else if (dd == "opts") c.insert(c.end(), { "-d", "/dest/" }), env["DESTDIR"] = "/elsewhere";
			else if (dd == "empty") env["DESTDIR"] = "";
			else if (dd == "rel") env["DESTDIR"] = "dst";
			else if (dd != "none") env["DESTDIR"] = "/dest";
			bool dry = l.num("dry");
			if (dry) c.push_back(mes & 8 ? "--dryrun" : "-n");
			// something is in the way
			string mess = l.get("mess"), mpath;
			if (!mess.empty() && !droot.empty() && !dry) {
				auto want = expected_install();
				vector<string> c2;
				for (auto &w : want)
					if (w.second.type == 'f' || (w.second.type == 'l' && mess != "dir")) c2.push_back(w.first);
				if (!c2.empty()) {
					mpath = c2[(size_t)l.num("n") % c2.size()];
					fs.mkdirs(mpath.substr(0, mpath.rfind('/')));
					fs.remove_all(mpath);
					fs.write("/etc/victim", "not to be touched\n", 0600);
					if (mess == "link") fs.symlink(mpath, "/etc/victim");
					else if (mess == "dir") fs.mkdirs(mpath), fs.write(mpath + "/x", "x");
					else fs.write(mpath, pattern("old", 5000, 'o'), mess == "ro" ? 0444 : 0640);
					A = fs.clone();
					os.probes["in-the-way-" + mess]++;
				}
			}
			bool must_fail = !mpath.empty() && mess == "dir" && !dry;
			RunResult r = x.run((int)li, l, c, "/w", env);
			show(r, what);
			bool disturbed = r.killed || !r.faults_fired.empty() || l.has("fds");
			if (x.abnormal(dmg ? "C20" : disturbed ? "C22" : x.prop, r, what)) return;
			bool scriptfail = false;
			for (auto &e : P.els)
				if (e.active && e.kind == "inst" && e.get("what") == "script" && P.files[P.sdir(e) + e.id + ".prog"].fail) scriptfail = true;
			x.out.nontrivial = true;
			string o = dmg ? "C20" : x.prop == "C22" && disturbed ? "C22" : "C17";
			if (r.killed || (r.status && disturbed)) {
				os.probes[r.killed ? "install-killed" : "install-failed-loudly"]++;
				check_outside(A, o, false);
				if (must_fail) fs.remove_all(mpath);
				if (scriptfail || droot != "/dest" || dry) continue;
				// running it again completes it
				Side s = side(fs, { c });
				if (s.r.status) x.bad(o, "stuck", what + ": installing again afterwards fails: " + s.why);
				else {
					Vfs keep = os.fs;
					os.fs = s.fs;
					check_install(must_fail ? s.fs : A, o);
					os.fs = keep;
				}
				continue;
			}
			if (r.status) {
				if (dmg) {
					os.probes["damage-rejected"]++;
					continue;
				}
				check_outside(A, o, false);
				if (must_fail) {
					fs.remove_all(mpath);
					continue;
				}
				if (!scriptfail) x.bad(o, "install-fails", what + ": fails: " + first_lines(r.out + r.err, 500));
				else os.probes["install-script-failures"]++;
				continue;
			}
			if (must_fail) {
				x.bad(o, "silent", what + ": exit 0 although a directory is in the place of " + mpath);
				fs.remove_all(mpath);
				continue;
			}
			{ // install scripts are run with what they are told
				std::map<string, int> seen, wants;
				for (auto &h : r.hist)
					if (h.kind == "prog-start") seen[h.a]++;
					else if (h.kind == "env") {
						string want = h.a == "MESON_SOURCE_ROOT" ? "/w" : h.a == "MESON_BUILD_ROOT" ? "/w/build" : dry ? "1" : "(unset)";
						if (h.b != want) x.bad(o, "script-env", what + ": an install script ran with " + h.a + " " + h.b + ", expected " + want);
						os.probes["install-script-env-checked"]++;
					}
				for (auto &e : P.els)
					if (e.active && e.kind == "inst" && e.get("what") == "script") {
						int w = dry && !e.num("dry") ? 0 : 1;
						if (seen[e.id] != w && !scriptfail) x.bad(o, "script-run", what + ": install script " + e.id + strf(" ran %d times, expected %d", seen[e.id], w));
					}
			}
			if (dry) {
				droot = "/nowhere";
				check_outside(A, o, true);
				os.probes["dry-runs"]++;
				continue;
			}
			if (scriptfail) {
				x.bad(o, "silent", what + ": exit 0 although an install script failed");
				continue;
			}
			os.probes["installed-to-" + dd]++;
			check_install(A, o);
			continue;
		}
	}
}

Plan ProjScen::generate(u64 seed, const string &prop)
{
	Rng r(seed ^ hash_str("proj" + prop));
	Plan p;
	p.scen = "proj";
	p.hdr["prop"] = prop;
	p.hdr["seed"] = strf("%llu", (unsigned long long)(seed & 0xffffffff));
	static const char *modes[] = { "random", "sticky", "prio", "fifo" };
	p.hdr["sched"] = modes[r.below(4)];
	if (r.chance(.3)) p.hdr["pipecap"] = r.chance(.5) ? "512" : "4096";
	if (r.chance(.2)) p.hdr["stdio"] = r.chance(.5) ? "64" : "512";
	if (r.chance(.3)) p.hdr["ms"] = strf("%d", r.range(1, 30));
	p.hdr["fill"] = strf("%d", (int)r.below(256));
	p.hdr["ncpu"] = strf("%d", r.range(1, 4));
	if (prop == "C09" || r.chance(.2)) p.hdr["dirseed"] = strf("%d", (int)r.below(100000));
	if (r.chance(.1)) p.hdr["pdef"] = "/opt/pdef";
	vector<string> opts, cfgs, libs, exes, cts, gens, sps, fsrs, chks, all, editable, offs, insts;
	auto some = [&](const vector<string> &v, double pr, int mx) {
		vector<string> s;
		for (auto &e : v)
			if ((int)s.size() < mx && r.chance(pr)) s.push_back(e);
		string o;
		for (auto &e : s) o += (o.empty() ? "" : ",") + e;
		return o;
	};
	static const char *imodes[] = { "rw-r--r--", "rwxr-xr-x", "r--r--r--", "rw-------", "rwxrwxr-x", "r-xr-x---", "rwsr-xr-x", "rwxr-sr-x", "rw-r-Sr--" };
	auto imode = [&]() { return string(" imode=") + imodes[r.below(r.chance(.7) ? 6 : 9)]; };
	static const char *dbs[] = { "build2", "build-x", "buil", "b/c", "b%20x", "build.d/e" };
	string db = r.chance(.2) ? dbs[r.below(6)] : "b"; // the build directory is called build
	auto add = [&](const string &kind, const string &id, const string &rest) {
		string d;
		if (kind != "opt" && kind != "sp") d = r.chance(.5) ? "" : r.chance(.6) ? " dir=a" : " dir=" + db;
		bool off = r.chance(.08);
		p.lines.push_back("el " + kind + " " + id + d + rest + (off ? " off=1" : ""));
		all.push_back(id);
		if (off) offs.push_back(id);
	};
	bool wrap = prop == "C21" || prop == "C11", inst = prop == "C17" || prop == "C20" || prop == "C08" || r.chance(.2);
	int sz[] = { 0, 7, 100, 4096, 4097, 5000, 16384, 66000, 70000, 140000 };
	auto dval = [&]() { return r.chance(.6) ? r.range(0, 3) : r.chance(.95) ? r.range(4, 24) : r.range(25, 29); };
	auto evn = [&]() { return r.chance(.97) ? r.range(1, 5) : r.chance(.6) ? r.range(4092, 4098) : r.range(5000, 9000); };
	int no = r.range(0, 2);
	for (int i = 0; i < no; i++) {
		opts.push_back(strf("o%d", i));
		add("opt", opts.back(), strf(" val=d%d", dval()) + (r.chance(.3) ? " ok=combo" : ""));
	}
	if (r.chance(.15)) sps.push_back("sp0"), add("sp", "sp0", string(r.chance(.6) ? " so=1" : "") + (r.chance(.3) ? strf(" sod=d%d", dval()) : "") + (inst && r.chance(.6) ? " inst=1" : "") + (r.chance(.5) ? prop == "C09" && r.chance(.5) ? " prov=2" : " prov=1" : ""));
	int nf = r.chance(.3) ? 1 : 0;
	for (int i = 0; i < nf; i++) {
		fsrs.push_back(strf("f%d", i));
		static const char *h[] = { "read", "size", "hash", "keyval", "keyval" };
		add("fsr", fsrs.back(), string(" how=") + h[r.below(5)] + (r.chance(.5) ? " str=1" : ""));
	}
	if (r.chance(.2)) chks.push_back("k0"), add("chk", "k0", strf(" v=%d", r.range(1, 4)) + (r.chance(.25) ? " how=file" : r.chance(.25) ? " how=hdr" : r.chance(.5) ? string(" how=") + chkhows[r.below(4)] : ""));
	int nc = r.chance(.7) ? r.range(1, prop == "C10" || prop == "C08" ? 4 : 2) : 0;
	for (int i = 0; i < nc; i++) {
		static const char *m[] = { "conf", "conf", "input", "copy", "command", "capture" };
		cfgs.push_back(strf("c%d", i));
		string l = string(" mode=") + m[r.below(6)] + strf(" outn=%d", sz[r.below(6)]);
		if (!opts.empty() && r.chance(.6)) l += " uses=" + r.pick(opts);
		if (!fsrs.empty()) l += " from=" + r.pick(fsrs);
		if (!chks.empty()) l += " from2=" + r.pick(chks);
		if (inst && r.chance(.4)) l += " inst=1" + (r.chance(.4) ? imode() : "");
		static const int nk[] = { 13, 14, 15, 16, 17, 33, 120 };
		if (r.chance(.15)) l += strf(" keys=%d", nk[r.below(7)]);
		add("cfg", cfgs.back(), l);
	}
	if (r.chance(prop == "C11" ? .9 : .15)) {
		int n = prop == "C11" ? r.range(1, 3) : 1;
		for (int i = 0; i < n; i++) {
			string l = strf(" outn=%d exit=%d", sz[r.below(10)], r.chance(.6) ? 0 : r.range(1, 255));
			if (r.chance(.4)) l += strf(" chunk=%d", r.range(50, 5000));
			if (r.chance(.3)) l += strf(" ms=%d", r.range(1, 50));
			if (r.chance(.4)) l += strf(" env=%d", evn());
			if (r.chance(prop == "C11" ? .05 : 0)) l += " sig=9";
			if (r.chance(.3)) l += strf(" ec=%d", r.range(1, 2));
			add("rc", strf("r%d", i), l);
		}
	}
	if (r.chance(.15)) cfgs.push_back("vcs0"), add("vcs", "vcs0", "");
	int nt = r.chance(wrap ? .95 : .4) ? r.range(1, wrap ? 4 : 2) : 0;
	for (int i = 0; i < nt; i++) {
		static const char *m[] = { "plain", "capture", "feed", "capfeed", "depfile" };
		string l = string(" mode=") + m[wrap ? (r.chance(.3) ? r.below(5) : r.chance(.5) ? 1 : 3) : r.below(5)];
		bool plain = l == " mode=plain";
		l += strf(" outn=%d", sz[r.below(wrap ? 10 : 6)]);
		if (r.chance(wrap ? .6 : .2)) l += strf(" inn=%d", sz[r.below(10)]);
		if (r.chance(.4)) l += strf(" env=%d", evn());
		if (r.chance(.2)) l += strf(" nl=%d", r.range(1, 5));
		if (r.chance(.2)) l += " late=1";
		if (r.chance(.2)) l += " ec=2";
		if (r.chance(.2)) l += strf(" dsig=%d", r.chance(.5) ? 9 : r.chance(.5) ? 11 : 15);
		if (r.chance(.3)) l += strf(" chunk=%d", r.range(50, 5000));
		if (r.chance(.3)) l += strf(" ms=%d", r.range(1, 50));
		if (plain && r.chance(.3)) l += " multi=1" + (inst && r.chance(.5) ? strf(" idirs=%d", r.range(1, 3)) : string());
		else if (plain && r.chance(.4)) l += " c=1";
		if (r.chance(.15)) l += " mute=1";
		if (!cts.empty() && r.chance(.3)) l += " deps=" + r.pick(cts);
		if (inst && r.chance(.5)) l += " inst=1" + (r.chance(.4) ? imode() : "");
		cts.push_back(strf("t%d", i));
		add("ct", cts.back(), l);
	}
	if (inst && r.chance(.2)) add("ct", "nb0", " mode=plain inst=1 nobd=1");
	if (r.chance(.2)) gens.push_back("g0"), add("gen", "g0", "");
	int ng = wrap ? r.range(0, 1) : r.range(prop == "C09" ? 1 : 0, 4);
	for (int i = 0; i < ng; i++) {
		static const char *tk[] = { "exe", "exe", "exe", "static", "static", "shared", "both", "library" };
		string k = tk[r.below(8)], l = " tk=" + k + strf(" n=%d", r.range(1, 3)), id = strf("x%d", i);
		string s = some(cfgs, .5, 3);
		if (!s.empty()) l += " inc=" + s;
		s = some(libs, .5, 2);
		if (!s.empty()) l += " link=" + s;
		s = some(gens, .6, 1);
		if (!s.empty()) l += " gens=" + s;
		s = some(cts, .5, 2);
		if (!s.empty()) l += " cts=" + s;
		s = some(sps, .6, 1);
		if (!s.empty()) l += " sps=" + s;
		if (!opts.empty() && r.chance(.5)) l += " uses=" + r.pick(opts);
		if (inst && r.chance(.6)) {
			l += " inst=1";
			if (r.chance(.3)) l += imode();
			if (r.chance(.2)) l += string(" idir=") + (r.chance(.5) ? "libexec/y" : "/opt/z");
		}
		if (k == "shared" && r.chance(.5)) l += strf(" ver=%d", r.range(1, 3));
		if (k == "exe" && r.chance(.4)) l += " test=1";
		if (k != "exe" && r.chance(prop == "C08" ? .5 : .25)) l += strf(" pc=%d", r.range(1, 3));
		(k == "exe" ? exes : libs).push_back(id);
		add("tgt", id, l);
	}
	if (inst) {
		int n = r.range(prop == "C17" ? 1 : 0, prop == "C17" ? 5 : 2);
		static const char *w[] = { "headers", "data", "man", "subdir", "symlink", "emptydir", "script", "data", "subdir", "paths" };
		for (int i = 0; i < n; i++) {
			string what = w[r.below(10)], l = " what=" + what + strf(" n=%d", r.range(1, 4));
			if (what != "script" && what != "symlink" && r.chance(.4)) l += imode();
			if (r.chance(.4)) l += string(" idir=") + (r.chance(.4) ? "share/x/y" : r.chance(.5) ? "/etc/q" : "share");
			if (what == "headers" && r.chance(.4)) l += " sub=hsub";
			if (what == "subdir" && r.chance(.3)) l += " strip=1";
			if (what == "subdir" && r.chance(.3)) l += " excl=1";
			if (what == "subdir" && r.chance(.2)) l += " excld=1";
			if (what == "script" && r.chance(.4)) l += strf(" sargs=%d", r.range(1, 3));
			if (what == "man" && r.chance(.4)) l += string(" loc=fr") + (r.chance(.5) ? " locn=1" : "");
			else if (what == "man" && r.chance(.3)) l += " mdir=1";
			if (what == "script" && r.chance(.4)) l += " dry=1";
			if (what == "data" && r.chance(.3)) l += strf(" ren=%d", r.range(1, 2));
			if (what == "data" && r.chance(.2)) l += " noid=1";
			if (what == "paths" && r.chance(.5)) l += " dat=1";
			if (what == "paths" && r.chance(.5)) l += " keep=1";
			if (what == "paths" && r.chance(.3)) l += " sub=hs";
			if (what == "subdir" && r.chance(.15)) l += " none=1";
			else if (what == "subdir" && r.chance(.3)) l += strf(" lnk=%d", r.chance(.5) ? 1 : 3);
			if (r.chance(.3)) l += string(" smode=") + (r.chance(.3) ? "755" : r.chance(.5) ? "444" : "640");
			insts.push_back(strf("i%d", i));
			add("inst", insts.back(), l);
		}
	}
	if (all.empty()) add("tgt", "x0", " tk=exe n=1"), exes.push_back("x0");
	auto D = [&]() {
		string d;
		for (auto &o : opts)
			if (r.chance(.4)) d += (d.empty() ? "" : ";") + o + strf(":d%d", dval());
		auto more = [&](const string &t) { d += (d.empty() ? "" : ";") + t; };
		if (!sps.empty() && r.chance(.4)) more(strf("sp0:so:d%d", dval()));
		if (inst && r.chance(.25)) more(r.chance(.6) ? "prefix:/opt/pp" : "prefix:/usr");
		if (inst && r.chance(.15)) more(r.chance(.5) ? "bindir:sbin" : "bindir:/opt/bb");
		if (inst && r.chance(.15)) more(r.chance(.5) ? "libdir:lib64" : "libdir:lib/x/y");
		if (inst && r.chance(.1)) more("includedir:inc/v1");
		if (inst && r.chance(.1)) more("mandir:man");
		if (inst && r.chance(.1)) more("datadir:/opt/dd");
		return d.empty() ? string() : " D=" + d;
	};
	auto S = [&]() { return strf(" s=%d", (int)r.below(1000000)); };
	auto F = [&]() { return string(" F=") + (r.chance(.5) ? "build" : r.chance(.5) ? "test" : "install"); };
	if (prop == "C09") {
		int n = r.range(1, 2);
		for (int i = 0; i < n; i++) {
			p.lines.push_back("op det" + D() + strf(" r=%d", (int)r.below(100000)) + S());
			if (r.chance(.5)) p.lines.push_back("op mod " + r.pick(all) + strf(" v=%d", r.range(1, 9)));
		}
		return p;
	}
	vector<string> failing;
	auto change = [&]() {
		string e = r.pick(all);
		int w = (int)r.below(20);
		if (w < 8) {
			bool fail = r.chance(prop == "C21" ? .35 : prop == "C17" ? .1 : .06);
			int n = (int)r.below(4);
			p.lines.push_back("op edit " + e + strf(" n=%d", n) + (fail ? " fail=1" : ""));
			if (fail) failing.push_back(e + strf(" n=%d", n));
		} else if (w < 9) p.lines.push_back("op touch " + e + strf(" n=%d", (int)r.below(4)));
		else if (w < 14) {
			static const char *keys[] = { "v", "v", "env", "outn", "nl", "n", "ver", "test", "inst", "chunk", "exit", "mute" };
			string k = keys[r.below(12)];
			if (k == "n" && r.chance(.5)) k = "v";
			p.lines.push_back("op mod " + e + " " + k + strf("=%d", k == "outn" ? sz[r.below(8)] : k == "test" || k == "inst" || k == "mute" ? r.range(0, 1) : k == "chunk" ? r.range(50, 5000) : k == "env" ? evn() : r.range(1, 4)));
		} else if (w < 15 && !offs.empty()) p.lines.push_back("op add " + r.pick(offs));
		else if (w < 16) p.lines.push_back("op rm " + e), offs.push_back(e);
		else if (w < 17 && !opts.empty()) p.lines.push_back("op optdef " + (sps.empty() || r.chance(.8) ? r.pick(opts) : "sp0") + strf(" val=d%d", dval()));
		else if (w < 18) p.lines.push_back("op vcs");
		else if (w < 19) p.lines.push_back(strf("op rmout n=%d", (int)r.below(50)));
		else if (r.chance(.4)) {
			p.lines.push_back("op brk");
			p.lines.push_back(string(r.chance(.7) ? "op build" : "op setup") + S());
			p.lines.push_back("op unbrk");
		}
	};
	vector<size_t> cand;
	string lastD = D();
	cand.push_back(p.lines.size());
	auto mes = [&](double pr) { return r.chance(pr) ? strf(" mes=%d", 1 + 2 * (int)r.below(128)) : string(); };
	p.lines.push_back("op setup" + lastD + S() + F() + mes(.15));
	int nops = r.range(1, 4);
	for (int i = 0; i < nops; i++) {
		if (r.chance(i ? .9 : .6)) {
			cand.push_back(p.lines.size());
			string l = "op " + string(r.chance(.9) ? "build" : "test") + (r.chance(.5) ? strf(" j=%d", r.range(1, 4)) : "") + S() + F();
			if (r.chance(.15)) l += strf(" sr=%d sw=%d", r.range(0, 40), r.range(0, 40));
			if (r.chance(.15)) l += strf(" delay=%d delaymax=%d", r.range(1, 20), r.range(1, 100));
			p.lines.push_back(l);
		}
		if (r.chance(.25)) p.lines.push_back("op build" + S());
		if (inst && r.chance(.6)) {
			if (r.chance(.5)) p.lines.push_back("op build" + S());
			if (prop == "C20" && r.chance(.5)) p.lines.push_back(strf("op dmg file=install.dat how=%s at=%.4f", r.chance(.6) ? "trunc" : r.chance(.4) ? "empty" : r.chance(.5) ? "rm" : "head", r.unit()) + (r.chance(.4) ? strf(" cut=%d", r.range(1, r.chance(.5) ? 16 : 400)) : ""));
			if (r.chance(.2)) p.lines.push_back("op rmdest");
			cand.push_back(p.lines.size());
			string il = "op install" + S() + mes(.2) + (r.chance(.2) ? strf(" sr=%d sw=%d", r.range(0, 40), r.range(0, 40)) : "");
			if (prop != "C08" && prop != "C20") {
				static const char *dds[] = { "opt", "opts", "none", "empty", "rel" };
				static const char *ms[] = { "link", "ro", "old", "dir" };
				if (r.chance(.4)) il += string(" dd=") + dds[r.below(5)];
				if (r.chance(.1)) il += " dry=1";
				if (r.chance(.25)) il += string(" mess=") + ms[r.below(4)] + strf(" n=%d", (int)r.below(40));
			}
			p.lines.push_back(il);
			if (prop == "C20") p.lines.push_back("op setup" + lastD + S());
		}
		int m = r.range(prop == "C10" ? 0 : 1, 3);
		for (int k = 0; k < m; k++) change();
		if (prop == "C20" && r.chance(.7)) {
			static const char *f[] = { "tests.dat", "option_info.dat", "compiler_check_cache.dat", "install.dat" };
			p.lines.push_back(strf("op dmg file=%s how=%s at=%.4f", f[r.below(4)], r.chance(.6) ? "trunc" : r.chance(.4) ? "empty" : r.chance(.5) ? "rm" : "head", r.unit()) + (r.chance(.4) ? strf(" cut=%d", r.range(1, r.chance(.5) ? 16 : 400)) : ""));
		}
		if (r.chance(prop == "C10" || prop == "C08" ? .6 : .2)) {
			if (r.chance(.3)) lastD = D();
			cand.push_back(p.lines.size());
			p.lines.push_back("op setup" + lastD + S() + F() + mes(.2));
		}
	}
	if (prop == "C21" && !failing.empty() && r.chance(.8)) {
		for (auto &f : failing) p.lines.push_back("op edit " + f);
	}
	p.lines.push_back("op build" + S());
	if (prop == "C20") p.lines.push_back("op setup" + lastD + S()), p.lines.push_back("op build" + S());
	if (inst) p.lines.push_back("op install" + S());
	double pf = prop == "C22" ? 1 : prop == "C08" ? .95 : prop == "C17" ? .7 : prop == "C21" ? .7 : prop == "C11" ? .1 : 0;
	if (r.chance(pf)) {
		Outcome o = execute(p);
		if (!o.v.empty() || !o.note.empty()) return p;
		bool kill = prop == "C08" ? r.chance(.65) : prop == "C17" ? r.chance(.4) : prop == "C21" ? r.chance(.5) : false;
		for (int tries = 0; tries < 12; tries++) {
			size_t line = r.pick(cand);
			bool is_inst = starts_with(p.lines[line], "op install"), is_setup = starts_with(p.lines[line], "op setup");
			if (prop == "C17" && !is_inst) continue;
			if (prop == "C21" && (is_inst || is_setup)) continue;
			if (prop == "C08" && is_inst) continue;
			OpStat *st = nullptr;
			for (auto &s : o.ops)
				if (s.line == (int)line) st = &s;
			if (!st) continue;
			static const string kinds = "malloc,open_w,open_w,open_w,open_r,write,write,read,close,close,fork,pipe,mkdir,unlink,disk,disk,fds,rename,rename,chmod,symlink,opendir,readdir,readlink,trunc,misc,fcntl,sync";
			static const string setup_kinds = kinds + ",write,write,write,disk,disk,close,close,rename";
			const string &ks = prop == "C08" ? setup_kinds : kinds;
			string t = fault_tokens(r, *st, kill, ks), orig = p.lines[line];
			if (t.empty()) continue;
			p.lines[line] += t;
			if (is_setup && (prop == "C08" || prop == "C22") && r.chance(.6)) { // the same setup, disturbed in other ways first
				int n = r.range(1, 4);
				for (int k = 0; k < n; k++) {
					string t2 = fault_tokens(r, *st, kill, ks);
					if (!t2.empty()) p.lines.insert(p.lines.begin() + (long)line, orig + t2 + " undo=1");
				}
			}
			if (r.chance(.5)) p.lines.insert(p.lines.begin() + (long)line + 1, "op build" + S());
			break;
		}
	}
	return p;
}
Scenario *scen_proj()
{
	static ProjScen s;
	return &s;
}
} // namespace sim
