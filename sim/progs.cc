// simulated programs: shell, compiler, archiver, scripted jobs, small utilities
#include <unordered_map>
#include "os.h"
#include <algorithm>
#include <csignal>
#include <fcntl.h>
#include <sys/wait.h>

namespace sim {
static void put(int fd, const string &s, size_t chunk = 0)
{
	size_t i = 0;
	while (i < s.size()) {
		size_t k = chunk ? std::min(chunk, s.size() - i) : s.size() - i;
		i64 r = k_write(fd, s.data() + i, k);
		if (r <= 0) return;
		i += (size_t)r;
	}
}
// a blank in an argument of a scripted program that names a file
static const char BLANK = '\x01';
static string unblank(string s)
{
	for (char &c : s)
		if (c == BLANK) c = ' ';
	return s;
}
static bool slurp(const string &path, string &out)
{
	int fd = k_open(unblank(path).c_str(), O_RDONLY, 0);
	if (fd < 0) return false;
	out.clear();
	char buf[65536];
	for (;;) {
		i64 r = k_read(fd, buf, sizeof buf);
		if (r < 0) {
			k_close(fd);
			return false;
		}
		if (r == 0) break;
		out.append(buf, (size_t)r);
	}
	k_close(fd);
	return true;
}
// deliberately not atomic: truncate, half, half
static bool spew(const string &path, const string &data, u32 mode = 0666)
{
	int fd = k_open(unblank(path).c_str(), O_WRONLY | O_CREAT | O_TRUNC, mode);
	if (fd < 0) return false;
	size_t half = data.size() / 2;
	bool ok = true;
	size_t i = 0;
	while (i < data.size()) {
		size_t end = i < half ? half : data.size();
		i64 r = k_write(fd, data.data() + i, end - i);
		if (r <= 0) {
			ok = false;
			break;
		}
		i += (size_t)r;
	}
	if (k_close(fd) < 0) ok = false;
	return ok;
}
static string cwdpath(const string &p) { return norm_abs(unblank(p), k_getcwd()); }
static int job_ms(const string &key)
{
	if (!os.ms_max) return 0;
	return (int)(mix64(hash_str(key) ^ os.ms_seed) % (u64)(os.ms_max + 1));
}
string pattern(const string &id, int n, char tag)
{
	// self-describing bytes: position and owner can be read off any fragment
	static std::unordered_map<string, std::pair<string, int>> memo;
	if (n <= 0) return "";
	if (memo.size() > 500) memo.clear();
	auto &m = memo[id + tag];
	string &t = m.first;
	const string pre = "<" + id + tag;
	while ((int)t.size() < n) t += pre + std::to_string(m.second++) + ">\n";
	string s = t.substr(0, (size_t)n);
	s[(size_t)n - 1] = '\n';
	return s;
}

// ---------------------------------------------------------------- shell
struct Tok {
	string s;
	bool op = false;
	bool quoted = false;
};
static bool sh_lex(const string &in, vector<Tok> &out, string &err)
{
	size_t i = 0;
	string cur;
	bool have = false, q = false;
	auto flush = [&]() {
		if (have) out.push_back(Tok{ cur, false, q });
		cur.clear();
		have = q = false;
	};
	auto var = [&](size_t &i) {
		string n;
		if (in[i] == '{') {
			size_t j = in.find('}', i);
			if (j == string::npos) return;
			n = in.substr(i + 1, j - i - 1);
			i = j + 1;
		} else if (in[i] == '?' || in[i] == '$' || in[i] == '#') {
			n = in.substr(i++, 1);
		} else
			while (i < in.size() && (isalnum((unsigned char)in[i]) || in[i] == '_')) n += in[i++];
		auto it = os.cur->env.find(n);
		if (it != os.cur->env.end()) cur += it->second;
		have = true;
	};
	while (i < in.size()) {
		char c = in[i];
		if (c == '\'') {
			size_t j = in.find('\'', i + 1);
			if (j == string::npos) {
				err = "unterminated quote";
				return false;
			}
			cur += in.substr(i + 1, j - i - 1);
			have = q = true;
			i = j + 1;
		} else if (c == '"') {
			i++;
			have = q = true;
			while (i < in.size() && in[i] != '"') {
				if (in[i] == '\\' && i + 1 < in.size() && strchr("\\\"$`\n", in[i + 1])) {
					if (in[i + 1] != '\n') cur += in[i + 1];
					i += 2;
				} else if (in[i] == '$' && i + 1 < in.size() && (isalnum((unsigned char)in[i + 1]) || strchr("{_?", in[i + 1]))) {
					i++;
					var(i);
				} else
					cur += in[i++];
			}
			if (i >= in.size()) {
				err = "unterminated quote";
				return false;
			}
			i++;
		} else if (c == '\\' && i + 1 < in.size()) {
			if (in[i + 1] != '\n') {
				cur += in[i + 1];
				have = true;
				q = true;
			}
			i += 2;
		} else if (c == '$' && i + 1 < in.size() && (isalnum((unsigned char)in[i + 1]) || strchr("{_?$", in[i + 1]))) {
			i++;
			var(i);
		} else if (c == ' ' || c == '\t') {
			flush();
			i++;
		} else if (c == '\n' || c == ';') {
			flush();
			out.push_back(Tok{ ";", true });
			i++;
		} else if (c == '&' || c == '|') {
			flush();
			if (i + 1 < in.size() && in[i + 1] == c) {
				out.push_back(Tok{ string(2, c), true });
				i += 2;
			} else {
				out.push_back(Tok{ string(1, c), true });
				i++;
			}
		} else if (c == '>' || c == '<') {
			string fdn;
			if (have && !q && cur.size() == 1 && isdigit((unsigned char)cur[0])) {
				fdn = cur;
				cur.clear();
				have = false;
			}
			flush();
			string o = fdn + string(1, c);
			i++;
			if (i < in.size() && in[i] == '>') {
				o += '>';
				i++;
			}
			if (i < in.size() && in[i] == '&') {
				o += '&';
				i++;
			}
			out.push_back(Tok{ o, true });
		} else if (c == '#' && !have) {
			while (i < in.size() && in[i] != '\n') i++;
		} else if (c == '(' || c == ')' || c == '`') {
			err = string("unsupported character ") + c;
			return false;
		} else {
			cur += c;
			have = true;
			i++;
		}
	}
	flush();
	return true;
}
static string find_in_path(const string &name)
{
	if (name.find('/') != string::npos) return name;
	auto it = os.cur->env.find("PATH");
	for (auto &d : split(it == os.cur->env.end() ? "/usr/bin:/bin" : it->second, ':')) {
		string p = d + "/" + name;
		if (k_access(p.c_str(), 1) == 0) return p;
	}
	return "";
}
static int prog_sh(const vector<string> &argv)
{
	string script;
	size_t ai = 1;
	bool eflag = false;
	while (ai < argv.size() && argv[ai].size() > 1 && argv[ai][0] == '-' && argv[ai] != "-c") {
		if (argv[ai].find('e') != string::npos) eflag = true;
		if (argv[ai].find('c') != string::npos) break;
		ai++;
	}
	if (ai + 1 < argv.size() && argv[ai][0] == '-') {
		script = argv[ai + 1];
		for (size_t k = ai + 2; k < argv.size(); k++) os.cur->env[strf("%d", (int)(k - ai - 2))] = argv[k];
	} else if (ai < argv.size()) {
		if (!slurp(argv[ai], script)) {
			put(2, "sh: cannot open " + argv[ai] + "\n");
			return 127;
		}
		for (size_t k = ai; k < argv.size(); k++) os.cur->env[strf("%d", (int)(k - ai))] = argv[k];
	} else
		return 0;
	vector<Tok> t;
	string err;
	if (!sh_lex(script, t, err)) {
		put(2, "sh: syntax error: " + err + "\n");
		return 2;
	}
	// split into simple commands
	struct Cmd {
		vector<string> words;
		vector<std::pair<string, string>> redir;
		string next; // operator after it
	};
	vector<Cmd> cmds;
	Cmd c;
	for (size_t i = 0; i < t.size(); i++) {
		if (!t[i].op) {
			c.words.push_back(t[i].s);
			continue;
		}
		const string &o = t[i].s;
		if (o.find('>') != string::npos || o.find('<') != string::npos) {
			if (i + 1 >= t.size()) return 2;
			c.redir.push_back({ o, t[i + 1].s });
			i++;
			continue;
		}
		c.next = o;
		if (!c.words.empty() || !c.redir.empty()) cmds.push_back(c);
		c = Cmd();
	}
	if (!c.words.empty() || !c.redir.empty()) cmds.push_back(c);
	while (!cmds.empty() && cmds.back().next == ";") cmds.back().next = "";
	int st = 0;
	bool skip = false;
	string prev = ";";
	for (size_t i = 0; i < cmds.size(); i++) {
		Cmd &k = cmds[i];
		if (prev == "&&")
			skip = st != 0;
		else if (prev == "||")
			skip = st == 0;
		else
			skip = false;
		prev = k.next;
		if (skip) continue;
		std::map<int, Fd> saved = os.cur->fds;
		bool last = k.next.empty();
		bool bad = false;
		for (auto &r : k.redir) {
			int fd = r.first[0] == '<' ? 0 : 1;
			string o = r.first;
			if (isdigit((unsigned char)o[0])) {
				fd = o[0] - '0';
				o = o.substr(1);
			}
			if (o == ">&") {
				k_dup2(r.second[0] - '0', fd);
				continue;
			}
			int f = o == "<" ? k_open(r.second.c_str(), O_RDONLY, 0) : k_open(r.second.c_str(), O_WRONLY | O_CREAT | (o == ">>" ? O_APPEND : O_TRUNC), 0666);
			if (f < 0) {
				put(2, "sh: cannot open " + r.second + "\n");
				bad = true;
				break;
			}
			k_dup2(f, fd);
			k_close(f);
		}
		if (bad)
			st = 2;
		else {
			// assignments
			std::map<string, string> senv = os.cur->env;
			size_t w = 0;
			while (w < k.words.size()) {
				size_t eq = k.words[w].find('=');
				if (eq == string::npos || eq == 0) break;
				bool id = true;
				for (size_t z = 0; z < eq; z++)
					if (!isalnum((unsigned char)k.words[w][z]) && k.words[w][z] != '_') id = false;
				if (!id) break;
				os.cur->env[k.words[w].substr(0, eq)] = k.words[w].substr(eq + 1);
				w++;
			}
			vector<string> av(k.words.begin() + (long)w, k.words.end());
			if (!av.empty() && av[0] == "exec") {
				av.erase(av.begin());
				last = true;
			}
			if (av.empty()) {
				st = 0;
			} else if (av[0] == ":" || av[0] == "true") {
				st = 0;
			} else if (av[0] == "false") {
				st = 1;
			} else if (av[0] == "exit") {
				return av.size() > 1 ? atoi(av[1].c_str()) : st;
			} else if (av[0] == "cd") {
				st = k_chdir(av.size() > 1 ? av[1].c_str() : "/") ? 1 : 0;
			} else {
				string p = find_in_path(av[0]);
				if (p.empty()) {
					put(2, "sh: " + av[0] + ": not found\n");
					st = 127;
				} else if (last) {
					int e = k_execve(p, av, os.cur->env);
					put(2, "sh: " + av[0] + ": cannot execute\n");
					st = e == -ENOENT ? 127 : 126;
				} else if (k.next == "|") {
					int fds[2];
					if (k_pipe(fds) < 0) return 2;
					os.cur->fds[fds[0]].cloexec = true;
					std::map<int, Fd> s2 = os.cur->fds;
					os.cur->fds[1] = os.cur->fds[fds[1]];
					os.cur->fds.erase(fds[1]);
					k_spawn(p, av);
					os.cur->fds = s2;
					k_close(fds[1]);
					saved = os.cur->fds;
					saved[0] = Fd{ saved[fds[0]].o, false };
					saved.erase(fds[0]);
				} else {
					int pid = k_spawn(p, av);
					if (pid < 0) {
						put(2, "sh: " + av[0] + ": cannot execute\n");
						st = 126;
					} else {
						int ws = 0;
						k_waitpid(pid, &ws, 0);
						st = (ws & 0x7f) ? 128 + (ws & 0x7f) : (ws >> 8) & 0xff;
					}
				}
			}
			if (w < k.words.size()) os.cur->env = senv;
		}
		os.cur->fds = saved;
		if (eflag && st) return st;
	}
	return st;
}

// ---------------------------------------------------------------- compiler
static string join_path(const string &d, const string &f) { return d.empty() ? f : d + "/" + f; }
static string dirof(const string &p)
{
	size_t i = p.rfind('/');
	return i == string::npos ? "" : p.substr(0, i);
}
static string mkescape(const string &t)
{
	string r, s = unblank(t);
	for (char c : s) {
		if (c == ' ' || c == '#') r += '\\';
		if (c == '$') r += '$';
		r += c;
	}
	return r;
}
struct Scan {
	vector<string> deps;
	std::set<string> seen;
	u64 h = 7;
	string err;
	vector<string> directives;
	bool missing = false;
};
static const char *sys_headers[] = { "stdio.h", "stdlib.h", "string.h", "stdint.h", "stddef.h", "limits.h", "unistd.h", nullptr };
static bool scan_file(const string &path, const vector<string> &incs, Scan &s, int depth)
{
	string c;
	if (depth > 30) return true;
	if (!slurp(path, c)) {
		s.err = "sim-cc: error: " + path + ": No such file or directory\n";
		return false;
	}
	s.h = hash_str(c, s.h);
	for (auto &l : split(c, '\n')) {
		if (starts_with(l, "//@ ")) s.directives.push_back(l.substr(4));
		if (starts_with(l, "#error")) {
			s.err = path + ": error: " + l + "\n";
			return false;
		}
		if (l.find("sim_syntax_error") != string::npos) {
			s.err = path + ": error: syntax error\n";
			return false;
		}
		if (!starts_with(l, "#include ")) continue;
		bool q = l.size() > 9 && l[9] == '"';
		size_t e = l.find(q ? '"' : '>', 10);
		if (e == string::npos) continue;
		string n = l.substr(10, e - 10);
		string found;
		vector<string> cand;
		if (q) cand.push_back(join_path(dirof(path), n));
		for (auto &d : incs) cand.push_back(join_path(d, n));
		for (auto &p : cand) {
			struct stat st;
			if (k_stat(p.c_str(), &st, true) == 0) {
				found = p;
				break;
			}
		}
		if (found.empty()) {
			bool sys = false;
			for (int i = 0; sys_headers[i]; i++)
				if (n == sys_headers[i]) sys = true;
			if (sys) continue;
			s.err = path + ": fatal error: " + n + ": No such file or directory\n";
			return false;
		}
		if (!s.seen.insert(found).second) continue;
		s.deps.push_back(found);
		if (!scan_file(found, incs, s, depth + 1)) return false;
	}
	return true;
}
static int prog_cc(const vector<string> &argv0)
{
	vector<string> argv = argv0;
	// response files
	for (size_t i = 1; i < argv.size(); i++)
		if (argv[i].size() > 1 && argv[i][0] == '@') {
			string c;
			if (!slurp(argv[i].substr(1), c)) {
				put(2, "sim-cc: cannot read " + argv[i] + "\n");
				return 1;
			}
			vector<Tok> t;
			string e;
			sh_lex(replace_all(c, "\n", " "), t, e);
			vector<string> n(argv.begin(), argv.begin() + (long)i);
			for (auto &x : t) n.push_back(x.s);
			n.insert(n.end(), argv.begin() + (long)i + 1, argv.end());
			argv = n;
			break;
		}
	string out, mf, mq, lang;
	bool c = false, E = false, shared = false, md = false, so = false;
	vector<string> incs, in, libs;
	string flags;
	for (size_t i = 1; i < argv.size(); i++) {
		const string &a = argv[i];
		auto val = [&](size_t n) -> string {
			if (a.size() > n) return a.substr(n);
			if (i + 1 < argv.size()) return argv[++i];
			return "";
		};
		if (a == "--version" || a == "-v") {
			put(1, "gcc (SIM) 13.2.0\nCopyright (C) 2023 Free Software Foundation, Inc.\n");
			return 0;
		}
		if (a == "-Wl,--version" || a == "-Wl,-version") {
			put(1, "GNU ld (SIM Binutils) 2.40\n");
			return 0;
		}
		if (a == "-print-search-dirs") {
			put(1, "install: /usr/lib/gcc/\nlibraries: =/usr/lib:/lib\n");
			return 0;
		}
		if (a == "-c")
			c = true;
		else if (a == "-E")
			E = true;
		else if (a == "-fsyntax-only" || a == "-S")
			so = true;
		else if (a == "-shared")
			shared = true;
		else if (a == "-MD" || a == "-MMD")
			md = true;
		else if (a == "-MP")
			;
		else if (a == "-MF")
			mf = val(3);
		else if (a == "-MQ" || a == "-MT")
			mq = val(3);
		else if (a == "-x") {
			lang = val(2);
			flags += " -x" + lang;
		} else if (starts_with(a, "-o"))
			out = val(2);
		else if (starts_with(a, "-I"))
			incs.push_back(val(2));
		else if (a == "-isystem" || a == "-iquote")
			incs.push_back(val(99));
		else if (starts_with(a, "-l"))
			libs.push_back(val(2));
		else if (starts_with(a, "-D")) {
			flags += " -D" + val(2);
		} else if (a[0] == '-' && a.size() > 1)
			flags += " " + a;
		else
			in.push_back(a);
	}
	string key = out.empty() ? (in.empty() ? "?" : in[0]) : out;
	int ms = job_ms(key);
	if (in.empty()) {
		put(2, "sim-cc: fatal error: no input files\n");
		return 1;
	}
	if (c || E || so) {
		Scan s;
		s.seen.insert(in[0]);
		string absout = cwdpath(out);
		if (c && !out.empty()) os.hist("cc-start", absout);
		bool ok;
		if (in[0] == "-") {
			ok = true;
		} else
			ok = scan_file(in[0], incs, s, 0);
		if (ms) k_sleep((i64)ms * 500000);
		if (!ok) {
			put(2, s.err);
			if (!out.empty()) k_unlink(out.c_str(), false, true);
			if (c && !out.empty()) os.hist("cc-end", absout, "fail");
			return 1;
		}
		if (E || so) {
			string body;
			slurp(in[0], body);
			if (E && out.empty()) put(1, body);
			if (E && !out.empty()) spew(out, body);
			return 0;
		}
		if (out.empty()) {
			string b = in[0].substr(in[0].rfind('/') == string::npos ? 0 : in[0].rfind('/') + 1);
			out = b.substr(0, b.rfind('.')) + ".o";
		}
		string incl;
		for (auto &d : incs) incl += " -I" + d;
		string body = "OBJ src=" + in[0] + " flags=" + flags + incl + " deps=" + hex64(s.h) + "\n";
		for (auto &d : s.directives) body += "@ " + d + "\n";
		if (md) {
			string d = mkescape(mq.empty() ? out : mq) + ": " + mkescape(in[0]);
			for (auto &x : s.deps) d += " \\\n  " + mkescape(x);
			d += "\n";
			if (mf.empty()) mf = out.substr(0, out.rfind('.')) + ".d";
			if (!spew(mf, d)) {
				put(2, "sim-cc: cannot write " + mf + "\n");
				k_unlink(out.c_str(), false, true);
				return 1;
			}
		}
		if (!spew(out, body)) {
			put(2, "sim-cc: cannot write " + out + "\n");
			k_unlink(out.c_str(), false, true);
			os.hist("cc-end", absout, "fail");
			return 1;
		}
		if (ms) k_sleep((i64)ms * 500000);
		if (!s.directives.empty())
			for (auto &d : s.directives)
				if (starts_with(d, "warn ")) put(2, in[0] + ": warning: " + d.substr(5) + "\n");
		os.hist("cc-end", absout, "ok");
		return 0;
	}
	// link (sources given directly are compiled on the fly)
	if (out.empty()) out = "a.out";
	string absout = cwdpath(out);
	os.hist("cc-start", absout);
	string body;
	u64 h = hash_str(flags, shared ? 3 : 5);
	vector<string> dirs;
	bool ok = true;
	for (auto &f : in) {
		string x;
		if (lang == "c" || lang == "c++" || ends_with(f, ".c") || ends_with(f, ".cpp")) {
			Scan s;
			if (!scan_file(f, incs, s, 0)) {
				put(2, s.err);
				ok = false;
				break;
			}
			h = mix64(h ^ s.h);
			for (auto &d : s.directives) dirs.push_back(d);
			continue;
		}
		if (!slurp(f, x)) {
			put(2, "sim-ld: cannot find " + f + "\n");
			ok = false;
			break;
		}
		if (x.empty() || (x.compare(0, 3, "OBJ") && x.compare(0, 3, "!<a") && x.compare(0, 3, "\x7fSO")) || x.back() != '\n') {
			put(2, "sim-ld: " + f + ": file format not recognized\n");
			ok = false;
			break;
		}
		h = hash_str(x, h);
		for (auto &l : split(x, '\n'))
			if (starts_with(l, "@ ")) dirs.push_back(l.substr(2));
	}
	for (auto &l : libs) {
		h = hash_str(l, h);
		if (starts_with(l, "missing")) {
			put(2, "sim-ld: cannot find -l" + l + "\n");
			ok = false;
		}
	}
	if (ms) k_sleep((i64)ms * 500000);
	if (!ok) {
		k_unlink(out.c_str(), false, true);
		os.hist("cc-end", absout, "fail");
		return 1;
	}
	body = (shared ? string("\x7fSO ") : string("\x7fSIM:exe\n")) + hex64(h) + "\n";
	for (auto &d : dirs) body += (shared ? "@ " : "") + d + "\n";
	if (!spew(out, body, 0777)) {
		put(2, "sim-ld: cannot write " + out + "\n");
		k_unlink(out.c_str(), false, true);
		os.hist("cc-end", absout, "fail");
		return 1;
	}
	k_chmod(out.c_str(), 0755, true);
	os.hist("cc-end", absout, "ok");
	return 0;
}
static int prog_ar(const vector<string> &argv)
{
	if (argv.size() > 1 && (argv[1] == "--version" || argv[1] == "-V")) {
		put(1, "GNU ar (SIM Binutils) 2.40\nFree Software Foundation\n");
		return 0;
	}
	if (argv.size() < 3) return 1;
	vector<string> a(argv.begin() + 2, argv.end());
	vector<string> files;
	for (auto &x : a) {
		if (x.size() > 1 && x[0] == '@') {
			string c;
			if (!slurp(x.substr(1), c)) return 1;
			vector<Tok> t;
			string e;
			sh_lex(replace_all(c, "\n", " "), t, e);
			for (auto &y : t) files.push_back(y.s);
		} else
			files.push_back(x);
	}
	string out = files[0];
	string absout = cwdpath(out);
	os.hist("cc-start", absout);
	std::map<string, string> mem;
	vector<string> order;
	string old;
	// archives are updated in place when they exist, as ar does
	if (slurp(out, old)) {
		if (!old.empty() && old.compare(0, 8, "!<arch>\n")) {
			put(2, "ar: " + out + ": file format not recognized\n");
			return 1;
		}
		auto ls = split(old, '\n');
		for (auto &l : ls)
			if (starts_with(l, "m ")) {
				auto p = split(l, ' ');
				if (p.size() >= 3) mem[p[1]] = p[2];
			}
	}
	vector<string> dirs;
	for (size_t i = 1; i < files.size(); i++) {
		string c;
		if (!slurp(files[i], c)) {
			put(2, "ar: " + files[i] + ": No such file\n");
			return 1;
		}
		mem[files[i]] = hex64(hash_str(c));
		for (auto &l : split(c, '\n'))
			if (starts_with(l, "@ ")) dirs.push_back(l);
	}
	int ms = job_ms(out);
	if (ms) k_sleep((i64)ms * 500000);
	string body = "!<arch>\n";
	for (auto &m : mem) body += "m " + m.first + " " + m.second + "\n";
	for (auto &d : dirs) body += d + "\n";
	if (!spew(out, body)) {
		put(2, "ar: cannot write " + out + "\n");
		return 1;
	}
	os.hist("cc-end", absout, "ok");
	return 0;
}

// ---------------------------------------------------------------- scripted programs
static string unesc(const string &s)
{
	string r;
	for (size_t i = 0; i < s.size(); i++) {
		if (s[i] == '\\' && i + 1 < s.size()) {
			i++;
			r += s[i] == 'n' ? '\n' : s[i] == 't' ? '\t' : s[i] == '0' ? '\0' : s[i];
		} else
			r += s[i];
	}
	return r;
}
static int run_script(const vector<string> &lines, const vector<string> &args, const string &self)
{
	size_t chunk = 0;
	auto sub = [&](string s) {
		static const std::set<string> files = { "in", "cat", "gen", "dep", "same", "failunless", "dieunless", "write", "touch" };
		bool f = files.count(s.substr(0, s.find(' ')));
		for (int i = 9; i >= 0; i--) {
			string v = i < (int)args.size() ? args[(size_t)i] : "";
			if (f) v = replace_all(v, " ", string(1, BLANK));
			s = replace_all(s, strf("$%d", i), v);
		}
		return s;
	};
	u64 acc = hash_str(self);
	for (auto &raw : lines) {
		if (raw.empty() || raw[0] == '#') continue;
		string l = sub(raw);
		size_t sp = l.find(' ');
		string op = l.substr(0, sp), a = sp == string::npos ? "" : l.substr(sp + 1);
		if (op == "out")
			put(1, unesc(a), chunk);
		else if (op == "err")
			put(2, unesc(a), chunk);
		else if (op == "outn" || op == "errn") {
			auto p = split(a, ' ');
			put(op == "outn" ? 1 : 2, pattern(p.size() > 1 ? p[1] : "x", atoi(p[0].c_str()), op == "outn" ? 'o' : 'e'), chunk);
		} else if (op == "both") {
			// alternate between the streams
			auto p = split(a, ' ');
			int n = atoi(p[0].c_str());
			string o = pattern(p.size() > 1 ? p[1] : "x", n, 'o'), e = pattern(p.size() > 1 ? p[1] : "x", n, 'e');
			size_t k = chunk ? chunk : 100;
			for (size_t i = 0; i < o.size(); i += k) {
				put(1, o.substr(i, k));
				put(2, e.substr(i, k));
			}
		} else if (op == "chunk")
			chunk = (size_t)atoi(a.c_str());
		else if (op == "close")
			k_close(atoi(a.c_str()));
		else if (op == "sleep")
			k_sleep((i64)atoll(a.c_str()) * 1000000);
		else if (op == "sleepns")
			k_sleep((i64)atoll(a.c_str()));
		else if (op == "exit") {
			os.hist("prog-exit", self, a);
			return atoi(a.c_str());
		} else if (op == "signal") {
			os.hist("prog-exit", self, "signal " + a);
			k_kill(os.cur->pid, atoi(a.c_str()));
		} else if (op == "ignterm")
			os.cur->ign_term = true;
		else if (op == "forever") {
			for (;;) k_sleep(3600ll * 1000000000);
		} else if (op == "flood") {
			for (;;) {
				put(1, pattern("flood", 4096, 'o'));
				k_sleep(40000000);
			}
		} else if (op == "closeout")
			k_close(1);
		else if (op == "closeerr")
			k_close(2);
		else if (op == "echo") {
			string s;
			for (size_t i = 1; i < args.size(); i++) s += (i > 1 ? " " : "") + args[i];
			put(1, s + "\n");
		} else if (op == "args" || op == "args1") { // args1: without the name of the program
			for (size_t i = op == "args" ? 0 : 1; i < args.size(); i++) put(1, "[" + args[i] + "]\n");
		} else if (op == "env") {
			auto it = os.cur->env.find(a);
			put(1, a + "=" + (it == os.cur->env.end() ? "(unset)" : it->second) + "\n");
		} else if (op == "pwd")
			put(1, k_getcwd() + "\n");
		else if (op == "stdin" || op == "stdinn") {
			// copy stdin to stdout; stdinn N: only read N bytes
			i64 lim = op == "stdinn" ? atoll(a.c_str()) : -1;
			string all;
			char b[4096];
			while (lim < 0 || (i64)all.size() < lim) {
				i64 r = k_read(0, b, lim < 0 ? sizeof b : (size_t)std::min<i64>((i64)sizeof b, lim - (i64)all.size()));
				if (r <= 0) break;
				all.append(b, (size_t)r);
			}
			put(1, all, chunk);
		} else if (op == "stdinhash") {
			string all;
			char b[4096];
			for (;;) {
				i64 r = k_read(0, b, sizeof b);
				if (r <= 0) break;
				all.append(b, (size_t)r);
			}
			put(1, strf("stdin %zu %s\n", all.size(), hex64(hash_str(all)).c_str()));
		} else if (op == "event")
			os.hist("prog-event", self, a);
		else if (op == "start") {
			// with the working directory, the arguments and what the test set in the environment
			string d = k_getcwd() + "|";
			for (size_t i = 1; i < args.size(); i++) d += (i > 1 ? "," : "") + args[i];
			d += "|";
			for (auto &kv : os.cur->env)
				if (starts_with(kv.first, "T_")) d += kv.first + "=" + kv.second + ";";
			os.hist("prog-start", a, d);
		} else if (op == "execargs") {
			// continue as the program in the arguments from the given one on
			size_t i = (size_t)atoi(a.c_str());
			if (i >= args.size()) return 2;
			int e = k_execve(args[i], vector<string>(args.begin() + (long)i, args.end()), os.cur->env);
			put(2, strf("wrapper: cannot execute (%d)\n", e));
			return 1;
		}
		else if (op == "end")
			os.hist("prog-end", a);
		else if (op == "in") {
			for (auto &f : split(a, ' ')) {
				string c;
				if (!slurp(f, c)) {
					put(2, "prog: cannot read " + unblank(f) + "\n");
					return 1;
				}
				acc = hash_str(c, acc);
			}
		} else if (op == "cat") {
			string c;
			if (!slurp(a, c)) {
				put(2, "prog: cannot read " + a + "\n");
				return 1;
			}
			put(1, c, chunk);
		} else if (op == "outhash")
			put(1, "acc " + hex64(acc) + " " + a + "\n");
		else if (op == "touch" || op == "write") {
			size_t q = a.find(' ');
			string f = a.substr(0, q), txt = q == string::npos ? "" : unesc(a.substr(q + 1));
			if (!spew(f, txt)) return 1;
		} else if (op == "gen") {
			// gen OUT IN...: content is a function of the script and the inputs
			auto p = split(a, ' ');
			u64 h = acc;
			for (size_t i = 1; i < p.size(); i++) {
				string c;
				if (!slurp(p[i], c)) {
					put(2, "prog: cannot read " + p[i] + "\n");
					return 1;
				}
				h = hash_str(c, h);
			}
			os.hist("gen-start", cwdpath(p[0]));
			int ms = job_ms(p[0]);
			if (ms) k_sleep((i64)ms * 1000000);
			bool src = ends_with(p[0], ".c") || ends_with(p[0], ".h");
			if (!spew(p[0], string(src ? "// " : "") + "gen " + hex64(h) + "\n")) {
				put(2, "prog: cannot write " + p[0] + "\n");
				return 1;
			}
			os.hist("gen-end", cwdpath(p[0]), "ok");
		} else if (op == "dep") {
			// dep DEPFILE TARGET IN...
			auto p = split(a, ' ');
			string d = mkescape(p[1]) + ":";
			for (size_t i = 2; i < p.size(); i++) d += " " + mkescape(p[i]);
			if (!spew(p[0], d + "\n")) return 1;
		} else if (op == "mkdir")
			k_mkdir(a.c_str(), 0777);
		else if (op == "mkdirenv") {
			auto it = os.cur->env.find(a);
			if (it == os.cur->env.end()) return 2;
			string d;
			for (auto &c : split(it->second, '/'))
				if (!c.empty()) k_mkdir((d += "/" + c).c_str(), 0777);
		} else if (op == "writeenv") {
			// writeenv VAR/name text
			size_t q = a.find(' '), sl = a.find('/');
			auto it = os.cur->env.find(a.substr(0, sl));
			if (it == os.cur->env.end()) return 2;
			string txt = a.substr(q + 1);
			for (size_t k; (k = txt.find('%')) != string::npos;) { // %VAR%
				size_t k2 = txt.find('%', k + 1);
				if (k2 == string::npos) break;
				if (txt.substr(k + 1, k2 - k - 1) == "ARGS") {
					string al;
					for (size_t i = 1; i < args.size(); i++) al += "[" + args[i] + "]";
					txt = txt.substr(0, k) + al + txt.substr(k2 + 1);
					continue;
				}
				auto v = os.cur->env.find(txt.substr(k + 1, k2 - k - 1));
				txt = txt.substr(0, k) + (v == os.cur->env.end() ? "(unset)" : v->second) + txt.substr(k2 + 1);
			}
			if (!spew(it->second + a.substr(sl, q - sl), txt + "\n")) {
				put(2, "prog: cannot write\n");
				return 1;
			}
		} else if (op == "bg") {
			// a child that outlives the program and keeps its streams open
			k_spawn("/usr/bin/sleep", { "sleep", a });
		} else if (op == "same") {
			auto p = split(a, ' ');
			string c, d;
			if (p.size() < 2 || !slurp(p[0], c) || !slurp(p[1], d) || c != d) {
				put(2, "prog: files differ: " + a + "\n");
				return 121;
			}
		} else if (op == "acc")
			acc = hash_str(a, acc);
		else if (op == "histenv") {
			auto it = os.cur->env.find(a);
			os.hist("env", a, it == os.cur->env.end() ? "(unset)" : it->second);
		} else if (op == "exitifenv") {
			if (os.cur->env.count(a)) return 0;
		} else if (op == "accenv") {
			auto it = os.cur->env.find(a);
			acc = hash_str(it == os.cur->env.end() ? string("(unset)") : "=" + it->second, acc);
		} else if (op == "stdinacc") {
			string all;
			char b[4096];
			for (;;) {
				i64 r = k_read(0, b, sizeof b);
				if (r <= 0) break;
				all.append(b, (size_t)r);
			}
			acc = hash_str(all, acc);
		} else if (op == "failunless" || op == "dieunless") {
			// failunless FILE TEXT; dieunless SIGNAL FILE TEXT
			int sig = 0;
			if (op == "dieunless") {
				sig = atoi(a.c_str());
				a = a.substr(a.find(' ') + 1);
			}
			size_t q = a.find(' ');
			string c;
			if (!slurp(a.substr(0, q), c) || c.find(q == string::npos ? "" : a.substr(q + 1)) == string::npos) {
				put(2, "prog: told to fail\n");
				if (sig) k_kill(os.cur->pid, sig);
				return 3;
			}
		} else if (op == "failif") {
			// fail if FILE exists
			struct stat st;
			if (k_stat(a.c_str(), &st, true) == 0) {
				put(2, "prog: told to fail\n");
				return 3;
			}
		} else {
			put(2, "prog: unknown op " + op + "\n");
			return 120;
		}
	}
	return 0;
}
static int prog_script(const vector<string> &argv)
{
	// argv: interp script args...
	if (argv.size() < 2) return 0;
	string c;
	if (!slurp(argv[1], c)) return 126;
	vector<string> args(argv.begin() + 1, argv.end());
	auto lines = split(c, '\n');
	return run_script(lines, args, argv[1] == "" ? "" : c);
}
static int prog_exe(const vector<string> &argv)
{
	string c;
	if (!slurp(os.cur->exe, c)) return 126;
	auto lines = split(c, '\n');
	if (lines.size() >= 2) lines.erase(lines.begin(), lines.begin() + 2);
	os.hist("exe-run", os.cur->exe);
	return run_script(lines, argv, os.cur->exe);
}

// ---------------------------------------------------------------- graph jobs
// job ID [v=N] [imp=x,y] [dep=FILE] [proj=1] [restat=1] [rsp=FILE] -o OUT... -i IN...
// The content of every output is a hash of id, version and everything read.
static void job_read(const string &path, bool proj, bool inc, u64 &h, vector<string> &hdrs, string &missing, std::set<string> &seen,
	const std::function<bool(const string &, string &)> &rd)
{
	string c;
	if (!seen.insert(path).second) return;
	if (!rd(path, c)) {
		missing = path;
		return;
	}
	string use = c;
	if (proj) use = c.substr(0, c.find('\n'));
	h = hash_str(use, h);
	if (inc)
		for (auto &l : split(c, '\n'))
			if (starts_with(l, "#include ")) {
				string f = l.substr(9);
				if (!seen.count(f)) hdrs.push_back(f);
				job_read(f, proj, inc, h, hdrs, missing, seen, rd);
			}
}
u64 job_hash(const string &id, const string &v, const vector<string> &ins, const string *rsp, bool proj, bool inc, vector<string> &hdrs,
	string &missing, const std::function<bool(const string &, string &)> &rd)
{
	u64 h = hash_str(id + "/" + v);
	std::set<string> seen;
	for (auto &f : ins) job_read(f, proj, inc, h, hdrs, missing, seen, rd);
	if (rsp) h = hash_str(*rsp, h);
	return h;
}
string job_body(const string &id, const string &out, u64 h) { return strf("%s %s\n", id.c_str(), hex64(hash_str(out, h)).c_str()); }
// the second half of a job's output
static void job_tail(const string &id, const JobSpec &sp)
{
	string o = pattern(id, sp.outn, 'o'), e = pattern(id, sp.errn, 'e');
	size_t ch = (size_t)sp.chunk;
	if (sp.ec == 2) {
		put(2, e.substr(e.size() / 2), ch);
		k_close(2);
		k_sleep((i64)(1 + sp.ms) * 300000);
		put(1, o.substr(o.size() / 2), ch);
		return;
	}
	put(1, o.substr(o.size() / 2), ch);
	if (sp.ec) {
		k_close(1);
		k_sleep((i64)(1 + sp.ms) * 300000);
	}
	put(2, e.substr(e.size() / 2), ch);
}
static int prog_job(const vector<string> &argv)
{
	string id = argv.size() > 1 ? argv[1] : "?";
	if (id == "@tail") {
		if (argv.size() > 2 && os.jobs.count(argv[2])) {
			k_sleep((i64)(1 + os.jobs[argv[2]].ms) * 200000);
			job_tail(argv[2], os.jobs[argv[2]]);
		}
		return 0;
	}
	std::map<string, string> kv;
	vector<string> outs, ins;
	int mode = 0;
	for (size_t i = 2; i < argv.size(); i++) {
		if (argv[i] == "-o") mode = 1;
		else if (argv[i] == "-i") mode = 2;
		else if (mode == 1) outs.push_back(argv[i]);
		else if (mode == 2) ins.push_back(argv[i]);
		else {
			size_t e = argv[i].find('=');
			if (e != string::npos) kv[argv[i].substr(0, e)] = argv[i].substr(e + 1);
		}
	}
	for (auto &f : split(kv["imp"], ',')) ins.push_back(f);
	JobSpec sp;
	auto it = os.jobs.find(id);
	if (it != os.jobs.end()) sp = it->second;
	os.hist("job-start", id, kv["v"]);
	vector<string> hdrs;
	bool proj = !kv["proj"].empty(), inc = !kv["dep"].empty();
	string missing, rspc;
	if (!kv["rsp"].empty() && !slurp(kv["rsp"], rspc)) missing = kv["rsp"];
	u64 h = job_hash(id, kv["v"], ins, kv["rsp"].empty() ? nullptr : &rspc, proj, inc, hdrs, missing, slurp), hfull = h;
	// p2: only the first output is a projection of the inputs, the others show all of them
	if (!kv["p2"].empty()) {
		vector<string> hd2;
		hfull = job_hash(id, kv["v"], ins, kv["rsp"].empty() ? nullptr : &rspc, false, inc, hd2, missing, slurp);
	}
	if (!missing.empty()) {
		put(2, "job: cannot read " + missing + "\n");
		os.hist("job-end", id, "missing-input " + missing);
		return 1;
	}
	string o = pattern(id, sp.outn, 'o'), e = pattern(id, sp.errn, 'e');
	size_t ch = (size_t)sp.chunk;
	put(1, o.substr(0, o.size() / 2), ch);
	put(2, e.substr(0, e.size() / 2), ch);
	if (sp.ms) k_sleep((i64)sp.ms * 500000);
	bool bad = sp.exit || sp.sig;
	sp.partial = sp.partial && bad;
	// compilers write the dependencies before or after the output
	auto write_dep = [&]() {
		if (kv["dep"].empty()) return true;
		string d = mkescape(outs.empty() ? "x" : outs[0]) + ":";
		// the same files by other names, as compilers print what they found through -I and #include "../x"
		int spell = atoi(kv["spell"].c_str());
		for (auto &x : hdrs) d += " \\\n " + mkescape(x[0] == '/' ? x : spell == 1 ? "./" + x : spell == 2 ? "up/../" + x : spell == 3 ? ".//up/./../" + x : x);
		// depa: in one step, for a depfile samu keeps reading (a torn one stops every later build, by design)
		bool atom = !kv["depa"].empty();
		if (!spew(atom ? kv["dep"] + ".tmp" : kv["dep"], d + "\n") || (atom && k_rename((kv["dep"] + ".tmp").c_str(), kv["dep"].c_str()) != 0)) {
			os.hist("job-end", id, "fail");
			return false;
		}
		return true;
	};
	bool dfirst = hash_str(id) & 1;
	if (!bad || sp.fail_late || sp.partial) {
		if (dfirst && !write_dep()) return 1;
		for (auto &f : outs) {
			string body = job_body(id, f, f == outs[0] ? h : hfull);
			if (sp.partial) body = body.substr(0, body.size() / 2);
			if (!kv["restat"].empty()) {
				string oldc;
				if (slurp(f, oldc) && oldc == body) {
					os.probes["restat-kept"]++;
					continue;
				}
			}
			os.hist("job-write", id, f);
			if (!spew(f, body)) {
				put(2, "job: cannot write " + f + "\n");
				os.hist("job-end", id, "fail");
				return 1;
			}
		}
		if (!dfirst && !write_dep()) return 1;
	}
	if (sp.ms) k_sleep((i64)sp.ms * 500000);
	if (sp.bg) {
		k_spawn("/sim/job", { "job", "@tail", id });
		os.probes["background-writers"]++;
	} else job_tail(id, sp);
	if (sp.sig) {
		os.hist("job-end", id, strf("signal %d", sp.sig));
		k_kill(os.cur->pid, sp.sig);
	}
	os.hist("job-end", id, sp.exit ? strf("exit %d", sp.exit) : "ok");
	return sp.exit;
}

// ---------------------------------------------------------------- small utilities
static int prog_true(const vector<string> &) { return 0; }
static int prog_false(const vector<string> &) { return 1; }
static int prog_echo(const vector<string> &argv)
{
	string s;
	for (size_t i = 1; i < argv.size(); i++) s += (i > 1 ? " " : "") + argv[i];
	put(1, s + "\n");
	return 0;
}
static int prog_cat(const vector<string> &argv)
{
	if (argv.size() == 1) {
		char b[4096];
		for (;;) {
			i64 r = k_read(0, b, sizeof b);
			if (r <= 0) break;
			put(1, string(b, (size_t)r));
		}
	}
	for (size_t i = 1; i < argv.size(); i++) {
		string c;
		if (!slurp(argv[i], c)) {
			put(2, "cat: " + argv[i] + ": No such file\n");
			return 1;
		}
		put(1, c);
	}
	return 0;
}
static int prog_cp(const vector<string> &argv)
{
	if (argv.size() < 3) return 1;
	string c;
	if (!slurp(argv[1], c) || !spew(argv[2], c)) {
		put(2, "cp: failed\n");
		return 1;
	}
	return 0;
}
static int prog_touch(const vector<string> &argv)
{
	for (size_t i = 1; i < argv.size(); i++) {
		int fd = k_open(argv[i].c_str(), O_WRONLY | O_CREAT, 0666);
		if (fd < 0) return 1;
		k_close(fd);
		k_utimens(argv[i].c_str(), -1);
	}
	return 0;
}
static int prog_rm(const vector<string> &argv)
{
	for (size_t i = 1; i < argv.size(); i++)
		if (argv[i][0] != '-') k_unlink(argv[i].c_str(), false, true);
	return 0;
}
static int prog_mkdir(const vector<string> &argv)
{
	for (size_t i = 1; i < argv.size(); i++)
		if (argv[i][0] != '-') k_mkdir(argv[i].c_str(), 0777);
	return 0;
}
static int prog_sleep(const vector<string> &argv)
{
	if (argv.size() > 1) k_sleep((i64)(atof(argv[1].c_str()) * 1e9));
	return 0;
}
static int prog_ld(const vector<string> &)
{
	put(1, "GNU ld (SIM Binutils) 2.40\nCopyright (C) 2023 Free Software Foundation, Inc.\n");
	return 0;
}
static int prog_git(const vector<string> &argv)
{
	// enough for wraps and vcs tags: reads canned answers from /etc/simgit/<subcommand>
	string sub;
	vector<string> args;
	for (size_t i = 1; i < argv.size(); i++) {
		if (argv[i] == "--version") {
			put(1, "git version 2.40\n");
			return 0;
		}
		if (sub.empty() && (argv[i] == "-c" || argv[i] == "--work-tree")) i++;
		else if (argv[i][0] == '-') continue;
		else if (sub.empty()) sub = argv[i];
		else args.push_back(argv[i]);
	}
	string all;
	for (auto &a : argv) all += a + " ";
	os.hist("git", all);
	auto checkout = [&](const string &url, const string &rev, const string &dir, double part) {
		auto &revs = os.git[url];
		if (!revs.count(rev)) {
			put(2, "fatal: no such revision " + rev + "\n");
			return 128;
		}
		size_t n = 0, stop = (size_t)((double)revs[rev].size() * part);
		for (auto &kv : revs[rev]) {
			if (part < 1 && n++ >= stop) {
				put(2, "fatal: the remote end hung up unexpectedly\n");
				return 128;
			}
			string p = dir + "/" + kv.first;
			for (size_t i = dir.size() + 1; i < p.size(); i++)
				if (p[i] == '/') k_mkdir(p.substr(0, i).c_str(), 0777);
			if (!spew(p, kv.second)) {
				put(2, "fatal: cannot write " + p + "\n");
				return 128;
			}
		}
		if (!spew(dir + "/.git/HEAD", rev)) return 128;
		return 0;
	};
	if (sub == "clone" && args.size() >= 2) {
		string dir = args[1];
		vector<string> l;
		vector<int> ty;
		if (listdir(dir, l, ty) && !l.empty()) {
			put(2, "fatal: destination path '" + dir + "' already exists and is not an empty directory.\n");
			return 128;
		}
		int e = k_enter(SY_NET, false, args[0].c_str());
		os.hist("net-get", args[0]);
		double part = 1;
		NetFile &f = os.net[args[0]];
		if (f.mode) {
			os.fault_count[strf("git-mode%d", f.mode)]++;
			part = f.part;
			if (f.mode == 1) e = EIO;
		}
		if (e || !os.git.count(args[0])) {
			put(2, "fatal: unable to access " + args[0] + "\n");
			return 128;
		}
		k_mkdir(dir.c_str(), 0777);
		if (k_mkdir((dir + "/.git").c_str(), 0777) || !spew(dir + "/.git/url", args[0])) return 128;
		return checkout(args[0], "HEAD", dir, part);
	}
	if (sub == "checkout" && args.size() >= 1) {
		string url;
		string dir = k_getcwd();
		if (!slurp(dir + "/.git/url", url)) {
			put(2, "fatal: not a git repository\n");
			return 128;
		}
		string cur;
		slurp(dir + "/.git/HEAD", cur);
		for (auto &kv : os.git[url][cur])
			if (!os.git[url][args[0]].count(kv.first)) k_unlink((dir + "/" + kv.first).c_str(), false, true);
		return checkout(url, args[0], dir, 1);
	}
	string c;
	if (slurp("/etc/simgit/" + sub, c)) {
		put(1, c);
		return 0;
	}
	put(2, "git: " + sub + " failed\n");
	return 128;
}
static int prog_patch(const vector<string> &argv)
{
	// patch: sim format "FILE\nSIZE\nTEXT": appends TEXT to FILE, which has SIZE bytes (-1: does not exist)
	for (size_t i = 1; i < argv.size(); i++)
		if (argv[i] == "--version") {
			put(1, "GNU patch 2.7\n");
			return 0;
		}
	string c;
	char b[4096];
	for (;;) {
		i64 r = k_read(0, b, sizeof b);
		if (r < 0) return 2;
		if (r == 0) break;
		c.append(b, (size_t)r);
	}
	size_t n = c.find('\n'), m = n == string::npos ? n : c.find('\n', n + 1);
	if (m == string::npos) {
		put(2, "patch: Only garbage was found in the patch input.\n");
		return 2;
	}
	string f = c.substr(0, n), old;
	long size = atol(c.substr(n + 1, m - n - 1).c_str());
	bool have = slurp(f, old);
	if (size < 0 ? have : !have || (long)old.size() != size) {
		put(2, "patch: Hunk #1 FAILED in " + f + "\n");
		return 1;
	}
	string tmp = f + ".patch-tmp";
	if (!spew(tmp, old + c.substr(m + 1)) || k_rename(tmp.c_str(), f.c_str()) < 0) {
		k_unlink(tmp.c_str(), false, true);
		put(2, "patch: cannot write " + f + "\n");
		return 2;
	}
	return 0;
}
void register_programs()
{
	auto &n = os.natives;
	n["sh"] = prog_sh;
	n["cc"] = prog_cc;
	n["ar"] = prog_ar;
	n["prog"] = prog_script;
	n["exe"] = prog_exe;
	n["job"] = prog_job;
	n["true"] = prog_true;
	n["false"] = prog_false;
	n["echo"] = prog_echo;
	n["cat"] = prog_cat;
	n["cp"] = prog_cp;
	n["touch"] = prog_touch;
	n["rm"] = prog_rm;
	n["mkdir"] = prog_mkdir;
	n["sleep"] = prog_sleep;
	n["git"] = prog_git;
	n["patch"] = prog_patch;
	n["ld"] = prog_ld;
}
} // namespace sim
