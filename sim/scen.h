#pragma once
#include "os.h"
#include <set>
namespace sim {
struct Violation { string prop, cls, msg; };
struct Plan {
	string scen;
	std::map<string, string> hdr;
	vector<string> lines;
	string text() const;
	static bool parse(const string &t, Plan &p);
	string h(const string &k, const string &d = "") const { auto i = hdr.find(k); return i == hdr.end() ? d : i->second; }
	long n(const string &k, long d = 0) const { auto i = hdr.find(k); return i == hdr.end() ? d : atol(i->second.c_str()); }
};
struct OpStat { int line; u64 muts; int sysr[SY_COUNT]; int sysn[SY_COUNT]; };
struct Outcome {
	vector<Violation> v;
	vector<OpStat> ops;
	u64 evhash = 0, schedhash = 0;
	int commands = 0; // simulated top-level commands run
	u64 steps = 0;
	int choices = 0;
	i64 simtime = 0;
	std::map<string, u64> faults, probes;
	bool nontrivial = false;
	string note; // harness problem (not a violation)
};
// tokens of one plan line: "op build -j3 kill=4" -> words and key=value pairs
struct Line {
	vector<string> w;
	std::map<string, string> kv;
	explicit Line(const string &s);
	string get(const string &k, const string &d = "") const { auto i = kv.find(k); return i == kv.end() ? d : i->second; }
	long num(const string &k, long d = 0) const { auto i = kv.find(k); return i == kv.end() ? d : atol(i->second.c_str()); }
	bool has(const string &k) const { return kv.count(k) > 0; }
};
struct Exec {
	const Plan &plan;
	Outcome out;
	string prop;
	bool known_only = false;
	explicit Exec(const Plan &p) : plan(p), prop(p.h("prop")) {}
	void bad(const string &prop, const string &cls, const string &msg) { out.v.push_back({ prop, cls, msg }); }
	void begin(); // resets the simulator, applies knobs
	RunResult run(int line, const Line &l, const vector<string> &argv, const string &cwd, const std::map<string, string> &env);
	void base_fs();
	// generic: crash / hang / deadlock of muon
	bool abnormal(const string &prop, const RunResult &r, const string &what);
	std::map<string, string> env();
};
struct Scenario {
	virtual ~Scenario() {}
	virtual Plan generate(u64 seed, const string &prop) = 0;
	virtual void run(Exec &x) = 0;
};
Scenario *scen_graph();
Scenario *scen_tests();
Scenario *scen_proj();
Scenario *scen_fmt();
Scenario *scen_wrap();
Scenario *scenario(const string &name);
string scen_for(const string &prop, u64 seed);
Outcome execute(const Plan &p);
void parse_faults(const Line &l, FaultPlan &fp);
// fault or kill tokens placed inside what the operation did when undisturbed
string fault_tokens(Rng &r, const OpStat &st, bool kill, const string &kinds);
string first_lines(const string &s, size_t n = 400);
string diff_files(const Vfs &a, const string &pa, const Vfs &b, const string &pb, const std::function<bool(const string &)> &skip = nullptr);
string pattern(const string &id, int n, char tag);
} // namespace sim
