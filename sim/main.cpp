// Generates, runs, replays and minimises simulated executions.
#include "harness.hpp"
#include <algorithm>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
using namespace model;
using sim::Rng; using sim::mix;
using std::string; using std::to_string; using std::vector;

// --------------------------------------------------------------- trace text
static string join(const vector<int>& v) { string r; for (size_t i = 0; i < v.size(); i++) r += (i ? "," : "") + to_string(v[i]); return r; }
static string text(const Trace& t) {
	std::ostringstream o;
	o << "dccrg-sim-trace 1\nprop " << t.prop << "\nseed " << t.seed << "\n";
	const sim::Policy& p = t.policy;
	o << "policy seed=" << p.seed << " choice_limit=" << p.choice_limit << " yield=" << p.yield_pm << " net=" << p.net_pm << " stick=" << p.stick_pm
		<< " order=" << p.net_order << " eager=" << p.eager_pm << " stall_rank=" << p.stall_rank << " stall=" << p.stall_pm
		<< " hold=" << p.hold_pm << " hold_steps=" << p.hold_steps << " early=" << p.early_pm << " scribble=" << p.scribble
		<< " late_write=" << p.late_write_pm << " tag_ub=" << p.tag_ub << " far=" << p.far_pm << "\n";
	for (const auto& s: t.segs) {
		const Config& c = s.cfg;
		o << "segment world=" << s.world << " members=" << join(s.members) << " direct=" << s.direct << " from=" << s.from << " load_mode=" << s.load_mode
			<< " damage=" << s.damage << " damage_arg=" << s.damage_arg << " order=" << s.order << " crash=" << s.crash_at
			<< " variant=" << c.variant << " dims=" << c.dims[0] << "," << c.dims[1] << "," << c.dims[2]
			<< " per=" << c.per[0] << "," << c.per[1] << "," << c.per[2] << " max_lvl=" << c.max_lvl << " hood=" << c.hood
			<< " single=" << c.single << " method=" << c.method << "\n";
		for (const auto& f: s.faults) o << "fault " << f.rank << " " << f.nth << " " << f.kind << "\n";
		for (const auto& st: s.steps) {
			o << "op " << op_names[st.op.kind] << " " << st.op.seed << " " << st.op.grid;
			for (const long a: st.op.a) o << " " << a;
			o << "\n";
			for (const auto& f: st.faults) o << "fault " << f.rank << " " << f.nth << " " << f.kind << "\n";
		}
	}
	o << "end\n";
	return o.str();
}
static std::map<string, string> pairs(std::istringstream& in) {
	std::map<string, string> r;
	string w;
	while (in >> w) { const auto e = w.find('='); if (e != string::npos) r[w.substr(0, e)] = w.substr(e + 1); }
	return r;
}
static vector<int> ints(const string& s) { vector<int> r; std::istringstream in(s); string w; while (std::getline(in, w, ',')) r.push_back(atoi(w.c_str())); return r; }
static bool parse(std::istream& in, Trace& t) {
	string line;
	if (!std::getline(in, line) || line != "dccrg-sim-trace 1") return false;
	while (std::getline(in, line)) {
		std::istringstream l(line);
		string w;
		l >> w;
		if (w == "prop") l >> t.prop;
		else if (w == "seed") l >> t.seed;
		else if (w == "policy") {
			auto m = pairs(l);
			auto& p = t.policy;
			p.seed = strtoull(m["seed"].c_str(), nullptr, 10); p.choice_limit = strtoull(m["choice_limit"].c_str(), nullptr, 10);
			p.yield_pm = stoi(m["yield"]); p.net_pm = stoi(m["net"]); p.stick_pm = stoi(m["stick"]); p.net_order = stoi(m["order"]);
			p.eager_pm = stoi(m["eager"]); p.stall_rank = stoi(m["stall_rank"]); p.stall_pm = stoi(m["stall"]); p.hold_pm = stoi(m["hold"]);
			p.hold_steps = stoi(m["hold_steps"]); p.early_pm = stoi(m["early"]); p.scribble = stoi(m["scribble"]);
			p.late_write_pm = stoi(m["late_write"]); p.tag_ub = stoi(m["tag_ub"]);
			p.far_pm = m.count("far") ? stoi(m["far"]) : 0;
		} else if (w == "segment") {
			auto m = pairs(l);
			Segment s;
			s.world = stoi(m["world"]); s.members = ints(m["members"]); s.direct = stoi(m["direct"]) != 0; s.from = stoi(m["from"]);
			s.load_mode = stoi(m["load_mode"]); s.damage = stoi(m["damage"]); s.damage_arg = stol(m["damage_arg"]); s.order = stoi(m["order"]);
			s.crash_at = stol(m["crash"]);
			Config& c = s.cfg;
			c.variant = stoi(m["variant"]); c.max_lvl = stoi(m["max_lvl"]); c.hood = stoi(m["hood"]); c.single = stoi(m["single"]); c.method = m["method"];
			auto d = ints(m["dims"]), p = ints(m["per"]);
			for (size_t i = 0; i < 3; i++) { c.dims[i] = d.at(i); c.per[i] = p.at(i); }
			t.segs.push_back(s);
		} else if (w == "fault") {
			Fault f;
			l >> f.rank >> f.nth >> f.kind;
			if (t.segs.empty()) return false;
			auto& s = t.segs.back();
			(s.steps.empty() ? s.faults : s.steps.back().faults).push_back(f);
		} else if (w == "op") {
			if (t.segs.empty()) return false;
			Step s;
			string name;
			l >> name >> s.op.seed >> s.op.grid;
			for (auto& a: s.op.a) l >> a;
			for (int k = 0; k < k_count; k++) if (name == op_names[k]) s.op.kind = k;
			t.segs.back().steps.push_back(s);
		} else if (w == "end") return true;
	}
	return false;
}

// ---------------------------------------------------------------- generator
enum Macro { m_refine, m_balance, m_update, m_split, m_hood, m_save, m_query, m_helpers, m_options, m_copy, m_clear, m_bad, m_pin, m_weight, m_count };
struct Profile {
	int w[m_count];
	int v[4];           // variant weights
	int segs;           // extra segments permille
	int faults;         // permille of saves/loads with faults
	int user;           // permille of updates in user neighborhoods
	int copies;         // permille of operations on copied grid
	int lb_fail;        // permille of last balances which fail
};
static const Profile& profile(int prop) {
	//                              ref bal upd spl hoo sav que hel opt cop clr bad pin wgt
	static const Profile def =   {{ 30, 20, 30, 10,  8,  2,  3,  1,  1,  1,  1,  1,  4,  2}, {4, 3, 2, 1}, 60, 0, 200, 300};
	static std::map<int, Profile> p;
	if (p.empty()) {
		p[P01] = {{ 25, 20, 50,  5,  5,  0,  1,  0,  0,  0,  1,  0,  4,  0}, {4, 3, 2, 1}, 0, 0, 100, 0};
		p[P02] = {{ 40, 30,  5,  0,  2,  3,  8,  0,  0,  0,  1,  0,  6,  0}, {4, 2, 2, 1}, 300, 0, 100, 0};
		p[P03] = {{ 25, 55, 10,  0,  2,  0,  0,  0,  1,  0,  0,  0, 10,  2}, {4, 4, 2, 1}, 30, 0, 100, 0, 80};
		p[P04] = {{ 25, 40,  3,  0,  0,  0,  0,  0,  0,  1,  0,  0, 40,  0}, {4, 2, 2, 1}, 0, 0, 0, 200};
		p[P05] = {{ 70, 25,  2,  0,  3,  0,  0,  0,  0,  0,  1,  0,  3,  0}, {4, 2, 2, 1}, 50, 0, 0, 0};
		p[P06] = {{ 60, 25, 10,  3,  1,  0,  0,  0,  0,  0,  8,  0,  2,  1}, {4, 4, 2, 1}, 0, 0, 0, 0};
		p[P07] = {{ 50, 30,  2,  0,  2,  3, 10,  0,  0,  0,  0,  0,  3,  0}, {4, 1, 2, 1}, 100, 0, 0, 0};
		p[P08] = {{ 40, 30,  4,  0, 12,  3, 16,  0,  0,  1,  1,  4,  3,  0}, {3, 1, 4, 1}, 100, 0, 200, 200};
		p[P09] = {{ 25, 20, 30, 10, 40,  2,  5,  0,  0,  0,  1,  6,  2,  0}, {4, 4, 2, 1}, 60, 0, 800, 0};
		p[P10] = {{ 30, 20, 12,  3,  4, 25,  3,  0,  0,  0,  1,  0,  2,  1}, {3, 4, 4, 2}, 1000, 0, 200, 0};
		p[P11] = {{ 30, 25,  5,  0,  3, 50,  0,  0,  0,  0,  1,  0,  2,  0}, {3, 4, 4, 2}, 150, 0, 100, 0};
		p[P12] = {{ 25, 20,  8,  0,  0, 45,  0,  0,  0,  0,  1,  0,  2,  0}, {3, 3, 3, 2}, 1000, 600, 100, 0};
		p[P13] = {{ 30, 25, 25, 15, 10,  8,  3,  5,  2,  2,  1,  3,  4,  1}, {3, 3, 3, 1}, 250, 0, 300, 300};
		p[P14] = {{ 25, 45,  3,  0,  2,  0,  0,  0, 25,  2,  0,  0,  8, 30}, {4, 3, 2, 1}, 40, 0, 0, 200};
		p[P15] = {{ 25, 20,  5, 50,  8,  0,  1,  0,  0,  0,  1,  0,  3,  0}, {4, 4, 2, 1}, 0, 0, 300, 0};
		p[P16] = {{ 30, 25, 20,  8,  6,  2,  4,  0,  4, 25,  2,  1,  8,  5}, {1, 0, 0, 0}, 40, 0, 200, 500};
		p[P17] = {{  4,  4,  4,  1,  0,  0,  0, 60,  0,  0,  0,  0,  0,  0}, {1, 1, 1, 1}, 0, 0, 0, 0};
		p[P23] = {{ 30, 30, 30, 15, 10, 12,  0,  8,  0,  2,  0,  0,  8,  0}, {4, 3, 3, 1}, 200, 0, 200, 200};
		p[P18] = {{ 30, 30, 30, 15,  8,  8,  1,  0,  0,  0,  1,  0,  3,  0}, {0, 1, 0, 0}, 250, 0, 300, 0};
	}
	const auto it = p.find(prop);
	return it == p.end() ? def : it->second;
}
static int prop_number(const string& s) { return s.size() == 3 && s[0] == 'P' ? atoi(s.c_str() + 1) : 0; }

static void gen_ops(Rng& r, const Profile& pr, Segment& s, int macros, bool save_at_end) {
	int total = 0;
	for (const int w: pr.w) total += w;
	bool copied = false;
	const bool no_lb = s.members.size() == 1 && r.pm(500);
	const int pin_pm = r.range(50, 600);
	auto add = [&](int kind, std::array<long, 6> a = {{0, 0, 0, 0, 0, 0}}) -> Step& {
		Step st;
		st.op.kind = kind;
		st.op.seed = r.next() >> 1;
		st.op.a = a;
		st.op.grid = copied && r.pm(pr.copies) && kind != k_copy && kind != k_helpers ? 1 : 0;
		s.steps.push_back(st);
		return s.steps.back();
	};
	const auto mutate = [&] { add(k_mutate, {{r.pm(500) ? 1000 : r.range(100, 900), 0, 0, 0, 0, 0}}); };
	const auto update = [&](bool split) {
		const long hood = r.pm(pr.user) ? r.range(1, 4) : 0;
		const long single = r.pm(120) ? r.range(1, 2) : 0;
		add(split ? k_split : k_update, {{hood, r.range(0, 9), single, r.pm(300) ? 0 : r.range(100, 1000), 0, 0}});
	};
	const auto both = [&] {
		const long hood = r.pm(pr.user) ? r.range(1, 4) : 0;
		if (r.pm(500)) add(k_mutate, {{r.range(100, 1000), 0, 0, 0, 0, 0}});
		const long what = no_lb ? r.range(0, 1) : r.range(0, 2);
		if (what == 1 && r.pm(700)) { add(k_request, {{r.range(20, 300), r.range(0, 800), 0, 0, 0, 200}}); }
		add(k_both, {{hood, 0, 0, r.pm(300) ? 0 : r.range(100, 1000), what, 0}});
	};
	const auto save = [&](bool plain) {
		long mode = 0;
		if (!plain && r.pm(350)) mode = long(r.below(16));
		long offset = r.pm(500) ? 0 : long(r.below(200));
		// data on both sides of positions that need more bits
		if (r.pm(80)) offset = (long(1) << r.range(31, 40)) - (r.pm(700) ? long(r.below(3000)) : 0);
		Step& st = add(k_save, {{offset, r.pm(200) ? 0 : r.pm(30) ? long(r.below(9000)) : long(r.below(70)), mode, 0, 0, 0}});
		if (!plain && r.pm(pr.faults)) {
			Fault f;
			f.rank = s.members[r.below(s.members.size())];
			if (r.pm(400)) f.rank = s.members[0];
			f.nth = f.rank == s.members[0] ? int(r.below(14)) : int(r.below(4));
			static const int kinds[] = {sim::io_error, sim::io_error_partial, sim::io_nospace, sim::io_open_fail};
			f.kind = kinds[r.below(4)];
			if (f.kind == sim::io_open_fail) f.nth = 0;
			st.faults.push_back(f);
		}
	};
	const int limit = s.cfg.max_lvl > 3 ? 90 : s.cfg.hood >= 2 ? 130 : 300;
	const auto refine = [&] {
		if (r.pm(80)) {
			// leaves no coarse cells behind in small grids
			for (int i = r.range(1, 3); i > 0; i--) { add(k_request, {{1000, 0, 0, 0, 0, limit}}); add(k_commit); }
			return;
		}
		if (s.cfg.max_lvl > 3 && r.pm(500)) {
			// as deep as possible
			const long corner = -1 - long(r.below(8));
			for (int i = r.range(4, 10); i > 0; i--) { add(k_request, {{corner, 0, 0, 0, 0, limit}}); add(k_commit); }
			return;
		}
		const int rounds = r.pm(250) ? 2 : 1;
		for (int i = 0; i < rounds; i++) {
			const int style = int(r.below(6));
			std::array<long, 6> a{{0, 0, 0, 0, r.pm(300) ? 60 : 0, limit}};
			switch (style) {
			case 0: a[0] = r.range(20, 300); break;
			case 1: a[0] = r.range(10, 100); a[1] = r.range(100, 900); break;
			case 2: a[1] = r.range(200, 1000); break;
			case 3: a[0] = r.range(20, 400); a[2] = r.range(10, 300); break;
			case 4: a[0] = r.range(10, 150); a[1] = r.range(100, 1000); a[3] = r.range(10, 200); break;
			default: a[0] = r.range(10, 300); a[1] = r.range(0, 800); a[2] = r.range(0, 200); a[3] = r.range(0, 200); break;
			}
			add(k_request, a);
		}
		if (r.pm(60)) update(false);
		if (r.pm(930)) add(k_commit);
	};
	if (r.pm(700)) mutate();
	// get to an interesting state first
	if (s.from < 0 && s.cfg.max_lvl > 3) {
		const long corner = -1 - long(r.below(8));
		for (int i = r.range(3, 14); i > 0; i--) { add(k_request, {{corner, 0, 0, 0, 0, limit}}); add(k_commit); }
		if (s.cfg.max_lvl < 9 && r.pm(700)) {
			if (!no_lb && r.pm(700)) add(k_balance, {{1, 0, r.range(0, 6), r.range(20, 1000), 0, 0}});
			for (int i = r.range(1, 2); i > 0; i--) { add(k_request, {{-9, 0, 0, 0, 0, limit}}); add(k_commit); }
		}
	} else if (s.from < 0 && r.pm(60)) {
		add(k_create, {{r.range(50, 700), 0, 0, 0, 0, limit}});
		if (r.pm(500)) mutate();
	} else if (s.from < 0 && r.pm(600)) {
		add(k_request, {{r.range(50, 500), 0, 0, 0, 0, limit}});
		add(k_commit);
		if (r.pm(500)) mutate();
	}
	for (int i = 0; i < macros; i++) {
		int x = int(r.below(uint64_t(total))), m = 0;
		while (x >= pr.w[m]) x -= pr.w[m++];
		if (copied && r.pm(150)) both();
		switch (m) {
		case m_refine: refine(); if (r.pm(400)) mutate(); break;
		case m_balance:
			if (no_lb) break;
			add(k_balance, {{r.pm(850), r.pm(500) ? 0 : r.range(1, 4), r.range(0, 6), r.pm(300) ? 1000 : r.range(20, 900), 0, 0}});
			if (r.pm(pr.lb_fail) && i + 1 == macros) s.steps.back().op.a[4] = r.pm(600) ? 1 : r.range(2, 9);
			if (r.pm(300)) mutate();
			break;
		case m_update:
			for (int n = r.pm(25) ? r.range(5, 40) : 1; n > 0; n--) { if (r.pm(800)) mutate(); update(false); }
			break;
		case m_split: if (r.pm(800)) mutate(); update(true); break;
		case m_hood:
			if (r.pm(750)) add(k_hood_add, {{r.range(-4, 8), r.pm(150) ? r.range(1, 4) : 0, 0, 0, 0, 0}});
			else add(k_hood_del, {{r.pm(100) ? long(def_hood) : r.range(-4, 8), 0, 0, 0, 0, 0}});
			if (r.pm(pr.user)) { mutate(); update(r.pm(200)); }
			break;
		case m_save: if (r.pm(300)) mutate(); save(false); break;
		case m_query: add(k_query); break;
		case m_helpers: add(k_helpers); break;
		case m_options: add(k_options, {{r.pm(500) ? 0 : 300, 0, 0, 0, 0, 0}}); break;
		case m_copy: if (s.cfg.variant == 1) { add(k_copy, {{r.pm(500), 0, 0, 0, 0, 0}}); copied = true; } break;
		case m_clear: add(k_clear); break;
		case m_bad: add(k_badargs); break;
		case m_pin: add(k_pin, {{r.pm(100) ? 1000 : pin_pm, r.pm(400) ? r.range(50, 500) : 0, r.pm(400) ? 100 : 0, r.pm(150) ? r.range(1, 2) : 0, 0, 0}}); break;
		case m_weight: add(k_weight, {{r.range(100, 1000), r.pm(300) ? 100 : 0, 0, 0, 0, 0}}); break;
		}
	}
	if (save_at_end) {
		const size_t n = s.steps.size();
		save(true);
		(void) n;
		s.steps.back().op.grid = 0;
	}
}
static void gen_ranks(Rng& r, Segment& s, int max_world) {
	static const int sizes[] = {1, 2, 2, 3, 3, 3, 4, 4, 5, 6};
	s.world = r.pm(25) ? r.range(7, 13) : std::min(max_world, sizes[r.below(10)]);
	vector<int> all;
	for (int i = 0; i < s.world; i++) all.push_back(i);
	s.members = all;
	s.direct = true;
	if (r.pm(300)) {
		s.direct = false;
		for (size_t i = all.size(); i > 1; i--) std::swap(all[i - 1], all[r.below(i)]);
		if (r.pm(500) && s.world > 1) all.resize(1 + r.below(all.size()));
		s.members = all;
	}
}
static Trace gen(const string& prop, uint64_t seed) {
	const int pn = prop_number(prop);
	Trace t;
	t.prop = prop; t.seed = seed;
	Rng r(mix(seed, uint64_t(pn), 20));
	// properties of other builds of the library are about everything
	const Profile& pr = profile(pn == P23 ? P23 : pn > P18 ? r.range(0, P18) : r.pm(100) ? 0 : pn);
	sim::Policy& p = t.policy;
	p.seed = r.next() >> 1;
	const int calm[] = {0, 50, 200, 600};
	p.yield_pm = calm[r.below(4)];
	p.net_pm = r.range(50, 950);
	p.stick_pm = r.pm(300) ? 950 : r.range(0, 900);
	p.net_order = r.pm(500) ? 0 : int(r.below(3));
	const int eager[] = {0, 1000, 500, 900, 100};
	p.eager_pm = eager[r.below(5)];
	if (r.pm(300)) { p.stall_rank = int(r.below(6)); p.stall_pm = r.range(1, 100); }
	if (r.pm(300)) { p.hold_pm = r.range(5, 200); p.hold_steps = r.range(10, 2000); }
	p.early_pm = r.range(0, 1000);
	p.late_write_pm = r.pm(300) ? 0 : r.range(0, 1000);
	p.far_pm = r.pm(500) ? 0 : r.range(50, 950);

	Segment s;
	gen_ranks(r, s, 6);
	Config& c = s.cfg;
	int total = 0;
	for (const int w: pr.v) total += w;
	int x = int(r.below(uint64_t(total)));
	c.variant = 1;
	while (x >= pr.v[c.variant - 1]) x -= pr.v[c.variant++ - 1];
	if (c.variant % 2 == 0 && r.pm(250)) c.variant = 5;
	const int hoods[] = {0, 0, 1, 1, 1, 1, 1, 2, 2, 3};
	c.hood = r.pm(10) ? r.range(4, 5) : hoods[r.below(10)];
	const int cap = c.hood >= 4 ? 6 : c.hood >= 3 ? 12 : c.hood == 2 ? 24 : 48;
	do {
		for (size_t d = 0; d < 3; d++) {
			const int len[] = {1, 1, 2, 2, 3, 4, 5, 6, 8};
			c.dims[d] = len[r.below(9)];
		}
		if (r.pm(60)) { c.dims = {{1, 1, 1}}; c.dims[r.below(3)] = r.range(1, 40); }
		else if (r.pm(120)) { c.dims = {{1, 1, 1}}; c.dims[r.below(3)] = r.range(1, 3); }
	} while (c.dims[0] * c.dims[1] * c.dims[2] > cap);
	for (auto& d: c.per) d = r.pm(400);
	const int lv[] = {0, 1, 1, 2, 2, 2, 3};
	c.max_lvl = lv[r.below(7)];
	if (r.pm(pn == P14 ? 40 : 15)) {
		// ids beyond 32 bits
		c.max_lvl = r.range(11, 18);
		c.hood = r.range(0, 1);
		c.per = {{0, 0, 0}};
		for (auto& d: c.dims) d = r.range(1, 3);
	}
	if (c.hood < 2 && r.pm(pn == P05 ? 40 : 15)) {
		c.max_lvl = r.range(4, 8);
		for (auto& d: c.dims) d = r.range(1, 2);
	}
	if (r.pm(10)) {
		// long
		c.hood = r.range(0, 1);
		c.max_lvl = r.range(0, 1);
		c.dims = {{1, 1, 1}};
		c.dims[r.below(3)] = r.range(50, 700);
	}
	if (r.pm(20)) {
		// many cells
		c.hood = r.range(0, 1);
		c.max_lvl = r.range(0, 1);
		for (auto& d: c.dims) d = r.range(3, 8);
	}
	const char* const methods[] = {"RCB", "RIB", "HSFC", "GRAPH", "HYPERGRAPH", "HIER", "BLOCK", "RANDOM", "NONE"};
	c.method = methods[r.below(9)];
	c.single = r.pm(400) ? 1 : r.pm(500) ? 0 : -1;
	s.order = int(r.below(4));
	// files need something to be saved before
	const bool more = r.pm(pr.segs);
	// small grids live long at times
	const bool lasting = c.dims[0] * c.dims[1] * c.dims[2] <= 4 && c.hood < 3 && c.max_lvl < 3 && r.pm(150);
	gen_ops(r, pr, s, lasting ? r.range(20, 70) : c.max_lvl > 3 ? r.range(2, 5) : r.range(2, more ? 8 : 14), more);
	t.segs.push_back(s);
	if (more) {
		const int n = r.pm(300) ? 2 : 1;
		for (int i = 0; i < n; i++) {
			Segment l;
			gen_ranks(r, l, 6);
			l.cfg = c;
			l.cfg.method = methods[r.below(9)];
			l.from = int(r.below(8));
			l.load_mode = int(r.below(6));
			if (r.pm(pr.faults)) {
				const int k = int(r.below(3));
				if (k == 0) {
					l.damage = r.pm(700) ? 2 : r.pm(500) ? 1 : 3;
					l.damage_arg = long(r.below(100000));
				} else {
					Fault f;
					f.rank = l.members[r.below(l.members.size())];
					f.nth = int(r.below(14));
					static const int kinds[] = {sim::io_error, sim::io_error_partial, sim::io_error, sim::io_open_fail};
					f.kind = kinds[r.below(4)];
					if (f.kind == sim::io_open_fail) f.nth = 0;
					l.faults.push_back(f);
				}
			}
			gen_ops(r, pr, l, r.range(0, 6), i + 1 < n);
			t.segs.push_back(l);
		}
		if (pr.faults > 0 && r.pm(150)) t.segs[0].crash_at = long(r.below(60));
	}
	if (pn == P23 && r.pm(950)) {
		// one call of MPI fails on one process
		Segment& at = t.segs[r.below(t.segs.size())];
		vector<size_t> where;
		for (size_t i = 0; i < at.steps.size(); i++) {
			switch (at.steps[i].op.kind) {
			case k_update: case k_split: case k_commit: case k_balance: case k_create: case k_hood_add: case k_hood_del:
			case k_save: case k_copy: case k_helpers: case k_both: where.push_back(i); break;
			default: break;
			}
		}
		Fault f;
		f.rank = at.members[r.below(at.members.size())];
		static const int upto[] = {1, 2, 4, 8, 30};
		f.nth = int(r.below(uint64_t(upto[r.below(5)])));
		f.kind = sim::call_error + int(r.below(10));
		if (r.pm(30)) f.kind = sim::call_error + 10;
		if (where.empty() || r.pm(80)) at.faults.push_back(f);
		else at.steps[where[r.below(where.size())]].faults.push_back(f);
	}
	return t;
}

// ------------------------------------------------------------------ running
struct Result { int status; string cls, msg; sim::Report rep; };
static sim::Report* slot;
static int cpu_limit = 90;

static const char* signal_name(int s) { return s == SIGSEGV ? "SIGSEGV" : s == SIGBUS ? "SIGBUS" : s == SIGFPE ? "SIGFPE" : s == SIGILL ? "SIGILL" : s == SIGABRT ? "SIGABRT" : "signal"; }
static char altstack[65536];
static void crashed(int s) {
	sim::Report* r = sim::report;
	uint64_t tags = sim::op_tags ? sim::op_tags(r->opkind) : ~uint64_t(0);
	r->tags = tags;
	const bool hang = s == SIGPROF || s == SIGXCPU;
	snprintf(r->cls, sizeof r->cls, "%s", hang ? "no-progress" : "crash");
	if (hang) snprintf(r->msg, sizeof r->msg, "no end of computation in operation %d (%s) of rank %d", r->op, op_names[r->opkind], r->rank);
	else snprintf(r->msg, sizeof r->msg, "%s in operation %d (%s) of rank %d", signal_name(s), r->op, op_names[r->opkind], r->rank);
	r->status = (tags & sim::target_mask) ? sim::st_violation : sim::st_foreign;
	r->counters[sim::c_foreign]++;
	_exit(40);
}
static bool quiet = true;
static void run_here(const Trace& t) {
	*sim::report = sim::Report();
	sim::report->status = sim::st_running;
	sim::report->seed = t.seed;
	const int pn = prop_number(t.prop);
	sim::target_mask = pn && (pn <= P18 || pn == P23) ? bit(pn) : ~uint64_t(0);
	stack_t ss; ss.ss_sp = altstack; ss.ss_size = sizeof altstack; ss.ss_flags = 0;
	sigaltstack(&ss, nullptr);
	struct sigaction sa; memset(&sa, 0, sizeof sa);
	sa.sa_handler = crashed; sa.sa_flags = SA_ONSTACK;
	for (const int s: {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGPROF, SIGABRT}) sigaction(s, &sa, nullptr);
	itimerval tv; memset(&tv, 0, sizeof tv); tv.it_value.tv_sec = cpu_limit;
	setitimer(ITIMER_PROF, &tv, nullptr);
	struct rlimit rl{3ul << 30, 3ul << 30};
	setrlimit(RLIMIT_AS, &rl);
	rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
	if (quiet) { const int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); }
	try { run_trace(t); }
	catch (const std::exception& e) { sim::fatal(sim::op_tags ? sim::op_tags(sim::report->opkind) : 0, "exception", e.what()); }
	sim::report->status = sim::report->counters[sim::c_foreign] ? sim::st_foreign : sim::st_ok;
	_exit(0);
}
static Result run(const Trace& t) {
	fflush(stdout);
	*slot = sim::Report();
	const pid_t pid = fork();
	if (pid == 0) { sim::report = slot; run_here(t); }
	int st = 0;
	waitpid(pid, &st, 0);
	Result r;
	r.rep = *slot;
	r.status = slot->status;
	if (r.status == sim::st_running) {
		// died without a report: out of memory or similar
		r.status = sim::st_foreign;
		snprintf(r.rep.cls, sizeof r.rep.cls, "died");
		snprintf(r.rep.msg, sizeof r.rep.msg, "run ended without a report, wait status %d", st);
	}
	r.cls = r.rep.cls; r.msg = r.rep.msg;
	return r;
}

// ---------------------------------------------------------------- minimise
static double now_s() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + double(t.tv_nsec) * 1e-9; }
static Trace minimise(Trace best, const Result& want, double seconds, int& tries, std::function<bool(const Result&)> known) {
	const double end = now_s() + seconds;
	const auto fails = [&](const Trace& t) {
		if (now_s() > end) return false;
		tries++;
		const Result r = run(t);
		return r.status == sim::st_violation && r.cls == want.cls && !known(r);
	};
	bool progress = true;
	while (progress && now_s() < end) {
		progress = false;
		// whole segments from the end
		for (size_t i = best.segs.size(); i-- > 1;) {
			Trace t = best;
			t.segs.erase(t.segs.begin() + long(i));
			if (fails(t)) { best = t; progress = true; }
		}
		for (size_t s = 0; s < best.segs.size(); s++) {
			// cut off the tail, then drop pieces
			for (size_t len = best.segs[s].steps.size(); len > 0; len /= 2) {
				for (size_t at = 0; at < best.segs[s].steps.size();) {
					Trace t = best;
					auto& st = t.segs[s].steps;
					st.erase(st.begin() + long(at), st.begin() + long(std::min(st.size(), at + len)));
					if (fails(t)) { best = t; progress = true; }
					else at += len;
				}
			}
			const auto attempt = [&](std::function<void(Segment&)> f) {
				Trace t = best;
				f(t.segs[s]);
				if (text(t) != text(best) && fails(t)) { best = t; progress = true; }
			};
			attempt([](Segment& x) { x.crash_at = -1; });
			attempt([](Segment& x) { x.faults.clear(); });
			attempt([](Segment& x) { x.damage = 0; });
			attempt([](Segment& x) { x.load_mode = 0; });
			attempt([](Segment& x) { for (auto& i: x.steps) i.faults.clear(); });
			for (int w = 1; w < best.segs[s].world; w++) {
				attempt([w](Segment& x) { x.world = w; x.direct = true; x.members.clear(); for (int i = 0; i < w; i++) x.members.push_back(i); });
			}
			attempt([](Segment& x) { x.direct = true; x.members.clear(); for (int i = 0; i < x.world; i++) x.members.push_back(i); });
			for (size_t d = 0; d < 3; d++) {
				for (int n = 1; n < best.segs[s].cfg.dims[d]; n++) attempt([d, n](Segment& x) { if (x.from < 0 && n < x.cfg.dims[d]) x.cfg.dims[d] = n; });
				attempt([d](Segment& x) { x.cfg.per[d] = 0; });
			}
			for (int n = 0; n < best.segs[s].cfg.max_lvl; n++) attempt([n](Segment& x) { if (n < x.cfg.max_lvl) x.cfg.max_lvl = n; });
			attempt([](Segment& x) { x.cfg.hood = std::min(x.cfg.hood, 1); });
			attempt([](Segment& x) { x.cfg.hood = 0; });
			attempt([](Segment& x) { x.cfg.method = "RCB"; });
		}
		const auto pol = [&](std::function<void(sim::Policy&)> f) {
			Trace t = best;
			f(t.policy);
			if (text(t) != text(best) && fails(t)) { best = t; progress = true; }
		};
		pol([](sim::Policy& p) { p.choice_limit = 0; });
		pol([](sim::Policy& p) { p.hold_pm = 0; p.hold_steps = 0; });
		pol([](sim::Policy& p) { p.stall_rank = -1; });
		pol([](sim::Policy& p) { p.late_write_pm = 0; });
		pol([](sim::Policy& p) { p.far_pm = 0; });
		pol([](sim::Policy& p) { p.yield_pm = 0; });
		pol([](sim::Policy& p) { p.net_order = 2; });
		pol([](sim::Policy& p) { p.eager_pm = 1000; });
		// shortest random prefix of the schedule that still fails
		if (best.policy.choice_limit != 0) {
			uint64_t lo = 0, hi = std::min(best.policy.choice_limit, run(best).rep.choices + 1);
			while (lo + 1 < hi && now_s() < end) {
				const uint64_t mid = (lo + hi) / 2;
				Trace t = best;
				t.policy.choice_limit = mid;
				if (fails(t)) hi = mid; else lo = mid;
			}
			Trace t = best;
			t.policy.choice_limit = hi;
			if (hi < best.policy.choice_limit && fails(t)) best = t;
		}
	}
	return best;
}

// -------------------------------------------------------------------- batch
struct Item { uint64_t sched, state, steps; };
struct Pool {
	std::atomic<uint64_t> next, done, ok, foreign, known, recheck, nondet, died;
	std::atomic<uint64_t> best;   // lowest failing run
	std::atomic<int> stop;
	std::atomic<uint64_t> counters[sim::c_count], opruns[k_count];
	std::atomic<uint64_t> fired_runs, steps;
	char foreign_example[400];
	uint64_t foreign_run;
	char known_example[16][200];
	uint64_t known_count[16];
	char nondet_example[200];
};
struct Known { string prop, cls, part, what; };
static vector<Known> knowns;
static int known_index(const Result& r, const string& prop) {
	for (size_t i = 0; i < knowns.size(); i++) {
		if (knowns[i].prop == prop && knowns[i].cls == r.cls && r.msg.find(knowns[i].part) != string::npos) return int(i);
	}
	return -1;
}
template<class T> static T* shared(size_t n = 1) {
	void* p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	return new (p) T[n]();
}
static string json(const string& s) {
	string r = "\"";
	for (const char c: s) {
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c == '\n') r += "\\n";
		else if (static_cast<unsigned char>(c) < 32) r += ' ';
		else r += c;
	}
	return r + "\"";
}

int main(int argc, char** argv) {
	string prop = "P01", out = ".", replay, dump, known_file;
	uint64_t seed = 1, runs = 1000, only = ~uint64_t(0), first_run = 0;
	double seconds = 30, min_seconds = 40;
	int jobs = 8, every = 20;
	bool verbose = false, raw = false;
	for (int i = 1; i < argc; i++) {
		const string a = argv[i];
		const auto val = [&]() -> string { return i + 1 < argc ? argv[++i] : ""; };
		if (a == "--prop") prop = val();
		else if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
		else if (a == "--runs") runs = strtoull(val().c_str(), nullptr, 10);
		else if (a == "--first") first_run = strtoull(val().c_str(), nullptr, 10);
		else if (a == "--jobs") jobs = stoi(val());
		else if (a == "--time") seconds = stod(val());
		else if (a == "--min-time") min_seconds = stod(val());
		else if (a == "--out") out = val();
		else if (a == "--replay") replay = val();
		else if (a == "--only") only = strtoull(val().c_str(), nullptr, 10);
		else if (a == "--dump") dump = val();
		else if (a == "--recheck") every = stoi(val());
		else if (a == "--known") known_file = val();
		else if (a == "--verbose") verbose = true;
		else if (a == "--raw") raw = true;
		else { std::cerr << "unknown argument " << a << "\n"; return 2; }
	}
	slot = shared<sim::Report>();
	if (!known_file.empty()) {
		// prop|class|part of message|description
		std::ifstream in(known_file);
		string l;
		while (std::getline(in, l)) {
			if (l.empty() || l[0] == '#' || l.compare(0, 6, "fixed:") == 0) continue;
			std::istringstream s(l);
			Known k;
			if (std::getline(s, k.prop, '|') && std::getline(s, k.cls, '|') && std::getline(s, k.part, '|') && std::getline(s, k.what)) knowns.push_back(k);
		}
	}
	const auto is_known = [&](const Result& r) { return known_index(r, prop) >= 0; };
	if (!replay.empty() || only != ~uint64_t(0)) {
		Trace t;
		if (!replay.empty()) {
			std::ifstream in(replay);
			if (!parse(in, t)) { std::cerr << "cannot read trace\n"; return 2; }
		} else t = gen(prop, mix(seed, only));
		if (!dump.empty()) { std::ofstream o(dump); o << text(t); }
		if (raw) { sim::report = slot; quiet = false; sim::verbose = verbose; run_here(t); }
		quiet = !verbose; sim::verbose = verbose;
		const Result r = run(t);
		printf("{\"status\":%d,\"class\":%s,\"message\":%s,\"op\":%d,\"rank\":%d,\"tags\":%llu,\"hash\":%llu,\"steps\":%llu,\"choices\":%llu,\"foreign\":%s}\n",
			r.status, json(r.cls).c_str(), json(r.msg).c_str(), r.rep.op, r.rep.rank, (unsigned long long) r.rep.tags, (unsigned long long) r.rep.hash,
			(unsigned long long) r.rep.steps, (unsigned long long) r.rep.choices, json(r.rep.foreign).c_str());
		return r.status == sim::st_violation ? 1 : 0;
	}

	auto* pool = shared<Pool>();
	auto* items = shared<Item>(runs);
	pool->best = ~uint64_t(0);
	pool->next = std::min(first_run, runs);
	const double start = now_s();
	vector<pid_t> pids;
	for (int w = 0; w < jobs; w++) {
		const pid_t pid = fork();
		if (pid == 0) {
			slot = shared<sim::Report>();
			while (!pool->stop) {
				const uint64_t i = pool->next++;
				if (i >= runs || now_s() - start > seconds) break;
				const Trace t = gen(prop, mix(seed, i));
				const Result r = run(t);
				items[i] = {r.rep.sched_hash, r.rep.state_hash, r.rep.steps + 1};
				for (int k = 0; k < sim::c_count; k++) pool->counters[k] += r.rep.counters[k];
				pool->steps += r.rep.steps;
				if (r.status == sim::st_ok) pool->ok++;
				else if (r.status == sim::st_foreign) {
					if (pool->foreign++ == 0) {
						pool->foreign_run = i;
						snprintf(pool->foreign_example, sizeof pool->foreign_example, "%s", r.rep.foreign[0] ? r.rep.foreign : (r.cls + ": " + r.msg).c_str());
					}
				} else {
					const int k = known_index(r, prop);
					if (k >= 0) {
						pool->known++;
						if (k < 16 && pool->known_count[k]++ == 0) snprintf(pool->known_example[k], 200, "%s", r.msg.c_str());
					} else {
						uint64_t b = pool->best;
						while (i < b && !pool->best.compare_exchange_weak(b, i)) {}
						pool->stop = 1;
					}
				}
				pool->done++;
				if (every > 0 && i % uint64_t(every) == 0) {
					const Result q = run(t);
					pool->recheck++;
					if (q.rep.hash != r.rep.hash || q.status != r.status || q.rep.state_hash != r.rep.state_hash) {
						if (pool->nondet++ == 0) snprintf(pool->nondet_example, 200, "run %llu", (unsigned long long) i);
					}
				}
			}
			_exit(0);
		}
		pids.push_back(pid);
	}
	for (const pid_t p: pids) waitpid(p, nullptr, 0);
	const double wall = now_s() - start;
	string viol = "null";
	if (pool->best != ~uint64_t(0)) {
		const uint64_t i = pool->best;
		Trace t = gen(prop, mix(seed, i));
		const Result first = run(t);
		int tries = 0;
		size_t ops0 = 0, ops1 = 0;
		for (auto& s: t.segs) ops0 += s.steps.size();
		mkdir(out.c_str(), 0777);
		{ std::ofstream o(out + "/" + prop + ".full.trace"); o << text(t); }
		Trace m = first.status == sim::st_violation ? minimise(t, first, min_seconds, tries, is_known) : t;
		for (auto& s: m.segs) ops1 += s.steps.size();
		const Result r = run(m);
		{ std::ofstream o(out + "/" + prop + ".trace"); o << text(m); }
		std::ostringstream v;
		v << "{\"run\":" << i << ",\"seed\":" << t.seed << ",\"reproduced\":" << (first.status == sim::st_violation ? "true" : "false")
			<< ",\"class\":" << json(r.cls) << ",\"message\":" << json(r.msg) << ",\"hash\":\"" << r.rep.hash << "\",\"status\":" << r.status
			<< ",\"operations\":" << ops0 << ",\"minimised_operations\":" << ops1 << ",\"minimiser_runs\":" << tries
			<< ",\"original_message\":" << json(first.msg) << "}";
		viol = v.str();
	}
	vector<uint64_t> sched, state;
	for (uint64_t i = 0; i < runs; i++) if (items[i].steps) { sched.push_back(items[i].sched); state.push_back(items[i].state); }
	const auto distinct = [](vector<uint64_t> v) { std::sort(v.begin(), v.end()); return size_t(std::unique(v.begin(), v.end()) - v.begin()); };
	printf("{\"property\":\"%s\",\"seed\":%llu,\"runs\":%llu,\"clean\":%llu,\"ended_by_other_property\":%llu,\"known\":%llu,\"rechecked\":%llu,\"nondeterministic\":%llu,"
		"\"wall_s\":%.2f,\"scheduler_steps\":%llu,\"distinct_schedules\":%zu,\"distinct_final_states\":%zu,\"foreign_example\":%s,\"foreign_run\":%llu,\"nondet_example\":%s,\"violation\":%s,\"known_findings\":[",
		prop.c_str(), (unsigned long long) seed, (unsigned long long) pool->done, (unsigned long long) pool->ok, (unsigned long long) pool->foreign,
		(unsigned long long) pool->known, (unsigned long long) pool->recheck, (unsigned long long) pool->nondet, wall, (unsigned long long) pool->steps,
		distinct(sched), distinct(state), json(pool->foreign_example).c_str(), (unsigned long long) pool->foreign_run, json(pool->nondet_example).c_str(), viol.c_str());
	for (size_t i = 0; i < knowns.size() && i < 16; i++) {
		printf("%s{\"index\":%zu,\"count\":%llu,\"example\":%s}", i ? "," : "", i, (unsigned long long) pool->known_count[i], json(pool->known_example[i]).c_str());
	}
	printf("],\"counters\":{");
	for (int k = 0; k < sim::c_count; k++) printf("%s\"%s\":%llu", k ? "," : "", sim::counter_names[k], (unsigned long long) pool->counters[k]);
	printf("}}\n");
	if (pool->nondet) return 3;
	return viol == "null" ? 0 : 1;
}
