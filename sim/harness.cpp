#include "harness.hpp"
#include "cells.hpp"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <sstream>
#include <unordered_set>
using namespace model;
using sim::count;
using sim::mix;
using sim::Rng;
using std::array; using std::map; using std::pair; using std::set; using std::shared_ptr;
using std::string; using std::to_string; using std::vector;

// ------------------------------------------------------------ geometry
array<double, 3> model_point(const Config& c, const Mapping& m, const array<double, 3>& index) {
	array<double, 3> r;
	const double unit = double(1 << m.max_lvl);
	for (int d = 0; d < 3; d++) {
		const double x = index[d] / unit;
		if (c.variant == 3) r[d] = x;
		else if (c.variant == 2) {
			const double i = std::min(std::floor(x), double(c.dims[d] - 1));
			const auto at = [&](double k) { return k * k / 4 + k * (d + 1) - 3; };
			r[d] = at(i) + (at(i + 1) - at(i)) * (x - i);
		} else {
			const double start[3] = {-1.5, 2, 10.25}, len[3] = {0.5, 1, 2};
			r[d] = start[d] + x * len[d];
		}
	}
	return r;
}
array<double, 3> model_center(const Config& c, const Mapping& m, Cell cell) {
	const Pos p = m.pos(cell);
	if (p.lvl < 0) return {{-1e9, -1e9, -1e9}};
	array<double, 3> i;
	for (int d = 0; d < 3; d++) i[d] = double(p.at[d]) + double(p.len) / 2;
	return model_point(c, m, i);
}
std::unique_ptr<GridApi> make_grid(int variant) {
	switch (variant) {
	case 1: return make_grid_1();
	case 2: return make_grid_2();
	case 3: return make_grid_3();
	case 5: return make_grid_5();
	default: return make_grid_4();
	}
}

namespace {
// ------------------------------------------------------------ run state
struct Shared {
	const Segment* seg = nullptr;
	int seg_index = 0, base = 0;     // index of operation that creates the grid
	State st, cp;
	shared_ptr<State> first;         // after creation
	bool has_copy = false;
	vector<shared_ptr<Plan>> plans;
	vector<char> planned;
	int furthest = -1, stop_at = 1 << 30;
	bool loaded = false;
	FileRec from;                    // file being loaded
	vector<int> load_result;         // per member
	map<int, vector<int>> results;   // save: per member, 1 ok 0 failed -1 unknown
	map<int, sim::Bytes> before_file;
	set<Cell> ever_old;
	map<int, char> file_checked;
};
Shared* sh;
vector<FileRec>* all_files;
vector<Transfer> transfers;
struct Cur { const Plan* plan = nullptr; int kind = 0, grid = 0; bool faulty = false, calls = false; };
vector<Cur> cur;
// whether a call of MPI failed in this job
bool call_failed(int op = -1) {
	for (const auto& f: sim::io_faults) if (f.fired && f.kind >= sim::call_error && (op < 0 || f.op == op)) return true;
	return false;
}

Cur& now() { return cur[size_t(sim::world_rank())]; }

uint64_t base_tags_of(const Cur& c) {
	uint64_t t = 0;
	const Plan* p = c.plan;
	const bool v2 = sh && sh->st.t && (sh->st.t->cfg.variant == 2 || sh->st.t->cfg.variant == 5);
	switch (c.kind) {
	case k_init: t = bits(P02); break;
	case k_update: t = bits(P01); break;
	case k_split: t = bits(P15); break;
	case k_request: t = bits(P05); break;
	case k_commit: t = bits(P02, P05, P06); break;
	case k_create: t = bits(P02, P05, P10); break;
	case k_balance: t = bits(P02, P03); if (p && !p->before->newpins.empty() && (!p->after->pins.empty() || !p->before->pins.empty())) t |= bit(P04); break;
	case k_pin: t = bits(P04); break;
	case k_weight: case k_options: t = bits(P14); break;
	case k_hood_add: case k_hood_del: t = bits(P09); break;
	case k_save: t = bits(P10, P11); break;
	case k_load: t = bits(P02, P10); break;
	case k_copy: t = bits(P16); break;
	case k_clear: t = bits(P06); break;
	case k_helpers: t = bits(P17); break;
	case k_query: t = bits(P07, P08); break;
	case k_badargs: t = bits(P08, P09); break;
	case k_both: t = bits(P15, P16); break;
	default: break;
	}
	if (p && (c.kind == k_update || c.kind == k_split) && p->hood_id != def_hood) t |= bit(P09);
	if (v2 && (c.kind == k_update || c.kind == k_split || c.kind == k_balance || c.kind == k_commit || c.kind == k_save || c.kind == k_load)) t |= bit(P18);
	if (c.faulty) t |= bit(P12);
	if (call_failed()) t |= bit(P23);
	if (sh && sh->has_copy) t |= bit(P16);
	if (sh && sh->loaded) t |= bit(P10);
	return t;
}
uint64_t base_tags() { return base_tags_of(now()); }
// additions common to everything in special circumstances
uint64_t extra_tags() {
	uint64_t t = 0;
	const Cur& c = now();
	if (sh->has_copy) t |= bit(P16);
	if (sh->loaded) t |= bit(P10);
	if (c.faulty) t |= bit(P12);
	if (call_failed()) t |= bit(P23);
	return t;
}
string where(int rank) {
	const Cur& c = now();
	return string(" (rank ") + to_string(rank) + ", operation " + to_string(sim::current_op()) + " " + op_names[c.kind]
		+ (c.grid ? " of copied grid" : "") + ")";
}
string show(const Val& v) {
	std::ostringstream o;
	o << std::hex << v.f[0] << "/" << v.f[1] << "/" << v.f[2];
	return o.str();
}
template<class S> string show_set(const S& s) {
	string r = "{";
	size_t n = 0;
	for (const auto& i: s) { if (n++ == 12) { r += " ..."; break; } r += " " + to_string(i); }
	return r + " }";
}
void bad(uint64_t tags, const char* cls, int rank, const string& msg) {
	// a call of MPI failed and somebody is told, so user ends the job
	if (call_failed(sim::current_op()) && (!strcmp(cls, "return-value") || !strcmp(cls, "split-verdict"))) {
		count(sim::c_loud);
		sim::allow_job_abort(true);
		sim::job_abort("failure was reported");
	}
	const uint64_t before = sim::report->counters[sim::c_foreign];
	sim::fail(tags | extra_tags(), cls, msg + where(rank));
	if (before == 0) sh->stop_at = std::min(sh->stop_at, sh->furthest + 4);
}
bool known_equal(const Val& want, const Val& got) {
	for (int i = 0; i < 3; i++) if (want.f[i] != unknown && want.f[i] != got.f[i]) return false;
	return true;
}

// -------------------------------------------------------- partitioner
struct Part: sim::Partitioner {
	const Plan* plan = nullptr;
	int called = 0;
	bool failed = false;
	const Topo& t() const { return *plan->before->t; }
	void say(int rank, const string& m) { bad(bits(P14), "partitioner-input", rank, m); }
	int me() const { return transfers[size_t(sim::world_rank())].rank; }
	bool mine(int rank, Cell c, const char* what) {
		const auto it = t().owner.find(c);
		if (it != t().owner.end() && it->second == rank) return true;
		say(rank, string(what) + " of cell " + to_string(c) + " which is not local");
		return false;
	}
	int target(uint64_t cell, int current) override {
		const auto it = plan->target.find(cell);
		return it == plan->target.end() ? current : it->second;
	}
	void check_objects(int rank, const vector<pair<uint64_t, float>>& o) override {
		set<Cell> ids;
		for (const auto& i: o) {
			if (!ids.insert(i.first).second) say(rank, "cell " + to_string(i.first) + " given twice to partitioner");
			const auto w = plan->before->weights.find(i.first);
			const double want = w == plan->before->weights.end() ? 1 : w->second;
			if (double(i.second) != want) say(rank, "weight of cell " + to_string(i.first) + " given to partitioner is " + to_string(i.second) + ", should be " + to_string(want));
		}
		const auto& l = t().local[size_t(rank)];
		if (ids != set<Cell>(l.begin(), l.end())) say(rank, "cells given to partitioner " + show_set(ids) + " should be " + show_set(l));
		count(sim::c_checks);
	}
	void check_geometry(int rank, uint64_t cell, const double* x) override {
		if (!mine(rank, cell, "geometry")) return;
		const auto c = model_center(t().cfg, t().map, cell);
		for (int d = 0; d < 3; d++) if (!(std::fabs(x[d] - c[d]) < 1e-9)) { say(rank, "wrong center of cell " + to_string(cell) + " given to partitioner"); break; }
	}
	vector<Cell> expected_neighbors(Cell cell) const {
		vector<Cell> r;
		for (const auto& i: t().nof.at(def_hood).at(cell)) if (i.first != cell) r.push_back(i.first);
		std::sort(r.begin(), r.end());
		return r;
	}
	// duplicates (periodic grid) are irrelevant for partitioning
	static vector<Cell> uniq(vector<Cell> v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v; }
	void check_edges(int rank, uint64_t cell, const vector<pair<uint64_t, int>>& e) override {
		if (!mine(rank, cell, "edges")) return;
		vector<Cell> got;
		for (const auto& i: e) {
			got.push_back(i.first);
			const auto o = t().owner.find(i.first);
			if (o == t().owner.end() || o->second != i.second) say(rank, "neighbor " + to_string(i.first) + " of cell " + to_string(cell) + " given to partitioner with process " + to_string(i.second));
		}
		const auto want = uniq(expected_neighbors(cell));
		if (uniq(got) != want) say(rank, "graph edges of cell " + to_string(cell) + " are " + show_set(got) + ", should be " + show_set(want));
	}
	void check_hyperedge(int rank, uint64_t cell, const vector<uint64_t>& m, bool has_weight, double w) override {
		if (!mine(rank, cell, "hyperedge")) return;
		auto want = expected_neighbors(cell);
		const size_t n = want.size();
		want.push_back(cell);
		want = uniq(want);
		if (uniq(m) != want) say(rank, "hyperedge of cell " + to_string(cell) + " is " + show_set(m) + ", should be " + show_set(want));
		if (!has_weight) say(rank, "no weight for hyperedge of cell " + to_string(cell));
		else if (w != double(n)) say(rank, "weight of hyperedge of cell " + to_string(cell) + " is " + to_string(w) + ", should be " + to_string(n));
	}
	void check_params(int rank, const map<string, string>& p) override {
		called++;
		map<string, string> want = plan->before->params;
		want["LB_METHOD"] = plan->before->method;
		const map<string, string> fixed{{"EDGE_WEIGHT_DIM", "0"}, {"NUM_LID_ENTRIES", "0"}, {"OBJ_WEIGHT_DIM", "1"}, {"RETURN_LISTS", "ALL"}};
		for (const auto& i: fixed) want[i.first] = i.second;
		for (const auto& i: want) {
			const auto it = p.find(i.first);
			if (it == p.end()) say(rank, "partitioner option " + i.first + " not set, should be " + i.second);
			else if (it->second != i.second) say(rank, "partitioner option " + i.first + " is " + it->second + ", should be " + i.second);
		}
	}
	void check_hier(int rank, const vector<int>& parts, const vector<map<string, string>>& opts) override {
		const auto& l = plan->before->levels;
		if (parts.size() != l.size()) { say(rank, "number of hierarchical levels is " + to_string(parts.size()) + ", should be " + to_string(l.size())); return; }
		int p = rank;
		for (size_t i = 0; i < l.size(); i++) {
			const int want = p / l[i];
			p %= l[i];
			if (parts[i] != want) say(rank, "part on hierarchical level " + to_string(i) + " is " + to_string(parts[i]) + ", should be " + to_string(want));
			for (const auto& o: plan->before->level_opts[i]) {
				const auto it = opts[i].find(o.first);
				if (it == opts[i].end() || it->second != o.second) say(rank, "option " + o.first + " of hierarchical level " + to_string(i) + " is wrong, should be " + o.second);
			}
			for (const auto& o: opts[i]) if (!plan->before->level_opts[i].count(o.first)) say(rank, "option " + o.first + " of hierarchical level " + to_string(i) + " should not be set");
		}
	}
	void complain(const string& s) override { say(me(), s); }
	bool expected() override { return plan->zoltan; }
	bool fails(int rank) override {
		const bool f = plan->op.a[4] == 1 || (plan->op.a[4] > 1 && rank == (plan->op.a[4] - 2) % t().size);
		if (f) { failed = true; count(sim::c_lb_fail); }
		return f;
	}
	bool exists(uint64_t cell) override { return t().owner.count(cell) > 0; }
};

// --------------------------------------------------------- rank program
struct Rank {
	std::unique_ptr<GridApi> g[2];
	int me = 0, size = 1;
	MPI_Comm comm = MPI_COMM_NULL, help = MPI_COMM_NULL;
	Part part;

	GridApi& grid(int i) { return *g[i]; }

	// ---------------------------------------------------- oracles
	void check_values(GridApi& x, const State& s, uint64_t tags) {
		for (const Cell c: s.t->local[size_t(me)]) {
			Val v;
			const int r = x.get(c, v);
			if (r == 0) bad(tags | bits(P02), "no-data", me, "no data for local cell " + to_string(c));
			else if (r < 0 || !known_equal(s.val.at(c), v)) {
				bad(tags, "cell-data", me, "data of local cell " + to_string(c) + " is " + (r < 0 ? "inconsistent " : "") + show(v) + ", should be " + show(s.val.at(c)));
			}
		}
		count(sim::c_checks, s.t->local[size_t(me)].size());
	}
	void check_ghosts(GridApi& x, const State& s, uint64_t tags) {
		for (const auto& i: s.ghost[size_t(me)]) {
			Val v;
			const int r = x.get(i.first, v);
			if (r == 0) bad(bits(P08), "no-remote-data", me, "no data for remote neighbor " + to_string(i.first));
			else if (!known_equal(i.second, v) || (r < 0 && i.second.f[2] != unknown)) {
				bad(tags, "remote-copy", me, "copy of remote cell " + to_string(i.first) + " is " + (r < 0 ? "inconsistent " : "") + show(v) + ", should be " + show(i.second));
			}
		}
		count(sim::c_checks, s.ghost[size_t(me)].size());
	}
	void check_old(GridApi& x, const State& s) {
		for (int k = 0; k < 2; k++)
		for (const auto& i: k ? s.removed : s.refined) {
			if (i.second.holder != me) continue;
			Val v;
			const int r = x.get(i.first, v);
			if (r == 0 || !known_equal(i.second.v, v) || (r < 0 && i.second.v.f[2] != unknown)) {
				bad(bits(P06), "old-data", me, string("data of ") + (k ? "removed" : "refined") + " cell " + to_string(i.first)
					+ (r == 0 ? " is not available" : " is " + show(v) + ", should be " + show(i.second.v)));
			}
		}
		// nothing else is kept
		set<Cell> mine;
		for (const auto& i: s.removed) if (i.second.holder == me) mine.insert(i.first);
		const auto listed = x.removed(false);
		if (set<Cell>(listed.begin(), listed.end()) != mine || listed.size() != mine.size()) {
			bad(bits(P06), "removed-cells", me, "removed cells are " + show_set(listed) + ", should be " + show_set(mine));
		}
		for (const auto& i: sh->ever_old) {
			const auto a = s.refined.find(i), b = s.removed.find(i);
			if (s.t->owner.count(i) || (a != s.refined.end() && a->second.holder == me) || (b != s.removed.end() && b->second.holder == me)) continue;
			if (x.ptr(i) != nullptr) bad(bits(P06), "old-data", me, "data of cell " + to_string(i) + ", that was refined or removed earlier, is still available");
		}
		for (const auto& i: s.refined) sh->ever_old.insert(i.first);
		for (const auto& i: s.removed) sh->ever_old.insert(i.first);
	}
	// what exists and who owns it
	void check_partition(GridApi& x, const State& s, uint64_t tags) {
		const Topo& t = *s.t;
		for (const auto& c: t.owner) {
			const int p = x.process(c.first);
			if (p != c.second) {
				bad(tags | bits(P02) | (s.pins.count(c.first) && now().kind == k_balance ? bit(P04) : 0), "owner", me,
					"owner of cell " + to_string(c.first) + " is " + to_string(p) + ", should be " + to_string(c.second));
			}
			if (x.is_local(c.first) != (c.second == me)) bad(tags | bits(P02), "is-local", me, "is_local is wrong for cell " + to_string(c.first));
		}
		Rng& r = sim::rank_rng();
		// ids without a cell
		for (int i = 0; i < 12; i++) {
			auto it = t.owner.begin();
			std::advance(it, long(r.below(t.owner.size())));
			Cell c = it->first;
			const int w = int(r.below(4));
			if (w == 0) c = t.map.parent(c);
			else if (w == 1) c = t.map.level(c) < t.map.max_lvl ? t.map.children(c)[r.below(8)] : t.map.last() + 1;
			else if (w == 2) c = t.map.last() + 1 + r.below(1000);
			else c = r.below(t.map.last() + 2);
			if (t.owner.count(c)) continue;
			if (x.process(c) != -1) bad(tags | bits(P02), "owner-of-nothing", me, "non-existing cell " + to_string(c) + " has owner " + to_string(x.process(c)));
			if (x.is_local(c)) bad(tags | bits(P02), "owner-of-nothing", me, "non-existing cell " + to_string(c) + " is local");
			if (c && x.neighbors_of(c, def_hood) != nullptr) bad(tags | bits(P02, P07), "neighbors-of-nothing", me, "non-existing cell " + to_string(c) + " has neighbors");
		}
		vector<Cell> all;
		for (const auto& c: t.owner) all.push_back(c.first);
		const bool sorted = r.pm(700);
		auto got = x.all_cells(sorted);
		if (!sorted) std::sort(got.begin(), got.end());
		if (got != all) bad(tags | bits(P02), "all-cells", me, "list of all cells is " + show_set(got) + ", should be " + show_set(all) + diff(got, all));
		auto local = x.cells({}, false, def_hood, sorted);
		if (!sorted) std::sort(local.begin(), local.end());
		if (local != t.local[size_t(me)]) bad(tags | bits(P02, P08), "local-cells", me, "list of local cells is " + show_set(local) + ", should be " + show_set(t.local[size_t(me)]) + diff(local, t.local[size_t(me)]));
		if (x.rank() != me || x.comm_size() != size) bad(tags | bits(P02), "rank", me, "wrong rank or number of processes reported");
		// cell at a location
		for (int i = 0; i < 6; i++) {
			array<double, 3> at;
			array<uint64_t, 3> ix;
			auto inside = t.owner.begin();
			if (i % 2) std::advance(inside, long(r.below(t.owner.size())));
			const Pos pos = t.map.pos(inside->first);
			for (int d = 0; d < 3; d++) {
				ix[d] = i % 2 ? uint64_t(pos.at[d]) + r.below(uint64_t(pos.len)) : r.below(uint64_t(t.map.size(d)));
				at[d] = double(ix[d]) + 0.5;
			}
			const Cell want = t.leaf_at(long(ix[0]), long(ix[1]), long(ix[2]));
			Cell c = x.existing(model_point(t.cfg, t.map, at));
			if (c != want) bad(tags | bits(P02), "existing-cell", me, "cell found at a location is " + to_string(c) + ", should be " + to_string(want));
			if (i == 0) {
				// first corner of grid, places that don't exist
				const Cell corner = t.leaf_at(0, 0, 0);
				c = x.existing(model_point(t.cfg, t.map, {{0, 0, 0}}));
				if (c != corner) bad(tags | bits(P02), "existing-cell", me, "cell found at start of grid is " + to_string(c) + ", should be " + to_string(corner));
				array<uint64_t, 3> beyond = ix;
				const size_t d = r.below(3);
				beyond[d] = r.pm(500) ? uint64_t(t.map.size(int(d))) + r.below(3) : r.next() | uint64_t(1) << 60;
				if (x.existing_index(beyond, 0, t.map.max_lvl) != 0 || (t.map.max_lvl > 0 && x.existing_index(ix, t.map.max_lvl, t.map.max_lvl - 1) != 0))
					bad(tags | bits(P02), "existing-cell", me, "cell found at indices outside of grid or between invalid refinement levels");
			}
			{
				// outside of the grid
				array<double, 3> out = model_point(t.cfg, t.map, at), lo_c = model_point(t.cfg, t.map, {{0, 0, 0}}),
					hi_c = model_point(t.cfg, t.map, {{double(t.map.size(0)), double(t.map.size(1)), double(t.map.size(2))}});
				const size_t d = r.below(3);
				const int times = r.pm(500) ? r.range(1, 3) : -r.range(1, 3);
				out[d] += times * (hi_c[d] - lo_c[d]);
				const Cell w = t.cfg.per[d] ? want : 0;
				c = x.existing(out);
				if (c != w) bad(tags | bits(P02), "existing-cell", me, "cell found at a location outside of grid in dimension " + to_string(d) + " is " + to_string(c) + ", should be " + to_string(w));
			}
			const int lo = r.pm(700) ? 0 : int(r.below(uint64_t(t.map.max_lvl) + 1)), hi = r.pm(700) ? t.map.max_lvl : lo + int(r.below(uint64_t(t.map.max_lvl - lo) + 1));
			const int lvl = t.map.level(want);
			const Cell wanted = lvl >= lo && lvl <= hi ? want : 0;
			c = x.existing_index(ix, lo, hi);
			if (c != wanted) bad(tags | bits(P02), "existing-cell", me, "cell found at indices between refinement levels " + to_string(lo) + " and " + to_string(hi) + " is " + to_string(c) + ", should be " + to_string(wanted));
			if (r.pm(250)) {
				// all cells in a box
				std::array<uint64_t, 3> b = ix;
				for (int d = 0; d < 3; d++) {
					const uint64_t end = uint64_t(t.map.size(d));
					b[d] = ix[d] + r.below(std::min(end - ix[d], uint64_t(9)));
				}
				vector<Cell> box;
				set<Cell> seen;
				for (uint64_t k = ix[2]; k <= b[2]; k++) for (uint64_t j = ix[1]; j <= b[1]; j++) for (uint64_t i = ix[0]; i <= b[0]; i++) {
					const Cell n = t.leaf_at(long(i), long(j), long(k));
					if (seen.insert(n).second) box.push_back(n);
				}
				const auto found = x.find_cells(ix, b, 0, t.map.max_lvl);
				if (found != box) bad(tags | bits(P02), "existing-cell", me, "cells in a box are " + show_set(found) + ", should be " + show_set(box));
			}
			if (x.level(want) != lvl) bad(tags | bits(P02), "existing-cell", me, "refinement level of cell " + to_string(want) + " is " + to_string(x.level(want)) + ", should be " + to_string(lvl));
		}
		count(sim::c_checks, t.owner.size());
	}
	static string diff(const vector<Cell>& got, const vector<Cell>& want) {
		set<Cell> a(got.begin(), got.end()), b(want.begin(), want.end());
		vector<Cell> more, less;
		std::set_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(more));
		std::set_difference(b.begin(), b.end(), a.begin(), a.end(), std::back_inserter(less));
		return " extra " + show_set(more) + " missing " + show_set(less) + (a.size() != got.size() ? " with duplicates" : "");
	}
	void check_neighbors(GridApi& x, const State& s, uint64_t tags) {
		const Topo& t = *s.t;
		Rng& r = sim::rank_rng();
		for (const auto& h: t.hoods) {
			const uint64_t tg = tags | bits(h.first == def_hood ? P07 : P09);
			for (const Cell c: t.local[size_t(me)]) {
				const auto* of = x.neighbors_of(c, h.first);
				const auto* to = x.neighbors_to(c, h.first);
				if (of == nullptr || to == nullptr) { bad(tg, "neighbors", me, "no neighbor list for local cell " + to_string(c)); continue; }
				const auto& want = t.nof.at(h.first).at(c);
				bool same = of->size() == want.size();
				size_t k = 0;
				for (; same && k < want.size(); k++) if ((*of)[k].first != want[k].first || (*of)[k].second != want[k].second) same = false;
				if (!same) {
					vector<Cell> a, b;
					for (auto& i: *of) a.push_back(i.first);
					for (auto& i: want) b.push_back(i.first);
					bad(tg, "neighbors", me, "neighbors of cell " + to_string(c) + " in neighborhood " + to_string(h.first) + " are " + show_set(a) + ", should be " + show_set(b) + " first difference at " + to_string(k));
				}
				set<Cell> got;
				for (const auto& i: *to) {
					if (!got.insert(i.first).second) bad(tg, "neighbors-to", me, "cell " + to_string(i.first) + " is twice among cells that have cell " + to_string(c) + " as neighbor in neighborhood " + to_string(h.first));
					if (i.second != Off{{0, 0, 0}}) bad(tg, "neighbors-to", me, "cell " + to_string(i.first) + " that has cell " + to_string(c) + " as neighbor has an offset");
				}
				if (r.pm(200)) {
					const uint64_t tr = tg | bits(P08);
					const bool so = r.pm(500);
					set<Cell> ra, rb;
					for (const auto& i: want) if (t.owner.at(i.first) != me) ra.insert(i.first);
					for (const Cell i: t.nto.at(h.first).at(c)) if (t.owner.at(i) != me) rb.insert(i);
					const auto a = x.remote_of(c, h.first, so), b = x.remote_to(c, h.first, so);
					if (so && !(std::is_sorted(a.begin(), a.end()) && std::is_sorted(b.begin(), b.end()))) bad(tr, "remote-neighbors", me, "remote neighbors of cell " + to_string(c) + " are not sorted");
					if (set<Cell>(a.begin(), a.end()) != ra) bad(tr, "remote-neighbors", me, "remote neighbors of cell " + to_string(c) + " in neighborhood " + to_string(h.first) + " are " + show_set(a) + ", should be " + show_set(ra));
					if (set<Cell>(b.begin(), b.end()) != rb) bad(tr, "remote-neighbors", me, "remote neighbors to cell " + to_string(c) + " in neighborhood " + to_string(h.first) + " are " + show_set(b) + ", should be " + show_set(rb));
					const int cr = int(r.below(16)), rel = relation(t, h.first, c, me);
					const bool ex = r.pm(500), m = x.matches(c, {cr}, ex, h.first);
					if (m != (ex ? rel == cr : (rel & cr) > 0)) bad(tr, "neighbor-type", me, "is_neighbor_type_match of cell " + to_string(c) + " in neighborhood " + to_string(h.first) + " is wrong");
				}
				if (got != t.nto.at(h.first).at(c)) bad(tg, "neighbors-to", me, "cells that have cell " + to_string(c) + " as neighbor in neighborhood " + to_string(h.first) + " are " + show_set(got) + ", should be " + show_set(t.nto.at(h.first).at(c)));
			}
		}
		// nothing is known about other processes' cells or ones that don't exist
		for (int i = 0; i < 4; i++) {
			auto it = t.owner.begin();
			std::advance(it, long(r.below(t.owner.size())));
			Cell c = it->first;
			if (r.pm(300)) c = r.pm(500) ? t.map.parent(c) : t.map.last() + 1 + r.below(9);
			if (c == 0 || (t.owner.count(c) && t.owner.at(c) == me)) continue;
			auto h = t.hoods.begin();
			std::advance(h, long(r.below(t.hoods.size())));
			const uint64_t tg = tags | bits(h->first == def_hood ? P07 : P09);
			if (!t.owner.count(c)) {
				if (x.neighbors_of(c, h->first) != nullptr || x.neighbors_to(c, h->first) != nullptr) bad(tg, "neighbors", me, "neighbors given for cell " + to_string(c) + " which doesn't exist");
				if (!x.face(c).empty()) bad(tags | bits(P07), "face-neighbors", me, "face neighbors given for cell " + to_string(c) + " which doesn't exist");
			}
			if (!x.at_offset(c, 1, 0, 0).empty()) bad(tags | bits(P07), "neighbors-at-offset", me, "neighbors at offset given for cell " + to_string(c) + " which isn't local");
			if (!x.remote_of(c, h->first, false).empty() || !x.remote_to(c, h->first, false).empty()) bad(tg | bits(P08), "remote-neighbors", me, "remote neighbors given for cell " + to_string(c) + " which isn't local");
			if (x.matches(c, {15}, false, h->first)) bad(tg | bits(P08), "neighbor-type", me, "types of neighbors given for cell " + to_string(c) + " which isn't local");
		}
		for (const Cell c: t.local[size_t(me)]) {
			const auto f = x.face(c);
			set<pair<Cell, int>> got(f.begin(), f.end());
			if (got != t.face.at(c) || got.size() != f.size()) {
				string a, b;
				for (auto& i: f) a += " " + to_string(i.first) + ":" + to_string(i.second);
				for (auto& i: t.face.at(c)) b += " " + to_string(i.first) + ":" + to_string(i.second);
				bad(tags | bits(P07), "face-neighbors", me, "face neighbors of cell " + to_string(c) + " are" + a + ", should be" + b);
			}
			if (r.pm(100)) {
				const auto& hood = t.hoods.at(def_hood);
				const Off o = hood[r.below(hood.size())];
				const auto got2 = x.at_offset(c, o[0], o[1], o[2]);
				const auto want = t.list_of(c, {o});
				set<Cell> a, b;
				for (auto& i: got2) a.insert(i.first);
				for (auto& i: want) b.insert(i.first);
				const int far = std::max(1, t.cfg.hood) + 1 + int(r.below(3));
				Off away = o;
				away[r.below(3)] = r.pm(500) ? far : -far;
				if (!x.at_offset(c, away[0], away[1], away[2]).empty() || !x.at_offset(c, 0, 0, 0).empty()) bad(tags | bits(P07), "neighbors-at-offset", me, "neighbors of cell " + to_string(c) + " given at offset outside of neighborhood");
				if (a != b) bad(tags | bits(P07), "neighbors-at-offset", me, "neighbors of cell " + to_string(c) + " at offset " + to_string(o[0]) + "," + to_string(o[1]) + "," + to_string(o[2]) + " are " + show_set(a) + ", should be " + show_set(b));
			}
		}
		count(sim::c_checks, t.local[size_t(me)].size() * (2 * t.hoods.size() + 1));
	}
	// bits of has_local_neighbor_of.. etc
	static int relation(const Topo& t, int h, Cell c, int rank) {
		int r = 0;
		for (const auto& i: t.nof.at(h).at(c)) r |= t.owner.at(i.first) == rank ? 1 : 4;
		for (const Cell i: t.nto.at(h).at(c)) r |= t.owner.at(i) == rank ? 2 : 8;
		return r;
	}
	void expect_list(uint64_t tags, const char* what, int h, vector<Cell> got, const set<Cell>& want, bool sorted) {
		if (!sorted) std::sort(got.begin(), got.end());
		const vector<Cell> w(want.begin(), want.end());
		if (got != w) bad(tags, "classification", me, string(what) + " in neighborhood " + to_string(h) + " are " + show_set(got) + ", should be " + show_set(w) + diff(got, w));
	}
	void check_class(GridApi& x, const State& s, uint64_t tags0, bool iterators) {
		const Topo& t = *s.t;
		Rng& r = sim::rank_rng();
		for (const auto& hh: t.hoods) {
			const int h = hh.first;
			const uint64_t tags = tags0 | bits(P08) | (h == def_hood ? 0 : bit(P09));
			const auto& lb = t.lbound.at(h)[size_t(me)];
			const auto& rb = t.rbound.at(h)[size_t(me)];
			const set<Cell> local(t.local[size_t(me)].begin(), t.local[size_t(me)].end());
			set<Cell> inner;
			std::set_difference(local.begin(), local.end(), lb.begin(), lb.end(), std::inserter(inner, inner.end()));
			const bool so = r.pm(500);
			expect_list(tags, "local cells on process boundary", h, x.local_boundary(h, so), lb, so);
			expect_list(tags, "local cells not on process boundary", h, x.local_inner(h, so), inner, so);
			expect_list(tags, "remote cells on process boundary", h, x.remote_boundary(h, so), rb, so);
			size_t ns = 0, nr = 0;
			const auto snd = x.to_send(h), rcv = x.to_receive(h);
			map<int, set<Cell>> want_s, want_r;
			for (const auto& i: t.recv.at(h)[size_t(me)]) if (!i.second.empty()) { want_r[i.first] = i.second; nr += i.second.size(); }
			for (int p = 0; p < t.size; p++) {
				const auto it = t.recv.at(h)[size_t(p)].find(me);
				if (it != t.recv.at(h)[size_t(p)].end() && !it->second.empty()) { want_s[p] = it->second; ns += it->second.size(); }
			}
			for (int k = 0; k < 2; k++) {
				map<int, set<Cell>> got;
				size_t n = 0;
				for (const auto& i: k ? rcv : snd) for (const auto& j: i.second) { got[i.first].insert(j.first); n++; }
				const auto& want = k ? want_r : want_s;
				if (got != want || n != (k ? nr : ns)) {
					string m;
					for (int p = 0; p < t.size; p++) {
						const set<Cell> a = got.count(p) ? got[p] : set<Cell>(), b = want.count(p) ? want.at(p) : set<Cell>();
						if (a != b) m += " process " + to_string(p) + ": " + show_set(a) + " should be " + show_set(b);
					}
					bad(tags | bits(P01), "transfer-list", me, string("cells to ") + (k ? "receive" : "send") + " in neighborhood " + to_string(h) + " are wrong:" + m + (m.empty() ? " duplicates" : ""));
				}
			}
			if (x.send_count(h) != ns) bad(tags, "counts", me, "number of cells to send is " + to_string(x.send_count(h)) + ", should be " + to_string(ns));
			if (x.receive_count(h) != nr) bad(tags, "counts", me, "number of cells to receive is " + to_string(x.receive_count(h)) + ", should be " + to_string(nr));
			// filtered lists
			for (int k = 0; k < 2; k++) {
				vector<int> crit;
				const int n = 1 + int(r.below(3));
				for (int i = 0; i < n; i++) {
					crit.push_back(int(r.below(16)));
				}
				const bool exact = r.pm(500);
				int merged = 0;
				for (const int i: crit) merged |= i;
				set<Cell> want;
				for (const Cell c: t.local[size_t(me)]) {
					const int rel = relation(t, h, c, me);
					bool in = false;
					if (exact) { for (const int i: crit) if (rel == i) in = true; }
					else in = (rel & merged) > 0;
					if (in) want.insert(c);
				}
				expect_list(tags, exact ? "cells filtered exactly" : "cells filtered", h, x.cells(crit, exact, h, so), want, so);
			}
			if (!iterators) continue;
			for (int which = 0; which < 5; which++) {
				vector<IterCell> got;
				try { got = x.iterate(which, h); }
				catch (const std::exception& e) { bad(tags, "iterator", me, string("iterator threw: ") + e.what()); continue; }
				set<Cell> want;
				const auto& drb = t.rbound.at(def_hood)[size_t(me)];
				switch (which) {
				case 0: want = inner; break;
				case 1: want = lb; break;
				case 2: want = local; break;
				case 3: want = drb; break;
				default: want = local; want.insert(drb.begin(), drb.end()); break;
				}
				vector<Cell> ids;
				for (const auto& i: got) ids.push_back(i.id);
				static const char* const names[] = {"cells of inner iterator", "cells of outer iterator", "cells of local iterator", "cells of remote iterator", "cells of iterator over all"};
				expect_list(tags, names[which], h, ids, want, false);
				for (const auto& i: got) {
					if (!want.count(i.id)) continue;
					if (i.data != x.ptr(i.id) || i.data == nullptr) bad(tags, "iterator-data", me, "iterator has wrong data for cell " + to_string(i.id));
					if (t.cfg.variant == 3 && i.extra != long(i.id * 16) + t.owner.at(i.id)) bad(tags, "iterator-item", me, "user item of iterator not up to date for cell " + to_string(i.id));
					if (!local.count(i.id)) continue;
					set<pair<Cell, Off>> a, b;
					set<Cell> ta, all, want_all;
					for (const auto& n: i.of) a.insert({n.id, n.off});
					for (const auto& n: t.nof.at(h).at(i.id)) { b.insert({n.first, n.second}); want_all.insert(n.first); }
					for (const auto& n: i.to) ta.insert(n.id);
					for (const auto& n: i.all) all.insert(n.id);
					for (const Cell n: t.nto.at(h).at(i.id)) want_all.insert(n);
					const uint64_t tn = tags | (h == def_hood ? bit(P07) : 0);
					if (a != b) bad(tn, "iterator-neighbors", me, "iterator's neighbors of cell " + to_string(i.id) + " are wrong in neighborhood " + to_string(h));
					if (ta != t.nto.at(h).at(i.id)) bad(tn, "iterator-neighbors", me, "iterator's neighbors to cell " + to_string(i.id) + " are wrong in neighborhood " + to_string(h));
					if (all != want_all) bad(tn, "iterator-neighbors", me, "iterator's neighbors of and to cell " + to_string(i.id) + " are wrong in neighborhood " + to_string(h));
					set<Cell> is_of;
					for (const auto& n: t.nof.at(h).at(i.id)) is_of.insert(n.first);
					for (int k = 0; k < 3; k++) {
						set<pair<Cell, array<int, 3>>> seen;
						for (const auto& n: k == 0 ? i.of : k == 1 ? i.to : i.all) {
							if (!seen.insert({n.id, n.off}).second || (n.off == array<int, 3>{{0, 0, 0}} && is_of.count(n.id))) {
								bad(tn, "iterator-neighbors", me, "neighbor " + to_string(n.id) + " of cell " + to_string(i.id) + " appears more than once in an iterator of neighborhood " + to_string(h));
								break;
							}
						}
					}
					for (int k = 0; k < 3; k++)
					for (const auto& n: k == 0 ? i.of : k == 1 ? i.to : i.all) {
						const auto o = t.owner.find(n.id);
						if (o == t.owner.end()) continue;
						if (n.data == nullptr || n.data != x.ptr(n.id)) { bad(tn, "iterator-data", me, "iterator has wrong data for neighbor " + to_string(n.id) + " of cell " + to_string(i.id)); break; }
						if (t.cfg.variant == 3 && n.extra != long((i.id * 1000 + n.id) * 16) + o->second + h * 100000000l) { bad(tn, "iterator-item", me, "user item of neighbor " + to_string(n.id) + " of cell " + to_string(i.id) + " is not up to date"); break; }
					}
				}
			}
		}
		count(sim::c_checks, t.local[size_t(me)].size());
	}
	void check_weights(GridApi& x, const State& s) {
		map<Cell, double> set_ones;
		for (const auto& i: s.weights) if (s.t->owner.count(i.first) && s.t->owner.at(i.first) == me) set_ones[i.first] = i.second;
		if (x.all_weights() != set_ones) bad(bits(P14), "weight", me, "weights that have been set are of " + to_string(x.all_weights().size()) + " cells or wrong, should be of " + to_string(set_ones.size()) + " cells");
		for (const auto& c: s.t->owner) {
			const double w = x.get_weight(c.first);
			if (c.second != me) {
				if (!std::isnan(w)) bad(bits(P14), "weight", me, "weight of remote cell " + to_string(c.first) + " is " + to_string(w));
				continue;
			}
			const auto it = s.weights.find(c.first);
			const double want = it == s.weights.end() ? 1 : it->second;
			if (w != want) bad(bits(P14), "weight", me, "weight of cell " + to_string(c.first) + " is " + to_string(w) + ", should be " + to_string(want));
		}
	}
	void check_comm(GridApi& x) {
		MPI_Comm c = x.communicator();
		int n = 0, r = -1;
		MPI_Comm_size(c, &n);
		MPI_Comm_rank(c, &r);
		if (n != size || r != me) bad(bits(P13), "communicator", me, "communicator of grid has wrong size or rank");
		else {
			int sum = 0, one = 1;
			MPI_Allreduce(&one, &sum, 1, MPI_INT, MPI_SUM, c);
			if (sum != size) bad(bits(P13), "communicator", me, "communicator of grid doesn't work");
		}
		MPI_Comm_free(&c);
	}
	void check_config(GridApi& x, const State& s, uint64_t tags) {
		const Config& c = s.t->cfg;
		string want;
		for (int d = 0; d < 3; d++) want += to_string(c.dims[size_t(d)]) + (c.per[size_t(d)] ? "p " : " ");
		want += to_string(c.max_lvl) + " " + to_string(c.hood);
		if (x.describe() != want) bad(tags, "grid-parameters", me, "grid is " + x.describe() + ", should be " + want);
		for (const Cell i: s.t->local[size_t(me)]) {
			const auto a = x.center(i), b = model_center(c, s.t->map, i);
			const Pos q = s.t->map.pos(i);
			const auto lo = model_point(c, s.t->map, {{double(q.at[0]), double(q.at[1]), double(q.at[2])}});
			const auto e = x.extent(i), m0 = x.corner(i, false), m1 = x.corner(i, true);
			for (int d = 0; d < 3; d++) if (!(std::fabs(e[d] - 2 * (b[d] - lo[d])) < 1e-9 && std::fabs(m0[d] - lo[d]) < 1e-9 && std::fabs(m1[d] - (2 * b[d] - lo[d])) < 1e-9)) {
				bad(tags, "geometry", me, "length or corners of cell " + to_string(i) + " are wrong in dimension " + to_string(d));
				return;
			}
			for (int d = 0; d < 3; d++) if (!(std::fabs(a[d] - b[d]) < 1e-9)) {
				bad(tags, "geometry", me, "center of cell " + to_string(i) + " in dimension " + to_string(d) + " is " + to_string(a[d]) + ", should be " + to_string(b[d]));
				return;
			}
		}
	}
	void check_levels(GridApi& x, const State& s) {
		for (const int i: {-1, int(s.levels.size())}) {
			if (!x.level_options(i).empty()) bad(bits(P14), "options", me, "non-existing hierarchical level " + to_string(i) + " has options");
		}
		for (size_t i = 0; i < s.levels.size(); i++) {
			const auto got = x.level_options(int(i));
			if (got != s.level_opts[i]) {
				string a, b;
				for (auto& o: got) a += " " + o.first + "=" + o.second;
				for (auto& o: s.level_opts[i]) b += " " + o.first + "=" + o.second;
				bad(bits(P14), "options", me, "options of hierarchical level " + to_string(i) + " are" + a + ", should be" + b);
			}
		}
	}
	// everything that is observable
	void check_all(GridApi& x, const State& s, bool structural) {
		const int kind = now().kind;
		const uint64_t base = base_tags();
		// owners of data and structure have separate properties
		uint64_t data = base, part_tags = 0;
		if (kind == k_commit) { data = (base & ~bit(P05)) | bits(P06); part_tags = bits(P05); }
		if (kind == k_balance) { data = (base & ~bit(P04)) | bits(P03); part_tags = bits(P03); }
		if (kind == k_load) part_tags = bits(P10);
		if (kind == k_create) part_tags = bits(P05, P10);
		if (kind == k_copy) part_tags = bits(P16);
		if (kind == k_save) data = bits(P10);
		if (kind == k_commit || kind == k_balance || kind == k_load) data &= ~bit(P02);
		if (data == 0) data = bits(P02);
		check_values(x, s, data);
		uint64_t gh = base;
		if (kind == k_update || kind == k_split) gh = base;
		else gh = bits(P01) | (kind == k_hood_add || kind == k_hood_del ? bit(P09) : 0) | (kind == k_save ? bit(P10) : 0);
		check_ghosts(x, s, gh);
		check_old(x, s);
		Rng& r = sim::rank_rng();
		if (structural || r.pm(60)) {
			check_partition(x, s, part_tags);
			const uint64_t sp = kind == k_load ? bits(P10) : kind == k_copy ? bits(P16) : 0;
			check_neighbors(x, s, sp | (kind == k_hood_add || kind == k_hood_del ? bit(P09) : 0));
			check_class(x, s, sp | (kind == k_hood_add || kind == k_hood_del ? bit(P09) : 0), kind == k_query || r.pm(300));
		}
		if (structural || kind == k_weight) check_weights(x, s);
	}

	// -------------------------------------------------- operations
	void expect_call(uint64_t tags, const Call& c, const char* what, bool got) {
		if (c.expect >= 0 && got != (c.expect != 0)) {
			bad(tags, "return-value", me, string(what) + " of cell " + to_string(c.cell) + " returned " + (got ? "true" : "false"));
		}
	}
	void do_calls(GridApi& x, const vector<Call>& calls) {
		for (const Call& c: calls) {
			switch (c.what) {
			case c_mutate: if (x.ptr(c.cell) != nullptr) x.put(c.cell, make_val(uint64_t(c.arg), c.cell)); break;
			case c_refine: expect_call(bits(P05), c, "refine_completely", x.refine(c.cell, c.at)); break;
			case c_unrefine: expect_call(bits(P05), c, "unrefine_completely", x.unrefine(c.cell, c.at)); break;
			case c_no_refine: expect_call(bits(P05), c, "dont_refine", x.dont_refine(c.cell)); break;
			case c_no_unrefine: expect_call(bits(P05), c, "dont_unrefine", x.dont_unrefine(c.cell, c.at)); break;
			case c_pin: expect_call(bits(P04), c, "pin", x.pin(c.cell, int(c.arg), c.d > 0)); break;
			case c_unpin: expect_call(bits(P04), c, "unpin", x.unpin(c.cell)); break;
			case c_unpin_local: expect_call(bits(P04), c, "unpin_local_cells", x.unpin_local()); break;
			case c_unpin_all: x.unpin_all(); break;
			case c_weight: expect_call(bits(P14), c, "set_cell_weight", x.set_weight(c.cell, c.d)); break;
			case c_opt: expect_call(bits(P14), c, "set_partitioning_option", x.option(c.name, c.value)); break;
			case c_level_add: expect_call(bits(P14), c, "add_partitioning_level", x.level_add(int(c.arg))); break;
			case c_level_del: x.level_del(int(c.arg)); break;
			case c_lopt: expect_call(bits(P14), c, "add_partitioning_option", x.level_option(int(c.arg), c.name, c.value)); break;
			case c_lopt_del: x.level_option_del(int(c.arg), c.name); break;
			}
			if (sim::rank_rng().pm(20)) sim::yield_point();
		}
	}
	Transfer& tr() { return transfers[size_t(sim::world_rank())]; }
	void enter_transfer(Transfer::Mode m, int stage, const Plan* p, int hood) {
		Transfer& t = tr();
		t.mode = m; t.stage = stage; t.hood = hood; t.rank = me; t.plan = p;
		t.before = p ? p->before.get() : nullptr;
	}
	void leave_transfer() { enter_transfer(Transfer::none, 0, nullptr, 0); }

	void must(bool ok, const char* what) {
		if (!ok) bad(base_tags(), "return-value", me, string(what) + " failed");
	}
	void op_update(GridApi& x, const Plan& p) {
		if (p.op.a[2] == 1) x.set_single(true);
		if (p.op.a[2] == 2) x.set_single(false);
		const bool v2 = p.cfg.variant == 2;
		for (int i = 1; i <= p.stages; i++) {
			enter_transfer(Transfer::update, v2 ? i : 0, &p, p.hood_id);
			must(x.update(p.hood_id, p.mode % 2 == 0), "update_copies_of_remote_neighbors");
		}
		leave_transfer();
	}
	void op_split(GridApi& x, const Plan& p) {
		if (p.op.a[2] == 1) x.set_single(true);
		if (p.op.a[2] == 2) x.set_single(false);
		const bool v2 = p.cfg.variant == 2;
		const int h = p.hood_id;
		if (p.stages == 2) {
			enter_transfer(Transfer::update, 1, &p, h);
			must(x.update(h, false), "update_copies_of_remote_neighbors");
		}
		enter_transfer(Transfer::update, v2 ? p.stages : 0, &p, h);
		const auto inner = [&] { sim::yield_point(); do_calls(x, p.inner[size_t(me)]); sim::yield_point(); };
		const auto late = [&] { do_calls(x, p.late[size_t(me)]); sim::yield_point(); };
		const auto received = [&] { check_ghosts(x, *p.after, base_tags()); };
		count(sim::c_staged);
		switch (p.mode % 5) {
		case 0:
			must(x.start(h), "start_remote_neighbor_copy_updates"); inner();
			must(x.wait(h), "wait_remote_neighbor_copy_updates"); received(); late();
			break;
		case 1:
			must(x.start_receives(h), "start_remote_neighbor_copy_receives");
			must(x.start_sends(h), "start_remote_neighbor_copy_sends"); inner();
			must(x.wait_receives(h), "wait_remote_neighbor_copy_update_receives"); received(); sim::yield_point();
			must(x.wait_sends(), "wait_remote_neighbor_copy_update_sends"); late();
			break;
		case 2:
			must(x.start_sends(h), "start_remote_neighbor_copy_sends"); sim::yield_point();
			must(x.start_receives(h), "start_remote_neighbor_copy_receives"); inner();
			must(x.wait_sends(), "wait_remote_neighbor_copy_update_sends"); late();
			must(x.wait_receives(h), "wait_remote_neighbor_copy_update_receives"); received();
			break;
		case 3:
			must(x.start_receives(h), "start_remote_neighbor_copy_receives"); inner();
			must(x.start_sends(h), "start_remote_neighbor_copy_sends");
			must(x.wait_sends(), "wait_remote_neighbor_copy_update_sends"); late();
			must(x.wait_receives(h), "wait_remote_neighbor_copy_update_receives"); received();
			break;
		default:
			must(x.start(h), "start_remote_neighbor_copy_updates"); inner();
			must(x.wait_sends(), "wait_remote_neighbor_copy_update_sends"); late();
			must(x.wait_receives(h), "wait_remote_neighbor_copy_update_receives"); received();
			break;
		}
		leave_transfer();
	}
	// something is done with another grid while an update of this one is in progress
	void op_both(GridApi& x, GridApi& y, const Plan& p) {
		const int h = p.hood_id;
		const Plan& q = *p.other;
		count(sim::c_staged);
		const auto inner = [&] { sim::yield_point(); do_calls(x, p.inner[size_t(me)]); sim::yield_point(); };
		Rng& r = sim::rank_rng();
		if (q.op.kind == k_update) {
			// in different order on each process
			const bool a = r.pm(500), b = r.pm(500);
			if (a) must(x.start(h), "start_remote_neighbor_copy_updates");
			must(y.start(q.hood_id), "start_remote_neighbor_copy_updates");
			if (!a) must(x.start(h), "start_remote_neighbor_copy_updates");
			inner();
			if (b) must(x.wait(h), "wait_remote_neighbor_copy_updates");
			must(y.wait(q.hood_id), "wait_remote_neighbor_copy_updates");
			if (!b) must(x.wait(h), "wait_remote_neighbor_copy_updates");
		} else {
			must(x.start(h), "start_remote_neighbor_copy_updates");
			inner();
			if (q.op.kind == k_commit) op_commit(y, q);
			else op_balance(y, q);
			must(x.wait(h), "wait_remote_neighbor_copy_updates");
		}
		do_calls(x, p.late[size_t(me)]);
		check_all(y, *q.after, q.op.kind != k_update);
	}
	void op_commit(GridApi& x, const Plan& p) {
		do_calls(x, p.calls[size_t(me)]);
		enter_transfer(Transfer::unrefine, 0, &p, 0);
		const bool so = p.op.seed % 2;
		auto fresh = x.stop_refining(so);
		leave_transfer();
		auto dead = x.removed(so);
		if (!so) { std::sort(fresh.begin(), fresh.end()); std::sort(dead.begin(), dead.end()); }
		const auto& wf = p.fresh[size_t(me)];
		const auto& wd = p.dead[size_t(me)];
		const vector<Cell> f(wf.begin(), wf.end()), d(wd.begin(), wd.end());
		if (fresh != f) bad(bits(P05), "new-cells", me, "new cells are " + show_set(fresh) + ", should be " + show_set(f) + diff(fresh, f));
		if (dead != d) bad(bits(P05, P06), "removed-cells", me, "removed cells are " + show_set(dead) + ", should be " + show_set(d) + diff(dead, d));
	}
	void op_create(GridApi& x, const Plan& p) {
		if (!p.expect) return;
		Rng& r = sim::rank_rng();
		vector<Cell> given(p.subset[size_t(me)].begin(), p.subset[size_t(me)].end());
		// others' cells are ignored
		const bool all = r.pm(300);
		for (const auto& i: p.after->t->owner) if (i.second != me && (all || r.pm(200))) given.push_back(i.first);
		for (size_t i = given.size(); i > 1; i--) std::swap(given[i - 1], given[r.below(i)]);
		if (x.overlapping_local(given) != p.subset[size_t(me)]) bad(bits(P10), "overlapping", me, "cells overlapping local ones are wrong");
		must(x.load_cells(given), "load_cells");
	}
	void check_difference(GridApi& x, const Plan& p) {
		const auto a = x.added(), b = x.gone();
		if (a != p.added[size_t(me)]) bad(bits(P03), "added-cells", me, "cells added by balancing are " + show_set(a) + ", should be " + show_set(p.added[size_t(me)]));
		if (b != p.gone[size_t(me)]) bad(bits(P03), "removed-cells", me, "cells removed by balancing are " + show_set(b) + ", should be " + show_set(p.gone[size_t(me)]));
	}
	// changes to partition can be queried after load balancing has been initialized
	void check_moves(GridApi& x, const Plan& p) {
#ifndef DCCRG_NO_LB
		for (int k = 0; k < 2; k++) {
			map<int, set<Cell>> want, got;
			size_t n = 0, all = 0;
			for (const Cell c: k ? p.added[size_t(me)] : p.gone[size_t(me)]) { want[k ? p.before->t->owner.at(c) : p.after->t->owner.at(c)].insert(c); all++; }
			for (const auto& i: k ? x.to_receive(def_hood) : x.to_send(def_hood)) for (const auto& j: i.second) { got[i.first].insert(j.first); n++; }
			if (got != want || n != all) bad(bits(P03), "transfer-list", me, string("cells to ") + (k ? "receive" : "send") + " when balancing load are wrong" + (got == want ? ": duplicates" : ""));
		}
#else
		(void) x; (void) p;
#endif
	}
	void op_balance(GridApi& x, const Plan& p) {
		part.plan = &p;
		part.called = 0;
		part.failed = false;
		sim::set_partitioner(&part);
		if (p.op.a[4] > 0) sim::allow_job_abort(true);
		const bool v2 = p.cfg.variant == 2;
		const auto survived = [&] {
			if (p.op.a[4] > 0 && part.failed) bad(bits(P03), "silent-failure", me, "load balancing went on although the partitioner failed");
		};
		enter_transfer(Transfer::balance, v2 ? 1 : 0, &p, 0);
		if (p.mode == 0) x.balance(p.zoltan);
		else {
			count(sim::c_staged);
			x.balance_init(p.zoltan);
			survived();
			check_difference(x, p);
			check_moves(x, p);
			for (int i = 0; i < p.stages; i++) {
				tr().stage = v2 ? i + 1 : 0;
				sim::yield_point();
				x.balance_continue();
			}
			check_difference(x, p);
			x.balance_finish();
		}
		leave_transfer();
		survived();
		if (p.op.a[4] > 0) sim::allow_job_abort(false);
#ifndef DCCRG_NO_LB
		if (p.zoltan && !part.called) bad(bits(P03, P14), "partitioner", me, "partitioner was not asked");
#endif
		sim::set_partitioner(nullptr);
	}

	// -------------------------------------------------- files
	static vector<uint8_t> header_bytes(const FileRec& f) {
		vector<uint8_t> h(static_cast<size_t>(f.header));
		for (size_t i = 0; i < h.size(); i++) h[i] = uint8_t(mix(uint64_t(f.op), i + 1));
		return h;
	}
	// one past last byte of a complete file
	static size_t file_end(const FileRec& f) {
		size_t n = size_t(f.offset + f.header) + grid_info(f.cfg).size() + 8 + 16 * f.cells.size();
		for (const auto& v: f.val) n += cell_bytes(f.cfg, v.second).size();
		return n;
	}
	static string file_name(const FileRec& f) { return "grid_" + to_string(f.op) + ".dc"; }
	static void append(vector<uint8_t>& v, const void* p, size_t n) { v.insert(v.end(), (const uint8_t*) p, (const uint8_t*) p + n); }
	template<class T> static void append(vector<uint8_t>& v, const T& x) { append(v, &x, sizeof x); }
	static vector<uint8_t> grid_info(const Config& c) {
		vector<uint8_t> r;
		append(r, uint64_t(0x1234567890abcdefull));
		for (int d = 0; d < 3; d++) append(r, uint64_t(c.dims[size_t(d)]));
		append(r, int(c.max_lvl));
		append(r, unsigned(c.hood));
		for (int d = 0; d < 3; d++) append(r, uint8_t(c.per[size_t(d)]));
		const Mapping m{c.dims, c.max_lvl};
		const double unit = double(1 << c.max_lvl);
		if (c.variant == 3) append(r, int(0));
		else if (c.variant == 2) {
			append(r, int(2));
			for (int d = 0; d < 3; d++) append(r, uint64_t(c.dims[size_t(d)] + 1));
			for (int d = 0; d < 3; d++) for (int i = 0; i <= c.dims[size_t(d)]; i++) {
				array<double, 3> at{{0, 0, 0}};
				at[size_t(d)] = i * unit;
				append(r, model_point(c, m, at)[size_t(d)]);
			}
		} else {
			append(r, int(1));
			const auto a = model_point(c, m, {{0, 0, 0}}), b = model_point(c, m, {{unit, unit, unit}});
			for (int d = 0; d < 3; d++) append(r, a[size_t(d)]);
			for (int d = 0; d < 3; d++) append(r, b[size_t(d)] - a[size_t(d)]);
		}
		return r;
	}
	static vector<uint8_t> cell_bytes(const Config& c, const Val& v) {
		vector<uint8_t> r;
		if (c.variant != 2) { for (int i = 0; i < 3; i++) append(r, v.f[size_t(i)]); return r; }
		append(r, v.f[0]); append(r, v.f[1]);
		const uint64_t n = Cell2::length(v.f[2]);
		append(r, n);
		for (size_t i = 0; i < n; i++) append(r, Cell2::item(v.f[2], i));
		return r;
	}
	// byte layout of a file that was written successfully
	void check_file(const Plan& p, const sim::Bytes& old) {
		const FileRec& f = p.file;
		const auto& b = sim::disk.files[file_name(f)];
		const uint64_t tg = bits(P11);
		const auto err = [&](const string& m) { bad(tg, "file-layout", me, "file: " + m); };
		std::unordered_set<uint64_t> used;
		size_t at = size_t(f.offset);
		const auto claim = [&](size_t from, size_t n) {
			if (from + n > b.size() || from + n < from) { err("ends at byte " + to_string(b.size()) + ", should have data at " + to_string(from) + "+" + to_string(n)); return false; }
			for (size_t i = from; i < from + n; i++) {
				if (!used.insert(i).second) { err("overlapping data at byte " + to_string(i)); return false; }
			}
			return true;
		};
		const auto expect = [&](size_t from, const vector<uint8_t>& w, const string& what) {
			if (!claim(from, w.size())) return false;
			for (size_t i = 0; i < w.size(); i++) if (b.get(from + i) != w[i]) { err(what + " is wrong at byte " + to_string(from + i)); return false; }
			return true;
		};
		if (!expect(at, header_bytes(f), "user's header")) return;
		at += size_t(f.header);
		const bool info = !(p.mode & 1), ids = !(p.mode & 2), offs = !(p.mode & 4);
		uint64_t n = f.cells.size();
		if (info) {
			auto gi = grid_info(f.cfg);
			append(gi, n);
			if (!expect(at, gi, "grid information")) return;
			at += gi.size();
		}
		const size_t rec = (ids ? 8 : 0) + (offs ? 8 : 0);
		const size_t data = at + n * rec;
		if (rec > 0 && !claim(at, n * rec)) return;
		set<Cell> seen;
		// processes in order of rank, any order of cells on each
		size_t pos = data, k = 0;
		for (int r = 0; r < size; r++) {
			set<Cell> todo = p.subset[size_t(r)];
			const size_t nr = todo.size();
			for (size_t i = 0; i < nr; i++, k++) {
				uint64_t id = 0, off = pos;
				if (ids) b.get(at + k * rec, &id, 8);
				if (offs) b.get(at + k * rec + (ids ? 8 : 0), &off, 8);
				if (offs && off != pos) { err("recorded start of data of cell number " + to_string(k) + " is " + to_string(off) + ", should be " + to_string(pos)); return; }
				Cell c = 0;
				if (ids) {
					if (!todo.count(id)) { err("lists cell " + to_string(id) + " at number " + to_string(k)); return; }
					c = id;
				} else {
					// identify by content
					for (const Cell t: todo) {
						const auto w = cell_bytes(f.cfg, f.val.at(t));
						vector<uint8_t> found(w.size());
						if (pos + w.size() <= b.size()) b.get(pos, found.data(), found.size());
						if (pos + w.size() <= b.size() && found == w) { c = t; break; }
					}
					if (c == 0) { err("data of cell number " + to_string(k) + " belongs to no cell of process " + to_string(r)); return; }
				}
				todo.erase(c);
				const auto w = cell_bytes(f.cfg, f.val.at(c));
				if (!expect(pos, w, "data of cell " + to_string(c))) return;
				pos += w.size();
			}
		}
		if (b.size() > std::max(old.size(), pos)) err("is longer than it should be: " + to_string(b.size()) + " instead of " + to_string(std::max(old.size(), pos)));
		if (b.size() < old.size()) err("was truncated");
		uint64_t wrong = ~uint64_t(0);
		const auto compare = [&](uint64_t i, uint8_t) { if (!used.count(i) && b.get(i) != old.get(i)) wrong = std::min(wrong, i); };
		b.each(compare);
		old.each(compare);
		if (wrong != ~uint64_t(0)) { err("byte " + to_string(wrong) + " was changed"); return; }
		count(sim::c_checks);
	}
	bool op_fault_fired(int index, bool only_mine) {
		for (const auto& f: sim::io_faults) if (f.fired && f.kind < sim::call_error && f.op == index && (!only_mine || f.rank == sim::world_rank())) return true;
		return false;
	}
	void op_save(GridApi& x, const Plan& p, int index, size_t file_index) {
		auto h = header_bytes(p.file);
		auto& res = sh->results[index];
		if (res.empty()) {
			res.assign(size_t(size), -1);
			// something else may be in the file already
			Rng r(mix(p.op.seed, 99));
			if (r.pm(500)) {
				auto& b = sim::disk.files[file_name(p.file)];
				const uint64_t from = p.file.offset > 4000 && r.pm(300) ? uint64_t(p.file.offset) - 1500 : 0;
				for (uint64_t n = r.below(3000), i = 0; i < n; i++) b.put(from + i, uint8_t(r.next()));
				sh->before_file[index] = b;
			}
		}
		vector<uint64_t> cells;
		if (p.mode & 8) {
			cells.assign(p.subset[size_t(me)].begin(), p.subset[size_t(me)].end());
			for (size_t i = cells.size(); i > 1; i--) std::swap(cells[i - 1], cells[sim::rank_rng().below(i)]);
			// all cells given as an empty list
			if (cells.size() == p.before->t->local[size_t(me)].size() && sim::rank_rng().pm(300)) cells.clear();
		}
		enter_transfer(Transfer::save, 0, &p, 0);
		const bool ok = x.save(file_name(p.file), p.file.offset, h, p.op.seed % 3 == 0, cells, p.mode & 7);
		leave_transfer();
		res[size_t(me)] = ok;
		if (op_fault_fired(index, false)) {
			count(sim::c_loud, ok ? 0 : 1);
			if (ok && op_fault_fired(index, true)) bad(bits(P12), "silent-io-error", me, "saving reported success although writing failed on this process");
		} else if (!ok && !now().faulty) bad(base_tags(), "return-value", me, "save_grid_data failed");
		for (int i = 0; i < size; i++) {
			if (res[size_t(i)] >= 0 && (res[size_t(i)] != 0) != ok) bad(bits(P12) | base_tags(), "split-verdict", me, string("saving ") + (ok ? "succeeded" : "failed") + " on this process but not on process " + to_string(i));
		}
		if (!ok) (*all_files)[file_index].loadable = false;
		if (ok && !op_fault_fired(index, false) && !sh->file_checked[index]) {
			sh->file_checked[index] = 1;
			check_file(p, sh->before_file[index]);
		}
	}
	// true if all processes loaded successfully
	bool op_load(GridApi& x, const Segment& seg, int index) {
		const FileRec& f = sh->from;
		x.know(f.cfg);
		const bool faulty = now().faulty;
		vector<uint8_t> h(size_t(f.header), 0xee);
		const bool typed = seg.load_mode % 3 == 1;
		const auto name = file_name(f);
		bool ok;
		enter_transfer(Transfer::load, f.cfg.variant == 2 ? 1 : 0, nullptr, 0);
		count(sim::c_loads);
		if (f.cfg.variant != 2 && seg.load_mode % 2 == 0) ok = x.load(name, f.offset, h, typed, comm, seg.cfg.method.c_str());
		else {
			count(sim::c_staged);
			ok = x.load_start(name, f.offset, h, typed, comm, seg.cfg.method.c_str());
			if (ok) { sim::yield_point(); ok = x.load_continue(); }
			if (ok && f.cfg.variant == 2) { tr().stage = 2; ok = x.load_continue(); }
			if (ok) ok = x.load_finish();
		}
		leave_transfer();
		if (!ok && !faulty) bad(base_tags(), "return-value", me, "loading failed");
		if (ok && faulty && op_fault_fired(index, true)) bad(bits(P12), "silent-io-error", me, "loading reported success although reading failed on this process");
		if (ok && seg.damage && seg.damage != 2) bad(bits(P12), "silent-damage", me, "loading reported success although the file is " + string(seg.damage == 1 ? "missing" : "damaged"));
		if (!ok) count(sim::c_loud);
		if (ok && h != header_bytes(f)) bad(bits(P10) | (faulty ? bit(P12) : 0), "header", me, "user's header differs after loading");
		// user code: go on only if everyone succeeded
		if (faulty) {
			uint64_t mine = ok, all = 0;
			MPI_Allreduce(&mine, &all, 1, MPI_UINT64_T, MPI_SUM, comm);
			if (ok && all != uint64_t(size)) {
				bad(bits(P12), "split-verdict", me, "loading succeeded on this process but not on all processes");
				check_values(x, sh->st, bits(P12));
				return false;
			}
			if (!ok) return false;
			if (seg.damage == 2) bad(bits(P12), "silent-damage", me, "loading reported success although the file is truncated");
			if (op_fault_fired(index, false)) count(sim::c_fault_survived);
		}
		return ok;
	}
	void op_badargs(GridApi& x, const Plan& p) {
		const Topo& t = *p.before->t;
		Rng r(mix(p.op.seed, 5));
		int h = int(r.below(50)) - 10;
		while (t.hoods.count(h)) h++;
		no_hood(x, t, h);
	}
	// everything is refused in a neighborhood that doesn't exist (anymore)
	void no_hood(GridApi& x, const Topo& t, int h) {
		const uint64_t tg = bits(P08, P09);
		const auto no = [&](bool v, const char* what) { if (v) bad(bits(P09), "bad-neighborhood", me, string(what) + " with non-existing neighborhood succeeded"); };
		no(x.update(h, false), "update_copies_of_remote_neighbors");
		no(x.start(h), "start_remote_neighbor_copy_updates");
		no(x.wait(h), "wait_remote_neighbor_copy_updates");
		no(x.start_receives(h), "start_remote_neighbor_copy_receives");
		no(x.start_sends(h), "start_remote_neighbor_copy_sends");
		no(x.wait_receives(h), "wait_remote_neighbor_copy_update_receives");
		if (!x.local_boundary(h, false).empty() || !x.remote_boundary(h, false).empty() || !x.cells({2}, false, h, false).empty()) bad(tg, "bad-neighborhood", me, "cells found in non-existing neighborhood");
		for (const Cell c: t.local[size_t(me)]) {
			if (x.neighbors_of(c, h) != nullptr || x.neighbors_to(c, h) != nullptr) bad(bits(P09), "bad-neighborhood", me, "neighbors found in non-existing neighborhood");
			break;
		}
		if (x.allocate(h)) bad(bits(P09), "bad-neighborhood", me, "copies of remote neighbors allocated in non-existing neighborhood");
		if (x.send_count(h) != ~uint64_t(0) || x.receive_count(h) != ~uint64_t(0)) bad(tg, "bad-neighborhood", me, "counts of cells given for non-existing neighborhood");
		for (int w = 0; w < 5; w++)
			if (x.iterable(w, h)) bad(tg, "bad-neighborhood", me, string(w == 0 ? "inner" : w == 1 ? "outer" : w == 2 ? "local" : w == 3 ? "remote" : "all") + "_cells() of non-existing neighborhood didn't throw");
	}

	void run_op(int k, int index) {
		const Step& step = sh->seg->steps[size_t(k)];
		const auto plan = sh->plans[size_t(k)];
		if (!plan) return;
		const Plan& p = *plan;
		const Op& op = p.op;
		GridApi& x = grid(op.grid);
		bool structural = false;
		if (now().faulty || now().calls) sim::allow_job_abort(true);
		switch (op.kind) {
		case k_mutate:
			do_calls(x, p.calls[size_t(me)]);
			if (sim::rank_rng().pm(100)) {
				// existing copies are kept
				auto h = p.after->t->hoods.begin();
				std::advance(h, long(sim::rank_rng().below(p.after->t->hoods.size())));
				if (!x.allocate(h->first)) bad(bits(P09), "return-value", me, "allocating copies of remote neighbors failed in neighborhood " + to_string(h->first));
			}
			break;
		case k_update: op_update(x, p); break;
		case k_split: op_split(x, p); break;
		case k_request: do_calls(x, p.calls[size_t(me)]); break;
		case k_commit: op_commit(x, p); structural = true; break;
		case k_create: op_create(x, p); structural = true; break;
		case k_balance: op_balance(x, p); structural = true; break;
		case k_pin: case k_weight: do_calls(x, p.calls[size_t(me)]); break;
		case k_options: do_calls(x, p.calls[size_t(me)]); check_levels(x, *p.after); break;
		case k_hood_add: {
			const bool ok = x.hood_add(p.hood_id, p.hood);
			if (ok != p.expect) bad(bits(P09), "return-value", me, string("add_neighborhood ") + (ok ? "accepted an invalid neighborhood" : "refused a valid neighborhood"));
			structural = true;
			break;
		}
		case k_hood_del:
			x.hood_del(p.hood_id);
			if (p.hood_id != def_hood) no_hood(x, *p.after->t, p.hood_id);
			structural = true;
			break;
		case k_save: {
			size_t fi = 0;
			for (size_t i = 0; i < all_files->size(); i++) if ((*all_files)[i].op == index) fi = i;
			op_save(x, p, index, fi);
			break;
		}
		case k_clear: {
			x.clear_data();
			if (!x.removed(false).empty()) bad(bits(P06), "removed-cells", me, "removed cells are still listed after clearing");
			for (int k = 0; k < 2; k++)
			for (const auto& i: k ? p.before->removed : p.before->refined) {
				if (p.before->t->owner.count(i.first)) continue;
				if (x.ptr(i.first) != nullptr) bad(bits(P06), "old-data", me, string("data of ") + (k ? "removed" : "refined") + " cell " + to_string(i.first) + " is still available after clearing");
			}
			break;
		}
		case k_copy:
			g[1] = g[0]->copy(op.a[0] != 0);
			check_all(*g[1], *p.copy_after, true);
			break;
		case k_helpers: {
			Rng r(mix(op.seed, 31));
			const string e = helpers_test(help, me, size, r, int(r.below(3)));
			if (!e.empty()) bad(bits(P17), "helper", me, e);
			break;
		}
		case k_query: structural = true; check_config(x, *p.after, bits(P02)); check_comm(x); break;
		case k_badargs: op_badargs(x, p); break;
		case k_both: op_both(x, grid(1 - op.grid), p); break;
		default: break;
		}
		if (now().faulty || now().calls) sim::allow_job_abort(false);
		if (call_failed(index)) count(sim::c_fault_survived);
		check_all(x, *p.after, structural);
		(void) step;
	}
};

// plans are resolved by the first process that gets to an operation
void ensure_plan(int k) {
	while (int(sh->plans.size()) <= k) {
		const size_t i = sh->plans.size();
		const Op& op = sh->seg->steps[i].op;
		const int index = sh->base + 1 + int(i);
		shared_ptr<Plan> p;
		if (op.grid == 1 && (!sh->has_copy || op.kind == k_copy)) p = nullptr;
		else if (op.kind == k_copy && (sh->st.t->cfg.variant != 1 || sh->st.t->hoods.size() > 1)) p = nullptr;
		else if (op.kind == k_both && !sh->has_copy) p = nullptr;
		else {
			State& s = op.grid ? sh->cp : sh->st;
			p = apply(s, op.kind == k_copy ? &sh->cp : op.kind == k_both ? (op.grid ? &sh->st : &sh->cp) : nullptr, op, index, *all_files);
			if (op.kind == k_copy) { sh->has_copy = true; p->copy_after = std::make_shared<State>(sh->cp); }
			if (op.kind == k_save) all_files->back().seg = sh->seg_index;
		}
		sh->plans.push_back(p);
	}
}

bool has_fault(const vector<Fault>& v, bool calls) {
	for (const auto& f: v) if ((f.kind >= sim::call_error) == calls) return true;
	return false;
}
void rank_body(const Segment& seg, int world) {
	Rank r;
	MPI_Request guard = MPI_REQUEST_NULL;
	uint64_t mail[4] = {0, 0, 0, 0};
	cur[size_t(world)] = Cur();
	transfers[size_t(world)] = Transfer();
	// traffic of user's own that must not get mixed with grid's
	if (seg.world > 1) MPI_Irecv(mail, 4, MPI_UINT64_T, MPI_ANY_SOURCE, MPI_ANY_TAG, MPI_COMM_WORLD, &guard);
	int me = -1;
	for (size_t i = 0; i < seg.members.size(); i++) if (seg.members[i] == world) me = int(i);
	if (me >= 0) {
		r.me = me;
		r.size = int(seg.members.size());
		r.comm = seg.direct ? MPI_COMM_WORLD : sim::make_comm(seg.members, 17);
		r.help = sim::make_comm(seg.members, 18);
		transfers[size_t(world)].rank = me;
		Cur& c = cur[size_t(world)];
		c.kind = sh->from.op >= 0 ? k_load : k_init;
		c.faulty = seg.damage != 0 || has_fault(seg.faults, false);
		c.calls = has_fault(seg.faults, true);
		sim::set_op(sh->base, c.kind);
		r.g[0] = make_grid(sh->st.t->cfg.variant);
		const auto u0 = sim::usage(world);
		bool go = true;
		if (c.kind == k_load) {
			if (c.faulty || c.calls) sim::allow_job_abort(true);
			go = r.op_load(*r.g[0], seg, sh->base);
		} else {
			if (c.calls) sim::allow_job_abort(true);
			r.g[0]->init(sh->st.t->cfg, r.comm, seg.order);
		}
		sim::allow_job_abort(false);
		const auto leak = [&](const sim::Usage& a) {
			const auto b = sim::usage(world);
			const bool kept = c.faulty || call_failed(); // nothing is promised about resources after a failure
			if (b.requests != a.requests) bad(bits(P13), "leaked-request", me, to_string(b.requests - a.requests) + " requests left behind");
			if (b.types != a.types && !kept) bad(bits(P13), "leaked-datatype", me, to_string(b.types - a.types) + " datatypes left behind");
			if (b.files != a.files && !kept) bad(bits(P13), "leaked-file", me, to_string(b.files - a.files) + " files left open");
		};
		leak(u0);
		if (go) {
			ensure_plan(-1);
			if (c.kind == k_load) r.check_config(*r.g[0], *sh->first, bits(P10));
			r.check_all(*r.g[0], *sh->first, true);
			sh->loaded = sh->from.op >= 0;
			for (int k = 0; k < int(seg.steps.size()) && k < sh->stop_at; k++) {
				sh->furthest = std::max(sh->furthest, k);
				ensure_plan(k);
				const auto plan = sh->plans[size_t(k)];
				if (!plan) continue;
				c = Cur{plan.get(), plan->op.kind, plan->op.grid, has_fault(seg.steps[size_t(k)].faults, false), has_fault(seg.steps[size_t(k)].faults, true)};
				sim::set_op(sh->base + 1 + k, c.kind);
				sim::log_event("op", uint64_t(k), uint64_t(c.kind));
				const auto u = sim::usage(world);
				r.run_op(k, sh->base + 1 + k);
				leak(u);
				count(sim::c_ops);
				sim::yield_point();
			}
		}
		sim::set_op(sh->base + 1 + int(seg.steps.size()), c.kind);
	}
	if (seg.world > 1) {
		uint64_t out[4] = {77, uint64_t(world), 5, 6};
		MPI_Send(out, 4, MPI_UINT64_T, (world + 1) % seg.world, 3, MPI_COMM_WORLD);
		MPI_Wait(&guard, MPI_STATUS_IGNORE);
		if (mail[0] != 77 || mail[1] != uint64_t((world + seg.world - 1) % seg.world) || mail[2] != 5 || mail[3] != 6) {
			sim::fail(bits(P13), "foreign-message", "user's own receive got a message of the grid");
		}
	}
}
} // namespace

Transfer& transfer() { return transfers[size_t(sim::world_rank())]; }

int transfer_called(uint64_t cell, uint64_t remembered, int sender, int receiver, bool receiving, int hood) {
	const Transfer& t = transfer();
	const int me = t.rank;
	const auto say = [&](const string& m) {
		bad(bits(P18), "transfer-context", me, m + " [cell " + to_string(cell) + " from " + to_string(sender) + " to " + to_string(receiver)
			+ (receiving ? " receiving" : " sending") + " neighborhood " + to_string(hood) + "]");
	};
	if (remembered != 0 && remembered != cell) say("data of cell " + to_string(remembered) + " asked to transfer another cell");
	count(sim::c_checks);
	switch (t.mode) {
	case Transfer::none: say("cell asked for datatype outside of any transfer"); return 7;
	case Transfer::update: {
		const auto& rc = t.before->t->recv.at(t.hood);
		if (hood != t.hood) say("wrong neighborhood, should be " + to_string(t.hood));
		if ((receiving ? receiver : sender) != me) say("wrong process or direction");
		const int n = t.before->t->size;
		if (sender < 0 || sender >= n || receiver < 0 || receiver >= n) say("process doesn't exist");
		else {
			const auto it = rc[size_t(receiver)].find(sender);
			if (it == rc[size_t(receiver)].end() || !it->second.count(cell)) say("cell is not part of this transfer");
		}
		return fields_mask(2, t.hood);
	}
	case Transfer::balance: {
		const auto& o = t.before->t->owner;
		const auto it = o.find(cell);
		if (it == o.end() || it->second != sender || t.plan->new_owner.at(cell) != receiver || sender == receiver) say("cell doesn't move like this");
		if ((receiving ? receiver : sender) != me) say("wrong process or direction");
		return 7;
	}
	case Transfer::unrefine: {
		const auto& o = t.before->t->owner;
		const auto it = o.find(cell);
		const auto rm = t.plan->after->removed.find(cell);
		if (it == o.end() || rm == t.plan->after->removed.end() || it->second != sender || rm->second.holder != receiver || sender == receiver) say("cell isn't transferred like this due to unrefinement");
		if ((receiving ? receiver : sender) != me) say("wrong process or direction");
		return fields_mask(2, -3);
	}
	case Transfer::save:
		if (sender != me || receiver != -1 || receiving) say("wrong arguments when saving");
		return 7;
	case Transfer::load:
		if (sender != -1 || receiver != me || !receiving) say("wrong arguments when loading");
		return 7;
	}
	return 7;
}

void run_trace(const Trace& t) {
	sim::policy = t.policy;
	sim::reset_all();
	static vector<FileRec> files;
	files.clear();
	all_files = &files;
	sim::op_tags = [](int) { return (sh && sim::world_rank() >= 0 && size_t(sim::world_rank()) < cur.size() ? base_tags() : 0) | bits(P13); };
	int base = 0;
	uint64_t h = 1;
	for (size_t i = 0; i < t.segs.size(); i++) {
		const Segment& seg = t.segs[i];
		Shared s;
		sh = &s;
		s.seg = &seg; s.seg_index = int(i); s.base = base;
		vector<size_t> good;
		for (size_t k = 0; k < files.size(); k++) if (files[k].loadable) good.push_back(k);
		if (seg.from >= 0) {
			if (good.empty()) { base += 1 + int(seg.steps.size()); continue; }
			s.from = files[good[size_t(seg.from) % good.size()]];
			s.st = loaded_state(s.from, int(seg.members.size()), seg.cfg.method);
			auto& b = sim::disk.files[Rank::file_name(s.from)];
			const size_t end = Rank::file_end(s.from);
			if (seg.damage == 1) sim::disk.files.erase(Rank::file_name(s.from));
			else if (seg.damage == 2) b.resize(std::min(b.size(), size_t(s.from.offset)) + size_t(seg.damage_arg) % std::max<size_t>(1, end - size_t(s.from.offset)));
			else if (seg.damage == 3) { const size_t at = size_t(s.from.offset + s.from.header) + size_t(seg.damage_arg) % 8; b.put(at, b.get(at) ^ 0x55); }
			if (seg.damage) for (auto& f: files) if (f.op == s.from.op) f.loadable = false;
		} else s.st = fresh_state(seg.cfg, int(seg.members.size()));
		s.first = std::make_shared<State>(s.st);
		cur.assign(size_t(seg.world), Cur());
		transfers.assign(size_t(seg.world), Transfer());
		sim::io_faults.clear();
		const auto arm = [&](const vector<Fault>& v, int op) {
			for (const auto& f: v) {
				sim::IoFault x;
				x.op = op; x.rank = f.rank % seg.world; x.nth = f.nth; x.kind = f.kind;
				sim::io_faults.push_back(x);
			}
		};
		arm(seg.faults, base);
		for (size_t k = 0; k < seg.steps.size(); k++) arm(seg.steps[k].faults, base + 1 + int(k));
		if (!seg.direct) count(sim::c_subcomm);
		const auto res = sim::run_job(seg.world, [&](int w) { rank_body(seg, w); }, seg.crash_at < 0 ? ~uint64_t(0) : uint64_t(seg.crash_at));
		if (res.completed) {
			const string l = sim::leftovers();
			if (!l.empty()) sim::fail(bits(P13), "leftovers", l);
		} else {
			// files of unfinished saves are undefined
			for (auto& f: files) if (f.seg == int(i)) {
				const auto& r = s.results[f.op];
				for (const int v: r) if (v != 1) f.loadable = false;
				if (r.empty()) f.loadable = false;
			}
		}
		h = mix(h, s.st.hash(), uint64_t(res.completed));
		base += 1 + int(seg.steps.size());
		sh = nullptr;
		if (sim::report->counters[sim::c_foreign] > 0) break;
	}
	sim::report->state_hash = h;
}
