#include "model.hpp"
#include <algorithm>
#include <cmath>

namespace model {
using sim::mix;
using sim::Rng;

const char* const op_names[] = {
	"none", "init", "mutate", "update", "split", "request", "commit", "balance", "pin",
	"weight", "hood_add", "hood_del", "save", "load", "copy", "clear", "helpers",
	"options", "query", "badargs", "both", "create"
};

uint64_t Mapping::first(int lvl) const {
	uint64_t r = 1, n = uint64_t(dims[0]) * dims[1] * dims[2];
	for (int i = 0; i < lvl; i++) { r += n; n *= 8; }
	return r;
}
Pos Mapping::pos(Cell c) const {
	for (int l = 0; l <= max_lvl; l++) {
		if (c >= first(l) && c < first(l + 1)) {
			const uint64_t i = c - first(l), nx = uint64_t(dims[0]) << l, ny = uint64_t(dims[1]) << l;
			const long len = 1l << (max_lvl - l);
			return {l, {{long(i % nx) * len, long(i / nx % ny) * len, long(i / nx / ny) * len}}, len};
		}
	}
	return {-1, {{0, 0, 0}}, 0};
}
Cell Mapping::id(int l, long x, long y, long z) const {
	const int s = max_lvl - l;
	const uint64_t nx = uint64_t(dims[0]) << l, ny = uint64_t(dims[1]) << l;
	return first(l) + uint64_t(x >> s) + uint64_t(y >> s) * nx + uint64_t(z >> s) * nx * ny;
}
Cell Mapping::parent(Cell c) const {
	const Pos p = pos(c);
	return p.lvl <= 0 ? 0 : id(p.lvl - 1, p.at[0], p.at[1], p.at[2]);
}
std::array<Cell, 8> Mapping::children(Cell c) const {
	const Pos p = pos(c);
	const long h = p.len / 2;
	std::array<Cell, 8> r;
	for (int i = 0; i < 8; i++) {
		r[i] = id(p.lvl + 1, p.at[0] + (i & 1) * h, p.at[1] + (i >> 1 & 1) * h, p.at[2] + (i >> 2) * h);
	}
	return r;
}

std::vector<Off> default_hood(int len) {
	if (len == 0) {
		return {{{0, 0, -1}}, {{0, -1, 0}}, {{-1, 0, 0}}, {{1, 0, 0}}, {{0, 1, 0}}, {{0, 0, 1}}};
	}
	std::vector<Off> r;
	for (int z = -len; z <= len; z++)
	for (int y = -len; y <= len; y++)
	for (int x = -len; x <= len; x++) {
		if (x || y || z) r.push_back({{x, y, z}});
	}
	return r;
}

bool Topo::wrap(std::array<long, 3>& p) const {
	for (int d = 0; d < 3; d++) {
		const long n = map.size(d);
		if (p[d] < 0 || p[d] >= n) {
			if (!cfg.per[d]) return false;
			p[d] = ((p[d] % n) + n) % n;
		}
	}
	return true;
}
Cell Topo::leaf_at(long x, long y, long z) const {
	if (!dense.empty()) return dense[x + map.size(0) * (y + map.size(1) * z)];
	for (int l = 0; l <= map.max_lvl; l++) {
		const Cell c = map.id(l, x, y, z);
		if (leaves.count(c)) return c;
	}
	sim::fatal(0, "model", "gap in reference model");
	return 0;
}

Topo::List Topo::list_of(Cell c, const std::vector<Off>& hood) const {
	List r;
	const Pos p = map.pos(c);
	for (const Off& o: hood) {
		std::array<long, 3> box, w;
		for (int d = 0; d < 3; d++) w[d] = box[d] = p.at[d] + o[d] * p.len;
		if (!wrap(w)) continue;
		const auto add = [&](long dx, long dy, long dz) {
			const Cell n = leaf_at(w[0] + dx, w[1] + dy, w[2] + dz);
			const Pos q = map.pos(n);
			Off off;
			const long add[3] = {dx, dy, dz};
			for (int d = 0; d < 3; d++) off[d] = int(box[d] + add[d] - (w[d] + add[d] - q.at[d]) - p.at[d]);
			r.push_back({n, off});
			return q.lvl;
		};
		const Cell n = leaf_at(w[0], w[1], w[2]);
		if (map.level(n) <= p.lvl) {
			add(0, 0, 0);
		} else {
			// every leaf in the box, in z order of half size boxes
			const long h = p.len / 2;
			for (int i = 0; i < 8; i++) add((i & 1) * h, (i >> 1 & 1) * h, (i >> 2) * h);
		}
	}
	return r;
}

std::set<Cell> Topo::region(Cell c) const {
	std::set<Cell> r;
	const Pos p = map.pos(c);
	for (const Off& o: hoods.at(def_hood)) {
		std::array<long, 3> w;
		for (int d = 0; d < 3; d++) w[d] = p.at[d] + o[d] * p.len;
		if (!wrap(w)) continue;
		add_leaves(r, w, p.len);
	}
	return r;
}
// all leaves in an aligned box
void Topo::add_leaves(std::set<Cell>& r, const std::array<long, 3>& w, long len) const {
	const Cell c = leaf_at(w[0], w[1], w[2]);
	const long h = len / 2;
	if (map.pos(c).len >= len) { r.insert(c); return; }
	for (int i = 0; i < 8; i++) add_leaves(r, {{w[0] + (i & 1) * h, w[1] + (i >> 1 & 1) * h, w[2] + (i >> 2) * h}}, h);
}
// all leaves that touch a square of given size, w is the closest smallest index outside
void Topo::add_face(std::set<std::pair<Cell, int>>& r, const std::array<long, 3>& w, int d, long len, int dir) const {
	const Cell c = leaf_at(w[0], w[1], w[2]);
	const long h = len / 2;
	if (map.pos(c).len >= len) { r.insert({c, dir}); return; }
	const int u = (d + 1) % 3, v = (d + 2) % 3;
	for (int i = 0; i < 4; i++) {
		auto q = w;
		q[u] += (i & 1) * h; q[v] += (i >> 1) * h;
		add_face(r, q, d, h, dir);
	}
}

std::set<Cell> Topo::around(Cell c) const {
	std::set<Cell> r;
	for (const auto& i: nof.at(def_hood).at(c)) r.insert(i.first);
	const auto& t = nto.at(def_hood).at(c);
	r.insert(t.begin(), t.end());
	return r;
}

void Topo::compute_hood(int id) {
	auto& of = nof[id];
	auto& to = nto[id];
	of.clear(); to.clear();
	auto& lb = lbound[id];
	auto& rb = rbound[id];
	auto& rc = recv[id];
	lb.assign(size, {}); rb.assign(size, {}); rc.assign(size, {});
	for (const auto& c: owner) to[c.first];
	for (const auto& c: owner) {
		auto& l = of[c.first] = list_of(c.first, hoods.at(id));
		for (const auto& n: l) {
			to[n.first].insert(c.first);
			const int a = c.second, b = owner.at(n.first);
			if (a != b) {
				lb[a].insert(c.first);
				lb[b].insert(n.first);
				rb[a].insert(n.first);
				rb[b].insert(c.first);
				rc[a][b].insert(n.first);
			}
		}
	}
}

void Topo::compute() {
	map.dims = cfg.dims;
	map.max_lvl = cfg.max_lvl;
	dense.clear();
	leaves.clear();
	local.assign(size, {});
	if (map.max_lvl <= 3) dense.assign(size_t(map.size(0)) * map.size(1) * map.size(2), 0);
	unsigned __int128 volume = 0;
	for (const auto& c: owner) {
		local[c.second].push_back(c.first);
		const Pos p = map.pos(c.first);
		if (dense.empty()) {
			leaves.insert(c.first);
			volume += (unsigned __int128)(p.len) * p.len * p.len;
			continue;
		}
		for (long z = 0; z < p.len; z++)
		for (long y = 0; y < p.len; y++)
		for (long x = 0; x < p.len; x++) {
			auto& i = dense[p.at[0] + x + map.size(0) * (p.at[1] + y + map.size(1) * (p.at[2] + z))];
			if (i != 0) sim::fatal(0, "model", "cells overlap in reference model");
			i = c.first;
		}
	}
	for (const auto i: dense) if (i == 0) sim::fatal(0, "model", "gap in reference model");
	if (dense.empty()) {
		if (volume != (unsigned __int128)(map.size(0)) * map.size(1) * map.size(2)) sim::fatal(0, "model", "volume of cells differs from grid in reference model");
		for (const Cell c: leaves) for (Cell q = map.parent(c); q; q = map.parent(q)) if (leaves.count(q)) sim::fatal(0, "model", "cells overlap in reference model");
	}
	nof.clear(); nto.clear(); lbound.clear(); rbound.clear(); recv.clear(); face.clear();
	for (const auto& h: hoods) compute_hood(h.first);
	for (const auto& c: owner) {
		auto& f = face[c.first];
		const Pos p = map.pos(c.first);
		for (int d = 0; d < 3; d++)
		for (int s = -1; s <= 1; s += 2) {
			std::array<long, 3> w = p.at;
			w[d] += s < 0 ? -1 : p.len;
			if (wrap(w)) add_face(f, w, d, p.len, s * (d + 1));
		}
	}
}

void State::reset_ghosts() {
	ghost.assign(t->size, {});
	Val u; u.f = {{unknown, unknown, unknown}};
	for (int r = 0; r < t->size; r++) {
		for (const Cell c: t->rbound.at(def_hood)[r]) ghost[r][c] = u;
	}
}

uint64_t State::hash() const {
	uint64_t h = 7;
	for (const auto& i: t->owner) h = mix(h, i.first, uint64_t(i.second));
	for (const auto& i: t->hoods) { h = mix(h, uint64_t(i.first)); for (auto& o: i.second) h = mix(h, uint64_t(o[0] * 49 + o[1] * 7 + o[2] + 999)); }
	for (const auto& i: pins) h = mix(h, i.first, uint64_t(i.second));
	for (const auto& i: weights) h = mix(h, i.first, uint64_t(i.second * 8));
	return h;
}

Val make_val(uint64_t seed, Cell c) {
	Val v;
	for (int i = 0; i < 3; i++) v.f[i] = (mix(seed, c, uint64_t(i)) >> 1) | 1;
	return v;
}

int fields_mask(int variant, int hood) {
	if (variant != 2) return 7;
	if (hood == def_hood) return 5;
	if (hood == -2) return 7;
	if (hood == -3) return 3;
	return hood % 2 != 0 ? 2 : 7;
}

State fresh_state(const Config& c, int size) {
	State s;
	auto t = std::make_shared<Topo>();
	t->cfg = c; t->size = size;
	t->hoods[def_hood] = default_hood(c.hood);
	const uint64_t total = uint64_t(c.dims[0]) * c.dims[1] * c.dims[2];
	const uint64_t per = total < uint64_t(size) ? 1 : (total + size - 1) / size, fewer = per * size - total;
	Cell id = 1;
	for (int p = 0; p < size; p++) {
		const uint64_t n = uint64_t(p) < fewer ? per - 1 : per;
		for (uint64_t i = 0; i < n; i++) t->owner[id++] = p;
	}
	t->compute();
	s.t = t;
	for (const auto& i: t->owner) s.val[i.first];
	s.newpins.resize(size);
	s.pend.resize(size);
	s.method = c.method;
	s.reset_ghosts();
	return s;
}

State loaded_state(const FileRec& f, int size, const std::string& method) {
	Config c = f.cfg;
	c.method = method;
	State s = fresh_state(c, size);
	auto t = std::make_shared<Topo>(*s.t);
	const auto level0 = t->owner;
	t->owner.clear();
	for (const Cell i: f.cells) {
		const Pos p = t->map.pos(i);
		t->owner[i] = level0.at(t->map.id(0, p.at[0], p.at[1], p.at[2]));
	}
	t->compute();
	s.t = t;
	s.val = f.val;
	s.reset_ghosts();
	return s;
}

namespace {

std::shared_ptr<Topo> change(const State& s) { return std::make_shared<Topo>(*s.t); }

int pick_hood(const State& s, long sel) {
	// 0 default, otherwise one of user's if any
	if (sel == 0 || s.t->hoods.size() == 1) return def_hood;
	std::vector<int> ids;
	for (const auto& h: s.t->hoods) if (h.first != def_hood) ids.push_back(h.first);
	return ids[size_t(sel - 1) % ids.size()];
}

// some id that no cell has: parent, child, out of range or error cell
Cell bogus_cell(const State& s, Rng& r) {
	const auto& m = s.t->map;
	std::vector<Cell> cand{0, m.last() + 1, m.last() + 1 + r.below(1000)};
	for (int i = 0; i < 3 && !s.t->owner.empty(); i++) {
		auto it = s.t->owner.begin();
		std::advance(it, long(r.below(s.t->owner.size())));
		const Cell p = m.parent(it->first);
		if (p) cand.push_back(p);
		if (m.level(it->first) < m.max_lvl) cand.push_back(m.children(it->first)[r.below(8)]);
	}
	return cand[r.below(cand.size())];
}
Cell remote_cell(const State& s, int rank, Rng& r) {
	for (int i = 0; i < 5; i++) {
		const int o = int(r.below(uint64_t(s.t->size)));
		if (o == rank || s.t->local[o].empty()) continue;
		return s.t->local[o][r.below(s.t->local[o].size())];
	}
	return 0;
}

void do_request(State& s, Plan& p, Rng& r) {
	const auto& t = *s.t;
	const Op& op = p.op;
	const int pm_ref = int(op.a[0]), pm_unref = int(op.a[1]), pm_dont = int(op.a[2]), pm_donu = int(op.a[3]);
	const int pm_bad = int(op.a[4]);
	const size_t limit = op.a[5] > 0 ? size_t(op.a[5]) : 300;
	// upper bound of resulting cells
	size_t cells = t.owner.size();
	// only the cell in one corner of the grid
	Cell corner = 0;
	if (pm_ref < -8) {
		// one of the smallest cells, needs the largest number of other refinements
		int deepest = 0;
		for (const auto& i: t.owner) if (t.map.level(i.first) < t.cfg.max_lvl) deepest = std::max(deepest, t.map.level(i.first));
		std::vector<Cell> small;
		for (const auto& i: t.owner) if (t.map.level(i.first) == deepest) small.push_back(i.first);
		if (!small.empty()) corner = small[r.below(small.size())];
	} else if (pm_ref < 0) {
		std::array<long, 3> w;
		for (int d = 0; d < 3; d++) w[d] = (-1 - pm_ref) >> d & 1 ? t.map.size(d) - 1 : 0;
		corner = t.leaf_at(w[0], w[1], w[2]);
	}
	const bool everything = pm_ref >= 1000 && 8 * cells <= 2 * limit;
	for (int rank = 0; rank < t.size; rank++) {
		auto& pend = s.pend[rank];
		std::vector<Call> calls;
		std::vector<Cell> local = t.local[rank];
		for (size_t i = local.size(); i > 1; i--) std::swap(local[i - 1], local[r.below(i)]);
		for (const Cell c: local) {
			const int lvl = t.map.level(c);
			const bool at = r.pm(150);
			if (corner ? c == corner : r.pm(pm_ref) && (everything || cells + 7 * 8 < limit)) {
				calls.push_back({c_refine, c, 0, 0, 1, at});
				if (lvl < t.cfg.max_lvl) cells += 7 * (lvl > 0 && !everything ? 4 : 1);
			}
			if (lvl > 0 && r.pm(pm_unref)) calls.push_back({c_unrefine, c, 0, 0, 1, at});
			if (r.pm(pm_dont)) calls.push_back({c_no_refine, c, 0, 0, 1, false});
			if (r.pm(pm_donu)) calls.push_back({c_no_unrefine, c, 0, 0, 1, at});
			if (r.pm(pm_bad)) {
				Cell b = r.pm(400) ? remote_cell(s, rank, r) : bogus_cell(s, r);
				const int what = int(r.below(4));
				if (t.owner.count(b) && what >= 2) b = bogus_cell(s, r);
				calls.push_back({what == 0 ? c_refine : what == 1 ? c_unrefine : what == 2 ? c_no_refine : c_no_unrefine, b, 0, 0, 0, false});
			}
		}
		// order matters only locally
		for (size_t i = calls.size(); i > 1; i--) std::swap(calls[i - 1], calls[r.below(i)]);
		for (Call& c: calls) {
			if (c.expect == 0) continue;
			const int lvl = t.map.level(c.cell);
			switch (c.what) {
			case c_refine:
				if (lvl == t.cfg.max_lvl) {
					if (lvl > 0) pend.no_unrefine.insert(c.cell);
					break;
				}
				{
				bool refused = pend.no_refine.count(c.cell) + s.vetoes.count(c.cell) > 0;
				for (const auto& n: t.nof.at(def_hood).at(c.cell)) {
					if (t.map.level(n.first) < lvl && pend.no_refine.count(n.first) + s.vetoes.count(n.first) > 0) refused = true;
				}
				if (refused) c.expect = 0;
				else pend.refine.insert(c.cell);
				}
				break;
			case c_unrefine:
				if (lvl == 0) break;
				{
				bool leaves = true, other = false;
				for (const Cell b: t.map.children(t.map.parent(c.cell))) {
					if (!t.owner.count(b)) leaves = false;
					if (pend.refine.count(b) || pend.no_unrefine.count(b)) other = true;
				}
				if (leaves) pend.unrefine.insert(c.cell);
				else c.expect = other ? -1 : 0;
				}
				break;
			case c_no_refine:
				if (lvl < t.cfg.max_lvl) {
					pend.no_refine.insert(c.cell);
					if (pend.refine.erase(c.cell)) pend.withdrawn.insert(c.cell);
				}
				break;
			case c_no_unrefine:
				if (lvl > 0) pend.no_unrefine.insert(c.cell);
				break;
			}
		}
		p.calls[rank] = calls;
	}
}

void do_commit(State& s, Plan& p, Rng& r) {
	const Topo& t = *s.t;
	std::set<Cell> req, donts = s.vetoes, unref, donu;
	for (int i = 0; i < t.size; i++) {
		const auto& q = s.pend[i];
		req.insert(q.refine.begin(), q.refine.end());
		unref.insert(q.unrefine.begin(), q.unrefine.end());
		donts.insert(q.no_refine.begin(), q.no_refine.end());
		donu.insert(q.no_unrefine.begin(), q.no_unrefine.end());
	}
	// cells finer than a cell that can't be refined can't be refined either
	std::vector<Cell> work(donts.begin(), donts.end());
	while (!work.empty()) {
		const Cell c = work.back(); work.pop_back();
		if (!t.owner.count(c)) continue;
		for (const Cell n: t.around(c)) {
			if (t.map.level(n) > t.map.level(c) && donts.insert(n).second) work.push_back(n);
		}
	}
	std::set<Cell> ref, vetoed;
	for (const Cell c: req) {
		if (donts.count(c)) vetoed.insert(c);
		else if (ref.insert(c).second) work.push_back(c);
	}
	// the number of cells the user asked for is bounded by dropping nothing
	while (!work.empty()) {
		const Cell c = work.back(); work.pop_back();
		for (const Cell n: t.around(c)) {
			if (t.map.level(n) < t.map.level(c) && ref.insert(n).second) {
				work.push_back(n);
				sim::count(sim::c_induced);
			}
		}
	}
	// Unspecified: a request to merge that met a refine request which is later
	// vetoed. Prevent such a merge explicitly so that the outcome is defined.
	std::set<Cell> families;
	for (const Cell c: unref) families.insert(t.map.parent(c));
	for (const Cell f: families) {
		std::set<Cell> near = t.region(f);
		for (const Cell c: t.map.children(f)) {
			near.insert(c);
			for (const Cell n: t.around(c)) near.insert(n);
		}
		bool bad = false;
		for (const Cell v: vetoed) if (near.count(v)) bad = true;
		for (const auto& q: s.pend) for (const Cell v: q.withdrawn) if (near.count(v)) bad = true;
		if (bad) {
			sim::count(sim::c_dropped_unref);
			for (const Cell c: t.map.children(f)) {
				p.calls[t.owner.at(c)].push_back({c_no_unrefine, c, 0, 0, 1, false});
				donu.insert(c);
			}
		}
	}
	std::set<Cell> merge;
	for (const Cell f: families) {
		bool ok = true;
		const int lvl = t.map.level(f) + 1;
		for (const Cell c: t.map.children(f)) if (ref.count(c) || donu.count(c)) ok = false;
		if (ok) for (const Cell n: t.region(f)) {
			if (t.map.level(n) > lvl || (t.map.level(n) == lvl && ref.count(n))) { ok = false; break; }
		}
		if (ok) merge.insert(f);
	}
	auto n = change(s);
	s.refined.clear();
	s.removed.clear();
	p.fresh.assign(t.size, {});
	p.dead.assign(t.size, {});
	for (const Cell c: ref) {
		sim::count(sim::c_refined);
		const int o = t.owner.at(c);
		n->owner.erase(c);
		s.refined[c] = {o, s.val.at(c)};
		s.val.erase(c);
		const bool pinned = s.pins.count(c);
		const int pin = pinned ? s.pins.at(c) : 0;
		s.pins.erase(c);
		const bool weighed = s.weights.count(c);
		const double weight = weighed ? s.weights.at(c) : 0;
		s.weights.erase(c);
		for (const Cell k: t.map.children(c)) {
			n->owner[k] = o;
			s.val[k] = Val();
			p.fresh[o].insert(k);
			if (pinned) s.pins[k] = pin;
			if (weighed) s.weights[k] = weight;
		}
		for (auto& np: s.newpins) {
			const auto it = np.find(c);
			if (it == np.end()) continue;
			const int v = it->second;
			np.erase(it);
			for (const Cell k: t.map.children(c)) np[k] = v;
		}
	}
	for (const Cell f: merge) {
		sim::count(sim::c_unrefined);
		const auto kids = t.map.children(f);
		const int o = t.owner.at(kids[0]);
		for (const Cell k: kids) {
			Val v = s.val.at(k);
			if (t.owner.at(k) != o) {
				sim::count(sim::c_remote_unref);
				const int mask = fields_mask(t.cfg.variant, -3);
				for (int i = 0; i < 3; i++) if (!(mask >> i & 1)) v.f[i] = unknown;
			}
			s.removed[k] = {o, v};
			s.val.erase(k);
			n->owner.erase(k);
			p.dead[o].insert(k);
			s.pins.erase(k);
			s.weights.erase(k);
			for (auto& np: s.newpins) np.erase(k);
		}
		n->owner[f] = o;
		s.val[f] = Val();
	}
	n->compute();
	s.t = n;
	s.reset_ghosts();
	s.vetoes = donts;
	for (auto& q: s.pend) q = Pending();
	(void) r;
}

// load_cells(): cells of a whole grid at once starting from ones of refinement level 0
void do_create(State& s, Plan& p, Rng& r) {
	p.expect = false;
	const Mapping map = s.t->map;
	if (map.max_lvl == 0 || !s.vetoes.empty()) return;
	for (const auto& i: s.t->owner) if (map.level(i.first) > 0) return;
	for (const auto& q: s.pend) if (!q.refine.empty() || !q.unrefine.empty() || !q.no_refine.empty() || !q.no_unrefine.empty() || !q.withdrawn.empty()) return;
	p.expect = true;
	const auto refine = [&](State& x, const std::set<Cell>& cells) {
		for (const Cell c: cells) x.pend[size_t(x.t->owner.at(c))].refine.insert(c);
		Plan scratch;
		scratch.calls.resize(size_t(x.t->size));
		do_commit(x, scratch, r);
		x.refined.clear();
		x.removed.clear();
	};
	State wanted = s;
	int pm = int(p.op.a[0]);
	for (int lvl = 0; lvl < map.max_lvl; lvl++) {
		std::set<Cell> cells;
		size_t room = size_t(p.op.a[5]) > wanted.t->owner.size() ? (size_t(p.op.a[5]) - wanted.t->owner.size()) / 8 : 0;
		for (const auto& i: wanted.t->owner) if (cells.size() < room && map.level(i.first) == lvl && r.pm(pm)) cells.insert(i.first);
		if (cells.empty()) break;
		refine(wanted, cells);
		pm = pm / 2 + 20;
	}
	p.subset.assign(size_t(s.t->size), {});
	std::vector<std::set<Cell>> above(size_t(map.max_lvl), std::set<Cell>{});
	for (const auto& i: wanted.t->owner) {
		p.subset[size_t(i.second)].insert(i.first);
		for (Cell c = i.first; map.level(c) > 0; ) {
			c = map.parent(c);
			above[size_t(map.level(c))].insert(c);
		}
	}
	for (const auto& cells: above) if (!cells.empty()) refine(s, cells);
	// as if the last round had refined something, old data isn't kept
	s.refined.clear();
	s.removed.clear();
}

void do_balance(State& s, Plan& p, Rng& r) {
	const Topo& t = *s.t;
	const int style = int(p.op.a[2]), pm = int(p.op.a[3]);
	p.zoltan = p.op.a[0] != 0;
	p.mode = int(p.op.a[1]);   // 0 one call, n three-phase with n - 1 transfers
	p.stages = p.mode == 0 ? 1 : p.mode - 1;
	if (t.cfg.variant == 2) { if (p.mode == 0) p.mode = 3; p.stages = p.mode == 1 ? 0 : 2; }
	for (int i = 0; i < t.size; i++) {
		for (const auto& q: s.newpins[i]) {
			if (q.second < 0) s.pins.erase(q.first);
			else s.pins[q.first] = q.second;
		}
		s.newpins[i].clear();
	}
#ifdef DCCRG_NO_LB
	// calls are there but do nothing
	p.added.assign(t.size, {});
	p.gone.assign(t.size, {});
	for (const auto& c: t.owner) p.new_owner[c.first] = c.second;
	return;
#endif
	const bool none = s.method == "NONE";
	const int all_to = int(r.below(uint64_t(t.size)));
	size_t index = 0;
	for (const auto& c: t.owner) {
		int to = c.second;
		switch (style) {
		case 0: if (r.pm(pm)) to = int(r.below(uint64_t(t.size))); break;
		case 1: to = all_to; break;
		case 2: to = int(index * size_t(t.size) / t.owner.size()); break;
		case 3: to = (c.second + 1) % t.size; break;
		case 4: if (r.pm(pm)) to = all_to; break;
		case 5: to = int(index % size_t(t.size)); break;
		default: break;
		}
		index++;
		if (!none && p.zoltan) p.target[c.first] = to;
		else to = c.second;
		if (s.pins.count(c.first)) to = s.pins.at(c.first);
		p.new_owner[c.first] = to;
	}
	auto n = change(s);
	p.added.assign(t.size, {});
	p.gone.assign(t.size, {});
	for (const auto& c: t.owner) {
		const int to = p.new_owner.at(c.first);
		if (to == c.second) continue;
		sim::count(sim::c_moved);
		p.added[to].insert(c.first);
		p.gone[c.second].insert(c.first);
		n->owner[c.first] = to;
		Val& v = s.val[c.first];
		if (p.stages == 0) v = Val();
	}
	n->compute();
	for (int i = 0; i < n->size; i++) if (n->local[i].empty()) sim::count(sim::c_empty_rank);
	s.t = n;
	s.reset_ghosts();
	s.refined.clear();
	s.removed.clear();
	s.weights.clear();
	s.vetoes.clear();
	for (auto& q: s.pend) q = Pending();
}

void do_pin(State& s, Plan& p, Rng& r) {
	const Topo& t = *s.t;
	const int pm = int(p.op.a[0]), pm_un = int(p.op.a[1]), pm_bad = int(p.op.a[2]);
	if (p.op.a[3] == 1) {
		// collective
		s.pins.clear();
		for (auto& q: s.newpins) q.clear();
		for (auto& c: p.calls) c.push_back({c_unpin_all, 0, 0, 0, 1, false});
		return;
	}
	for (int rank = 0; rank < t.size; rank++) {
		auto& np = s.newpins[rank];
		auto& calls = p.calls[rank];
		if (p.op.a[3] == 2 && r.pm(500)) {
			for (const Cell c: t.local[rank]) np[c] = -1;
			calls.push_back({c_unpin_local, 0, 0, 0, 1, false});
		}
		const int rounds = r.pm(300) ? 2 : 1;
		for (int k = 0; k < rounds; k++)
		for (const Cell c: t.local[rank]) {
			if (r.pm(pm)) {
				const int to = r.pm(300) ? rank : int(r.below(uint64_t(t.size)));
				calls.push_back({c_pin, c, to, to == rank && r.pm(500) ? 1.0 : 0.0, 1, false});
				np[c] = to;
				sim::count(sim::c_pins);
			}
			if (r.pm(pm_un)) {
				calls.push_back({c_unpin, c, 0, 0, 1, false});
				np[c] = -1;
			}
			if (r.pm(pm_bad)) {
				const int w = int(r.below(5));
				if (w == 0) calls.push_back({c_pin, c, -1 - long(r.below(3)), 0, 0, false});
				else if (w == 1) calls.push_back({c_pin, c, t.size + long(r.below(3)), 0, 0, false});
				else {
					const Cell b = w == 2 ? bogus_cell(s, r) : remote_cell(s, rank, r);
					if (r.pm(500)) calls.push_back({c_pin, b, long(r.below(uint64_t(t.size))), 0, 0, false});
					else calls.push_back({c_unpin, b, 0, 0, 0, false});
				}
			}
		}
	}
}

void do_weight(State& s, Plan& p, Rng& r) {
	const Topo& t = *s.t;
	for (int rank = 0; rank < t.size; rank++) {
		for (const Cell c: t.local[rank]) {
			if (r.pm(int(p.op.a[0]))) {
				const double w = r.pm(30) ? 0 : r.pm(30) ? double(r.below(1u << 20)) : double(1 + r.below(64)) / 8;
				p.calls[rank].push_back({c_weight, c, 0, w, 1, false});
				s.weights[c] = w;
			}
			if (r.pm(int(p.op.a[1]))) {
				const Cell b = r.pm(500) ? remote_cell(s, rank, r) : bogus_cell(s, r);
				p.calls[rank].push_back({c_weight, b, 0, 3, 0, false});
			}
		}
	}
}

void do_hood_add(State& s, Plan& p, Rng& r) {
	const Topo& t = *s.t;
	const int len = t.cfg.hood, reach = std::max(1, len);
	int id = int(p.op.a[0]);
	const int bad = int(p.op.a[1]); // 0 valid
	std::set<Off> seen;
	const bool many = r.pm(100);
	const int n = many ? 40 : r.pm(100) ? 0 : 1 + int(r.below(6));
	std::vector<Off> all = default_hood(len);
	for (int i = 0; i < n; i++) {
		const Off o = all[r.below(all.size())];
		if (seen.insert(o).second) p.hood.push_back(o);
	}
	bool ok = true;
	if (bad == 1) { id = def_hood; ok = false; }
	if (bad == 2) {
		Off o{{0, 0, 0}};
		o[r.below(3)] = (reach + 1) * (r.pm(500) ? 1 : -1);
		p.hood.insert(p.hood.begin() + long(r.below(p.hood.size() + 1)), o);
		ok = false;
	}
	if (bad == 3) { p.hood.insert(p.hood.begin() + long(r.below(p.hood.size() + 1)), Off{{0, 0, 0}}); ok = false; }
	if (bad == 4 && len == 0) { p.hood.push_back({{1, -1, 0}}); ok = false; }
	if (t.hoods.count(id)) ok = false;
	p.hood_id = id;
	p.expect = ok;
	if (!ok) return;
	sim::count(sim::c_hoods);
	auto c = change(s);
	c->hoods[id] = p.hood;
	c->compute_hood(id);
	s.t = c;
}

void do_hood_del(State& s, Plan& p) {
	p.hood_id = int(p.op.a[0]);
	if (p.hood_id == def_hood || !s.t->hoods.count(p.hood_id)) return;
	auto c = change(s);
	c->hoods.erase(p.hood_id);
	c->nof.erase(p.hood_id);
	c->nto.erase(p.hood_id);
	c->lbound.erase(p.hood_id);
	c->rbound.erase(p.hood_id);
	c->recv.erase(p.hood_id);
	s.t = c;
}

void do_update(State& s, Plan& p, Rng& r, bool split) {
	const Topo& t = *s.t;
	p.hood_id = pick_hood(s, p.op.a[0]);
	p.mode = int(p.op.a[1]);
	p.mask = uint64_t(fields_mask(t.cfg.variant, p.hood_id));
	p.stages = t.cfg.variant == 2 && (p.mask & 4) ? 2 : 1;
	for (int rank = 0; rank < t.size; rank++) {
		for (const auto& snd: t.recv.at(p.hood_id)[rank]) {
			for (const Cell c: snd.second) {
				sim::count(sim::c_ghosts);
				Val& g = s.ghost[rank][c];
				const Val& v = s.val.at(c);
				for (int i = 0; i < 3; i++) if (p.mask >> i & 1) g.f[i] = v.f[i];
			}
		}
	}
	if (!split) return;
	p.inner.assign(t.size, {});
	p.late.assign(t.size, {});
	const int pm = int(p.op.a[3]);
	for (int rank = 0; rank < t.size; rank++) {
		for (const Cell c: t.local[rank]) {
			if (!r.pm(pm)) continue;
			const uint64_t seed = r.next() >> 1;
			if (t.lbound.at(p.hood_id)[rank].count(c)) p.late[rank].push_back({c_mutate, c, long(seed), 0, 1, false});
			else p.inner[rank].push_back({c_mutate, c, long(seed), 0, 1, false});
			s.val[c] = make_val(seed, c);
		}
	}
}

void do_save(State& s, Plan& p, Rng& r, int index, std::vector<FileRec>& files) {
	const Topo& t = *s.t;
	FileRec& f = p.file;
	f.op = index;
	f.offset = p.op.a[0];
	f.header = p.op.a[1];
	p.mode = int(p.op.a[2]); // bit 0 no grid info, 1 no ids, 2 no offsets, 3 subset
	f.cfg = t.cfg;
	p.subset.assign(t.size, {});
	const bool sub = p.mode & 8;
	for (const auto& c: t.owner) {
		if (sub && r.pm(400)) continue;
		p.subset[c.second].insert(c.first);
	}
	for (int i = 0; i < t.size; i++) {
		// an empty list means all cells
		if (p.subset[i].empty()) p.subset[i].insert(t.local[i].begin(), t.local[i].end());
		for (const Cell c: p.subset[i]) {
			f.cells.insert(c);
			f.val[c] = s.val.at(c);
		}
	}
	f.loadable = (p.mode & 15) == 0;
	files.push_back(f);
	sim::count(sim::c_saves);
}

void do_options(State& s, Plan& p, Rng& r) {
	// identical on all processes
	static const char* const names[] = {"IMBALANCE_TOL", "PHG_CUT_OBJECTIVE", "LB_METHOD", "RCB_OUTPUT_LEVEL", "CHECK_GRAPH", "REMAP"};
	static const char* const reserved[] = {
		"EDGE_WEIGHT_DIM", "NUM_GID_ENTRIES", "NUM_LID_ENTRIES", "OBJ_WEIGHT_DIM",
		"RETURN_LISTS", "NUM_GLOBAL_PARTS", "NUM_LOCAL_PARTS", "AUTO_MIGRATE"
	};
	static const char* const methods[] = {"RCB", "RIB", "HSFC", "GRAPH", "HYPERGRAPH", "HIER", "RANDOM"};
	const int n = 1 + int(r.below(5));
	for (int i = 0; i < n; i++) {
		Call c;
		const bool bad = r.pm(int(p.op.a[0]));
		std::string name = names[r.below(6)], value = name == "LB_METHOD" ? methods[r.below(7)] : std::to_string(r.below(9));
		if (bad) name = reserved[r.below(8)];
		const int level = int(r.below(s.levels.size() + 2)) - (r.pm(100) ? 2 : 0);
		const bool exists = level >= 0 && level < int(s.levels.size());
		c.arg = level;
		switch (r.below(5)) {
		case 0:
			c.what = c_opt; c.expect = !bad;
			if (!bad) {
				s.params[name] = value;
				if (name == "LB_METHOD") s.method = value;
			}
			break;
		case 1:
			c.what = c_level_add;
			c.arg = bad ? -long(r.below(3)) : 1 + long(r.below(4));
			c.expect = !bad;
			if (!bad) {
				s.levels.push_back(int(c.arg));
				s.level_opts.push_back({{"LB_METHOD", "HYPERGRAPH"}, {"PHG_CUT_OBJECTIVE", "CONNECTIVITY"}});
			}
			break;
		case 2:
			c.what = c_level_del;
			if (exists) {
				s.levels.erase(s.levels.begin() + level);
				s.level_opts.erase(s.level_opts.begin() + level);
			}
			break;
		case 3:
			c.what = c_lopt;
			if (exists) {
				c.expect = !bad;
				if (!bad) s.level_opts[size_t(level)][name] = value;
			} else if (bad) c.expect = -1;
			break;
		default:
			c.what = c_lopt_del;
			if (exists) s.level_opts[size_t(level)].erase(name);
			break;
		}
		c.name = name; c.value = value;
		for (auto& l: p.calls) l.push_back(c);
	}
}

// without load balancing requests are refused
void do_pin_(State& s, Plan& p, Rng& r) {
#ifdef DCCRG_NO_LB
	const State before = s;
	do_pin(s, p, r);
	s = before;
	for (auto& i: p.calls) for (auto& c: i) if (c.what != c_unpin_all) c.expect = 0;
#else
	do_pin(s, p, r);
#endif
}
void do_options_(State& s, Plan& p, Rng& r) {
#ifdef DCCRG_NO_LB
	const State before = s;
	do_options(s, p, r);
	s = before;
	for (auto& i: p.calls) for (auto& c: i) c.expect = 1;
#else
	do_options(s, p, r);
#endif
}


} // namespace

std::shared_ptr<Plan> apply(State& s, State* copy, const Op& op, int index, std::vector<FileRec>& files) {
	auto p = std::make_shared<Plan>();
	p->op = op;
	p->cfg = s.t->cfg;
	p->calls.assign(s.t->size, {});
	p->before = std::make_shared<State>(s);
	Rng r(mix(op.seed, uint64_t(op.kind)));
	switch (op.kind) {
	case k_mutate:
		for (int rank = 0; rank < s.t->size; rank++) {
			for (const Cell c: s.t->local[rank]) {
				if (!r.pm(int(op.a[0]))) continue;
				const uint64_t seed = r.next() >> 1;
				p->calls[rank].push_back({c_mutate, c, long(seed), 0, 1, false});
				s.val[c] = make_val(seed, c);
			}
		}
		break;
	case k_update: do_update(s, *p, r, false); break;
	case k_split: do_update(s, *p, r, true); break;
	case k_both: {
		do_update(s, *p, r, true);
		Op o = op;
		o.kind = op.a[4] == 2 ? k_balance : op.a[4] == 1 ? k_commit : k_update;
		o.seed = r.next() >> 1;
		o.grid = 1 - op.grid;
		if (o.kind == k_balance) o.a = {{r.pm(850), r.pm(500) ? 0 : r.range(1, 4), r.range(0, 6), r.pm(300) ? 1000 : r.range(20, 900), 0, 0}};
		p->other = apply(*copy, nullptr, o, index, files);
		break;
	}
	case k_request: do_request(s, *p, r); break;
	case k_commit: do_commit(s, *p, r); break;
	case k_create: do_create(s, *p, r); break;
	case k_balance: do_balance(s, *p, r); break;
	case k_pin: do_pin_(s, *p, r); break;
	case k_weight: do_weight(s, *p, r); break;
	case k_hood_add: do_hood_add(s, *p, r); break;
	case k_hood_del: do_hood_del(s, *p); break;
	case k_save: do_save(s, *p, r, index, files); break;
	case k_options: do_options_(s, *p, r); break;
	case k_clear:
		s.refined.clear();
		s.removed.clear();
		break;
	case k_copy:
		if (copy != nullptr) {
			*copy = s;
			auto t = change(s);
			t->cfg.variant = p->op.a[0] ? 1 : 4;
			copy->t = t;
			for (auto& v: copy->val) v.second = Val();
			copy->reset_ghosts();
			copy->refined.clear();
			copy->removed.clear();
			copy->vetoes.clear();
			for (auto& q: copy->pend) q = Pending();
			sim::count(sim::c_copies);
		}
		break;
	default: break;
	}
	p->after = std::make_shared<State>(s);
	return p;
}

} // namespace model
