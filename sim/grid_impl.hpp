#ifndef GRID_IMPL_HPP
#define GRID_IMPL_HPP
#include "cells.hpp"
#include "grid_api.hpp"
#include "dccrg.hpp"
#include "dccrg_cartesian_geometry.hpp"
#include "dccrg_no_geometry.hpp"
#include "dccrg_stretched_cartesian_geometry.hpp"
#include <stdexcept>

// user defined iterator items
struct Cell_Extra {
	long extra = -7;
	template<class Grid, class Item> static void update(const Grid& grid, Item& item, const Cell_Extra&) {
		item.extra = long(item.id) * 16 + grid.get_process(item.id);
	}
};
struct Neighbor_Extra {
	long extra = -7;
	template<class Grid, class Cell_Item, class Item>
	static void update(const Grid& grid, const Cell_Item& cell, Item& item, const int& hood, const Neighbor_Extra&) {
		item.extra = long((uint64_t(cell.id) * 1000 + uint64_t(item.id)) * 16) + grid.get_process(item.id) + hood * 100000000l;
	}
};

inline void set_geo(dccrg::Cartesian_Geometry::Parameters& p, const model::Config& c) {
	const model::Mapping m{c.dims, c.max_lvl};
	p.start = model_point(c, m, {{0, 0, 0}});
	const double n = double(1 << c.max_lvl);
	const auto e = model_point(c, m, {{n, n, n}});
	for (int d = 0; d < 3; d++) p.level_0_cell_length[d] = e[d] - p.start[d];
}
inline void set_geo(dccrg::Stretched_Cartesian_Geometry::Parameters& p, const model::Config& c) {
	const model::Mapping m{c.dims, c.max_lvl};
	for (int d = 0; d < 3; d++)
	for (int i = 0; i <= c.dims[d]; i++) {
		std::array<double, 3> at{{0, 0, 0}};
		at[d] = double(i) * double(1 << c.max_lvl);
		p.coordinates[d].push_back(model_point(c, m, at)[d]);
	}
}

template<class G> struct GeoSetter {
	template<class Grid> static void set(Grid& g, const model::Config& c) {
		typename G::Parameters p;
		set_geo(p, c);
		g.set_geometry(p);
	}
};
template<> struct GeoSetter<dccrg::No_Geometry> {
	template<class Grid> static void set(Grid&, const model::Config&) {}
};

template<class G> long extra_of(const G&, ...) { return 0; }
template<class T> auto get_extra(const T& t, int) -> decltype(t.extra) { return t.extra; }
template<class T> long get_extra(const T&, long) { return 0; }

template<class C, class Geo, class CI = std::tuple<>, class NI = std::tuple<>> struct GridImpl: GridApi {
	typedef dccrg::Dccrg<C, Geo, CI, NI> Grid;
	std::unique_ptr<Grid> owned;
	Grid& g;
	model::Config cfg;
	model::Mapping map;
	GridImpl(): owned(new Grid), g(*owned) {}
	explicit GridImpl(std::unique_ptr<Grid> p): owned(std::move(p)), g(*owned) {}

	void know(const model::Config& c) override { cfg = c; map = model::Mapping{c.dims, c.max_lvl}; }

	void init(const model::Config& c, MPI_Comm comm, int order) override {
		know(c);
		const std::array<uint64_t, 3> len{{uint64_t(c.dims[0]), uint64_t(c.dims[1]), uint64_t(c.dims[2])}};
		if (order & 1) g.set_periodic(c.per[0], c.per[1], c.per[2]);
		if (order & 2) g.set_neighborhood_length(unsigned(c.hood));
		g.set_initial_length(len).set_maximum_refinement_level(c.max_lvl).set_load_balancing_method(c.method);
		if (!(order & 1)) g.set_periodic(c.per[0], c.per[1], c.per[2]);
		if (!(order & 2)) g.set_neighborhood_length(unsigned(c.hood));
		if (c.single >= 0) g.set_send_single_cells(c.single != 0);
		g.initialize(comm);
		GeoSetter<Geo>::set(g, c);
	}
	std::unique_ptr<GridApi> copy(bool) override { return nullptr; }

	int get(Cell c, model::Val& v) override {
		const C* p = g[c];
		if (p == nullptr) return 0;
		return get_cell(*p, v) ? 1 : -1;
	}
	void put(Cell c, const model::Val& v) override { put_cell(*g[c], c, v); }
	const void* ptr(Cell c) override { return g[c]; }
	std::vector<uint8_t> packed(Cell c) override {
		C* p = g[c];
		if (p == nullptr) return {};
		auto t = cell_datatype(*p, c, g.get_rank());
		return sim::pack(std::get<0>(t), std::get<1>(t), std::get<2>(t));
	}

	bool update(int h, bool defaulted) override {
		return defaulted && h == model::def_hood ? g.update_copies_of_remote_neighbors() : g.update_copies_of_remote_neighbors(h);
	}
	bool start(int h) override { return h == model::def_hood ? g.start_remote_neighbor_copy_updates() : g.start_remote_neighbor_copy_updates(h); }
	bool start_receives(int h) override { return g.start_remote_neighbor_copy_receives(h); }
	bool start_sends(int h) override { return g.start_remote_neighbor_copy_sends(h); }
	bool wait(int h) override { return g.wait_remote_neighbor_copy_updates(h); }
	bool wait_receives(int h) override { return g.wait_remote_neighbor_copy_update_receives(h); }
	bool wait_sends() override { return g.wait_remote_neighbor_copy_update_sends(); }
	void set_single(bool s) override { g.set_send_single_cells(s); }
	bool get_single() override { return g.get_send_single_cells(); }

	bool refine(Cell c, bool at) override { return at ? g.refine_completely_at(model_center(cfg, map, c)) : g.refine_completely(c); }
	bool unrefine(Cell c, bool at) override { return at ? g.unrefine_completely_at(model_center(cfg, map, c)) : g.unrefine_completely(c); }
	bool dont_refine(Cell c) override { return g.dont_refine(c); }
	bool dont_unrefine(Cell c, bool at) override { return at ? g.dont_unrefine_at(model_center(cfg, map, c)) : g.dont_unrefine(c); }
	std::vector<uint64_t> stop_refining(bool s) override { return g.stop_refining(s); }
	std::vector<uint64_t> removed(bool s) override { return g.get_removed_cells(s); }
	void clear_data() override { g.clear_refined_unrefined_data(); }

	void balance(bool z) override { if (z) g.balance_load(); else g.balance_load(false); }
	void balance_init(bool z) override { g.initialize_balance_load(z); }
	void balance_continue() override { g.continue_balance_load(); }
	void balance_finish() override { g.finish_balance_load(); }
	template<class S> static std::set<uint64_t> as_set(const S& s) { return std::set<uint64_t>(s.begin(), s.end()); }
	std::set<uint64_t> added() override { return as_set(g.get_cells_added_by_balance_load()); }
	std::set<uint64_t> gone() override { return as_set(g.get_cells_removed_by_balance_load()); }
	template<class M> static std::map<int, std::vector<std::pair<uint64_t, int>>> as_map(const M& m) {
		std::map<int, std::vector<std::pair<uint64_t, int>>> r;
		for (const auto& i: m) if (!i.second.empty()) r[i.first].assign(i.second.begin(), i.second.end());
		return r;
	}
	std::map<int, std::vector<std::pair<uint64_t, int>>> to_send(int h) override {
		if (h == model::def_hood) return as_map(g.get_cells_to_send());
		const auto& u = g.get_user_neigh_cells_to_send();
		return u.count(h) ? as_map(u.at(h)) : std::map<int, std::vector<std::pair<uint64_t, int>>>();
	}
	std::map<int, std::vector<std::pair<uint64_t, int>>> to_receive(int h) override {
		if (h == model::def_hood) return as_map(g.get_cells_to_receive());
		const auto& u = g.get_user_neigh_cells_to_receive();
		return u.count(h) ? as_map(u.at(h)) : std::map<int, std::vector<std::pair<uint64_t, int>>>();
	}

	bool pin(Cell c, int p, bool self) override { return self ? g.pin(c) : g.pin(c, p); }
	bool unpin(Cell c) override { return g.unpin(c); }
	bool unpin_local() override { return g.unpin_local_cells(); }
	void unpin_all() override { g.unpin_all_cells(); }
	bool set_weight(Cell c, double w) override { return g.set_cell_weight(c, w); }
	double get_weight(Cell c) override { return g.get_cell_weight(c); }
	template<class F> static bool accepted(F f) { try { f(); } catch (const std::invalid_argument&) { return false; } return true; }
	bool option(const std::string& n, const std::string& v) override { return accepted([&]{ g.set_partitioning_option(n, v); }); }
	bool level_add(int n) override { return accepted([&]{ g.add_partitioning_level(n); }); }
	void level_del(int n) override { g.remove_partitioning_level(n); }
	bool level_option(int l, const std::string& n, const std::string& v) override { return accepted([&]{ g.add_partitioning_option(l, n, v); }); }
	void level_option_del(int l, const std::string& n) override { g.remove_partitioning_option(l, n); }
	std::map<std::string, std::string> level_options(int l) override {
		std::map<std::string, std::string> r;
		for (const auto& n: g.get_partitioning_options(l)) {
			if (r.count(n)) r["duplicate"] = n;
			r[n] = g.get_partitioning_option_value(l, n);
		}
		return r;
	}

	bool hood_add(int id, const std::vector<model::Off>& o) override {
		std::vector<std::array<int, 3>> v(o.begin(), o.end());
		return g.add_neighborhood(id, v);
	}
	void hood_del(int id) override { g.remove_neighborhood(id); }

	static std::tuple<void*, int, MPI_Datatype> head(std::vector<uint8_t>& h, bool typed) {
		if (!typed || h.size() % 2 != 0 || h.empty()) return std::make_tuple((void*) h.data(), int(h.size()), MPI_BYTE);
		const sim::Reliable user;
		MPI_Datatype t;
		MPI_Type_contiguous(int(h.size() / 2), MPI_BYTE, &t);
		return std::make_tuple((void*) h.data(), 2, t);
	}
	bool save(const std::string& n, long off, std::vector<uint8_t>& h, bool typed, const std::vector<uint64_t>& cells, int flags) override {
		// only rank 0's header is used
		std::tuple<void*, int, MPI_Datatype> hd((void*) nullptr, 0, MPI_BYTE);
		if (g.get_rank() == 0) hd = head(h, typed);
		if (flags == 0 && cells.empty()) return g.save_grid_data(n, off, hd);
		return g.save_grid_data(n, off, hd, cells, !(flags & 1), !(flags & 2), !(flags & 4));
	}
	bool load(const std::string& n, long off, std::vector<uint8_t>& h, bool typed, MPI_Comm c, const char* m) override {
		return g.load_grid_data(n, off, head(h, typed), c, m);
	}
	bool load_start(const std::string& n, long off, std::vector<uint8_t>& h, bool typed, MPI_Comm c, const char* m) override {
		return g.start_loading_grid_data(n, off, head(h, typed), c, m);
	}
	bool load_continue() override { return g.continue_loading_grid_data(); }
	bool load_finish() override { return g.finish_loading_grid_data(); }

	std::vector<uint64_t> cells(const std::vector<int>& cr, bool ex, int h, bool s) override { return g.get_cells(cr, ex, h, s); }
	std::vector<uint64_t> all_cells(bool s) override { return g.get_all_cells(s); }
	std::vector<uint64_t> local_boundary(int h, bool s) override { return g.get_local_cells_on_process_boundary(h, s); }
	std::vector<uint64_t> local_inner(int h, bool s) override { return g.get_local_cells_not_on_process_boundary(h, s); }
	std::vector<uint64_t> remote_boundary(int h, bool s) override { return g.get_remote_cells_on_process_boundary(h, s); }
	const NList* neighbors_of(Cell c, int h) override { return g.get_neighbors_of(c, h); }
	const NList* neighbors_to(Cell c, int h) override { return g.get_neighbors_to(c, h); }
	std::vector<std::pair<uint64_t, int>> face(Cell c) override { return g.get_face_neighbors_of(c); }
	NList at_offset(Cell c, int x, int y, int z) override { return g.get_neighbors_of_at_offset(c, x, y, z); }
	std::vector<uint64_t> remote_of(Cell c, int h, bool s) override { return g.get_remote_neighbors_of(c, h, s); }
	std::vector<uint64_t> remote_to(Cell c, int h, bool s) override { return g.get_remote_neighbors_to(c, h, s); }
	bool matches(Cell c, const std::vector<int>& cr, bool ex, int h) override { return g.is_neighbor_type_match(c, cr, ex, h); }
	std::map<uint64_t, double> all_weights() override { const auto& w = g.get_cell_weights(); return std::map<uint64_t, double>(w.begin(), w.end()); }
	int level(Cell c) override { return g.get_refinement_level(c); }
	MPI_Comm communicator() override { return g.get_communicator(); }
	uint64_t send_count(int h) override { return h == model::def_hood ? g.get_number_of_update_send_cells() : g.get_number_of_update_send_cells(h); }
	uint64_t receive_count(int h) override { return h == model::def_hood ? g.get_number_of_update_receive_cells() : g.get_number_of_update_receive_cells(h); }
	int process(Cell c) override { return g.get_process(c); }
	bool is_local(Cell c) override { return g.is_local(c); }
	Cell existing(const std::array<double, 3>& x) override { return g.get_existing_cell(x); }
	Cell existing_index(const std::array<uint64_t, 3>& x, int a, int b) override {
		return g.get_existing_cell(x, a, b);
	}
	Cell parent(Cell c) override { return g.get_parent(c); }
	Cell child(Cell) override { return 0; }
	std::array<double, 3> center(Cell c) override { return g.geometry.get_center(c); }
	std::array<double, 3> corner(Cell c, bool far) override { return far ? g.geometry.get_max(c) : g.geometry.get_min(c); }
	std::array<double, 3> extent(Cell c) override { return g.geometry.get_length(c); }
	int rank() override { return g.get_rank(); }
	int comm_size() override { return g.get_comm_size(); }

	template<class I> static IterCell one(const I& i) {
		IterCell r{i.id, i.data, get_extra(i, 0), {}, {}, {}};
		for (const auto& n: i.neighbors_of) r.of.push_back({n.id, {{n.x, n.y, n.z}}, n.data, get_extra(n, 0)});
		for (const auto& n: i.neighbors_to) r.to.push_back({n.id, {{n.x, n.y, n.z}}, n.data, get_extra(n, 0)});
		for (const auto& n: i.all_neighbors) r.all.push_back({n.id, {{n.x, n.y, n.z}}, n.data, get_extra(n, 0)});
		return r;
	}
	std::vector<IterCell> iterate(int which, int h) override {
		std::vector<IterCell> r;
		const bool d = h == model::def_hood;
		switch (which) {
		case 0: for (const auto& i: d ? g.inner_cells() : g.inner_cells(h)) r.push_back(one(i)); break;
		case 1: for (const auto& i: d ? g.outer_cells() : g.outer_cells(h)) r.push_back(one(i)); break;
		case 2: for (const auto& i: d ? g.local_cells() : g.local_cells(h)) r.push_back(one(i)); break;
		case 3: for (const auto& i: d ? g.remote_cells() : g.remote_cells(h)) r.push_back(one(i)); break;
		default: for (const auto& i: d ? g.all_cells() : g.all_cells(h)) r.push_back(one(i)); break;
		}
		return r;
	}
	bool iterable(int which, int h) override {
		try {
			switch (which) {
			case 0: g.inner_cells(h); break;
			case 1: g.outer_cells(h); break;
			case 2: g.local_cells(h); break;
			case 3: g.remote_cells(h); break;
			default: g.all_cells(h); break;
			}
		} catch (const std::runtime_error&) { return false; }
		return true;
	}
	std::string describe() override {
		using std::to_string;
		std::string r;
		for (int d = 0; d < 3; d++) r += to_string(g.length.get()[d]) + (g.topology.is_periodic(size_t(d)) ? "p " : " ");
		r += to_string(g.get_maximum_refinement_level()) + " " + to_string(g.get_neighborhood_length());
		return r;
	}
	std::vector<uint8_t> file_info() override { return {}; }
	bool allocate(int h) override {
		try {
			if (h == model::def_hood) g.allocate_copies_of_remote_neighbors();
			else g.allocate_copies_of_remote_neighbors(h);
			return true;
		} catch (const std::invalid_argument&) { return false; }
	}
	bool overlaps_local(Cell c) override { return g.cell_overlaps_local(c); }
	std::set<uint64_t> overlapping_local(const std::vector<uint64_t>& c) override { const auto r = g.get_cells_overlapping_local(c); return std::set<uint64_t>(r.begin(), r.end()); }
	bool load_cells(const std::vector<uint64_t>& c) override { return g.load_cells(c); }
	std::vector<uint64_t> find_cells(const std::array<uint64_t, 3>& a, const std::array<uint64_t, 3>& b, int min_lvl, int max_lvl) override { return g.find_cells(a, b, min_lvl, max_lvl); }
};
#endif
