// Cell data types: every one stores three independent 64 bit tokens.
#ifndef CELLS_HPP
#define CELLS_HPP
#include "model.hpp"
#include "mpi.h"
#include <array>
#include <cstddef>
#include <tuple>
#include <vector>

// What the running rank is transferring, set by the harness.
struct Transfer {
	enum Mode { none, update, balance, unrefine, save, load } mode = none;
	int stage = 0;      // 1 fixed part and sizes, 2 variable part, 0 everything
	int hood = 0, rank = 0;
	const model::Plan* plan = nullptr;
	const model::State* before = nullptr;
};
Transfer& transfer(); // of running rank
// returns fields to transfer
int transfer_called(uint64_t cell, uint64_t remembered, int sender, int receiver, bool receiving, int hood);

// bytes
struct Cell1 {
	uint64_t v[3] = {0, 0, 0};
	std::tuple<void*, int, MPI_Datatype> get_mpi_datatype() {
		return std::make_tuple((void*) v, int(sizeof v), MPI_BYTE);
	}
	void put(uint64_t, const model::Val& x) { for (int i = 0; i < 3; i++) v[i] = x.f[i]; }
	bool get(model::Val& x) const { for (int i = 0; i < 3; i++) x.f[i] = v[i]; return true; }
};

// variable size, context dependent
struct Cell2 {
	uint64_t id = 0; // not transferred
	uint64_t a = 0, b = 0, n = 0;
	std::vector<uint64_t> c;

	std::tuple<void*, int, MPI_Datatype> get_mpi_datatype(
		const uint64_t cell_id, const int sender, const int receiver, const bool receiving, const int hood
	) {
		const sim::Reliable user;
		const int fields = transfer_called(cell_id, id, sender, receiver, receiving, hood);
		id = cell_id;
		const int stage = transfer().stage;
		if (stage == 2) {
			if (receiving) c.resize(n < 64 ? n : 0);
			return std::make_tuple((void*) c.data(), int(c.size() * 8), MPI_BYTE);
		}
		if (!receiving) n = c.size();
		// some cells with, some without derived datatype
		if (transfer().mode == Transfer::save && stage == 0 && fields == 7 && c.empty()) return std::make_tuple((void*) &a, 3, MPI_UINT64_T);
		if (stage == 1 && fields == 7 && cell_id % 3 == 0) return std::make_tuple((void*) &a, 3, MPI_UINT64_T);
		if (stage == 1 && fields == 7 && cell_id % 3 == 1) return std::make_tuple((void*) &a, 24, MPI_BYTE);
		int len[4]; MPI_Aint disp[4]; MPI_Datatype type[4];
		int k = 0;
		const auto add = [&](void* p, size_t bytes) {
			MPI_Aint x, y;
			MPI_Get_address(&a, &x);
			MPI_Get_address(p, &y);
			disp[k] = y - x; len[k] = int(bytes / 8); type[k] = MPI_UINT64_T;
			k++;
		};
		if (fields & 1) add(&a, 8);
		if (fields & 2) add(&b, 8);
		if (fields & 4) add(&n, 8);
		if ((fields & 4) && stage == 0 && c.size() > 0) add(c.data(), c.size() * 8);
		MPI_Datatype t;
		MPI_Type_create_struct(k, len, disp, type, &t);
		return std::make_tuple((void*) &a, 1, t);
	}
	static uint64_t item(uint64_t token, size_t i) { return i == 0 ? token : sim::mix(token, uint64_t(i)); }
	static size_t length(uint64_t token) { return token == 0 ? 0 : 1 + token / 2 % 7; }
	void put(uint64_t cell, const model::Val& x) {
		id = cell;
		a = x.f[0]; b = x.f[1];
		c.resize(length(x.f[2]));
		for (size_t i = 0; i < c.size(); i++) c[i] = item(x.f[2], i);
		n = c.size();
	}
	bool get(model::Val& x) const {
		x.f[0] = a; x.f[1] = b;
		x.f[2] = c.empty() ? 0 : c[0];
		if (c.size() != length(x.f[2])) return false;
		for (size_t i = 0; i < c.size(); i++) if (c[i] != item(x.f[2], i)) return false;
		return true;
	}
};

// several items of a derived datatype with holes
struct Cell3 {
	struct Item { uint32_t lo = 0, hole = 0x5eed5eed; uint32_t hi = 0, hole2 = 0x5eed5eed; };
	Item v[3];
	std::tuple<void*, int, MPI_Datatype> get_mpi_datatype() const {
		const sim::Reliable user;
		MPI_Datatype t, r;
		int len[2] = {1, 1};
		MPI_Aint disp[2] = {0, offsetof(Item, hi)};
		MPI_Datatype type[2] = {MPI_UINT32_T, MPI_UINT32_T};
		MPI_Type_create_struct(2, len, disp, type, &t);
		MPI_Type_create_resized(t, 0, sizeof(Item), &r);
		MPI_Type_free(&t);
		return std::make_tuple((void*) v, 3, r);
	}
	void put(uint64_t, const model::Val& x) {
		for (int i = 0; i < 3; i++) { v[i].lo = uint32_t(x.f[i]); v[i].hi = uint32_t(x.f[i] >> 32); }
	}
	bool get(model::Val& x) const {
		bool ok = true;
		for (int i = 0; i < 3; i++) {
			x.f[i] = uint64_t(v[i].hi) << 32 | v[i].lo;
			if (v[i].hole != 0x5eed5eed || v[i].hole2 != 0x5eed5eed) ok = false;
		}
		return ok;
	}
};

// as above but told about the transfer, const
struct Cell5 {
	Cell3 c;
	std::tuple<void*, int, MPI_Datatype> get_mpi_datatype(
		const uint64_t cell_id, const int sender, const int receiver, const bool receiving, const int hood
	) const {
		transfer_called(cell_id, 0, sender, receiver, receiving, hood);
		return c.get_mpi_datatype();
	}
	// the one above is used
	std::tuple<void*, int, MPI_Datatype> get_mpi_datatype() const {
		transfer_called(0, 0, -9, -9, false, -9);
		return c.get_mpi_datatype();
	}
	void put(uint64_t id, const model::Val& x) { c.put(id, x); }
	bool get(model::Val& x) const { return c.get(x); }
};

typedef std::array<uint64_t, 3> Cell4; // no member functions at all

template<class C> void put_cell(C& c, uint64_t id, const model::Val& x) { c.put(id, x); }
template<class C> bool get_cell(const C& c, model::Val& x) { return c.get(x); }
template<> inline void put_cell<Cell4>(Cell4& c, uint64_t, const model::Val& x) { c = x.f; }
template<> inline bool get_cell<Cell4>(const Cell4& c, model::Val& x) { x.f = c; return true; }
// what is written to a file
typedef std::tuple<void*, int, MPI_Datatype> Datatype_Info;
inline Datatype_Info cell_datatype(Cell1& c, uint64_t, int) { return c.get_mpi_datatype(); }
inline Datatype_Info cell_datatype(Cell2& c, uint64_t id, int rank) { return c.get_mpi_datatype(id, rank, -1, false, -1); }
inline Datatype_Info cell_datatype(Cell3& c, uint64_t, int) { return c.get_mpi_datatype(); }
inline Datatype_Info cell_datatype(Cell5& c, uint64_t, int) { return c.c.get_mpi_datatype(); }
inline Datatype_Info cell_datatype(Cell4& c, uint64_t, int) { return Datatype_Info((void*) c.data(), int(sizeof c), MPI_BYTE); }
#endif
