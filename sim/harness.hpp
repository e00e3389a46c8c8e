// Rank program and oracles.
#ifndef HARNESS_HPP
#define HARNESS_HPP
#include "grid_api.hpp"

struct Fault { int rank = 0, nth = 0, kind = 0; };
struct Step { model::Op op; std::vector<Fault> faults; };
struct Segment {
	int world = 1;
	std::vector<int> members;   // world ranks that form the grid's communicator
	bool direct = true;         // give MPI_COMM_WORLD to the grid
	int from = -1;              // selects a saved file, -1 new grid
	int load_mode = 0;          // 0 one call, otherwise staged
	int damage = 0;             // 1 missing, 2 truncated, 3 bytes of marker changed
	long damage_arg = 0;
	int order = 0;              // order of setters before initialization
	long crash_at = -1;         // file write after which all processes die
	model::Config cfg;
	std::vector<Fault> faults;  // of loading
	std::vector<Step> steps;
};
struct Trace {
	std::string prop;
	uint64_t seed = 0;
	sim::Policy policy;
	std::vector<Segment> segs;
};
void run_trace(const Trace&);
std::string helpers_test(MPI_Comm comm, int rank, int size, sim::Rng& common, int kind); // helpers.cpp
#endif
