// Deterministic simulator core: fibers, seeded scheduler, simulated MPI and disk.
#ifndef SIMCORE_HPP
#define SIMCORE_HPP
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include "mpi.h"

namespace sim {

struct Rng {
	uint64_t s[4];
	explicit Rng(uint64_t seed = 1) { reseed(seed); }
	void reseed(uint64_t seed) {
		for (auto& v: s) {
			seed += 0x9e3779b97f4a7c15ull;
			uint64_t z = seed;
			z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
			z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
			v = z ^ (z >> 31);
		}
	}
	static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
	uint64_t next() {
		const uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
		s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3];
		s[2] ^= t; s[3] = rotl(s[3], 45);
		return r;
	}
	uint64_t below(uint64_t n) { return n == 0 ? 0 : next() % n; }
	int range(int a, int b) { return a + int(below(uint64_t(b - a + 1))); }
	bool pm(int permille) { return int(below(1000)) < permille; }
};

inline uint64_t mix(uint64_t a, uint64_t b) {
	uint64_t z = a * 0x9e3779b97f4a7c15ull + b + 0x7f4a7c15ull;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
template<class... T> uint64_t mix(uint64_t a, uint64_t b, T... r) { return mix(mix(a, b), r...); }

// Schedule and fault space of one run; every field is in the trace file.
struct Policy {
	uint64_t seed = 1;
	uint64_t choice_limit = ~uint64_t(0); // after this many random choices: plain schedule
	int yield_pm = 200;     // chance that a non-blocking call is a preemption point
	int net_pm = 500;       // chance of moving the network when both are possible
	int stick_pm = 300;     // chance of continuing with the rank that ran last
	int net_order = 0;      // 0 uniform, 1 newest first, 2 oldest first
	int eager_pm = 500;     // chance that a message is buffered at the sender
	int stall_rank = -1;    // slow rank...
	int stall_pm = 20;      // ...relative weight in permille of others
	int hold_pm = 0;        // chance that a sent message cuts its link...
	int hold_steps = 0;     // ...for this many scheduler steps
	int early_pm = 500;     // chance of leaving a rooted collective early
	int scribble = 1;       // receive buffers hold garbage until completion
	int late_write_pm = 500;// chance that a file write stays in cache until close
	int tag_ub = 32767;
	int far_pm = 0;         // chance that memory comes from another part of the address space
};

// one injected I/O fault: the nth I/O call of the given rank during op
struct IoFault {
	int op = -1, rank = 0, nth = 0, kind = 0, arg = 0;
	bool fired = false;
};
enum IoKind {
	io_error = 0,        // call fails with MPI_ERR_IO, nothing transferred
	io_error_partial = 1,// call fails, part of the data was transferred
	io_short = 2,        // call succeeds with fewer bytes (status tells)
	io_nospace = 3,      // call fails with MPI_ERR_NO_SPACE
	io_open_fail = 4,    // (on open) fails on all ranks
	// the nth call of one class fails on this rank, kind is call_error + 2 * class + how
	// classes: 0 send, 1 receive, 2 wait, 3 collective, 4 datatype, 5 communicator
	// how: 0 nothing happens; of requests that are waited for one fails (MPI_ERR_IN_STATUS)
	//      1 as above but output is garbage and no status says which request failed
	call_error = 10
};

enum Counter {
	c_msgs, c_eager, c_rendezvous, c_unexpected, c_reordered, c_held, c_stalled,
	c_early, c_scribbled, c_preempt, c_collectives, c_io_calls, c_io_error,
	c_io_partial, c_io_short, c_io_nospace, c_io_open, c_late_write, c_crash,
	c_lost_write, c_torn_write, c_bytes, c_repartition, c_moved, c_callbacks,
	c_ops, c_checks, c_refined, c_unrefined, c_induced, c_ghosts, c_loads,
	c_saves, c_copies, c_pins, c_hoods, c_staged, c_dontblock, c_remote_unref,
	c_files_bytes, c_empty_rank, c_subcomm, c_foreign, c_jobabort, c_loud,
	c_fault_survived, c_dropped_unref, c_rankskew, c_far, c_lb_fail,
	c_call_send, c_call_recv, c_call_wait, c_call_coll, c_call_type, c_call_comm, c_count
};
extern const char* const counter_names[];

enum Status { st_ok = 0, st_violation = 1, st_foreign = 2, st_running = 3 };

// shared with the parent process so that a crash still leaves a report
struct Report {
	volatile int status;
	uint64_t seed;
	uint64_t hash;       // of all scheduler events
	uint64_t sched_hash; // of switching decisions only
	uint64_t state_hash; // of final model-visible outcomes
	uint64_t steps, choices;
	uint64_t counters[c_count];
	int op, rank, opkind;
	uint64_t tags;
	char cls[64];
	char msg[1500];
	char foreign[300];
};
extern Report* report;

extern Policy policy;
extern std::vector<IoFault> io_faults;
extern uint64_t target_mask; // properties this run decides
extern bool verbose;

inline void count(Counter c, uint64_t n = 1) { report->counters[c] += n; }

// Oracle failed. Ends the run if the property is the one being decided,
// otherwise notes it and continues.
void fail(uint64_t tags, const char* cls, const std::string& msg);
// The run can't go on.
[[noreturn]] void fatal(uint64_t tags, const char* cls, const std::string& msg);
// Tags attributed to hangs, crashes and misuse of MPI in current operation.
extern std::function<uint64_t(int opkind)> op_tags;

void log_event(const char* kind, uint64_t a = 0, uint64_t b = 0, uint64_t c = 0, uint64_t d = 0);

// --- fibers
int world_size();
int world_rank();        // of running fiber
void set_op(int index, int kind);
int current_op();
Rng& rank_rng();         // deterministic per rank stream not used by the scheduler
void yield_point();      // explicit preemption point in harness code
// calls of MPI by code of the user or another library never fail
struct Reliable { Reliable(); ~Reliable(); };
void allow_job_abort(bool); // current rank: abort()/exit()/throw ends the job, not the run
bool job_aborted();

// Runs ranks 0..n-1 until all return. Returns false if the job died
// through abort() while that was allowed or through crash_at.
struct JobResult { bool completed; bool aborted; bool crashed; std::string why; };
JobResult run_job(int n, const std::function<void(int)>& body, uint64_t crash_at_io = ~uint64_t(0));

// resources still held by a rank
struct Usage { int requests, types, files; };
Usage usage(int world_rank);
// requires no running job: messages nobody received, etc.
std::string leftovers();

// --- disk
// contents of a file, may have large holes
class Bytes {
	static const size_t page = 4096;
	std::map<uint64_t, std::vector<uint8_t>> pages;
	uint64_t length = 0;
public:
	uint64_t size() const { return length; }
	uint8_t get(uint64_t i) const {
		if (i >= length) return 0;
		const auto p = pages.find(i / page);
		return p == pages.end() ? 0 : p->second[i % page];
	}
	void put(uint64_t i, uint8_t v) {
		auto& p = pages[i / page];
		if (p.empty()) p.assign(page, 0);
		p[i % page] = v;
		if (i >= length) length = i + 1;
	}
	void get(uint64_t at, void* to, size_t n) const { for (size_t i = 0; i < n; i++) ((uint8_t*) to)[i] = get(at + i); }
	void resize(uint64_t n) {
		if (n < length) {
			pages.erase(pages.lower_bound((n + page - 1) / page), pages.end());
			const auto p = pages.find(n / page);
			if (p != pages.end()) for (size_t i = n % page; i < page; i++) p->second[i] = 0;
		}
		length = n;
	}
	// calls f(position, value) for all bytes that are not in holes
	template<class F> void each(F f) const {
		for (const auto& p: pages) for (size_t i = 0; i < page; i++) if (p.first * page + i < length) f(p.first * page + i, p.second[i]);
	}
};

struct Disk {
	std::map<std::string, Bytes> files;
};
extern Disk disk;

// --- sub communicators for the harness, members are world ranks
MPI_Comm make_comm(const std::vector<int>& members, uint64_t key);

void reset_all(); // before each run

[[noreturn]] void job_abort(const std::string& why);

// packing of typed data, used by the harness to compute expected bytes
std::vector<uint8_t> pack(const void* buf, int count, MPI_Datatype type);

// --- partitioner oracle
struct Partitioner {
	virtual ~Partitioner() {}
	virtual int target(uint64_t cell, int current) = 0;
	virtual void check_objects(int rank, const std::vector<std::pair<uint64_t, float>>&) = 0;
	virtual void check_geometry(int rank, uint64_t cell, const double*) = 0;
	virtual void check_edges(int rank, uint64_t cell, const std::vector<std::pair<uint64_t, int>>&) = 0;
	virtual void check_hyperedge(int rank, uint64_t cell, const std::vector<uint64_t>&, bool has_weight, double weight) = 0;
	virtual void check_params(int rank, const std::map<std::string, std::string>&) = 0;
	virtual void check_hier(int rank, const std::vector<int>& parts, const std::vector<std::map<std::string, std::string>>&) = 0;
	virtual void complain(const std::string&) = 0;
	virtual bool expected() = 0;
	virtual bool fails(int rank) = 0;
	virtual bool exists(uint64_t cell) = 0;
};
void set_partitioner(Partitioner*); // of running fiber, used by its next balance
Partitioner* get_partitioner();

} // namespace sim
#endif
