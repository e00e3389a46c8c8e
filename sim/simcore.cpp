#include "simcore.hpp"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <deque>
#include <exception>
#include <list>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>
#include <wchar.h>
#include <complex>

#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/common_interface_defs.h>
#define SIM_ASAN 1
#endif

using std::shared_ptr;
using std::string;
using std::to_string;
using std::vector;

// ---------------------------------------------------------------- types
namespace sim {
struct Seg { MPI_Aint disp; size_t len; };
struct TypeImpl {
	vector<Seg> segs; // in typemap order
	size_t size = 0;
	MPI_Aint lb = 0, extent = 0;
	bool lb_set = false;
};
} // namespace sim

struct sim_type_s {
	shared_ptr<sim::TypeImpl> impl;
	int combiner = MPI_COMBINER_NAMED;
	int owner = -1;
	bool committed = false, broken = false;
	char kind = 'b'; // for reductions
	sim_type_s() {}
	sim_type_s(size_t n, char k) : committed(true), kind(k) {
		impl.reset(new sim::TypeImpl);
		impl->segs.push_back({0, n});
		impl->size = n;
		impl->extent = n;
	}
};
struct sim_op_s { int id; };
struct sim_info_s { int x; };
struct sim_errh_s { int id; };
struct sim_group_s { int x; };

extern "C" {
sim_errh_s sim_errh_fatal = {0}, sim_errh_return = {1};
sim_op_s sim_op_sum = {0}, sim_op_max = {1}, sim_op_min = {2}, sim_op_prod = {3},
	sim_op_land = {4}, sim_op_lor = {5}, sim_op_band = {6}, sim_op_bor = {7},
	sim_op_bxor = {8}, sim_op_lxor = {9};
#define T(n, t, k) sim_type_s sim_t_##n(sizeof(t), k);
T(byte, uint8_t, 'C') T(packed, uint8_t, 'C') T(char, char, 'c') T(schar, signed char, 'c')
T(uchar, unsigned char, 'C') T(short, short, 's') T(ushort, unsigned short, 'S')
T(int, int, 'i') T(unsigned, unsigned, 'I') T(long, long, 'l') T(ulong, unsigned long, 'L')
T(llong, long long, 'l') T(ullong, unsigned long long, 'L') T(float, float, 'f')
T(double, double, 'd') T(ldouble, long double, 'D') T(wchar, wchar_t, 'i')
T(cbool, bool, 'C') T(i8, int8_t, 'c') T(i16, int16_t, 's') T(i32, int32_t, 'i')
T(i64, int64_t, 'l') T(u8, uint8_t, 'C') T(u16, uint16_t, 'S') T(u32, uint32_t, 'I')
T(u64, uint64_t, 'L') T(aint, MPI_Aint, 'l') T(offset, MPI_Offset, 'l') T(count, MPI_Count, 'l')
T(cxxbool, bool, 'C') T(cfloat, std::complex<float>, 'x') T(cdouble, std::complex<double>, 'x')
T(cldouble, std::complex<long double>, 'x')
struct sim_di { double d; int i; };
struct sim_ii { int d; int i; };
T(doubleint, sim_di, 'x') T(intint, sim_ii, 'x')
#undef T
}

namespace sim {

const char* const counter_names[] = {
	"messages", "eager_sends", "rendezvous_sends", "unexpected_messages",
	"reordered_deliveries", "links_held", "stalled_rank_skips",
	"early_collective_exits", "scribbled_receives", "preemptions", "collectives",
	"io_calls", "io_errors", "io_partial_errors", "io_short_transfers",
	"io_no_space", "io_open_failures", "delayed_writes", "crashes", "lost_writes",
	"torn_writes", "message_bytes", "repartitions", "cells_moved",
	"partitioner_queries", "operations", "oracle_checks", "cells_refined",
	"families_unrefined", "cells_refined_by_induction", "ghost_values_checked",
	"loads", "saves", "copies", "pins", "neighborhoods", "staged_operations",
	"refines_blocked_by_dont_refine", "unrefines_moving_data", "file_bytes",
	"empty_rank_states", "subcommunicator_runs", "foreign_violations",
	"job_aborts", "loud_failures", "faults_survived", "dropped_ambiguous_unrefines",
	"rank_skew", "far_allocations", "partitioner_failures",
	"failed_sends", "failed_receives", "failed_waits", "failed_collectives", "failed_datatype_calls",
	"failed_communicator_calls"
};
static_assert(sizeof(counter_names) / sizeof(counter_names[0]) == c_count, "counter names");

static Report local_report;
Report* report = &local_report;
Policy policy;
vector<IoFault> io_faults;
uint64_t target_mask = ~uint64_t(0);
bool verbose = false;
Disk disk;
std::function<uint64_t(int)> op_tags;

struct Ctx;
struct Msg;

enum FState { f_ready, f_blocked, f_done };
struct Fiber {
	ucontext_t uc;
	void* stack = nullptr;
	FState state = f_ready;
	const std::function<bool()>* pred = nullptr;
	int op = -1, opkind = 0;
	Rng rng;
	bool allow_abort = false;
	int io_calls = 0, calls[6] = {0, 0, 0, 0, 0, 0}, reliable = 0;
	Partitioner* part = nullptr;
	struct { void* caught; unsigned int n; } eh;
#ifdef SIM_ASAN
	void* fake = nullptr;
#endif
};
static const size_t stack_size = 2u << 20;

struct Job {
	int n = 0;
	vector<Fiber> fibers;
	const std::function<void(int)>* body = nullptr;
	bool dead = false, crashed = false;
	string why;
};
static Job* job = nullptr;
static int cur = -1, last_run = -1;
static ucontext_t main_uc;
#ifdef SIM_ASAN
static void* main_fake; static const void* main_stack; static size_t main_stack_size;
#endif
static vector<void*> stack_pool;
static Rng srng;
static uint64_t io_writes_applied, crash_at;

static const uint64_t max_steps = 4000000;

// ------------------------------------------------------ address space fault
/*
Small allocations of the simulated processes come with a seeded chance from
a second region hundreds of gigabytes away from the heap, so that differences
of addresses of cell data do not fit into 32 bits.
*/
static Rng far_rng;
static const size_t far_size = size_t(1) << 28, far_classes = 65;
static char *far_begin = nullptr, *far_next = nullptr, *far_end = nullptr;
static void* far_free[far_classes];

static void* far_alloc(size_t n) {
	if (far_begin == nullptr) {
		void* m = mmap(nullptr, far_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (m == MAP_FAILED) return nullptr;
		far_begin = far_next = (char*) m;
		far_end = far_begin + far_size;
	}
	const size_t k = (n + 15) / 16 + 1, bytes = k * 16; // first 16 bytes: size class
	char* b;
	if (far_free[k] != nullptr) {
		b = (char*) far_free[k];
		memcpy(&far_free[k], b + 16, sizeof(void*));
	} else {
		if (far_next + bytes > far_end) return nullptr;
		b = far_next;
		far_next += bytes;
	}
	memcpy(b, &k, sizeof(k));
	memset(b + 16, 0xA5, bytes - 16);
	return b + 16;
}

static bool far_release(void* p) {
	if ((char*) p < far_begin || (char*) p >= far_end || far_begin == nullptr) return false;
	char* const b = (char*) p - 16;
	size_t k;
	memcpy(&k, b, sizeof(k));
	memset(p, 0x5D, (k - 1) * 16);
	memcpy(p, &far_free[k], sizeof(void*));
	far_free[k] = b;
	return true;
}

static void* far_try(size_t n) {
	if (cur < 0 || policy.far_pm <= 0 || n < 16 || n > 1000 || !far_rng.pm(policy.far_pm)) return nullptr;
	void* const p = far_alloc(n);
	if (p != nullptr) count(c_far);
	return p;
}

// ------------------------------------------------------------ reporting
void log_event(const char* kind, uint64_t a, uint64_t b, uint64_t c, uint64_t d) {
	uint64_t h = report->hash;
	for (const char* p = kind; *p; p++) h = (h ^ (unsigned char) *p) * 0x100000001b3ull;
	h = mix(h, a, b, c, d);
	report->hash = h;
	if (verbose) {
		fprintf(stderr, "[%llu] r%d op%d %s %llu %llu %llu %llu\n", (unsigned long long) report->steps,
			cur, cur >= 0 && job ? job->fibers[cur].op : -1, kind,
			(unsigned long long) a, (unsigned long long) b, (unsigned long long) c, (unsigned long long) d);
	}
}

static void fill_report(int status, uint64_t tags, const char* cls, const string& msg) {
	report->op = cur >= 0 && job ? job->fibers[cur].op : report->op;
	report->opkind = cur >= 0 && job ? job->fibers[cur].opkind : report->opkind;
	report->rank = cur;
	report->tags = tags;
	snprintf(report->cls, sizeof report->cls, "%s", cls);
	snprintf(report->msg, sizeof report->msg, "%s", msg.c_str());
	report->status = status;
}

void fail(uint64_t tags, const char* cls, const string& msg) {
	if (tags & target_mask) {
		fill_report(st_violation, tags, cls, msg);
		_exit(40);
	}
	if (report->counters[c_foreign]++ == 0) {
		snprintf(report->foreign, sizeof report->foreign, "%s: %s", cls, msg.c_str());
	}
	if (report->counters[c_foreign] > 200) {
		fill_report(st_foreign, tags, cls, msg);
		_exit(41);
	}
}

void fatal(uint64_t tags, const char* cls, const string& msg) {
	fill_report((tags & target_mask) ? st_violation : st_foreign, tags, cls, msg);
	if (!(tags & target_mask)) report->counters[c_foreign]++;
	_exit((tags & target_mask) ? 40 : 41);
}

static uint64_t cur_tags() {
	const int k = cur >= 0 && job ? job->fibers[cur].opkind : report->opkind;
	return op_tags ? op_tags(k) : ~uint64_t(0);
}
[[noreturn]] static void misuse(const string& m) { fatal(cur_tags(), "mpi-misuse", m); }

// --------------------------------------------------------------- choices
static bool plain() { return report->choices >= policy.choice_limit; }
static uint64_t choose(uint64_t n, uint64_t dflt) {
	if (n <= 1) return 0;
	if (plain()) return dflt;
	report->choices++;
	return srng.below(n);
}
static bool chance(int pm, bool dflt) {
	if (plain()) return dflt;
	report->choices++;
	return srng.pm(pm);
}

// ---------------------------------------------------------------- fibers
struct EhGlobals { void* caught; unsigned int n; };
static void switch_to_main() {
	Fiber& f = job->fibers[cur];
	auto* g = reinterpret_cast<EhGlobals*>(abi::__cxa_get_globals());
	f.eh.caught = g->caught; f.eh.n = g->n;
#ifdef SIM_ASAN
	__sanitizer_start_switch_fiber(f.state == f_done ? nullptr : &f.fake, main_stack, main_stack_size);
#endif
	swapcontext(&f.uc, &main_uc);
#ifdef SIM_ASAN
	__sanitizer_finish_switch_fiber(job->fibers[cur].fake, nullptr, nullptr);
#endif
}
static void switch_to_fiber(int i) {
	Fiber& f = job->fibers[i];
	cur = i; last_run = i;
	report->op = f.op; report->opkind = f.opkind; report->rank = i;
	auto* g = reinterpret_cast<EhGlobals*>(abi::__cxa_get_globals());
	const EhGlobals saved = *g;
	g->caught = f.eh.caught; g->n = f.eh.n;
#ifdef SIM_ASAN
	__sanitizer_start_switch_fiber(&main_fake, f.stack, stack_size);
#endif
	swapcontext(&main_uc, &f.uc);
#ifdef SIM_ASAN
	__sanitizer_finish_switch_fiber(main_fake, nullptr, nullptr);
#endif
	*reinterpret_cast<EhGlobals*>(abi::__cxa_get_globals()) = saved;
	cur = -1;
}

static void fiber_main() {
#ifdef SIM_ASAN
	__sanitizer_finish_switch_fiber(nullptr, &main_stack, &main_stack_size);
#endif
	const int me = cur;
	string what;
	bool threw = false;
	try {
		(*job->body)(me);
	} catch (const std::exception& e) {
		threw = true; what = string("exception escaped: ") + e.what();
	} catch (const char* e) {
		threw = true; what = string("exception escaped: ") + e;
	} catch (...) {
		threw = true; what = "unknown exception escaped";
	}
	if (threw) {
		if (job->fibers[me].allow_abort) {
			job->dead = true; job->why = what;
		} else {
			fatal(cur_tags(), "exception", what);
		}
	}
	job->fibers[me].state = f_done;
	switch_to_main();
}

int world_size() { return job ? job->n : 0; }
int world_rank() { return cur; }
void set_op(int index, int kind) {
	Fiber& f = job->fibers[cur];
	f.op = index; f.opkind = kind; f.io_calls = 0;
	for (int& c: f.calls) c = 0;
	report->op = index; report->opkind = kind; report->rank = cur;
}
int current_op() { return job->fibers[cur].op; }
Rng& rank_rng() { return job->fibers[cur].rng; }
Reliable::Reliable() { if (cur >= 0) job->fibers[cur].reliable++; }
Reliable::~Reliable() { if (cur >= 0) job->fibers[cur].reliable--; }
void allow_job_abort(bool v) { job->fibers[cur].allow_abort = v; }
bool job_aborted() { return job && job->dead; }
void set_partitioner(Partitioner* p) { job->fibers[cur].part = p; }
Partitioner* get_partitioner() { return job->fibers[cur].part; }

[[noreturn]] static void die() {
	job->dead = true;
	switch_to_main();
	_exit(99);
}
void job_abort(const string& why) {
	if (cur < 0) { _exit(98); }
	log_event("abort");
	if (!job->fibers[cur].allow_abort) fatal(cur_tags(), "abort", why);
	job->why = why;
	count(c_jobabort);
	die();
}

static void block_until(const std::function<bool()>& pred) {
	if (pred()) return;
	Fiber& f = job->fibers[cur];
	while (!pred()) {
		f.state = f_blocked;
		f.pred = &pred;
		switch_to_main();
	}
	f.pred = nullptr;
	f.state = f_ready;
}
void yield_point() {
	if (chance(policy.yield_pm, false)) { count(c_preempt); switch_to_main(); }
}
static void enter(const char* name, uint64_t a = 0, uint64_t b = 0, uint64_t c = 0) {
	if (cur < 0) { fprintf(stderr, "MPI call %s outside of simulated rank\n", name); _exit(97); }
	log_event(name, cur, a, b, c);
	yield_point();
}

// the failure of this call of MPI, if any
static IoFault* failing(Counter kind) {
	Fiber& f = job->fibers[cur];
	if (f.reliable > 0 || !f.allow_abort) return nullptr;
	const int cls = kind - c_call_send, nth = f.calls[cls]++;
	for (auto& x: io_faults) {
		if (x.fired || x.kind < call_error || (x.kind - call_error) / 2 != cls || x.op != f.op || x.rank != cur || x.nth != nth) continue;
		x.fired = true;
		count(kind);
		log_event("failing", nth, kind);
		return &x;
	}
	return nullptr;
}

// -------------------------------------------------------------- contexts
struct Coll {
	string sig;
	vector<char> in;
	vector<vector<uint8_t>> data;
	vector<vector<size_t>> aux;
	int n_in = 0, n_left = 0;
	shared_ptr<Ctx> newctx;
	bool flag = false;
	int err = 0;
	void* shared = nullptr;
	shared_ptr<void> obj;
};
struct Msg {
	uint64_t ctx; int src, dst, tag; // comm ranks
	bool eager;
	vector<uint8_t> data;
	sim_request_s* sreq = nullptr;
	uint64_t seq, hold_until;
	size_t bytes;
};
struct Ctx {
	uint64_t id;
	vector<int> members;
	vector<uint64_t> cseq;
	std::deque<shared_ptr<Coll>> colls;
	uint64_t cbase = 0;
	vector<std::list<sim_request_s*>> posted;
	vector<std::list<shared_ptr<Msg>>> unexpected;
	std::map<std::pair<int, int>, std::deque<shared_ptr<Msg>>> links; // src,dst
	uint64_t ndups = 0;
	int rank_of(int world) const {
		for (size_t i = 0; i < members.size(); i++) if (members[i] == world) return int(i);
		return -1;
	}
};
static std::map<uint64_t, shared_ptr<Ctx>> ctxs;
static uint64_t next_ctx, msg_seq;

static shared_ptr<Ctx> new_ctx(const vector<int>& members) {
	shared_ptr<Ctx> c(new Ctx);
	c->id = next_ctx++;
	c->members = members;
	c->cseq.assign(members.size(), 0);
	c->posted.resize(members.size());
	c->unexpected.resize(members.size());
	ctxs[c->id] = c;
	return c;
}
} // namespace sim

struct sim_comm_s { shared_ptr<sim::Ctx> ctx; bool predefined; };
struct sim_request_s {
	bool recv; int owner; bool complete = false;
	int source = MPI_UNDEFINED, tag = MPI_UNDEFINED;
	size_t bytes = 0;
	void* buf; int count; shared_ptr<sim::TypeImpl> type;
	int want_src = 0, want_tag = 0;
	vector<uint8_t> saved;
	bool matched = false;
	uint64_t born;
	uint64_t tid = 0;
};
extern "C" { sim_comm_s sim_comm_world = {nullptr, true}, sim_comm_self = {nullptr, true}; }

namespace sim {
static std::set<sim_request_s*> live_requests;
static std::set<sim_type_s*> live_types;
static std::set<sim_file_s*> live_files;
static std::map<int, int> open_files; // by rank
static std::set<sim_comm_s*> live_comms;
static std::map<int, shared_ptr<Ctx>> self_ctx;
struct Match { shared_ptr<Msg> msg; sim_request_s* req; };
static vector<Match> matches;
static vector<sim_request_s*> eager_done;
static uint64_t req_ids;

static Ctx& ctx_of(MPI_Comm c) {
	if (c == nullptr) misuse("operation on MPI_COMM_NULL");
	if (c == MPI_COMM_SELF) {
		auto& s = self_ctx[cur];
		if (!s) s = new_ctx({cur});
		return *s;
	}
	if (c != MPI_COMM_WORLD && !live_comms.count(c)) misuse("invalid communicator handle");
	return *c->ctx;
}
static int my_rank(Ctx& c) {
	const int r = c.rank_of(cur);
	if (r < 0) misuse("rank is not a member of the communicator");
	return r;
}

// ---------------------------------------------------------------- typing
static TypeImpl& type_of(MPI_Datatype t, bool need_commit = false) {
	if (t == nullptr) misuse("MPI_DATATYPE_NULL used as a datatype");
	if (t->combiner != MPI_COMBINER_NAMED || t->owner >= 0) {
		if (!live_types.count(t)) misuse("invalid (freed or uninitialized) datatype handle");
		if (need_commit && !t->committed) misuse("datatype used in communication without MPI_Type_commit");
	}
	return *t->impl;
}
// is pointer one of the predefined types?
static bool predefined(MPI_Datatype t) {
	static std::set<MPI_Datatype> s;
	if (s.empty()) {
		for (MPI_Datatype p: {MPI_BYTE, MPI_PACKED, MPI_CHAR, MPI_SIGNED_CHAR, MPI_UNSIGNED_CHAR,
			MPI_SHORT, MPI_UNSIGNED_SHORT, MPI_INT, MPI_UNSIGNED, MPI_LONG, MPI_UNSIGNED_LONG,
			MPI_LONG_LONG, MPI_UNSIGNED_LONG_LONG, MPI_FLOAT, MPI_DOUBLE, MPI_LONG_DOUBLE, MPI_WCHAR,
			MPI_C_BOOL, MPI_INT8_T, MPI_INT16_T, MPI_INT32_T, MPI_INT64_T, MPI_UINT8_T, MPI_UINT16_T,
			MPI_UINT32_T, MPI_UINT64_T, MPI_AINT, MPI_OFFSET, MPI_COUNT, MPI_CXX_BOOL,
			MPI_CXX_FLOAT_COMPLEX, MPI_CXX_DOUBLE_COMPLEX, MPI_CXX_LONG_DOUBLE_COMPLEX,
			MPI_DOUBLE_INT, MPI_2INT}) s.insert(p);
	}
	return s.count(t) > 0;
}
static shared_ptr<TypeImpl> get_type(MPI_Datatype t, bool need_commit) {
	if (t == nullptr) misuse("MPI_DATATYPE_NULL used as a datatype");
	if (!predefined(t) && !live_types.count(t)) misuse("invalid (freed or uninitialized) datatype handle");
	type_of(t, need_commit);
	return t->impl;
}

static vector<uint8_t> pack_impl(const void* buf, int count, const TypeImpl& t) {
	vector<uint8_t> out;
	out.reserve(t.size * size_t(count));
	for (int i = 0; i < count; i++) {
		const uint8_t* base = (const uint8_t*) buf + MPI_Aint(i) * t.extent;
		for (const auto& s: t.segs) out.insert(out.end(), base + s.disp, base + s.disp + s.len);
	}
	return out;
}
static void unpack_impl(void* buf, int count, const TypeImpl& t, const uint8_t* in, size_t n, size_t from = 0) {
	size_t pos = 0;
	for (int i = 0; i < count && pos < n; i++) {
		uint8_t* base = (uint8_t*) buf + MPI_Aint(i) * t.extent;
		for (const auto& s: t.segs) {
			if (pos >= n) break;
			const size_t k = std::min(s.len, n - pos);
			if (pos + k > from) {
				const size_t skip = from > pos ? from - pos : 0;
				memcpy(base + s.disp + skip, in + pos + skip, k - skip);
			}
			pos += k;
		}
	}
}
vector<uint8_t> pack(const void* buf, int count, MPI_Datatype type) {
	return pack_impl(buf, count, *type->impl);
}

// --------------------------------------------------------------- network
static void complete_send(sim_request_s* r) { if (r) r->complete = true; }

static void transfer(const Match& m) {
	Msg& msg = *m.msg;
	sim_request_s& r = *m.req;
	if (!msg.eager) {
		// rendezvous: the send buffer is read now
		sim_request_s& s = *msg.sreq;
		msg.data = pack_impl(s.buf, s.count, *s.type);
		complete_send(&s);
	}
	const size_t cap = r.type->size * size_t(r.count);
	if (msg.data.size() > cap) {
		cur = r.owner;
		fatal(cur_tags(), "truncated-message", "message of " + to_string(msg.data.size()) + " bytes with tag "
			+ to_string(msg.tag) + " from process " + to_string(msg.src) + " to " + to_string(msg.dst)
			+ " received into a buffer of " + to_string(cap) + " bytes");
	}
	if (policy.scribble) {
		// bytes beyond the message keep their previous values
		unpack_impl(r.buf, r.count, *r.type, r.saved.data(), r.saved.size(), msg.data.size());
	}
	unpack_impl(r.buf, r.count, *r.type, msg.data.data(), msg.data.size());
	r.source = msg.src; r.tag = msg.tag; r.bytes = msg.data.size();
	r.complete = true;
	log_event("xfer", msg.src, msg.dst, msg.tag, msg.data.size());
}
static bool matches_req(const Msg& m, const sim_request_s& r) {
	return (r.want_src == MPI_ANY_SOURCE || r.want_src == m.src)
		&& (r.want_tag == MPI_ANY_TAG || r.want_tag == m.tag);
}
static void deliver(Ctx& c, const std::pair<int, int>& link) {
	auto& q = c.links[link];
	auto msg = q.front();
	q.pop_front();
	bool older = false;
	for (auto& cc: ctxs) for (auto& l: cc.second->links)
		if (!l.second.empty() && l.second.front()->seq < msg->seq) older = true;
	if (older) count(c_reordered);
	log_event("deliver", c.id, msg->src, msg->dst, msg->tag);
	auto& posted = c.posted[link.second];
	for (auto it = posted.begin(); it != posted.end(); ++it) {
		if (matches_req(*msg, **it)) {
			(*it)->matched = true;
			matches.push_back({msg, *it});
			posted.erase(it);
			return;
		}
	}
	count(c_unexpected);
	c.unexpected[link.second].push_back(msg);
}

struct FileH;
struct Pending { int owner; shared_ptr<FileH> h; vector<std::pair<uint64_t, vector<uint8_t>>> parts; };
static vector<Pending> pending_writes;
static void flush_pending(size_t i);

struct NetEvent { int kind; Ctx* c; std::pair<int, int> link; size_t idx; uint64_t age; };

static bool fiber_runnable(Fiber& f, int i) {
	if (f.state == f_ready) return true;
	if (f.state == f_blocked) {
		const int sc = cur;
		cur = i;
		const bool r = (*f.pred)();
		cur = sc;
		return r;
	}
	return false;
}

static string describe_block();

JobResult run_job(int n, const std::function<void(int)>& body, uint64_t crash_at_io) {
	Job j;
	job = &j;
	j.n = n;
	j.fibers.resize(n);
	j.body = &body;
	crash_at = crash_at_io;
	io_writes_applied = 0;
	last_run = -1;
	ctxs.clear(); self_ctx.clear(); live_requests.clear(); live_types.clear(); live_files.clear(); open_files.clear();
	for (auto* c: live_comms) delete c;
	live_comms.clear(); matches.clear(); eager_done.clear(); pending_writes.clear();
	vector<int> all;
	for (int i = 0; i < n; i++) all.push_back(i);
	sim_comm_world.ctx = new_ctx(all);
	while (int(stack_pool.size()) < n) {
		void* p = mmap(nullptr, stack_size + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		mprotect(p, 4096, PROT_NONE);
		stack_pool.push_back((uint8_t*) p + 4096);
	}
	for (int i = 0; i < n; i++) {
		Fiber& f = j.fibers[i];
		f.rng.reseed(mix(policy.seed, 77, i));
		f.eh.caught = nullptr; f.eh.n = 0;
		f.stack = stack_pool[i];
		getcontext(&f.uc);
		f.uc.uc_stack.ss_sp = f.stack;
		f.uc.uc_stack.ss_size = stack_size;
		f.uc.uc_link = nullptr;
		makecontext(&f.uc, fiber_main, 0);
	}

	vector<int> run;
	vector<NetEvent> net, held;
	while (!j.dead) {
		bool alive = false;
		run.clear(); net.clear(); held.clear();
		for (int i = 0; i < n; i++) {
			Fiber& f = j.fibers[i];
			if (f.state == f_done) continue;
			alive = true;
			if (fiber_runnable(f, i)) run.push_back(i);
		}
		if (!alive) break;
		for (auto& cc: ctxs) for (auto& l: cc.second->links) if (!l.second.empty()) {
			auto& m = l.second.front();
			NetEvent e{0, cc.second.get(), l.first, 0, m->seq};
			if (m->hold_until > report->steps && !plain()) held.push_back(e); else net.push_back(e);
		}
		for (size_t i = 0; i < matches.size(); i++) net.push_back({1, nullptr, {}, i, matches[i].msg->seq});
		for (size_t i = 0; i < eager_done.size(); i++) net.push_back({2, nullptr, {}, i, eager_done[i]->born});
		if (!plain()) for (size_t i = 0; i < pending_writes.size(); i++) net.push_back({3, nullptr, {}, i, ~uint64_t(0)});
		// delayed file writes alone never unblock anyone
		bool real_net = false;
		for (auto& e: net) if (e.kind != 3) real_net = true;

		if (++report->steps > max_steps) {
			cur = run.empty() ? 0 : run[0];
			fatal(cur_tags(), "no-progress", "no completion within " + to_string(max_steps) + " scheduler steps; " + describe_block());
		}
		if (run.empty() && !real_net) {
			if (!held.empty()) { net.push_back(held[0]); real_net = true; }
			else {
				for (int i = 0; i < n; i++) if (j.fibers[i].state != f_done) { cur = i; break; }
				// attribute to the operation of the rank that is furthest behind
				for (int i = 0; i < n; i++) if (j.fibers[i].state != f_done && j.fibers[i].op < j.fibers[cur].op) cur = i;
				bool loud = false;
				for (int i = 0; i < n; i++) if (j.fibers[i].allow_abort) loud = true;
				fatal(cur_tags(), loud ? "deadlock-after-fault" : "deadlock", "no rank can proceed and no message is in flight: " + describe_block());
			}
		}
		bool do_net;
		if (run.empty()) do_net = true;
		else if (net.empty()) do_net = false;
		else if (plain()) do_net = real_net;
		else { report->choices++; do_net = srng.pm(policy.net_pm); }

		if (do_net) {
			size_t k = 0;
			if (plain() || policy.net_order == 2) {
				for (size_t i = 1; i < net.size(); i++) if (net[i].age < net[k].age) k = i;
			} else if (policy.net_order == 1 && srng.pm(900)) {
				report->choices++;
				for (size_t i = 1; i < net.size(); i++) if (net[i].age > net[k].age) k = i;
			} else k = choose(net.size(), 0);
			NetEvent e = net[k];
			report->sched_hash = mix(report->sched_hash, 1000 + e.kind, e.age, e.link.first, e.link.second);
			if (e.kind == 0) deliver(*e.c, e.link);
			else if (e.kind == 1) {
				const Match m = matches[e.idx];
				matches.erase(matches.begin() + e.idx);
				const int sc = cur;
				transfer(m);
				cur = sc;
			} else if (e.kind == 2) {
				complete_send(eager_done[e.idx]);
				eager_done.erase(eager_done.begin() + e.idx);
			} else flush_pending(e.idx);
			continue;
		}
		int pick;
		if (plain()) pick = run[0];
		else {
			bool stick = false;
			for (int r: run) if (r == last_run) stick = true;
			report->choices++;
			if (stick && srng.pm(policy.stick_pm)) pick = last_run;
			else {
				uint64_t total = 0;
				for (int r: run) total += r == policy.stall_rank ? policy.stall_pm : 1000;
				uint64_t x = srng.below(total);
				pick = run.back();
				for (int r: run) {
					const uint64_t w = r == policy.stall_rank ? policy.stall_pm : 1000;
					if (x < w) { pick = r; break; }
					x -= w;
				}
				if (policy.stall_rank >= 0 && pick != policy.stall_rank) {
					for (int r: run) if (r == policy.stall_rank) count(c_stalled);
				}
			}
		}
		{
			int lo = j.fibers[pick].op, hi = lo;
			for (auto& f: j.fibers) if (f.state != f_done) { lo = std::min(lo, f.op); hi = std::max(hi, f.op); }
			if (hi > lo) count(c_rankskew);
		}
		if (pick != last_run) report->sched_hash = mix(report->sched_hash, pick, j.fibers[pick].op);
		Fiber& f = j.fibers[pick];
		if (f.state == f_blocked) f.state = f_ready;
		switch_to_fiber(pick);
	}
	JobResult r;
	r.completed = !j.dead;
	r.crashed = j.crashed;
	r.aborted = j.dead && !j.crashed;
	r.why = j.why;
	if (!r.completed) pending_writes.clear(); // lost
	job = nullptr;
	cur = -1;
	return r;
}

static string describe_block() {
	string s;
	for (int i = 0; i < job->n; i++) {
		Fiber& f = job->fibers[i];
		s += "rank " + to_string(i) + (f.state == f_done ? " finished" : f.state == f_blocked ? " blocked" : " ready")
			+ " in operation " + to_string(f.op) + "; ";
	}
	for (auto* r: live_requests) {
		if (!r->complete) s += string(r->recv ? "receive" : "send") + " of rank " + to_string(r->owner) + " peer "
			+ to_string(r->want_src) + " tag " + to_string(r->want_tag) + " pending; ";
		if (s.size() > 900) break;
	}
	return s;
}

Usage usage(int w) {
	Usage u{0, 0, 0};
	for (auto* r: live_requests) if (r->owner == w) u.requests++;
	for (auto* t: live_types) if (t->owner == w) u.types++;
	if (open_files.count(w)) u.files = open_files[w];
	return u;
}
string leftovers() {
	string s;
	for (auto& cc: ctxs) {
		Ctx& c = *cc.second;
		for (auto& l: c.links) for (auto& m: l.second) s += "message from " + to_string(m->src) + " to "
			+ to_string(m->dst) + " tag " + to_string(m->tag) + " never delivered; ";
		for (auto& u: c.unexpected) for (auto& m: u) s += "message from " + to_string(m->src) + " to "
			+ to_string(m->dst) + " tag " + to_string(m->tag) + " never received; ";
		for (auto& p: c.posted) for (auto* r: p) s += "receive of rank " + to_string(r->owner) + " never matched; ";
		for (auto& k: c.colls) if (k && k->n_in > 0 && k->n_in < int(c.members.size()))
			s += "collective " + k->sig + " entered by only " + to_string(k->n_in) + " ranks; ";
	}
	for (auto* r: live_requests) s += string(r->recv ? "receive" : "send") + " request of rank " + to_string(r->owner) + " never completed; ";
	return s;
}

MPI_Comm make_comm(const vector<int>& members, uint64_t key) {
	// same context for all members: created by whoever comes first
	static std::map<std::pair<uint64_t, vector<int>>, std::pair<uint64_t, shared_ptr<Ctx>>> made;
	auto& e = made[{key, members}];
	if (!e.second || ctxs.find(e.second->id) == ctxs.end() || ctxs[e.second->id] != e.second) e.second = new_ctx(members);
	auto* c = new sim_comm_s{e.second, false};
	live_comms.insert(c);
	return c;
}

void reset_all() {
	disk.files.clear();
	io_faults.clear();
	next_ctx = 1; msg_seq = 0; req_ids = 0;
	srng.reseed(mix(policy.seed, 4242));
	far_rng.reseed(mix(policy.seed, 777));
	ctxs.clear(); self_ctx.clear(); live_requests.clear(); live_types.clear(); live_files.clear(); open_files.clear();
	for (auto* c: live_comms) delete c;
	live_comms.clear();
	matches.clear(); eager_done.clear(); pending_writes.clear();
}

// ----------------------------------------------------------- collectives
static shared_ptr<Coll> coll_enter(Ctx& c, const string& sig, vector<uint8_t> data, vector<size_t> aux = {}) {
	const int r = my_rank(c);
	const uint64_t seq = c.cseq[r]++;
	while (c.cbase + c.colls.size() <= seq) {
		shared_ptr<Coll> k(new Coll);
		k->in.assign(c.members.size(), 0);
		k->data.resize(c.members.size());
		k->aux.resize(c.members.size());
		c.colls.push_back(k);
	}
	auto k = c.colls[seq - c.cbase];
	if (k->n_in == 0) k->sig = sig;
	else if (k->sig != sig) {
		fatal(cur_tags(), "collective-mismatch", "rank " + to_string(r) + " called " + sig
			+ " while others called " + k->sig + " on the same communicator");
	}
	k->in[r] = 1;
	k->n_in++;
	k->data[r] = std::move(data);
	k->aux[r] = std::move(aux);
	if (k->n_in == 1) count(c_collectives);
	return k;
}
static void coll_leave(Ctx& c, const shared_ptr<Coll>& k) {
	k->n_left++;
	while (!c.colls.empty() && c.colls.front()->n_left == int(c.members.size())) {
		c.colls.pop_front();
		c.cbase++;
	}
}
static void coll_wait_all(Ctx& c, const shared_ptr<Coll>& k) {
	const int n = int(c.members.size());
	block_until([&] { return k->n_in == n; });
}
static void coll_wait_root(const shared_ptr<Coll>& k, int root) {
	block_until([&] { return k->in[root] != 0; });
}

template<class V> static V apply(int op, V a, V b) {
	switch (op) {
	case 0: return V(a + b);
	case 1: return a > b ? a : b;
	case 2: return a < b ? a : b;
	case 3: return V(a * b);
	case 4: return V(a && b);
	case 5: return V(a || b);
	case 9: return V(!a != !b);
	}
	misuse("unsupported reduction");
}
template<class V> static V apply_int(int op, V a, V b) {
	switch (op) {
	case 6: return V(a & b);
	case 7: return V(a | b);
	case 8: return V(a ^ b);
	}
	return apply(op, a, b);
}
template<class V, bool I> static void reduce_into(vector<uint8_t>& acc, const vector<uint8_t>& in, int op) {
	for (size_t i = 0; i + sizeof(V) <= acc.size(); i += sizeof(V)) {
		V a, b;
		memcpy(&a, &acc[i], sizeof a);
		memcpy(&b, &in[i], sizeof b);
		if constexpr (I) a = apply_int(op, a, b); else a = apply(op, a, b);
		memcpy(&acc[i], &a, sizeof a);
	}
}
static void reduce_bytes(char kind, vector<uint8_t>& acc, const vector<uint8_t>& in, int op) {
	switch (kind) {
	case 'c': return reduce_into<int8_t, true>(acc, in, op);
	case 'C': return reduce_into<uint8_t, true>(acc, in, op);
	case 's': return reduce_into<int16_t, true>(acc, in, op);
	case 'S': return reduce_into<uint16_t, true>(acc, in, op);
	case 'i': return reduce_into<int32_t, true>(acc, in, op);
	case 'I': return reduce_into<uint32_t, true>(acc, in, op);
	case 'l': return reduce_into<int64_t, true>(acc, in, op);
	case 'L': return reduce_into<uint64_t, true>(acc, in, op);
	case 'f': return reduce_into<float, false>(acc, in, op);
	case 'd': return reduce_into<double, false>(acc, in, op);
	case 'D': return reduce_into<long double, false>(acc, in, op);
	}
	misuse("reduction with unsupported datatype");
}

// -------------------------------------------------------------- files
struct FileH {
	string name;
	int amode;
	shared_ptr<Ctx> ctx; // for collective calls on the file
};
} // namespace sim
struct sim_file_s {
	shared_ptr<sim::FileH> h;
	int owner;
	MPI_Offset disp = 0;
	size_t etype = 1;
	vector<sim::Seg> segs{{0, 1}};
	size_t fsize = 1;
	MPI_Aint fextent = 1;
	MPI_Offset pos = 0;
};
namespace sim {

[[noreturn]] static void crash_now() {
	count(c_crash);
	job->crashed = true;
	job->why = "simulated crash";
	die();
}

static void write_bytes(const string& name, uint64_t off, const vector<uint8_t>& d) {
	auto& f = disk.files[name];
	if (d.empty()) return;
	for (size_t i = 0; i < d.size(); i++) f.put(off + i, d[i]);
	count(c_files_bytes, d.size());
}
static void apply_write(const string& name, const vector<std::pair<uint64_t, vector<uint8_t>>>& parts) {
	for (const auto& p: parts) {
		if (io_writes_applied++ == crash_at) {
			// torn write: a prefix reaches the disk
			vector<uint8_t> d(p.second.begin(), p.second.begin() + p.second.size() / 2);
			write_bytes(name, p.first, d);
			count(c_torn_write);
			if (cur >= 0) crash_now();
			count(c_crash);
			job->crashed = true; job->dead = true; job->why = "simulated crash";
			return;
		}
		write_bytes(name, p.first, p.second);
	}
}
static void flush_pending(size_t i) {
	auto p = pending_writes[i];
	pending_writes.erase(pending_writes.begin() + i);
	apply_write(p.h->name, p.parts);
}
static void flush_own(sim_file_s* f) {
	for (size_t i = 0; i < pending_writes.size();) {
		if (pending_writes[i].h == f->h && pending_writes[i].owner == f->owner) flush_pending(i);
		else i++;
	}
}
static sim_file_s& file_of(MPI_File f) {
	if (f == nullptr || !live_files.count(f) || f->owner != cur) misuse("invalid file handle");
	return *f;
}
static IoFault* armed_fault() {
	Fiber& f = job->fibers[cur];
	const int nth = f.io_calls++;
	count(c_io_calls);
	for (auto& x: io_faults) {
		if (!x.fired && x.kind < call_error && x.op == f.op && x.rank == cur && x.nth == nth) return &x;
	}
	return nullptr;
}
// byte ranges in file of n bytes of data starting at offset (in etypes)
static vector<std::pair<uint64_t, size_t>> file_ranges(sim_file_s& f, MPI_Offset offset, size_t n) {
	vector<std::pair<uint64_t, size_t>> r;
	if (f.fsize == 0 && n > 0) misuse("data access through an empty file view");
	if (n == 0) return r;
	size_t skip = size_t(offset) * f.etype;
	size_t tile = skip / f.fsize;
	skip %= f.fsize;
	while (n > 0) {
		for (const auto& s: f.segs) {
			if (n == 0) break;
			size_t len = s.len, d = 0;
			if (skip >= len) { skip -= len; continue; }
			d = skip; len -= skip; skip = 0;
			len = std::min(len, n);
			r.push_back({uint64_t(f.disp + MPI_Aint(tile) * f.fextent + s.disp) + d, len});
			n -= len;
		}
		tile++;
	}
	return r;
}
static int do_write(sim_file_s& f, MPI_Offset offset, const void* buf, int n, MPI_Datatype t, MPI_Status* st) {
	auto type = get_type(t, true);
	if (n < 0) misuse("negative count given to file write");
	if (f.h->amode & MPI_MODE_RDONLY) return MPI_ERR_READ_ONLY;
	auto data = pack_impl(buf, n, *type);
	auto ranges = file_ranges(f, offset, data.size());
	IoFault* fault = armed_fault();
	size_t limit = data.size();
	int err = MPI_SUCCESS;
	if (fault && !data.empty()) {
		fault->fired = true;
		switch (fault->kind) {
		case io_error: limit = 0; err = MPI_ERR_IO; count(c_io_error); break;
		case io_error_partial: limit = data.size() / 2; err = MPI_ERR_IO; count(c_io_partial); break;
		case io_nospace: limit = data.size() / 3; err = MPI_ERR_NO_SPACE; count(c_io_nospace); break;
		case io_short: limit = data.size() / 2; count(c_io_short); break;
		default: fault->fired = false;
		}
	}
	Pending p{f.owner, f.h, {}};
	size_t pos = 0;
	for (auto& r: ranges) {
		if (pos >= limit) break;
		const size_t len = std::min(r.second, limit - pos);
		p.parts.push_back({r.first, vector<uint8_t>(data.begin() + pos, data.begin() + pos + len)});
		pos += len;
	}
	disk.files[f.h->name]; // exists
	if (chance(policy.late_write_pm, false)) { count(c_late_write); pending_writes.push_back(p); }
	else { flush_own(&f); apply_write(f.h->name, p.parts); }
	log_event("fwrite", offset, data.size(), limit, err);
	if (st) { st->MPI_SOURCE = 0; st->MPI_TAG = 0; st->MPI_ERROR = err; st->sim_count = limit; }
	return err;
}
static int do_read(sim_file_s& f, MPI_Offset offset, void* buf, int n, MPI_Datatype t, MPI_Status* st) {
	auto type = get_type(t, true);
	if (n < 0) misuse("negative count given to file read");
	const size_t want = type->size * size_t(n);
	auto ranges = file_ranges(f, offset, want);
	IoFault* fault = armed_fault();
	size_t limit = want;
	int err = MPI_SUCCESS;
	if (fault && want > 0) {
		fault->fired = true;
		switch (fault->kind) {
		case io_error: limit = 0; err = MPI_ERR_IO; count(c_io_error); break;
		case io_error_partial: limit = want / 2; err = MPI_ERR_IO; count(c_io_partial); break;
		case io_short: limit = want / 2; count(c_io_short); break;
		default: fault->fired = false;
		}
	}
	const auto& bytes = disk.files[f.h->name];
	vector<uint8_t> data;
	for (auto& r: ranges) {
		size_t len = std::min(r.second, limit - data.size());
		if (r.first >= bytes.size()) break;
		const size_t avail = std::min<size_t>(len, bytes.size() - r.first);
		const size_t had = data.size();
		data.resize(had + avail);
		bytes.get(r.first, data.data() + had, avail);
		if (avail < r.second) break;
	}
	unpack_impl(buf, n, *type, data.data(), data.size());
	log_event("fread", offset, want, data.size(), err);
	if (st) { st->MPI_SOURCE = 0; st->MPI_TAG = 0; st->MPI_ERROR = err; st->sim_count = data.size(); }
	return err;
}

} // namespace sim
using namespace sim;

// ================================================================ MPI API
extern "C" {

int MPI_Init(int*, char***) { return MPI_SUCCESS; }
int MPI_Init_thread(int*, char***, int r, int* p) { *p = r; return MPI_SUCCESS; }
int MPI_Initialized(int* f) { *f = 1; return MPI_SUCCESS; }
int MPI_Finalized(int* f) { *f = 0; return MPI_SUCCESS; }
int MPI_Finalize(void) { return MPI_SUCCESS; }
int MPI_Abort(MPI_Comm, int) { job_abort("MPI_Abort called"); }
double MPI_Wtime(void) { return double(report->steps) * 1e-6; }
double MPI_Wtick(void) { return 1e-6; }
int MPI_Get_processor_name(char* n, int* l) { strcpy(n, "sim"); *l = 3; return MPI_SUCCESS; }
int MPI_Error_string(int e, char* s, int* l) {
	memset(s, 0, MPI_MAX_ERROR_STRING);
	*l = snprintf(s, MPI_MAX_ERROR_STRING, "simulated MPI error %d", e);
	return MPI_SUCCESS;
}
int MPI_Error_class(int e, int* c) { *c = e; return MPI_SUCCESS; }

int MPI_Comm_size(MPI_Comm c, int* n) { *n = int(ctx_of(c).members.size()); return MPI_SUCCESS; }
int MPI_Comm_rank(MPI_Comm c, int* r) { *r = my_rank(ctx_of(c)); return MPI_SUCCESS; }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* out) {
	Ctx& x = ctx_of(c);
	enter("Comm_dup", x.id);
	auto k = coll_enter(x, "Comm_dup", {});
	if (!k->newctx) k->newctx = new_ctx(x.members);
	coll_wait_all(x, k);
	if (failing(c_call_comm)) { coll_leave(x, k); return MPI_ERR_OTHER; }
	auto* n = new sim_comm_s{k->newctx, false};
	live_comms.insert(n);
	*out = n;
	coll_leave(x, k);
	return MPI_SUCCESS;
}
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm* out) {
	Ctx& x = ctx_of(c);
	enter("Comm_split", x.id, color, key);
	const int me = my_rank(x);
	auto k = coll_enter(x, "Comm_split", {}, {size_t(color), size_t(key)});
	coll_wait_all(x, k);
	if (!k->obj) k->obj = std::make_shared<std::map<int, shared_ptr<Ctx>>>();
	auto& made = *static_cast<std::map<int, shared_ptr<Ctx>>*>(k->obj.get());
	*out = MPI_COMM_NULL;
	if (color != MPI_UNDEFINED) {
		if (!made.count(color)) {
			vector<std::pair<int, int>> v;
			for (size_t i = 0; i < x.members.size(); i++)
				if (int(k->aux[i][0]) == color) v.push_back({int(k->aux[i][1]), int(i)});
			std::sort(v.begin(), v.end());
			vector<int> m;
			for (auto& p: v) m.push_back(x.members[p.second]);
			made[color] = new_ctx(m);
		}
		auto* n = new sim_comm_s{made[color], false};
		live_comms.insert(n);
		*out = n;
	}
	(void) me;
	coll_leave(x, k);
	return MPI_SUCCESS;
}
int MPI_Comm_free(MPI_Comm* c) {
	if (c == nullptr || *c == nullptr || !live_comms.count(*c)) misuse("MPI_Comm_free of invalid communicator");
	Ctx& x = ctx_of(*c);
	enter("Comm_free", x.id);
	live_comms.erase(*c);
	delete *c;
	*c = MPI_COMM_NULL;
	return MPI_SUCCESS;
}
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int* r) {
	Ctx &x = ctx_of(a), &y = ctx_of(b);
	*r = &x == &y ? MPI_IDENT : x.members == y.members ? MPI_CONGRUENT : MPI_UNEQUAL;
	return MPI_SUCCESS;
}
int MPI_Comm_get_attr(MPI_Comm, int key, void* v, int* flag) {
	static int ub;
	ub = policy.tag_ub;
	if (key == MPI_TAG_UB) { *(int**) v = &ub; *flag = 1; } else *flag = 0;
	return MPI_SUCCESS;
}
int MPI_Attr_get(MPI_Comm c, int key, void* v, int* flag) { return MPI_Comm_get_attr(c, key, v, flag); }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return MPI_SUCCESS; }
int MPI_Comm_get_errhandler(MPI_Comm, MPI_Errhandler* e) { *e = MPI_ERRORS_ARE_FATAL; return MPI_SUCCESS; }
int MPI_Errhandler_free(MPI_Errhandler*) { return MPI_SUCCESS; }
int MPI_Comm_set_name(MPI_Comm, const char*) { return MPI_SUCCESS; }

// ---- point to point
static sim_request_s* new_request(bool recv, const void* buf, int n, MPI_Datatype t) {
	if (n < 0) misuse("negative count in communication");
	auto type = get_type(t, true);
	auto* r = new sim_request_s;
	r->recv = recv; r->owner = cur; r->buf = const_cast<void*>(buf); r->count = n; r->type = type;
	r->born = msg_seq; r->tid = req_ids++;
	return r;
}
static void check_peer(Ctx& c, int peer, int tag, bool wild) {
	if (peer == MPI_PROC_NULL) return;
	if ((peer < 0 && !(wild && peer == MPI_ANY_SOURCE)) || peer >= int(c.members.size()))
		misuse("rank " + to_string(peer) + " doesn't exist in communicator");
	if ((tag < 0 && !(wild && tag == MPI_ANY_TAG)) || tag > policy.tag_ub)
		misuse("message tag " + to_string(tag) + " outside of [0, MPI_TAG_UB]");
}
// couldn't be committed
static bool broken(MPI_Datatype t) { return t != nullptr && (predefined(t) || live_types.count(t)) && t->broken; }
static void junk(void* b, size_t extents, int n, const TypeImpl& t) {
	vector<uint8_t> j(t.size * size_t(n), 0xB7);
	unpack_impl((uint8_t*) b + MPI_Aint(extents) * t.extent, n, t, j.data(), j.size());
}
static int start_send(const void* buf, int n, MPI_Datatype t, int dst, int tag, MPI_Comm comm, MPI_Request* out, bool sync) {
	Ctx& c = ctx_of(comm);
	check_peer(c, dst, tag, false);
	if (broken(t)) return MPI_ERR_TYPE;
	if (failing(c_call_send)) return MPI_ERR_OTHER;
	auto* r = new_request(false, buf, n, t);
	r->want_src = dst; r->want_tag = tag;
	live_requests.insert(r);
	*out = r;
	if (dst == MPI_PROC_NULL) { r->complete = true; return MPI_SUCCESS; }
	shared_ptr<Msg> m(new Msg);
	m->ctx = c.id; m->src = my_rank(c); m->dst = dst; m->tag = tag;
	m->seq = msg_seq++;
	m->bytes = r->type->size * size_t(n);
	m->eager = !sync && chance(policy.eager_pm, true);
	m->hold_until = 0;
	if (policy.hold_pm > 0 && chance(policy.hold_pm, false)) {
		m->hold_until = report->steps + 1 + choose(policy.hold_steps, 0);
		count(c_held);
	}
	count(c_msgs); count(c_bytes, m->bytes);
	if (m->eager) {
		count(c_eager);
		m->data = pack_impl(buf, n, *r->type);
		eager_done.push_back(r);
	} else {
		count(c_rendezvous);
		m->sreq = r;
	}
	c.links[{m->src, m->dst}].push_back(m);
	return MPI_SUCCESS;
}
int MPI_Isend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* r) {
	enter("Isend", d, tag, n);
	return start_send(b, n, t, d, tag, c, r, false);
}
int MPI_Issend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* r) {
	enter("Issend", d, tag, n);
	return start_send(b, n, t, d, tag, c, r, true);
}
int MPI_Ibsend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* r) {
	return MPI_Isend(b, n, t, d, tag, c, r);
}
int MPI_Irecv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm comm, MPI_Request* out) {
	enter("Irecv", src, tag, n);
	Ctx& c = ctx_of(comm);
	check_peer(c, src, tag, true);
	if (broken(t)) return MPI_ERR_TYPE;
	if (failing(c_call_recv)) return MPI_ERR_OTHER;
	auto* r = new_request(true, b, n, t);
	r->want_src = src; r->want_tag = tag;
	live_requests.insert(r);
	*out = r;
	if (src == MPI_PROC_NULL) { r->complete = true; r->source = MPI_PROC_NULL; r->tag = MPI_ANY_TAG; return MPI_SUCCESS; }
	if (policy.scribble) {
		r->saved = pack_impl(b, n, *r->type);
		vector<uint8_t> junk(r->saved.size(), 0xB7);
		unpack_impl(b, n, *r->type, junk.data(), junk.size());
		count(c_scribbled);
	}
	const int me = my_rank(c);
	auto& u = c.unexpected[me];
	for (auto it = u.begin(); it != u.end(); ++it) {
		if (matches_req(**it, *r)) {
			r->matched = true;
			matches.push_back({*it, r});
			u.erase(it);
			return MPI_SUCCESS;
		}
	}
	c.posted[me].push_back(r);
	return MPI_SUCCESS;
}
static void finish(MPI_Request* req, MPI_Status* st) {
	sim_request_s* r = *req;
	if (st) {
		st->MPI_SOURCE = r->recv ? r->source : MPI_ANY_SOURCE;
		st->MPI_TAG = r->recv ? r->tag : MPI_ANY_TAG;
		st->MPI_ERROR = MPI_SUCCESS;
		st->sim_count = r->recv ? r->bytes : 0;
		st->sim_cancelled = 0;
	}
	live_requests.erase(r);
	delete r;
	*req = MPI_REQUEST_NULL;
}
static void check_req(MPI_Request r) {
	if (r == MPI_REQUEST_NULL) return;
	if (!live_requests.count(r)) misuse("wait/test on a request that is not active");
	if (r->owner != cur) misuse("wait/test on a request of another process");
}
static void empty_status(MPI_Status* st) {
	if (st) { st->MPI_SOURCE = MPI_ANY_SOURCE; st->MPI_TAG = MPI_ANY_TAG; st->MPI_ERROR = MPI_SUCCESS; st->sim_count = 0; }
}
int MPI_Wait(MPI_Request* r, MPI_Status* st) {
	enter("Wait");
	check_req(*r);
	if (*r == MPI_REQUEST_NULL) { empty_status(st); return MPI_SUCCESS; }
	sim_request_s* q = *r;
	const IoFault* bad = failing(c_call_wait);
	block_until([&] { return q->complete; });
	if (bad && q->recv) junk(q->buf, 0, q->count, *q->type);
	finish(r, st);
	return bad ? MPI_ERR_OTHER : MPI_SUCCESS;
}
int MPI_Waitall(int n, MPI_Request* r, MPI_Status* st) {
	enter("Waitall", n);
	if (n < 0) misuse("negative count given to MPI_Waitall");
	for (int i = 0; i < n; i++) check_req(r[i]);
	block_until([&] {
		for (int i = 0; i < n; i++) if (r[i] != MPI_REQUEST_NULL && !r[i]->complete) return false;
		return true;
	});
	vector<int> act;
	for (int i = 0; i < n; i++) if (r[i] != MPI_REQUEST_NULL) act.push_back(i);
	if (const IoFault* bad = act.empty() ? nullptr : failing(c_call_wait)) {
		const int i = act[size_t(bad->nth) % act.size()];
		if (r[i]->recv) junk(r[i]->buf, 0, r[i]->count, *r[i]->type);
		const bool say = bad->kind % 2 == 0 && st;
		for (const int k: act) finish(&r[k], say ? st + k : nullptr);
		if (say) st[i].MPI_ERROR = MPI_ERR_OTHER;
		return say ? MPI_ERR_IN_STATUS : MPI_ERR_OTHER;
	}
	for (int i = 0; i < n; i++) {
		if (r[i] == MPI_REQUEST_NULL) empty_status(st ? st + i : nullptr);
		else finish(&r[i], st ? st + i : nullptr);
	}
	return MPI_SUCCESS;
}
static vector<int> done_list(int n, MPI_Request* r, bool& any_active) {
	vector<int> d;
	any_active = false;
	for (int i = 0; i < n; i++) if (r[i] != MPI_REQUEST_NULL) {
		any_active = true;
		if (r[i]->complete) d.push_back(i);
	}
	return d;
}
int MPI_Waitany(int n, MPI_Request* r, int* idx, MPI_Status* st) {
	enter("Waitany", n);
	for (int i = 0; i < n; i++) check_req(r[i]);
	bool act;
	done_list(n, r, act);
	if (!act) { *idx = MPI_UNDEFINED; empty_status(st); return MPI_SUCCESS; }
	block_until([&] { bool a; return !done_list(n, r, a).empty(); });
	auto d = done_list(n, r, act);
	*idx = d[choose(d.size(), 0)];
	finish(&r[*idx], st);
	return MPI_SUCCESS;
}
int MPI_Waitsome(int n, MPI_Request* r, int* out, int* idx, MPI_Status* st) {
	enter("Waitsome", n);
	for (int i = 0; i < n; i++) check_req(r[i]);
	bool act;
	done_list(n, r, act);
	if (!act) { *out = MPI_UNDEFINED; return MPI_SUCCESS; }
	block_until([&] { bool a; return !done_list(n, r, a).empty(); });
	auto d = done_list(n, r, act);
	*out = int(d.size());
	for (size_t i = 0; i < d.size(); i++) { idx[i] = d[i]; finish(&r[d[i]], st ? st + i : nullptr); }
	return MPI_SUCCESS;
}
static void poll_yield() { count(c_preempt); switch_to_main(); }
int MPI_Test(MPI_Request* r, int* flag, MPI_Status* st) {
	enter("Test");
	check_req(*r);
	if (*r == MPI_REQUEST_NULL) { *flag = 1; empty_status(st); return MPI_SUCCESS; }
	if (!(*r)->complete) poll_yield();
	if ((*r)->complete) { *flag = 1; finish(r, st); } else *flag = 0;
	return MPI_SUCCESS;
}
int MPI_Testall(int n, MPI_Request* r, int* flag, MPI_Status* st) {
	enter("Testall", n);
	for (int i = 0; i < n; i++) check_req(r[i]);
	auto ready = [&] { for (int i = 0; i < n; i++) if (r[i] != MPI_REQUEST_NULL && !r[i]->complete) return false; return true; };
	if (!ready()) poll_yield();
	*flag = ready();
	if (*flag) for (int i = 0; i < n; i++) {
		if (r[i] == MPI_REQUEST_NULL) empty_status(st ? st + i : nullptr);
		else finish(&r[i], st ? st + i : nullptr);
	}
	return MPI_SUCCESS;
}
int MPI_Testany(int n, MPI_Request* r, int* idx, int* flag, MPI_Status* st) {
	enter("Testany", n);
	for (int i = 0; i < n; i++) check_req(r[i]);
	bool act;
	auto d = done_list(n, r, act);
	if (!act) { *flag = 1; *idx = MPI_UNDEFINED; empty_status(st); return MPI_SUCCESS; }
	if (d.empty()) { poll_yield(); d = done_list(n, r, act); }
	*flag = !d.empty();
	if (*flag) { *idx = d[choose(d.size(), 0)]; finish(&r[*idx], st); } else *idx = MPI_UNDEFINED;
	return MPI_SUCCESS;
}
int MPI_Testsome(int n, MPI_Request* r, int* out, int* idx, MPI_Status* st) {
	enter("Testsome", n);
	for (int i = 0; i < n; i++) check_req(r[i]);
	bool act;
	auto d = done_list(n, r, act);
	if (!act) { *out = MPI_UNDEFINED; return MPI_SUCCESS; }
	if (d.empty()) { poll_yield(); d = done_list(n, r, act); }
	*out = int(d.size());
	for (size_t i = 0; i < d.size(); i++) { idx[i] = d[i]; finish(&r[d[i]], st ? st + i : nullptr); }
	return MPI_SUCCESS;
}
int MPI_Send(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) {
	MPI_Request r;
	if (const int e = MPI_Isend(b, n, t, d, tag, c, &r)) return e;
	return MPI_Wait(&r, MPI_STATUS_IGNORE);
}
int MPI_Ssend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) {
	MPI_Request r;
	if (const int e = MPI_Issend(b, n, t, d, tag, c, &r)) return e;
	return MPI_Wait(&r, MPI_STATUS_IGNORE);
}
int MPI_Recv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status* st) {
	MPI_Request r;
	if (const int e = MPI_Irecv(b, n, t, s, tag, c, &r)) return e;
	return MPI_Wait(&r, st);
}
int MPI_Sendrecv(const void* sb, int sn, MPI_Datatype stt, int d, int stag, void* rb, int rn, MPI_Datatype rt, int s, int rtag, MPI_Comm c, MPI_Status* st) {
	MPI_Request r[2];
	MPI_Status ss[2];
	MPI_Irecv(rb, rn, rt, s, rtag, c, &r[0]);
	MPI_Isend(sb, sn, stt, d, stag, c, &r[1]);
	const int e = MPI_Waitall(2, r, ss);
	if (st) *st = ss[0];
	return e;
}
static bool probe_once(int src, int tag, Ctx& c, MPI_Status* st) {
	sim_request_s q;
	q.want_src = src; q.want_tag = tag;
	for (auto& m: c.unexpected[my_rank(c)]) if (matches_req(*m, q)) {
		if (st) { st->MPI_SOURCE = m->src; st->MPI_TAG = m->tag; st->MPI_ERROR = MPI_SUCCESS; st->sim_count = m->bytes; }
		return true;
	}
	return false;
}
int MPI_Probe(int src, int tag, MPI_Comm comm, MPI_Status* st) {
	enter("Probe", src, tag);
	Ctx& c = ctx_of(comm);
	block_until([&] { return probe_once(src, tag, c, st); });
	return MPI_SUCCESS;
}
int MPI_Iprobe(int src, int tag, MPI_Comm comm, int* flag, MPI_Status* st) {
	enter("Iprobe", src, tag);
	Ctx& c = ctx_of(comm);
	*flag = probe_once(src, tag, c, st);
	if (!*flag) { poll_yield(); *flag = probe_once(src, tag, c, st); }
	return MPI_SUCCESS;
}
int MPI_Get_count(const MPI_Status* st, MPI_Datatype t, int* n) {
	auto type = get_type(t, false);
	if (type->size == 0) { *n = st->sim_count == 0 ? 0 : MPI_UNDEFINED; return MPI_SUCCESS; }
	*n = st->sim_count % type->size ? MPI_UNDEFINED : int(st->sim_count / type->size);
	return MPI_SUCCESS;
}
int MPI_Get_elements(const MPI_Status* st, MPI_Datatype t, int* n) { return MPI_Get_count(st, t, n); }
int MPI_Request_free(MPI_Request* r) {
	enter("Request_free");
	check_req(*r);
	// completes in the background
	live_requests.erase(*r);
	*r = MPI_REQUEST_NULL;
	return MPI_SUCCESS;
}

// ---- collectives
int MPI_Barrier(MPI_Comm comm) {
	Ctx& c = ctx_of(comm);
	enter("Barrier", c.id);
	auto k = coll_enter(c, "Barrier", {});
	coll_wait_all(c, k);
	coll_leave(c, k);
	return MPI_SUCCESS;
}
static vector<uint8_t> take(const void* b, int n, MPI_Datatype t) {
	if (n < 0) misuse("negative count in collective");
	auto type = get_type(t, true);
	return pack_impl(b, n, *type);
}
static void put(void* b, size_t index_extents, int n, MPI_Datatype t, const vector<uint8_t>& d) {
	auto type = get_type(t, true);
	if (d.size() > type->size * size_t(n)) misuse("collective delivers " + to_string(d.size()) + " bytes into space for " + to_string(type->size * size_t(n)));
	unpack_impl((uint8_t*) b + MPI_Aint(index_extents) * type->extent, n, *type, d.data(), d.size());
}
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm comm) {
	Ctx& c = ctx_of(comm);
	enter("Bcast", c.id, root, n);
	const int me = my_rank(c);
	auto type = get_type(t, true);
	auto k = coll_enter(c, "Bcast:" + to_string(root) + ":" + to_string(type->size * size_t(n)), me == root ? take(b, n, t) : vector<uint8_t>());
	const bool early = chance(policy.early_pm, false);
	if (early) { count(c_early); coll_wait_root(k, root); } else coll_wait_all(c, k);
	if (const IoFault* bad = failing(c_call_coll)) {
		if (me != root && bad->kind % 2 == 1) junk(b, 0, n, *type);
		coll_leave(c, k);
		return MPI_ERR_OTHER;
	}
	if (me != root) put(b, 0, n, t, k->data[root]);
	coll_leave(c, k);
	return MPI_SUCCESS;
}
static vector<uint8_t> reduced(const Coll& k, MPI_Datatype t, MPI_Op op, int upto) {
	vector<uint8_t> acc;
	for (int i = 0; i < upto; i++) {
		if (i == 0) acc = k.data[i];
		else reduce_bytes(t->kind, acc, k.data[i], op->id);
	}
	return acc;
}
int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm comm) {
	Ctx& c = ctx_of(comm);
	enter("Allreduce", c.id, n, op->id);
	if (!predefined(t)) misuse("reduction of derived datatype");
	auto k = coll_enter(c, string("Allreduce:") + t->kind + ":" + to_string(n) + ":" + to_string(op->id), take(s == MPI_IN_PLACE ? r : s, n, t));
	coll_wait_all(c, k);
	if (const IoFault* bad = failing(c_call_coll)) {
		if (bad->kind % 2 == 1) junk(r, 0, n, *get_type(t, true));
		coll_leave(c, k);
		return MPI_ERR_OTHER;
	}
	put(r, 0, n, t, reduced(*k, t, op, int(c.members.size())));
	coll_leave(c, k);
	return MPI_SUCCESS;
}
int MPI_Reduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm comm) {
	Ctx& c = ctx_of(comm);
	enter("Reduce", c.id, n, root);
	const int me = my_rank(c);
	auto k = coll_enter(c, string("Reduce:") + t->kind + ":" + to_string(n) + ":" + to_string(op->id) + ":" + to_string(root), take(s == MPI_IN_PLACE ? r : s, n, t));
	if (me == root || !chance(policy.early_pm, false)) coll_wait_all(c, k); else count(c_early);
	if (me == root) put(r, 0, n, t, reduced(*k, t, op, int(c.members.size())));
	coll_leave(c, k);
	return MPI_SUCCESS;
}
int MPI_Scan(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm comm) {
	Ctx& c = ctx_of(comm);
	enter("Scan", c.id, n);
	auto k = coll_enter(c, string("Scan:") + t->kind + ":" + to_string(n) + ":" + to_string(op->id), take(s == MPI_IN_PLACE ? r : s, n, t));
	coll_wait_all(c, k);
	put(r, 0, n, t, reduced(*k, t, op, my_rank(c) + 1));
	coll_leave(c, k);
	return MPI_SUCCESS;
}
int MPI_Exscan(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm comm) {
	Ctx& c = ctx_of(comm);
	enter("Exscan", c.id, n);
	auto k = coll_enter(c, string("Exscan:") + t->kind + ":" + to_string(n) + ":" + to_string(op->id), take(s == MPI_IN_PLACE ? r : s, n, t));
	coll_wait_all(c, k);
	if (my_rank(c) > 0) put(r, 0, n, t, reduced(*k, t, op, my_rank(c)));
	coll_leave(c, k);
	return MPI_SUCCESS;
}
int MPI_Allgather(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, MPI_Comm comm) {
	Ctx& c = ctx_of(comm);
	enter("Allgather", c.id, sn);
	const int me = my_rank(c);
	auto rtype = get_type(rt, true);
	const void* src = s == MPI_IN_PLACE ? (uint8_t*) r + MPI_Aint(me) * rn * rtype->extent : s;
	auto k = coll_enter(c, "Allgather:" + to_string(rtype->size * size_t(rn)), s == MPI_IN_PLACE ? take(src, rn, rt) : take(src, sn, st));
	coll_wait_all(c, k);
	if (const IoFault* bad = failing(c_call_coll)) {
		if (bad->kind % 2 == 1) junk(r, 0, rn * int(c.members.size()), *rtype);
		coll_leave(c, k);
		return MPI_ERR_OTHER;
	}
	for (size_t i = 0; i < c.members.size(); i++) {
		if (k->data[i].size() != rtype->size * size_t(rn)) misuse("MPI_Allgather: rank " + to_string(i) + " sent a different amount than expected");
		put(r, i * rn, rn, rt, k->data[i]);
	}
	coll_leave(c, k);
	return MPI_SUCCESS;
}
int MPI_Allgatherv(const void* s, int sn, MPI_Datatype st, void* r, const int* rn, const int* disp, MPI_Datatype rt, MPI_Comm comm) {
	Ctx& c = ctx_of(comm);
	enter("Allgatherv", c.id, sn);
	const int me = my_rank(c);
	auto rtype = get_type(rt, true);
	const void* src = s == MPI_IN_PLACE ? (uint8_t*) r + MPI_Aint(disp[me]) * rtype->extent : s;
	auto k = coll_enter(c, "Allgatherv", s == MPI_IN_PLACE ? take(src, rn[me], rt) : take(src, sn, st));
	coll_wait_all(c, k);
	if (const IoFault* bad = failing(c_call_coll)) {
		if (bad->kind % 2 == 1) for (size_t i = 0; i < c.members.size(); i++) junk(r, size_t(disp[i]), rn[i], *rtype);
		coll_leave(c, k);
		return MPI_ERR_OTHER;
	}
	for (size_t i = 0; i < c.members.size(); i++) {
		if (k->data[i].size() != rtype->size * size_t(rn[i])) misuse("MPI_Allgatherv: rank " + to_string(i) + " sent a different amount than expected");
		put(r, disp[i], rn[i], rt, k->data[i]);
	}
	coll_leave(c, k);
	return MPI_SUCCESS;
}
int MPI_Gather(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm comm) {
	Ctx& c = ctx_of(comm);
	enter("Gather", c.id, sn, root);
	const int me = my_rank(c);
	auto k = coll_enter(c, "Gather:" + to_string(root), s == MPI_IN_PLACE ? take((uint8_t*) r + MPI_Aint(me) * rn * get_type(rt, true)->extent, rn, rt) : take(s, sn, st));
	if (me == root || !chance(policy.early_pm, false)) coll_wait_all(c, k); else count(c_early);
	if (me == root) for (size_t i = 0; i < c.members.size(); i++) put(r, i * rn, rn, rt, k->data[i]);
	coll_leave(c, k);
	return MPI_SUCCESS;
}
int MPI_Gatherv(const void* s, int sn, MPI_Datatype st, void* r, const int* rn, const int* disp, MPI_Datatype rt, int root, MPI_Comm comm) {
	Ctx& c = ctx_of(comm);
	enter("Gatherv", c.id, sn, root);
	const int me = my_rank(c);
	auto k = coll_enter(c, "Gatherv:" + to_string(root), s == MPI_IN_PLACE ? take((uint8_t*) r + MPI_Aint(disp[me]) * get_type(rt, true)->extent, rn[me], rt) : take(s, sn, st));
	if (me == root || !chance(policy.early_pm, false)) coll_wait_all(c, k); else count(c_early);
	if (me == root) for (size_t i = 0; i < c.members.size(); i++) put(r, disp[i], rn[i], rt, k->data[i]);
	coll_leave(c, k);
	return MPI_SUCCESS;
}
int MPI_Scatter(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm comm) {
	Ctx& c = ctx_of(comm);
	enter("Scatter", c.id, rn, root);
	const int me = my_rank(c);
	auto k = coll_enter(c, "Scatter:" + to_string(root), me == root ? take(s, sn * int(c.members.size()), st) : vector<uint8_t>());
	coll_wait_root(k, root);
	const size_t each = k->data[root].size() / c.members.size();
	if (r != MPI_IN_PLACE) put(r, 0, rn, rt, vector<uint8_t>(k->data[root].begin() + me * each, k->data[root].begin() + (me + 1) * each));
	coll_leave(c, k);
	return MPI_SUCCESS;
}
int MPI_Alltoall(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, MPI_Comm comm) {
	Ctx& c = ctx_of(comm);
	enter("Alltoall", c.id, sn);
	const int me = my_rank(c), n = int(c.members.size());
	auto k = coll_enter(c, "Alltoall:" + to_string(get_type(st, true)->size * size_t(sn)), take(s, sn * n, st));
	coll_wait_all(c, k);
	for (int i = 0; i < n; i++) {
		const size_t each = k->data[i].size() / n;
		put(r, size_t(i) * rn, rn, rt, vector<uint8_t>(k->data[i].begin() + me * each, k->data[i].begin() + (me + 1) * each));
	}
	coll_leave(c, k);
	return MPI_SUCCESS;
}
int MPI_Alltoallv(const void* s, const int* sn, const int* sd, MPI_Datatype st, void* r, const int* rn, const int* rd, MPI_Datatype rt, MPI_Comm comm) {
	Ctx& c = ctx_of(comm);
	enter("Alltoallv", c.id);
	const int me = my_rank(c), n = int(c.members.size());
	vector<uint8_t> all;
	vector<size_t> off;
	auto stype = get_type(st, true);
	for (int i = 0; i < n; i++) {
		off.push_back(all.size());
		auto d = take((const uint8_t*) s + MPI_Aint(sd[i]) * stype->extent, sn[i], st);
		all.insert(all.end(), d.begin(), d.end());
	}
	off.push_back(all.size());
	auto k = coll_enter(c, "Alltoallv", all, off);
	coll_wait_all(c, k);
	for (int i = 0; i < n; i++) {
		auto& o = k->aux[i];
		vector<uint8_t> d(k->data[i].begin() + o[me], k->data[i].begin() + o[me + 1]);
		if (d.size() != get_type(rt, true)->size * size_t(rn[i])) misuse("MPI_Alltoallv: amounts don't match");
		put(r, rd[i], rn[i], rt, d);
	}
	coll_leave(c, k);
	return MPI_SUCCESS;
}

// ---- datatypes
static MPI_Datatype make_type(int combiner) {
	auto* t = new sim_type_s;
	t->impl.reset(new TypeImpl);
	t->combiner = combiner;
	t->owner = cur;
	t->kind = 'x';
	live_types.insert(t);
	return t;
}
struct Bounds { bool any = false; MPI_Aint lo = 0, hi = 0; };
static void add_block(TypeImpl& to, Bounds& b, const TypeImpl& from, MPI_Aint disp, int n) {
	for (int i = 0; i < n; i++) {
		const MPI_Aint d = disp + MPI_Aint(i) * from.extent;
		for (const auto& s: from.segs) {
			if (s.len == 0) continue;
			if (!to.segs.empty() && to.segs.back().disp + MPI_Aint(to.segs.back().len) == d + s.disp) to.segs.back().len += s.len;
			else to.segs.push_back({d + s.disp, s.len});
			to.size += s.len;
		}
		const MPI_Aint lo = d + from.lb, hi = lo + from.extent;
		if (!b.any) { b.any = true; b.lo = lo; b.hi = hi; }
		else { b.lo = std::min(b.lo, lo); b.hi = std::max(b.hi, hi); }
	}
}
static int done_type(MPI_Datatype t, const Bounds& b, MPI_Datatype* out) {
	t->impl->lb = b.any ? b.lo : 0;
	t->impl->extent = b.any ? b.hi - b.lo : 0;
	*out = t;
	return MPI_SUCCESS;
}
int MPI_Type_contiguous(int n, MPI_Datatype o, MPI_Datatype* out) {
	if (n < 0) misuse("negative count given to MPI_Type_contiguous");
	if (failing(c_call_type)) return MPI_ERR_NO_MEM;
	auto ot = get_type(o, false);
	auto t = make_type(MPI_COMBINER_CONTIGUOUS);
	Bounds b;
	add_block(*t->impl, b, *ot, 0, n);
	return done_type(t, b, out);
}
int MPI_Type_vector(int n, int len, int stride, MPI_Datatype o, MPI_Datatype* out) {
	return MPI_Type_create_hvector(n, len, MPI_Aint(stride) * get_type(o, false)->extent, o, out);
}
int MPI_Type_create_hvector(int n, int len, MPI_Aint stride, MPI_Datatype o, MPI_Datatype* out) {
	auto ot = get_type(o, false);
	auto t = make_type(MPI_COMBINER_HVECTOR);
	Bounds b;
	for (int i = 0; i < n; i++) add_block(*t->impl, b, *ot, i * stride, len);
	return done_type(t, b, out);
}
int MPI_Type_indexed(int n, const int* len, const int* disp, MPI_Datatype o, MPI_Datatype* out) {
	auto ot = get_type(o, false);
	auto t = make_type(MPI_COMBINER_INDEXED);
	Bounds b;
	for (int i = 0; i < n; i++) add_block(*t->impl, b, *ot, MPI_Aint(disp[i]) * ot->extent, len[i]);
	return done_type(t, b, out);
}
int MPI_Type_create_hindexed(int n, const int* len, const MPI_Aint* disp, MPI_Datatype o, MPI_Datatype* out) {
	auto ot = get_type(o, false);
	auto t = make_type(MPI_COMBINER_HINDEXED);
	Bounds b;
	for (int i = 0; i < n; i++) add_block(*t->impl, b, *ot, disp[i], len[i]);
	return done_type(t, b, out);
}
int MPI_Type_create_indexed_block(int n, int len, const int* disp, MPI_Datatype o, MPI_Datatype* out) {
	auto ot = get_type(o, false);
	auto t = make_type(MPI_COMBINER_INDEXED_BLOCK);
	Bounds b;
	for (int i = 0; i < n; i++) add_block(*t->impl, b, *ot, MPI_Aint(disp[i]) * ot->extent, len);
	return done_type(t, b, out);
}
int MPI_Type_create_hindexed_block(int n, int len, const MPI_Aint* disp, MPI_Datatype o, MPI_Datatype* out) {
	auto ot = get_type(o, false);
	auto t = make_type(MPI_COMBINER_HINDEXED_BLOCK);
	Bounds b;
	for (int i = 0; i < n; i++) add_block(*t->impl, b, *ot, disp[i], len);
	return done_type(t, b, out);
}
int MPI_Type_create_struct(int n, const int* len, const MPI_Aint* disp, const MPI_Datatype* o, MPI_Datatype* out) {
	if (n < 0) misuse("negative count given to MPI_Type_create_struct");
	for (int i = 0; i < n; i++) {
		if (len[i] < 0) misuse("negative block length given to MPI_Type_create_struct");
		get_type(o[i], false);
	}
	if (failing(c_call_type)) return MPI_ERR_NO_MEM;
	auto t = make_type(MPI_COMBINER_STRUCT);
	Bounds b;
	for (int i = 0; i < n; i++) add_block(*t->impl, b, *o[i]->impl, disp[i], len[i]);
	return done_type(t, b, out);
}
int MPI_Type_create_resized(MPI_Datatype o, MPI_Aint lb, MPI_Aint extent, MPI_Datatype* out) {
	auto ot = get_type(o, false);
	auto t = make_type(MPI_COMBINER_RESIZED);
	*t->impl = *ot;
	t->impl->lb = lb;
	t->impl->extent = extent;
	*out = t;
	return MPI_SUCCESS;
}
int MPI_Type_dup(MPI_Datatype o, MPI_Datatype* out) {
	auto ot = get_type(o, false);
	auto t = make_type(MPI_COMBINER_DUP);
	*t->impl = *ot;
	t->committed = o->committed;
	*out = t;
	return MPI_SUCCESS;
}
int MPI_Type_commit(MPI_Datatype* t) {
	get_type(*t, false);
	if (failing(c_call_type)) { (*t)->broken = true; return MPI_ERR_NO_MEM; }
	(*t)->committed = true;
	return MPI_SUCCESS;
}
int MPI_Type_free(MPI_Datatype* t) {
	if (*t == nullptr) misuse("MPI_Type_free of MPI_DATATYPE_NULL");
	if (predefined(*t)) misuse("MPI_Type_free of a predefined datatype");
	if (!live_types.count(*t)) misuse("MPI_Type_free of an invalid datatype");
	live_types.erase(*t);
	delete *t;
	*t = MPI_DATATYPE_NULL;
	return MPI_SUCCESS;
}
int MPI_Type_size(MPI_Datatype t, int* n) { *n = int(get_type(t, false)->size); return MPI_SUCCESS; }
int MPI_Type_size_x(MPI_Datatype t, MPI_Count* n) { *n = MPI_Count(get_type(t, false)->size); return MPI_SUCCESS; }
int MPI_Type_get_extent(MPI_Datatype t, MPI_Aint* lb, MPI_Aint* e) {
	auto i = get_type(t, false);
	*lb = i->lb; *e = i->extent;
	return MPI_SUCCESS;
}
int MPI_Type_get_true_extent(MPI_Datatype t, MPI_Aint* lb, MPI_Aint* e) {
	auto i = get_type(t, false);
	MPI_Aint lo = 0, hi = 0;
	bool any = false;
	for (auto& s: i->segs) {
		if (!any) { lo = s.disp; hi = s.disp + s.len; any = true; }
		lo = std::min(lo, s.disp);
		hi = std::max<MPI_Aint>(hi, s.disp + s.len);
	}
	*lb = lo; *e = hi - lo;
	return MPI_SUCCESS;
}
int MPI_Type_get_envelope(MPI_Datatype t, int* ni, int* na, int* nd, int* comb) {
	get_type(t, false);
	*ni = *na = *nd = 0;
	*comb = t->combiner;
	return MPI_SUCCESS;
}
int MPI_Get_address(const void* p, MPI_Aint* a) { *a = (MPI_Aint) p; return MPI_SUCCESS; }
int MPI_Pack(const void* in, int n, MPI_Datatype t, void* out, int outsize, int* pos, MPI_Comm) {
	auto d = take(in, n, t);
	if (*pos + int(d.size()) > outsize) misuse("MPI_Pack overflows its buffer");
	memcpy((uint8_t*) out + *pos, d.data(), d.size());
	*pos += int(d.size());
	return MPI_SUCCESS;
}
int MPI_Unpack(const void* in, int insize, int* pos, void* out, int n, MPI_Datatype t, MPI_Comm) {
	auto type = get_type(t, true);
	const size_t want = type->size * size_t(n);
	if (*pos + want > size_t(insize)) misuse("MPI_Unpack reads past its buffer");
	unpack_impl(out, n, *type, (const uint8_t*) in + *pos, want);
	*pos += int(want);
	return MPI_SUCCESS;
}
int MPI_Pack_size(int n, MPI_Datatype t, MPI_Comm, int* s) { *s = int(get_type(t, false)->size) * n; return MPI_SUCCESS; }

// ---- files
int MPI_File_open(MPI_Comm comm, const char* name, int amode, MPI_Info, MPI_File* out) {
	Ctx& c = ctx_of(comm);
	enter("File_open", c.id, amode);
	auto k = coll_enter(c, string("File_open:") + name + ":" + to_string(amode), {});
	IoFault* f = armed_fault();
	if (f && f->kind == io_open_fail) { f->fired = true; k->flag = true; count(c_io_open); }
	if (!k->obj) {
		auto h = std::make_shared<FileH>();
		h->name = name; h->amode = amode; h->ctx = new_ctx(c.members);
		k->obj = h;
		if (!disk.files.count(name)) {
			if (amode & MPI_MODE_CREATE) disk.files[name];
			else k->err = MPI_ERR_NO_SUCH_FILE;
		} else if ((amode & MPI_MODE_CREATE) && (amode & MPI_MODE_EXCL)) k->err = MPI_ERR_FILE_EXISTS;
	}
	coll_wait_all(c, k);
	int ret = k->err;
	if (k->flag) ret = MPI_ERR_IO;
	if (ret == MPI_SUCCESS) {
		auto* fh = new sim_file_s;
		fh->h = std::static_pointer_cast<FileH>(k->obj);
		fh->owner = cur;
		live_files.insert(fh);
		open_files[fh->owner]++;
		*out = fh;
	} else *out = MPI_FILE_NULL;
	coll_leave(c, k);
	return ret;
}
int MPI_File_close(MPI_File* f) {
	sim_file_s& x = file_of(*f);
	enter("File_close");
	Ctx& c = *x.h->ctx;
	auto k = coll_enter(c, "File_close", {});
	flush_own(&x);
	coll_wait_all(c, k);
	coll_leave(c, k);
	live_files.erase(*f);
	open_files[(*f)->owner]--;
	delete *f;
	*f = MPI_FILE_NULL;
	return MPI_SUCCESS;
}
int MPI_File_delete(const char* name, MPI_Info) {
	enter("File_delete");
	return disk.files.erase(name) ? MPI_SUCCESS : MPI_ERR_NO_SUCH_FILE;
}
int MPI_File_set_view(MPI_File f, MPI_Offset disp, MPI_Datatype etype, MPI_Datatype ftype, const char*, MPI_Info) {
	sim_file_s& x = file_of(f);
	enter("File_set_view");
	auto e = get_type(etype, true), t = get_type(ftype, true);
	Ctx& c = *x.h->ctx;
	auto k = coll_enter(c, "File_set_view", {});
	MPI_Aint prev = 0;
	for (auto& s: t->segs) {
		if (s.disp < 0) misuse("negative displacement in file view");
		if (s.disp < prev) misuse("decreasing displacements in file view");
		prev = s.disp;
	}
	flush_own(&x);
	x.disp = disp; x.etype = e->size ? e->size : 1; x.segs = t->segs; x.fsize = t->size; x.fextent = t->lb + t->extent; x.pos = 0;
	coll_wait_all(c, k);
	coll_leave(c, k);
	return MPI_SUCCESS;
}
int MPI_File_set_size(MPI_File f, MPI_Offset n) {
	sim_file_s& x = file_of(f);
	enter("File_set_size", n);
	Ctx& c = *x.h->ctx;
	auto k = coll_enter(c, "File_set_size", {});
	flush_own(&x);
	coll_wait_all(c, k);
	if (!k->flag) { k->flag = true; disk.files[x.h->name].resize(n); }
	coll_leave(c, k);
	return MPI_SUCCESS;
}
int MPI_File_get_size(MPI_File f, MPI_Offset* n) {
	sim_file_s& x = file_of(f);
	enter("File_get_size");
	flush_own(&x);
	*n = MPI_Offset(disk.files[x.h->name].size());
	return MPI_SUCCESS;
}
int MPI_File_preallocate(MPI_File f, MPI_Offset n) {
	sim_file_s& x = file_of(f);
	enter("File_preallocate", n);
	Ctx& c = *x.h->ctx;
	auto k = coll_enter(c, "File_preallocate", {});
	coll_wait_all(c, k);
	auto& d = disk.files[x.h->name];
	if (d.size() < size_t(n)) d.resize(n);
	coll_leave(c, k);
	return MPI_SUCCESS;
}
int MPI_File_sync(MPI_File f) {
	sim_file_s& x = file_of(f);
	enter("File_sync");
	Ctx& c = *x.h->ctx;
	auto k = coll_enter(c, "File_sync", {});
	flush_own(&x);
	coll_wait_all(c, k);
	coll_leave(c, k);
	return MPI_SUCCESS;
}
int MPI_File_set_atomicity(MPI_File, int) { return MPI_SUCCESS; }
int MPI_File_set_errhandler(MPI_File, MPI_Errhandler) { return MPI_SUCCESS; }
int MPI_File_seek(MPI_File f, MPI_Offset o, int whence) {
	sim_file_s& x = file_of(f);
	if (whence == MPI_SEEK_SET) x.pos = o;
	else if (whence == MPI_SEEK_CUR) x.pos += o;
	else misuse("MPI_SEEK_END not supported");
	return MPI_SUCCESS;
}
int MPI_File_get_position(MPI_File f, MPI_Offset* o) { *o = file_of(f).pos; return MPI_SUCCESS; }
static void file_coll(sim_file_s& x, const char* name) {
	Ctx& c = *x.h->ctx;
	auto k = coll_enter(c, name, {});
	// collective data access needn't synchronize
	if (chance(policy.early_pm, true)) count(c_early); else coll_wait_all(c, k);
	coll_leave(c, k);
}
int MPI_File_read_at(MPI_File f, MPI_Offset o, void* b, int n, MPI_Datatype t, MPI_Status* s) {
	sim_file_s& x = file_of(f);
	enter("File_read_at", o, n);
	return do_read(x, o, b, n, t, s);
}
int MPI_File_read_at_all(MPI_File f, MPI_Offset o, void* b, int n, MPI_Datatype t, MPI_Status* s) {
	sim_file_s& x = file_of(f);
	enter("File_read_at_all", o, n);
	file_coll(x, "File_read_at_all");
	return do_read(x, o, b, n, t, s);
}
int MPI_File_write_at(MPI_File f, MPI_Offset o, const void* b, int n, MPI_Datatype t, MPI_Status* s) {
	sim_file_s& x = file_of(f);
	enter("File_write_at", o, n);
	return do_write(x, o, b, n, t, s);
}
int MPI_File_write_at_all(MPI_File f, MPI_Offset o, const void* b, int n, MPI_Datatype t, MPI_Status* s) {
	sim_file_s& x = file_of(f);
	enter("File_write_at_all", o, n);
	const int r = do_write(x, o, b, n, t, s);
	file_coll(x, "File_write_at_all");
	return r;
}
static int advance(sim_file_s& x, int r, int n, MPI_Datatype t) {
	if (r == MPI_SUCCESS) x.pos += MPI_Offset(get_type(t, false)->size * size_t(n) / x.etype);
	return r;
}
int MPI_File_read(MPI_File f, void* b, int n, MPI_Datatype t, MPI_Status* s) { return advance(*f, MPI_File_read_at(f, file_of(f).pos, b, n, t, s), n, t); }
int MPI_File_read_all(MPI_File f, void* b, int n, MPI_Datatype t, MPI_Status* s) { return advance(*f, MPI_File_read_at_all(f, file_of(f).pos, b, n, t, s), n, t); }
int MPI_File_write(MPI_File f, const void* b, int n, MPI_Datatype t, MPI_Status* s) { return advance(*f, MPI_File_write_at(f, file_of(f).pos, b, n, t, s), n, t); }
int MPI_File_write_all(MPI_File f, const void* b, int n, MPI_Datatype t, MPI_Status* s) { return advance(*f, MPI_File_write_at_all(f, file_of(f).pos, b, n, t, s), n, t); }
int MPI_Info_create(MPI_Info* i) { *i = MPI_INFO_NULL; return MPI_SUCCESS; }
int MPI_Info_set(MPI_Info, const char*, const char*) { return MPI_SUCCESS; }
int MPI_Info_free(MPI_Info* i) { *i = MPI_INFO_NULL; return MPI_SUCCESS; }

// ---- process exit requested by the code under test
void __real_exit(int);
[[noreturn]] void __wrap_abort() { job_abort("abort() called"); }
[[noreturn]] void __wrap_exit(int v) {
	if (cur >= 0) job_abort("exit(" + to_string(v) + ") called");
	__real_exit(v);
	_exit(v);
}
} // extern C

// uninitialized and freed memory have known contents
#ifndef SIM_ASAN
#include <malloc.h>
#include <new>
static void* sim_alloc(size_t n) {
	if (void* p = sim::far_try(n)) return p;
	void* p = malloc(n ? n : 1);
	if (!p) throw std::bad_alloc();
	memset(p, 0xA5, n);
	return p;
}
static void sim_free(void* p) {
	if (!p || sim::far_release(p)) return;
	memset(p, 0x5D, malloc_usable_size(p));
	free(p);
}
void* operator new(size_t n) { return sim_alloc(n); }
void* operator new[](size_t n) { return sim_alloc(n); }
void operator delete(void* p) noexcept { sim_free(p); }
void operator delete[](void* p) noexcept { sim_free(p); }
void operator delete(void* p, size_t) noexcept { sim_free(p); }
void operator delete[](void* p, size_t) noexcept { sim_free(p); }
#endif
