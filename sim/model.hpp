// Reference model: what the grid must look like after every operation.
// Independent of dccrg's code, works on index boxes only.
#ifndef MODEL_HPP
#define MODEL_HPP
#include "simcore.hpp"
#include <array>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace model {
typedef std::array<int, 3> Off;
typedef uint64_t Cell;
const int def_hood = -0xdcc;
const uint64_t unknown = ~uint64_t(0);

enum Prop { P01 = 1, P02, P03, P04, P05, P06, P07, P08, P09, P10, P11, P12, P13, P14, P15, P16, P17, P18, P23 = 23 };
inline uint64_t bit(int p) { return uint64_t(1) << p; }
template<class... T> uint64_t bits(T... p) { return (bit(p) | ...); }

enum OpKind {
	k_none, k_init, k_mutate, k_update, k_split, k_request, k_commit, k_balance, k_pin,
	k_weight, k_hood_add, k_hood_del, k_save, k_load, k_copy, k_clear, k_helpers,
	k_options, k_query, k_badargs, k_both, k_create, k_count
};
extern const char* const op_names[];

// one independent value per field, 0 == default constructed
struct Val {
	std::array<uint64_t, 3> f{{0, 0, 0}};
	bool operator==(const Val& o) const { return f == o.f; }
};

struct Config {
	int variant = 1;
	std::array<int, 3> dims{{1, 1, 1}}, per{{0, 0, 0}};
	int max_lvl = 0, hood = 1, single = 0;
	std::string method = "RCB";
};

struct Pos { int lvl; std::array<long, 3> at; long len; }; // in smallest indices

struct Mapping {
	std::array<int, 3> dims; int max_lvl;
	uint64_t first(int lvl) const; // first id of level
	uint64_t last() const { return first(max_lvl + 1) - 1; }
	Pos pos(Cell c) const;
	Cell id(int lvl, long x, long y, long z) const; // smallest indices
	Cell parent(Cell c) const; // 0 for level 0
	std::array<Cell, 8> children(Cell c) const;
	int level(Cell c) const { return pos(c).lvl; }
	long size(int d) const { return long(dims[d]) << max_lvl; }
};

std::vector<Off> default_hood(int len);

struct Topo {
	Config cfg;
	int size = 1; // of communicator
	Mapping map;
	std::map<Cell, int> owner;
	std::map<int, std::vector<Off>> hoods;
	typedef std::vector<std::pair<Cell, Off>> List;
	std::map<int, std::unordered_map<Cell, List>> nof;
	std::map<int, std::unordered_map<Cell, std::set<Cell>>> nto;
	std::unordered_map<Cell, std::set<std::pair<Cell, int>>> face;
	std::map<int, std::vector<std::set<Cell>>> lbound, rbound;
	// [hood][receiver][sender]
	std::map<int, std::vector<std::map<int, std::set<Cell>>>> recv;
	std::vector<std::vector<Cell>> local;
	std::vector<Cell> dense; // leaf at every smallest index, empty in deep grids
	std::unordered_set<Cell> leaves; // of deep grids
	void add_leaves(std::set<Cell>&, const std::array<long, 3>&, long len) const;
	void add_face(std::set<std::pair<Cell, int>>&, const std::array<long, 3>&, int d, long len, int dir) const;

	void compute();
	void compute_hood(int id);
	Cell leaf_at(long x, long y, long z) const; // inside the grid
	bool wrap(std::array<long, 3>& p) const;
	// leaves overlapping the default neighborhood of a box (maybe not existing cell)
	std::set<Cell> region(Cell c) const;
	std::set<Cell> around(Cell c) const; // neighbors of or to, default
	List list_of(Cell c, const std::vector<Off>& hood) const;
};

struct Pending { // per rank
	std::set<Cell> refine, unrefine, no_refine, no_unrefine, withdrawn;
};

struct FileRec {
	int op = -1, seg = -1;
	bool loadable = false;
	long offset = 0, header = 0;
	Config cfg;
	std::set<Cell> cells;
	std::map<Cell, Val> val;
};

struct State {
	std::shared_ptr<const Topo> t;
	std::map<Cell, Val> val;
	std::vector<std::map<Cell, Val>> ghost;
	struct Old { int holder; Val v; };
	std::map<Cell, Old> refined, removed;
	std::map<Cell, int> pins;
	std::vector<std::map<Cell, int>> newpins;
	std::map<Cell, double> weights;
	std::vector<Pending> pend;
	std::set<Cell> vetoes; // dont_refine() stays in effect until load is balanced
	std::vector<int> levels;
	std::vector<std::map<std::string, std::string>> level_opts;
	std::map<std::string, std::string> params;
	std::string method = "RCB";
	void reset_ghosts();
	uint64_t hash() const;
};

struct Op {
	int kind = k_none;
	uint64_t seed = 0;
	int grid = 0;            // 0 original, 1 copy
	std::array<long, 6> a{{0, 0, 0, 0, 0, 0}};
};

enum CallKind {
	c_refine, c_unrefine, c_no_refine, c_no_unrefine, c_pin, c_unpin, c_unpin_local,
	c_unpin_all, c_weight, c_mutate, c_opt, c_level_add, c_level_del, c_lopt, c_lopt_del
};
struct Call { int what = 0; Cell cell = 0; long arg = 0; double d = 0; int expect = 1; bool at = false; std::string name, value; };

// what each rank does in an operation and what it must see, resolved against the model
struct Plan {
	Op op;
	std::vector<std::vector<Call>> calls;   // before the collective part
	std::vector<std::vector<Call>> inner;   // split: while messages are in flight
	std::vector<std::vector<Call>> late;    // split: after own sends are done
	std::map<Cell, int> target;             // partitioner's choice
	std::map<Cell, int> new_owner;
	std::vector<std::set<Cell>> added, gone;// per rank, balance
	std::vector<std::set<Cell>> fresh;      // per rank, commit: new cells by refinement
	std::vector<std::set<Cell>> dead;       // per rank, commit: removed cells
	std::vector<Off> hood;
	int hood_id = 0;
	bool expect = true;
	int mode = 0, stages = 1;
	bool zoltan = true;
	std::vector<std::set<Cell>> subset;     // save
	FileRec file;
	uint64_t mask = 7;                      // fields transferred
	Config cfg;
	std::shared_ptr<const State> before, after, copy_after;
	std::shared_ptr<Plan> other;            // of the other grid, both
};

// which fields a transfer of a variant carries
int fields_mask(int variant, int hood);

// applies op to state, returns plan
std::shared_ptr<Plan> apply(State& s, State* copy, const Op& op, int index, std::vector<FileRec>& files);

State fresh_state(const Config& c, int size);
State loaded_state(const FileRec& f, int size, const std::string& method);
Val make_val(uint64_t seed, Cell c);
} // namespace model
#endif
