// What the harness needs from a grid, independent of cell data and geometry.
#ifndef GRID_API_HPP
#define GRID_API_HPP
#include "model.hpp"
#include <memory>

struct IterNeighbor { uint64_t id; std::array<int, 3> off; const void* data; long extra; };
struct IterCell {
	uint64_t id; const void* data; long extra;
	std::vector<IterNeighbor> of, to, all;
};

struct GridApi {
	typedef model::Cell Cell;
	typedef std::vector<std::pair<uint64_t, std::array<int, 3>>> NList;
	virtual ~GridApi() {}
	virtual void init(const model::Config&, MPI_Comm, int order) = 0;
	virtual std::unique_ptr<GridApi> copy(bool same_type) = 0; // null if not supported

	virtual int get(Cell, model::Val&) = 0; // 0 no data, 1 ok, -1 corrupt
	virtual void put(Cell, const model::Val&) = 0;
	virtual const void* ptr(Cell) = 0;
	virtual std::vector<uint8_t> packed(Cell) = 0;

	virtual bool update(int hood, bool defaulted) = 0;
	virtual bool start(int hood) = 0;
	virtual bool start_receives(int hood) = 0;
	virtual bool start_sends(int hood) = 0;
	virtual bool wait(int hood) = 0;
	virtual bool wait_receives(int hood) = 0;
	virtual bool wait_sends() = 0;
	virtual void set_single(bool) = 0;
	virtual bool get_single() = 0;

	virtual bool refine(Cell, bool at) = 0;
	virtual bool unrefine(Cell, bool at) = 0;
	virtual bool dont_refine(Cell) = 0;
	virtual void know(const model::Config&) = 0;
	virtual bool dont_unrefine(Cell, bool at) = 0;
	virtual std::vector<uint64_t> stop_refining(bool sorted) = 0;
	virtual std::vector<uint64_t> removed(bool sorted) = 0;
	virtual void clear_data() = 0;

	virtual void balance(bool zoltan) = 0;
	virtual void balance_init(bool zoltan) = 0;
	virtual void balance_continue() = 0;
	virtual void balance_finish() = 0;
	virtual std::set<uint64_t> added() = 0;
	virtual std::set<uint64_t> gone() = 0;
	virtual std::map<int, std::vector<std::pair<uint64_t, int>>> to_send(int hood) = 0;
	virtual std::map<int, std::vector<std::pair<uint64_t, int>>> to_receive(int hood) = 0;

	virtual bool pin(Cell, int, bool self) = 0;
	virtual bool unpin(Cell) = 0;
	virtual bool unpin_local() = 0;
	virtual void unpin_all() = 0;
	virtual bool set_weight(Cell, double) = 0;
	virtual double get_weight(Cell) = 0;
	// true if accepted, false if it threw invalid_argument
	virtual bool option(const std::string&, const std::string&) = 0;
	virtual bool level_add(int) = 0;
	virtual void level_del(int) = 0;
	virtual bool level_option(int, const std::string&, const std::string&) = 0;
	virtual void level_option_del(int, const std::string&) = 0;
	virtual std::map<std::string, std::string> level_options(int) = 0;

	virtual bool hood_add(int, const std::vector<model::Off>&) = 0;
	virtual void hood_del(int) = 0;

	virtual bool save(const std::string&, long offset, std::vector<uint8_t>& header, bool header_typed, const std::vector<uint64_t>& cells, int flags) = 0;
	virtual bool load(const std::string&, long offset, std::vector<uint8_t>& header, bool header_typed, MPI_Comm, const char* method) = 0;
	virtual bool load_start(const std::string&, long offset, std::vector<uint8_t>& header, bool header_typed, MPI_Comm, const char* method) = 0;
	virtual bool load_continue() = 0;
	virtual bool load_finish() = 0;

	virtual std::vector<uint64_t> cells(const std::vector<int>& criteria, bool exact, int hood, bool sorted) = 0;
	virtual std::vector<uint64_t> all_cells(bool sorted) = 0;
	virtual std::vector<uint64_t> local_boundary(int hood, bool sorted) = 0;
	virtual std::vector<uint64_t> local_inner(int hood, bool sorted) = 0;
	virtual std::vector<uint64_t> remote_boundary(int hood, bool sorted) = 0;
	virtual const NList* neighbors_of(Cell, int hood) = 0;
	virtual const NList* neighbors_to(Cell, int hood) = 0;
	virtual std::vector<std::pair<uint64_t, int>> face(Cell) = 0;
	virtual NList at_offset(Cell, int, int, int) = 0;
	virtual std::vector<uint64_t> remote_of(Cell, int hood, bool sorted) = 0;
	virtual std::vector<uint64_t> remote_to(Cell, int hood, bool sorted) = 0;
	virtual bool matches(Cell, const std::vector<int>& criteria, bool exact, int hood) = 0;
	virtual std::map<uint64_t, double> all_weights() = 0;
	virtual int level(Cell) = 0;
	virtual MPI_Comm communicator() = 0;
	virtual uint64_t send_count(int hood) = 0;
	virtual uint64_t receive_count(int hood) = 0;
	virtual int process(Cell) = 0;
	virtual bool is_local(Cell) = 0;
	virtual Cell existing(const std::array<double, 3>&) = 0;
	virtual Cell existing_index(const std::array<uint64_t, 3>&, int min_lvl, int max_lvl) = 0;
	virtual Cell parent(Cell) = 0;
	virtual Cell child(Cell) = 0;
	virtual std::array<double, 3> center(Cell) = 0;
	virtual std::array<double, 3> corner(Cell, bool far) = 0;
	virtual std::array<double, 3> extent(Cell) = 0;
	virtual int rank() = 0;
	virtual int comm_size() = 0;
	virtual std::vector<IterCell> iterate(int which, int hood) = 0; // inner outer local remote all; throws without hood
	virtual bool iterable(int which, int hood) = 0; // whether iterators exist
	virtual std::string describe() = 0; // mapping, topology, geometry in text
	virtual std::vector<uint8_t> file_info() = 0; // expected grid information in a file
	virtual bool allocate(int hood) = 0; // false if it threw
	virtual bool overlaps_local(Cell) = 0;
	virtual std::set<uint64_t> overlapping_local(const std::vector<uint64_t>&) = 0;
	virtual bool load_cells(const std::vector<uint64_t>&) = 0;
	virtual std::vector<uint64_t> find_cells(const std::array<uint64_t, 3>&, const std::array<uint64_t, 3>&, int min_lvl, int max_lvl) = 0;
};

std::array<double, 3> model_center(const model::Config&, const model::Mapping&, model::Cell);
std::array<double, 3> model_point(const model::Config&, const model::Mapping&, const std::array<double, 3>& index);
std::unique_ptr<GridApi> make_grid(int variant);
std::unique_ptr<GridApi> make_grid_1();
std::unique_ptr<GridApi> make_grid_2();
std::unique_ptr<GridApi> make_grid_3();
std::unique_ptr<GridApi> make_grid_4();
std::unique_ptr<GridApi> make_grid_5();
#endif
