#include "grid_impl.hpp"
typedef dccrg::Dccrg<Cell1, dccrg::Cartesian_Geometry> Grid1;
// copies to another cell data type, defined elsewhere
std::unique_ptr<GridApi> copy_grid_1_to_4(Grid1&, const model::Config&);
struct Impl1: GridImpl<Cell1, dccrg::Cartesian_Geometry> {
	using GridImpl::GridImpl;
	std::unique_ptr<GridApi> copy(bool same) override {
		if (!same) return copy_grid_1_to_4(g, cfg);
		std::unique_ptr<GridApi> r(new Impl1(std::unique_ptr<Grid>(new Grid(g))));
		static_cast<Impl1*>(r.get())->know(cfg);
		return r;
	}
};
std::unique_ptr<GridApi> make_grid_1() { return std::unique_ptr<GridApi>(new Impl1); }
