#include "grid_impl.hpp"
typedef dccrg::Dccrg<Cell1, dccrg::Cartesian_Geometry> Grid1;
typedef GridImpl<Cell4, dccrg::Cartesian_Geometry> Impl4;
std::unique_ptr<GridApi> make_grid_4() { return std::unique_ptr<GridApi>(new Impl4); }
std::unique_ptr<GridApi> copy_grid_1_to_4(Grid1& o, const model::Config& c) {
	std::unique_ptr<GridApi> r(new Impl4(std::unique_ptr<Impl4::Grid>(new Impl4::Grid(o))));
	static_cast<Impl4*>(r.get())->know(c);
	return r;
}
