#include "grid_impl.hpp"
std::unique_ptr<GridApi> make_grid_3() {
	return std::unique_ptr<GridApi>(new GridImpl<Cell3, dccrg::No_Geometry, std::tuple<Cell_Extra>, std::tuple<Neighbor_Extra>>);
}
