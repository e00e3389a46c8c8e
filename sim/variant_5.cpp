#include "grid_impl.hpp"
std::unique_ptr<GridApi> make_grid_5() {
	return std::unique_ptr<GridApi>(new GridImpl<Cell5, dccrg::Cartesian_Geometry>);
}
