#include "grid_impl.hpp"
std::unique_ptr<GridApi> make_grid_2() {
	return std::unique_ptr<GridApi>(new GridImpl<Cell2, dccrg::Stretched_Cartesian_Geometry>);
}
