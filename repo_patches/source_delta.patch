From 4603ed670412b94a989b713ff01112cba7d4c678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:02 +0000
Subject: [PATCH 01/23] fix: report success from updates in default
 neighborhood

update_copies_of_remote_neighbors() returned false for every update in the
default neighborhood because only user neighborhoods were looked up. The
functions it calls already return false for a non-existing neighborhood.
---
 dccrg.hpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/dccrg.hpp b/dccrg.hpp
index 8ae2ee8..c58f35c 100644
--- a/dccrg.hpp
+++ b/dccrg.hpp
@@ -998,10 +998,6 @@ public:
 
 		bool ret_val = true;
 
-		if (this->user_hood_of.count(neighborhood_id) == 0) {
-			ret_val = false;
-		}
-
 		if (!this->start_remote_neighbor_copy_updates(neighborhood_id)) {
 			ret_val = false;
 		}
-- 
2.43.0


From 822d657b24491a06cf1047e8fe89f68cdcf92422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:15 +0000
Subject: [PATCH 02/23] fix: refuse updates in non-existing neighborhoods
 without throwing

start_remote_neighbor_copy_receives() and ..._sends() noticed a missing
neighborhood but then went on to use it, throwing std::out_of_range instead
of returning false.
---
 dccrg.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dccrg.hpp b/dccrg.hpp
index c58f35c..7ba6f1a 100644
--- a/dccrg.hpp
+++ b/dccrg.hpp
@@ -5187,7 +5187,7 @@ public:
 			}
 			#endif
 
-			ret_val = false;
+			return false;
 		}
 
 		#ifdef DEBUG
@@ -5298,7 +5298,7 @@ public:
 			}
 			#endif
 
-			ret_val = false;
+			return false;
 		}
 
 		#ifdef DEBUG
-- 
2.43.0


From d5860c85758f1a22ab1f9d2748c8581ece080e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:15 +0000
Subject: [PATCH 03/23] fix: let the latest pin request of a cell win

Pinning a cell to the process it was already pinned to did not cancel an
unpin or pin to another process requested in between.
---
 dccrg.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dccrg.hpp b/dccrg.hpp
index 7ba6f1a..81c5e80 100644
--- a/dccrg.hpp
+++ b/dccrg.hpp
@@ -6022,9 +6022,10 @@ public:
 			return false;
 		}
 
-		// do nothing if the request already exists
+		// if the request already exists only forget a newer one
 		if (this->pin_requests.count(cell) > 0
 		&& (int) this->pin_requests.at(cell) == process) {
+			this->new_pin_requests.erase(cell);
 			return true;
 		}
 
-- 
2.43.0


From aee626b92d1ba0cb885e75f3e0e53d8652dd29a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:13 +0000
Subject: [PATCH 04/23] fix: return all neighbors at given offset

get_neighbors_of_at_offset() returned only one of the eight smaller neighbors
at an offset and none that is larger unless it happened to start there.
---
 dccrg.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/dccrg.hpp b/dccrg.hpp
index 81c5e80..65760b8 100644
--- a/dccrg.hpp
+++ b/dccrg.hpp
@@ -3193,14 +3193,23 @@ public:
 			{{x, y, z}}
 		);
 
+		const auto length = this->mapping.get_cell_length_in_indices(cell);
 		for (const auto& ref_index: ref_indices) {
+			if (ref_index[0] == error_index) {
+				continue;
+			}
 			for (const auto& neighbor_i: this->neighbors_of.at(cell)) {
 				const auto& neighbor = neighbor_i.first;
 				const auto indices = this->mapping.get_indices(neighbor);
+				const auto neigh_length = this->mapping.get_cell_length_in_indices(neighbor);
+				// smaller and larger neighbors don't have to start at given offset
 				if (
-					indices[0] == ref_index[0]
-					and indices[1] == ref_index[1]
-					and indices[2] == ref_index[2]
+					indices[0] < ref_index[0] + length
+					and indices[1] < ref_index[1] + length
+					and indices[2] < ref_index[2] + length
+					and ref_index[0] < indices[0] + neigh_length
+					and ref_index[1] < indices[1] + neigh_length
+					and ref_index[2] < indices[2] + neigh_length
 				) {
 					return_neighbors.push_back(neighbor_i);
 				}
-- 
2.43.0


From 802746cc5b5dc43e5abd3396a7370ab8157b26b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:00 +0000
Subject: [PATCH 05/23] fix: balance the load of a copied grid instead of the
 original

Zoltan_Copy() also copies the data pointers of callback functions so a copied
grid asked Zoltan to partition the cells of the grid it was copied from.
---
 dccrg.hpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/dccrg.hpp b/dccrg.hpp
index 65760b8..e9c62e3 100644
--- a/dccrg.hpp
+++ b/dccrg.hpp
@@ -416,6 +416,7 @@ public:
 
 		#ifndef DCCRG_NO_LB
 		this->zoltan = Zoltan_Copy(other.get_zoltan());
+		this->set_zoltan_callbacks();
 		#endif
 
 		// default construct Other_Cell_Data of local cells
@@ -7919,7 +7920,20 @@ private:
 		Zoltan_Set_Param(this->zoltan, "LB_METHOD", this->load_balancing_method.c_str());
 		Zoltan_Set_Param(this->zoltan, "REMAP", "1");
 
-		// set the grids callback functions in Zoltan
+		this->set_zoltan_callbacks();
+
+		return true;
+		#else
+		return false;
+		#endif // ifndef DCCRG_NO_LB
+	}
+
+	#ifndef DCCRG_NO_LB
+	/*!
+	Sets this grid's callback functions in Zoltan.
+	*/
+	void set_zoltan_callbacks()
+	{
 		Zoltan_Set_Num_Obj_Fn(
 			this->zoltan,
 			&Dccrg<
@@ -8062,12 +8076,8 @@ private:
 			>::set_partitioning_options,
 			this
 		);
-
-		return true;
-		#else
-		return false;
-		#endif // ifndef DCCRG_NO_LB
 	}
+	#endif // ifndef DCCRG_NO_LB
 
 
 	/*!
-- 
2.43.0


From 80ddf71a415d9bf4a1fbdc898a32b107132681ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:00 +0000
Subject: [PATCH 06/23] fix: copy construct independent grids also from
 identical type

The constructor template is not a copy constructor so copying a grid of
identical type used the implicit one, leaving cell pointers and public
references of the new grid pointing to data of the original.
---
 dccrg.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/dccrg.hpp b/dccrg.hpp
index e9c62e3..bd4692e 100644
--- a/dccrg.hpp
+++ b/dccrg.hpp
@@ -352,7 +352,8 @@ public:
 			Other_Geometry,
 			std::tuple<Other_Additional_Cell_Items...>,
 			std::tuple<Other_Additional_Neighbor_Items...>
-		 >& other
+		 >& other,
+		const std::nullptr_t = nullptr
 	) :
 		topology_rw(other.topology),
 		mapping_rw(other.mapping),
@@ -447,6 +448,15 @@ public:
 	}
 
 
+	/*!
+	As above, a template is never used for copying from an identical type.
+
+	Otherwise pointers and references in the new instance would
+	refer to data of the other grid.
+	*/
+	Dccrg(const Dccrg& other) : Dccrg(other, nullptr) {}
+
+
 	/*!
 	Initializes the instance of the grid with given parameters.
 
-- 
2.43.0


From 723478153c99d6b27135d1328fcec36db69c206e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:04 +0000
Subject: [PATCH 07/23] fix: account for number of items in offsets of cell
 data in files

---
 dccrg.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/dccrg.hpp b/dccrg.hpp
index bd4692e..f1158b8 100644
--- a/dccrg.hpp
+++ b/dccrg.hpp
@@ -1510,11 +1510,7 @@ public:
 				abort();
 			}
 
-			if (Is_Named_Datatype()(file_datatypes[i])) {
-				current_byte_offset += counts[i] * (uint64_t) current_bytes;
-			} else {
-				current_byte_offset += (uint64_t) current_bytes;
-			}
+			current_byte_offset += counts[i] * (uint64_t) current_bytes;
 		}
 
 		// tell everyone how many bytes everyone will write
@@ -2306,7 +2302,8 @@ public:
 					abort();
 				}
 
-				this->cells_and_data_displacements[i].second += size_in_bytes;
+				this->cells_and_data_displacements[i].second
+					+= counts[i] * (uint64_t) size_in_bytes;
 			}
 
 			ret_val = MPI_Type_create_struct(
-- 
2.43.0


From 1ba99b8d59968640f553300cb0c737989f41b2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:04 +0000
Subject: [PATCH 08/23] fix: free intermediate file datatypes when loading cell
 data

---
 dccrg.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/dccrg.hpp b/dccrg.hpp
index f1158b8..fc7a517 100644
--- a/dccrg.hpp
+++ b/dccrg.hpp
@@ -2320,6 +2320,20 @@ public:
 					<< std::endl;
 				abort();
 			}
+
+			for (MPI_Datatype& datatype: file_datatypes) {
+				if (!Is_Named_Datatype()(datatype)) {
+					ret_val = MPI_Type_free(&datatype);
+					if (ret_val != MPI_SUCCESS) {
+						std::cerr << __FILE__ << ":" << __LINE__
+							<< " Process " << this->rank
+							<< " Couldn't free intermediate file datatype: "
+							<< Error_String()(ret_val)
+							<< std::endl;
+						return false;
+					}
+				}
+			}
 		}
 
 		ret_val = MPI_Type_commit(&file_datatype);
-- 
2.43.0


From a9bd537fceadd9bad5feb72ff08d6586b86e8476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:19 +0000
Subject: [PATCH 09/23] fix: make loaded grid usable also when it contains only
 cells of level 0

---
 dccrg.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/dccrg.hpp b/dccrg.hpp
index fc7a517..bdafd3f 100644
--- a/dccrg.hpp
+++ b/dccrg.hpp
@@ -2012,6 +2012,7 @@ public:
 			return false;
 		}
 		offset += this->mapping.data_size();
+		this->mapping_initialized = true;
 
 		// initialize default neighborhood
 		unsigned int neighborhood_length = 0;
@@ -2072,6 +2073,18 @@ public:
 			return false;
 		}
 
+		this->allocate_copies_of_remote_neighbors();
+		this->update_cell_pointers(
+			this->cells_rw,
+			this->neighbors_rw,
+			this->inner_cells_default,
+			this->outer_cells_default,
+			this->local_cells_default,
+			this->remote_cells_default,
+			this->all_cells_default,
+			default_neighborhood_id
+		);
+
 		// read the total number of cells in the file
 		uint64_t total_number_of_cells = 0;
 		ret_val = MPI_File_read_at_all(
-- 
2.43.0


From cbb44c799f5555b43ff2f15e039c8ea76dc51084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:52 +0000
Subject: [PATCH 10/23] fix: report failure to save grid data on all processes
 instead of hanging

---
 dccrg.hpp | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/dccrg.hpp b/dccrg.hpp
index bdafd3f..8ff233b 100644
--- a/dccrg.hpp
+++ b/dccrg.hpp
@@ -1116,7 +1116,7 @@ public:
 
 	Filename, offset and write_* arguments must be identical on all
 	processes. Header is ignored by ranks other than 0.
-	Returns true on success, false otherwise (one one or more processes).
+	Returns true on success, false otherwise (on all processes).
 
 	During this function the receiving process given to the cells'
 	get_mpi_datatype function is -1 and receiving == false.
@@ -1161,6 +1161,8 @@ public:
 		*/
 
 		int ret_val = -1;
+		// whether everything was written by this process
+		bool success = true;
 
 		MPI_File outfile;
 
@@ -1211,7 +1213,7 @@ public:
 					<< " Couldn't write header to file " << name
 					<< ": " << Error_String()(ret_val)
 					<< std::endl;
-				return false;
+				success = false;
 			}
 
 			// everyone moves the offset by header size
@@ -1276,7 +1278,7 @@ public:
 					<< " Couldn't write endianness check to file " << name
 					<< ": " << Error_String()(ret_val)
 					<< std::endl;
-				return false;
+				success = false;
 			}
 		}
 		offset += sizeof(uint64_t);
@@ -1291,7 +1293,7 @@ public:
 				std::cerr << __FILE__ << ":" << __LINE__
 					<< " Couldn't write mapping to file " << name
 					<< std::endl;
-				return false;
+				success = false;
 			}
 		}
 		offset += this->mapping.data_size();
@@ -1312,7 +1314,7 @@ public:
 					<< " Couldn't write neighborhood length to file " << name
 					<< ": " << Error_String()(ret_val)
 					<< std::endl;
-				return false;
+				success = false;
 			}
 		}
 		offset += sizeof(unsigned int);
@@ -1324,7 +1326,7 @@ public:
 					<< " Process " << this->rank
 					<< " Couldn't write topology into file " << name
 					<< std::endl;
-				return false;
+				success = false;
 			}
 		}
 		offset += this->topology.data_size();
@@ -1338,7 +1340,7 @@ public:
 					<< " Couldn't write geometry to file " << name
 					<< ": " << Error_String()(ret_val)
 					<< std::endl;
-				return false;
+				success = false;
 			}
 		}
 		offset += this->geometry.data_size();
@@ -1368,7 +1370,7 @@ public:
 						<< " Couldn't write number of cells to file " << name
 						<< ": " << Error_String()(ret_val)
 						<< std::endl;
-					return false;
+					success = false;
 				}
 			}
 			offset += sizeof(uint64_t);
@@ -1629,7 +1631,7 @@ public:
 				<< " Couldn't write cell and displacement list to file " << name
 				<< ": " << Error_String()(ret_val)
 				<< std::endl;
-			return false;
+			success = false;
 		}
 
 		/*
@@ -1784,10 +1786,10 @@ public:
 				<< " Couldn't close file " << name
 				<< ": " << Error_String()(ret_val)
 				<< std::endl;
-			return false;
+			success = false;
 		}
 
-		return true;
+		return All_Reduce()(success ? 0 : 1, this->comm) == 0;
 	}
 
 
-- 
2.43.0


From 82e3616a60e3f913ce3988ef88c6885db51476dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:06 +0000
Subject: [PATCH 11/23] fix: report failure to load grid data on all processes
 instead of hanging

---
 dccrg.hpp         | 28 ++++++++++++++++++++--------
 dccrg_mapping.hpp | 21 +++++++++++++--------
 2 files changed, 33 insertions(+), 16 deletions(-)

diff --git a/dccrg.hpp b/dccrg.hpp
index 8ff233b..b0b9004 100644
--- a/dccrg.hpp
+++ b/dccrg.hpp
@@ -1906,6 +1906,16 @@ public:
 			return false;
 		}
 
+		// returns true on all processes and closes the file
+		// if reading from file didn't succeed on all processes
+		const auto reading_failed = [this](const bool success) {
+			if (All_Reduce()(success ? 0 : 1, this->comm) == 0) {
+				return false;
+			}
+			MPI_File_close(&(this->grid_data_file));
+			return true;
+		};
+
 		// read in user's header
 		MPI_Datatype header_type = std::get<2>(header);
 
@@ -1935,6 +1945,8 @@ public:
 				<< " Couldn't read header from file " << name
 				<< ": " << Error_String()(ret_val)
 				<< std::endl;
+		}
+		if (reading_failed(ret_val == MPI_SUCCESS)) {
 			return false;
 		}
 
@@ -1971,7 +1983,7 @@ public:
 			MPI_UINT64_T,
 			MPI_STATUS_IGNORE
 		);
-		if (ret_val != MPI_SUCCESS) {
+		if (reading_failed(ret_val == MPI_SUCCESS)) {
 			if (this->rank == 0) {
 				std::cerr << __FILE__ << ":" << __LINE__
 					<< " Couldn't read endianness check from file " << name
@@ -1982,7 +1994,7 @@ public:
 		}
 		offset += sizeof(uint64_t);
 
-		if (endianness_original != endianness_read) {
+		if (reading_failed(endianness_original == endianness_read)) {
 			if (this->rank == 0) {
 				std::cerr << __FILE__ << ":" << __LINE__
 					<< " File " << name
@@ -2005,7 +2017,7 @@ public:
 		#endif
 
 		// initialize mapping
-		if (!this->mapping_rw.read(this->grid_data_file, offset)) {
+		if (reading_failed(this->mapping_rw.read(this->grid_data_file, offset))) {
 			if (rank == 0) {
 				std::cerr << __FILE__ << ":" << __LINE__
 					<< " Couldn't read mapping"
@@ -2026,7 +2038,7 @@ public:
 			MPI_UNSIGNED,
 			MPI_STATUS_IGNORE
 		);
-		if (ret_val != MPI_SUCCESS) {
+		if (reading_failed(ret_val == MPI_SUCCESS)) {
 			if (rank == 0) {
 				std::cerr << __FILE__ << ":" << __LINE__
 					<< " Couldn't read length of cells' neighborhoods: " << Error_String()(ret_val)
@@ -2039,7 +2051,7 @@ public:
 		this->initialize_neighborhoods();
 
 		// initialize topology
-		if (!this->topology_rw.read(this->grid_data_file, offset)) {
+		if (reading_failed(this->topology_rw.read(this->grid_data_file, offset))) {
 			if (rank == 0) {
 				std::cerr << __FILE__ << ":" << __LINE__
 					<< " Couldn't read grid topology from file"
@@ -2050,7 +2062,7 @@ public:
 		offset += this->topology.data_size();
 
 		// initialize geometry
-		if (!this->geometry_rw.read(this->grid_data_file, offset)) {
+		if (reading_failed(this->geometry_rw.read(this->grid_data_file, offset))) {
 			if (this->rank == 0) {
 				std::cerr << __FILE__ << ":" << __LINE__
 					<< " Couldn't read geometry from file"
@@ -2097,7 +2109,7 @@ public:
 			MPI_UINT64_T,
 			MPI_STATUS_IGNORE
 		);
-		if (ret_val != MPI_SUCCESS) {
+		if (reading_failed(ret_val == MPI_SUCCESS)) {
 			std::cerr << "Couldn't read total number of cells" << std::endl;
 			return false;
 		}
@@ -2113,7 +2125,7 @@ public:
 			MPI_UINT64_T,
 			MPI_STATUS_IGNORE
 		);
-		if (ret_val != MPI_SUCCESS) {
+		if (reading_failed(ret_val == MPI_SUCCESS)) {
 			std::cerr << "Couldn't read number of cells" << std::endl;
 			return false;
 		}
diff --git a/dccrg_mapping.hpp b/dccrg_mapping.hpp
index 5c20904..c23260f 100644
--- a/dccrg_mapping.hpp
+++ b/dccrg_mapping.hpp
@@ -518,6 +518,7 @@ public:
 		int
 			ret_val = -1,
 			max_ref_lvl = -1;
+		bool success = true;
 
 		Grid_Length::type length = {{0, 0, 0}};
 		ret_val = MPI_File_read_at_all(
@@ -532,17 +533,10 @@ public:
 			std::cerr << __FILE__ << ":" << __LINE__
 				<< " Couldn't read length data: " << Error_String()(ret_val)
 				<< std::endl;
-			return false;
+			success = false;
 		}
 		offset += sizeof(Grid_Length::type);
 
-		if (!this->set_length(length)) {
-			std::cerr << __FILE__ << ":" << __LINE__
-				<< " Couldn't set length of grid"
-				<< std::endl;
-			return false;
-		}
-
 		ret_val = MPI_File_read_at_all(
 			file,
 			offset,
@@ -555,6 +549,17 @@ public:
 			std::cerr << __FILE__ << ":" << __LINE__
 				<< " Couldn't read maximum refinement level: " << Error_String()(ret_val)
 				<< std::endl;
+			success = false;
+		}
+
+		if (!success) {
+			return false;
+		}
+
+		if (!this->set_length(length)) {
+			std::cerr << __FILE__ << ":" << __LINE__
+				<< " Couldn't set length of grid"
+				<< std::endl;
 			return false;
 		}
 
-- 
2.43.0


From 8be9cd82b15a898c5340cbe2e491a96bad2993a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:46 +0000
Subject: [PATCH 12/23] fix: refuse to load truncated files

---
 dccrg.hpp | 75 +++++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 75 insertions(+)

diff --git a/dccrg.hpp b/dccrg.hpp
index b0b9004..63376f3 100644
--- a/dccrg.hpp
+++ b/dccrg.hpp
@@ -1843,6 +1843,7 @@ public:
 		}
 
 		if (!this->continue_loading_grid_data()) {
+			this->finish_loading_grid_data();
 			return false;
 		}
 
@@ -1916,6 +1917,30 @@ public:
 			return true;
 		};
 
+		MPI_Offset file_size = 0;
+		ret_val = MPI_File_get_size(this->grid_data_file, &file_size);
+		if (reading_failed(ret_val == MPI_SUCCESS)) {
+			if (this->rank == 0) {
+				std::cerr << __FILE__ << ":" << __LINE__
+					<< " Couldn't get size of file " << name
+					<< std::endl;
+			}
+			return false;
+		}
+
+		// returns true and closes the file if it ends before given offset
+		const auto file_truncated = [&](const uint64_t needed) {
+			if (not reading_failed(needed <= (uint64_t) file_size)) {
+				return false;
+			}
+			if (this->rank == 0) {
+				std::cerr << __FILE__ << ":" << __LINE__
+					<< " File " << name << " is truncated"
+					<< std::endl;
+			}
+			return true;
+		};
+
 		// read in user's header
 		MPI_Datatype header_type = std::get<2>(header);
 
@@ -2016,6 +2041,17 @@ public:
 		}
 		#endif
 
+		if (
+			file_truncated(
+				offset
+				+ this->mapping.data_size()
+				+ sizeof(unsigned int)
+				+ this->topology.data_size()
+			)
+		) {
+			return false;
+		}
+
 		// initialize mapping
 		if (reading_failed(this->mapping_rw.read(this->grid_data_file, offset))) {
 			if (rank == 0) {
@@ -2072,6 +2108,10 @@ public:
 		}
 		offset += this->geometry.data_size();
 
+		if (file_truncated(offset + sizeof(uint64_t))) {
+			return false;
+		}
+
 		// initial cells must exist along with neighbor lists,
 		// etc. before loading the grid.
 		this->create_level_0_cells(sfc_caching_batches);
@@ -2115,6 +2155,16 @@ public:
 		}
 		offset += sizeof(uint64_t);
 
+		if (
+			file_truncated(
+				total_number_of_cells <= (uint64_t) file_size
+				? offset + 2 * total_number_of_cells * sizeof(uint64_t)
+				: total_number_of_cells
+			)
+		) {
+			return false;
+		}
+
 		// read cells and data displacements
 		std::vector<uint64_t> all_cells_and_data_displacements(2 * total_number_of_cells, error_cell);
 		ret_val = MPI_File_read_at_all(
@@ -2239,6 +2289,19 @@ public:
 			abort();
 		}
 
+		// whether data of a local cell isn't completely in the file
+		uint64_t truncated = 0;
+		MPI_Offset file_size = 0;
+		ret_val = MPI_File_get_size(this->grid_data_file, &file_size);
+		if (ret_val != MPI_SUCCESS) {
+			std::cerr << __FILE__ << ":" << __LINE__
+				<< " Process " << this->rank
+				<< " Couldn't get size of input file: "
+				<< Error_String()(ret_val)
+				<< std::endl;
+			abort();
+		}
+
 		// datatypes etc. of local cell data in memory
 		std::vector<void*> addresses(number_of_cells, NULL);
 		std::vector<int> counts(number_of_cells, -1);
@@ -2331,6 +2394,9 @@ public:
 
 				this->cells_and_data_displacements[i].second
 					+= counts[i] * (uint64_t) size_in_bytes;
+				if (this->cells_and_data_displacements[i].second > (uint64_t) file_size) {
+					truncated = 1;
+				}
 			}
 
 			ret_val = MPI_Type_create_struct(
@@ -2486,6 +2552,15 @@ public:
 			}
 		}
 
+		if (All_Reduce()(truncated, this->comm) > 0) {
+			if (this->rank == 0) {
+				std::cerr << __FILE__ << ":" << __LINE__
+					<< " Input file is truncated"
+					<< std::endl;
+			}
+			return false;
+		}
+
 		return true;
 	}
 
-- 
2.43.0


From ec005d5474490413adcaa6e53788296ab2b6abb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:27 +0000
Subject: [PATCH 13/23] fix: don't truncate cell ids given to Zoltan with 32
 bit ids

---
 dccrg.hpp | 86 +++++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 62 insertions(+), 24 deletions(-)

diff --git a/dccrg.hpp b/dccrg.hpp
index 63376f3..a2f6c48 100644
--- a/dccrg.hpp
+++ b/dccrg.hpp
@@ -8031,7 +8031,11 @@ private:
 		*/
 		// 0 because Zoltan crashes in hierarchial with larger values
 		Zoltan_Set_Param(this->zoltan, "EDGE_WEIGHT_DIM", "0");
-		Zoltan_Set_Param(this->zoltan, "NUM_GID_ENTRIES", "1");
+		Zoltan_Set_Param(
+			this->zoltan,
+			"NUM_GID_ENTRIES",
+			std::to_string(this->global_id_entries).c_str()
+		);
 		Zoltan_Set_Param(this->zoltan, "NUM_LID_ENTRIES", "0");
 		Zoltan_Set_Param(this->zoltan, "OBJ_WEIGHT_DIM", "1");
 		Zoltan_Set_Param(this->zoltan, "RETURN_LISTS", "ALL");
@@ -8720,9 +8724,9 @@ private:
 			#ifdef DEBUG
 			// check that processes have the cells they're supposed to send
 			for (int i = 0; i < number_to_send; i++) {
-				if (this->cell_data.count(global_ids_to_send[i]) == 0) {
+				if (this->cell_data.count(this->get_global_id(global_ids_to_send, i)) == 0) {
 					std::cerr << __FILE__ << ":" << __LINE__
-						<< " Cannot send cell " << global_ids_to_send[i]
+						<< " Cannot send cell " << this->get_global_id(global_ids_to_send, i)
 						<< " to process " << receiver_processes[i]
 						<< std::endl;
 					abort();
@@ -8731,9 +8735,9 @@ private:
 
 			// check that cells to be received are on the sending process
 			for (int i = 0; i < number_to_receive; i++) {
-				if (this->cell_process.at(global_ids_to_receive[i]) != (uint64_t)sender_processes[i]) {
+				if (this->cell_process.at(this->get_global_id(global_ids_to_receive, i)) != (uint64_t)sender_processes[i]) {
 					std::cerr << __FILE__ << ":" << __LINE__
-						<< " Cannot receive cell " << global_ids_to_receive[i]
+						<< " Cannot receive cell " << this->get_global_id(global_ids_to_receive, i)
 						<< " from process " << sender_processes[i]
 						<< std::endl;
 					abort();
@@ -8780,25 +8784,25 @@ private:
 				}
 
 				// skip user-migrated cells
-				if (this->pin_requests.count(global_ids_to_receive[i]) > 0) {
+				if (this->pin_requests.count(this->get_global_id(global_ids_to_receive, i)) > 0) {
 					continue;
 				}
 
 				this->cells_to_receive[sender_processes[i]].push_back(
-					std::make_pair(global_ids_to_receive[i], -1)
+					std::make_pair(this->get_global_id(global_ids_to_receive, i), -1)
 				);
 
 				#ifdef DEBUG
-				if (this->added_cells.count(global_ids_to_receive[i]) > 0) {
+				if (this->added_cells.count(this->get_global_id(global_ids_to_receive, i)) > 0) {
 					std::cerr << __FILE__ << ":" << __LINE__
-						<< " Cell " << global_ids_to_receive[i]
+						<< " Cell " << this->get_global_id(global_ids_to_receive, i)
 						<< " has already been received from process " << this->rank
 						<< std::endl;
 					abort();
 				}
 				#endif
 
-				this->added_cells.insert(global_ids_to_receive[i]);
+				this->added_cells.insert(this->get_global_id(global_ids_to_receive, i));
 			}
 		}
 		#endif // ifndef DCCRG_NO_LB
@@ -8859,25 +8863,25 @@ private:
 				}
 
 				// skip user-migrated cells
-				if (this->pin_requests.count(global_ids_to_send[i]) > 0) {
+				if (this->pin_requests.count(this->get_global_id(global_ids_to_send, i)) > 0) {
 					continue;
 				}
 
 				this->cells_to_send[receiver_processes[i]].push_back(
-					std::make_pair(global_ids_to_send[i], -1)
+					std::make_pair(this->get_global_id(global_ids_to_send, i), -1)
 				);
 
 				#ifdef DEBUG
-				if (this->removed_cells.count(global_ids_to_send[i]) > 0) {
+				if (this->removed_cells.count(this->get_global_id(global_ids_to_send, i)) > 0) {
 					std::cerr << __FILE__ << ":" << __LINE__
-						<< " Cell " << global_ids_to_send[i]
+						<< " Cell " << this->get_global_id(global_ids_to_send, i)
 						<< " has already been sent from process " << this->rank
 						<< std::endl;
 					abort();
 				}
 				#endif
 
-				this->removed_cells.insert(global_ids_to_send[i]);
+				this->removed_cells.insert(this->get_global_id(global_ids_to_send, i));
 			}
 
 			Zoltan_LB_Free_Data(
@@ -11921,6 +11925,40 @@ private:
 	}
 
 
+	/*!
+	Number of items of Zoltan's id type required for storing one
+	cell id, which doesn't fit into one item if Zoltan was compiled
+	with its default 32 bit ids.
+	*/
+	static constexpr int global_id_entries = int(
+		(sizeof(uint64_t) + sizeof(*ZOLTAN_ID_PTR()) - 1) / sizeof(*ZOLTAN_ID_PTR())
+	);
+
+	//! Returns cell id stored at given position in Zoltan's array of ids.
+	template<class Id> static uint64_t get_global_id(const Id* const ids, const int index)
+	{
+		uint64_t cell = 0;
+		for (int i = global_id_entries - 1; i >= 0; i--) {
+			if (global_id_entries > 1) {
+				cell <<= (8 * sizeof(Id)) % 64;
+			}
+			cell |= uint64_t(ids[index * global_id_entries + i]);
+		}
+		return cell;
+	}
+
+	//! Stores given cell id to given position in Zoltan's array of ids.
+	template<class Id> static void set_global_id(Id* const ids, const int index, uint64_t cell)
+	{
+		for (int i = 0; i < global_id_entries; i++) {
+			ids[index * global_id_entries + i] = Id(cell);
+			if (global_id_entries > 1) {
+				cell >>= (8 * sizeof(Id)) % 64;
+			}
+		}
+	}
+
+
 	/*!
 	Fills geom_vec with the coordinates of cells given in global_id
 
@@ -11954,7 +11992,7 @@ private:
 		*error = ZOLTAN_OK;
 
 		for (int i = 0; i < number_of_cells; i++) {
-			uint64_t cell = uint64_t(global_ids[i]);
+			uint64_t cell = get_global_id(global_ids, i);
 			if (dccrg_instance->cell_data.count(cell) == 0) {
 				*error = ZOLTAN_FATAL;
 				std::cerr << "Process " << dccrg_instance->rank
@@ -12040,7 +12078,7 @@ private:
 			}
 			#endif
 
-			global_ids[i] = item.first;
+			set_global_id(global_ids, i, item.first);
 
 			if (number_of_weights_per_object > 0) {
 				if (dccrg_instance->cell_weights.count(item.first) > 0) {
@@ -12088,7 +12126,7 @@ private:
 		*error = ZOLTAN_OK;
 
 		for (int i = 0; i < number_of_cells; i++) {
-			uint64_t cell = uint64_t(global_ids[i]);
+			uint64_t cell = get_global_id(global_ids, i);
 			if (dccrg_instance->cell_data.count(cell) == 0) {
 				*error = ZOLTAN_FATAL;
 				std::cerr << "Process " << dccrg_instance->rank
@@ -12148,7 +12186,7 @@ private:
 
 		int current_neighbor_number = 0;
 		for (int i = 0; i < number_of_cells; i++) {
-			uint64_t cell = uint64_t(global_ids[i]);
+			uint64_t cell = get_global_id(global_ids, i);
 			if (dccrg_instance->cell_data.count(cell) == 0) {
 				*error = ZOLTAN_FATAL;
 				std::cerr << "Process " << dccrg_instance->rank
@@ -12171,7 +12209,7 @@ private:
 
 				number_of_neighbors[i]++;
 
-				neighbors[current_neighbor_number] = neighbor;
+				set_global_id(neighbors, current_neighbor_number, neighbor);
 				processes_of_neighbors[current_neighbor_number]
 					= int(dccrg_instance->cell_process.at(neighbor));
 
@@ -12287,11 +12325,11 @@ private:
 		int connection_number = 0;
 		for (const auto& item: dccrg_instance->cell_data) {
 
-			hyperedges[i] = item.first;
+			set_global_id(hyperedges, i, item.first);
 			hyperedge_connection_offsets[i] = connection_number;
 
 			// add a connection to the cell itself from its hyperedge
-			connections[connection_number++] = item.first;
+			set_global_id(connections, connection_number++, item.first);
 
 			for (const auto& neighbor_i: dccrg_instance->neighbors_of.at(item.first)) {
 				const auto& neighbor = neighbor_i.first;
@@ -12302,7 +12340,7 @@ private:
 					continue;
 				}
 
-				connections[connection_number++] = neighbor;
+				set_global_id(connections, connection_number++, neighbor);
 			}
 
 			i++;
@@ -12392,7 +12430,7 @@ private:
 		int i = 0;
 		for (const auto& item: dccrg_instance->cell_data) {
 
-			hyperedges[i] = item.first;
+			set_global_id(hyperedges, i, item.first);
 
 			if (number_of_weights_per_hyperedge > 0) {
 				int number_of_hyperedges = 0;
-- 
2.43.0


From d5fc7ddb0842704450b9264ce4913af6b17369cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:33 +0000
Subject: [PATCH 14/23] fix: remove iterators to all cells of a removed
 neighborhood

---
 dccrg.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dccrg.hpp b/dccrg.hpp
index a2f6c48..632e44a 100644
--- a/dccrg.hpp
+++ b/dccrg.hpp
@@ -6892,6 +6892,7 @@ public:
 		this->outer_cells_user.erase(neighborhood_id);
 		this->local_cells_user.erase(neighborhood_id);
 		this->remote_cells_user.erase(neighborhood_id);
+		this->all_cells_user.erase(neighborhood_id);
 		return *this;
 	}
 
-- 
2.43.0


From c870096b85e595b329d7596ecc28af6472404104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:54 +0000
Subject: [PATCH 15/23] fix: make get_remote_neighbors_of/to usable

They didn't compile when called since lists of neighbors have been storing
also offsets.
---
 dccrg.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dccrg.hpp b/dccrg.hpp
index 632e44a..4c5ddac 100644
--- a/dccrg.hpp
+++ b/dccrg.hpp
@@ -3385,13 +3385,14 @@ public:
 			return ret_val;
 		}
 
-		const std::vector<uint64_t>& neighbors_ref
+		const auto& neighbors_ref
 			= (neighborhood_id == default_neighborhood_id)
 			? this->neighbors_of.at(cell)
 			: this->user_neigh_of.at(neighborhood_id).at(cell);
 
-		for(const auto& neighbor: neighbors_ref) {
+		for(const auto& neighbor_i: neighbors_ref) {
 
+			const auto& neighbor = neighbor_i.first;
 			if (neighbor == error_cell) {
 				continue;
 			}
@@ -3446,13 +3447,14 @@ public:
 			return ret_val;
 		}
 
-		const std::vector<uint64_t>& neighbors_ref
+		const auto& neighbors_ref
 			= (neighborhood_id == default_neighborhood_id)
 			? this->neighbors_to.at(cell)
 			: this->user_neigh_to.at(neighborhood_id).at(cell);
 
-		for(const auto& neighbor: neighbors_ref) {
+		for(const auto& neighbor_i: neighbors_ref) {
 
+			const auto& neighbor = neighbor_i.first;
 			if (neighbor == error_cell) {
 				continue;
 			}
-- 
2.43.0


From 9ec6f2b9b8e8b2e2371534079a373baa359c15b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:32 +0000
Subject: [PATCH 16/23] fix: return no face neighbors for cells that don't
 exist

get_face_neighbors_of() aborted the program instead of returning nothing
as documented.
---
 dccrg.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/dccrg.hpp b/dccrg.hpp
index 4c5ddac..4376cc2 100644
--- a/dccrg.hpp
+++ b/dccrg.hpp
@@ -3018,9 +3018,7 @@ public:
 		std::vector<std::pair<uint64_t, int> > ret_val;
 
 		if (this->neighbors_.count(cell) == 0) {
-			std::cerr << __FILE__ << ":" << __LINE__
-				<< " Internal error." << std::endl;
-			abort();
+			return ret_val;
 		}
 		const auto& neighs_ = this->neighbors_.at(cell);
 
-- 
2.43.0


From 21eb7a3c4a763698283430a83ff312a6b17a1881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:32 +0000
Subject: [PATCH 17/23] fix: return no neighbors for offsets larger than
 neighborhood

Neighbors from the other side of small periodic grids were returned for
offsets that get_neighbors_of_at_offset() is documented to return nothing for.
---
 dccrg.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dccrg.hpp b/dccrg.hpp
index 4376cc2..4fbdc94 100644
--- a/dccrg.hpp
+++ b/dccrg.hpp
@@ -3309,6 +3309,11 @@ public:
 			return return_neighbors;
 		}
 
+		const int max_offset = std::max(1, int(this->neighborhood_length));
+		if (abs(x) > max_offset or abs(y) > max_offset or abs(z) > max_offset) {
+			return return_neighbors;
+		}
+
 		const auto ref_indices = indices_from_neighborhood(
 			this->mapping.get_indices(cell),
 			this->mapping.get_cell_length_in_indices(cell),
-- 
2.43.0


From 0491b7f1093f2858b162bdbcde3ab96b0031c860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:30 +0000
Subject: [PATCH 18/23] fix: find cells outside of a periodic stretched grid

Stretched_Cartesian_Geometry::get_indices() returned error_index for coordinates
outside of the grid also in periodic dimensions, unlike documented.
---
 dccrg_stretched_cartesian_geometry.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dccrg_stretched_cartesian_geometry.hpp b/dccrg_stretched_cartesian_geometry.hpp
index c27f700..9c1c6d4 100644
--- a/dccrg_stretched_cartesian_geometry.hpp
+++ b/dccrg_stretched_cartesian_geometry.hpp
@@ -555,7 +555,7 @@ public:
 	dimension if the grid is not periodic in that dimension.
 	*/
 	Types<3>::indices_t get_indices(
-		const std::array<double, 3>& coordinate
+		const std::array<double, 3>& given_coordinate
 	) const {
 		Types<3>::indices_t ret_val = {{
 			error_index,
@@ -565,7 +565,8 @@ public:
 
 		const std::array<double, 3>
 			grid_start = this->get_start(),
-			grid_end = this->get_end();
+			grid_end = this->get_end(),
+			coordinate = this->get_real_coordinate(given_coordinate);
 
 		const int max_ref_lvl = this->mapping.get_maximum_refinement_level();
 		const uint64_t level_0_length_in_indices = uint64_t(1) << max_ref_lvl;
-- 
2.43.0


From dbe376d95852c81a3a0ce1ca768625db735307de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:30 +0000
Subject: [PATCH 19/23] fix: find cell at starting coordinate of a stretched
 grid

Coordinates were read from outside of their array when given coordinate was
equal to the starting coordinate of grid in some dimension.
---
 dccrg_stretched_cartesian_geometry.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dccrg_stretched_cartesian_geometry.hpp b/dccrg_stretched_cartesian_geometry.hpp
index 9c1c6d4..220aecc 100644
--- a/dccrg_stretched_cartesian_geometry.hpp
+++ b/dccrg_stretched_cartesian_geometry.hpp
@@ -583,7 +583,10 @@ public:
 				while (current_coords[coord_start_index] < coordinate[dimension]) {
 					coord_start_index++;
 				}
-				coord_start_index--;
+				// given coord can be at the start of grid
+				if (coord_start_index > 0) {
+					coord_start_index--;
+				}
 
 				// length of an index in this level 0 cell
 				const double length_of_index
@@ -598,7 +601,9 @@ public:
 				) {
 					index_offset++;
 				}
-				index_offset--;
+				if (index_offset > 0) {
+					index_offset--;
+				}
 
 				ret_val[dimension] = coord_start_index * level_0_length_in_indices + index_offset;
 			}
-- 
2.43.0


From 67a58152962a5401d7bca201f9312d4262452f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:19 +0000
Subject: [PATCH 20/23] fix: DEBUG builds refused dont_refine and dont_unrefine
 of cells of maximum refinement level

---
 dccrg.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dccrg.hpp b/dccrg.hpp
index 4fbdc94..7719cbd 100644
--- a/dccrg.hpp
+++ b/dccrg.hpp
@@ -2899,7 +2899,7 @@ public:
 			throw std::runtime_error(__FILE__ "(" + to_string(__LINE__) + ")");
 		}
 
-		if (this->cell_process.count(this->mapping.get_child(cell)) > 0) {
+		if (cell != this->get_child(cell)) {
 			throw std::runtime_error(__FILE__ "(" + to_string(__LINE__) + ")");
 		}
 		#endif
@@ -2960,7 +2960,7 @@ public:
 		}
 
 		#ifdef DEBUG
-		if (this->cell_process.count(this->mapping.get_child(cell)) > 0) {
+		if (cell != this->get_child(cell)) {
 			throw std::runtime_error(__FILE__ "(" + to_string(__LINE__) + ")");
 		}
 		#endif
-- 
2.43.0


From 878352e845a24d6b06a08e41dcaf79a5b04c500b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:11 +0000
Subject: [PATCH 21/23] fix: end the job if data of moved or unrefined cells
 couldn't be received

---
 dccrg.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/dccrg.hpp b/dccrg.hpp
index 7719cbd..f6084e0 100644
--- a/dccrg.hpp
+++ b/dccrg.hpp
@@ -4145,7 +4145,13 @@ public:
 			-2
 		);
 
-		this->wait_user_data_transfer_receives();
+		if (!this->wait_user_data_transfer_receives()) {
+			std::cerr << __FILE__ << ":" << __LINE__
+				<< " Process " << this->rank
+				<< " couldn't receive data of cells moved to it"
+				<< std::endl;
+			abort();
+		}
 
 		this->wait_user_data_transfer_sends();
 
@@ -10795,7 +10801,13 @@ private:
 			-3
 		);
 
-		this->wait_user_data_transfer_receives();
+		if (!this->wait_user_data_transfer_receives()) {
+			std::cerr << __FILE__ << ":" << __LINE__
+				<< " Process " << this->rank
+				<< " couldn't receive data of unrefined cells"
+				<< std::endl;
+			abort();
+		}
 
 		// default construct unrefined cells' parents' user data
 		for (const uint64_t parent: parents_of_unrefined) {
-- 
2.43.0


From 0360b80cda69a1fccf4d1235f2e0a4d9255d1af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:11 +0000
Subject: [PATCH 22/23] fix: report failure of MPI_Waitall also if it isn't
 given in statuses

---
 dccrg.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dccrg.hpp b/dccrg.hpp
index f6084e0..d12a94d 100644
--- a/dccrg.hpp
+++ b/dccrg.hpp
@@ -11372,9 +11372,15 @@ private:
 
 			ret_val = MPI_Waitall(process->second.size(), &(process->second[0]), &(statuses[0]));
 			if (ret_val != MPI_SUCCESS) {
+				success = false;
+				std::cerr << __FILE__ << ":" << __LINE__
+					<< " MPI_Waitall failed: " << Error_String()(ret_val)
+					<< std::endl;
+			}
+			// otherwise errors in statuses are undefined
+			if (ret_val == MPI_ERR_IN_STATUS) {
 				for (const auto& status: statuses) {
 					if (status.MPI_ERROR != MPI_SUCCESS) {
-						success = false;
 						std::cerr << __FILE__ << ":" << __LINE__
 							<< " MPI receive failed from process " << status.MPI_SOURCE
 							<< " with tag " << status.MPI_TAG
-- 
2.43.0


From d4b90f9c83764f145aa84348e94bb12b3f531c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:11 +0000
Subject: [PATCH 23/23] fix: check results of all datatype constructions

---
 dccrg.hpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/dccrg.hpp b/dccrg.hpp
index d12a94d..08813b2 100644
--- a/dccrg.hpp
+++ b/dccrg.hpp
@@ -2315,7 +2315,14 @@ public:
 
 		if (number_of_cells == 0) {
 
-			MPI_Type_contiguous(0, MPI_BYTE, &file_datatype);
+			ret_val = MPI_Type_contiguous(0, MPI_BYTE, &file_datatype);
+			if (ret_val != MPI_SUCCESS) {
+				std::cerr << __FILE__ << ":" << __LINE__
+					<< " Process " << this->rank
+					<< " Couldn't create datatype for file view: "<< Error_String()(ret_val)
+					<< std::endl;
+				abort();
+			}
 
 		} else {
 
@@ -2459,8 +2466,10 @@ public:
 
 		if (number_of_cells == 0) {
 
-			MPI_Type_contiguous(0, MPI_BYTE, &memory_datatype);
-			if (MPI_Type_commit(&memory_datatype) != MPI_SUCCESS) {
+			if (
+				MPI_Type_contiguous(0, MPI_BYTE, &memory_datatype) != MPI_SUCCESS
+				or MPI_Type_commit(&memory_datatype) != MPI_SUCCESS
+			) {
 				std::cerr << __FILE__ << ":" << __LINE__
 					<< " Process " << this->rank
 					<< " Couldn't commit datatype for file view"
@@ -11302,7 +11311,7 @@ private:
 					abort();
 				}
 
-				MPI_Type_commit(&send_datatype);
+				ret_val = MPI_Type_commit(&send_datatype);
 				if (ret_val != MPI_SUCCESS) {
 					std::cerr << __FILE__ << ":" << __LINE__
 						<< " MPI_Type_commit failed for process " << this->rank
-- 
2.43.0

