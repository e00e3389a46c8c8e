// Simulated Zoltan. LB_Balance asks every query function, shows the answers to
// the oracle of the running rank and returns the partition that the run's plan
// prescribes for the objects it was actually given.
#include "simcore.hpp"
#include "zoltan.h"
#include <algorithm>
#include <cstring>
#include <cstdlib>
using std::map; using std::pair; using std::string; using std::to_string; using std::vector;

template<class F> struct Fn { F* f = nullptr; void* data = nullptr; };

struct Zoltan_Struct {
	MPI_Comm comm = MPI_COMM_NULL;
	map<string, string> params;
	Fn<ZOLTAN_NUM_OBJ_FN> Num_Obj;
	Fn<ZOLTAN_OBJ_LIST_FN> Obj_List;
	Fn<ZOLTAN_NUM_GEOM_FN> Num_Geom;
	Fn<ZOLTAN_GEOM_MULTI_FN> Geom_Multi;
	Fn<ZOLTAN_NUM_EDGES_MULTI_FN> Num_Edges_Multi;
	Fn<ZOLTAN_EDGE_LIST_MULTI_FN> Edge_List_Multi;
	Fn<ZOLTAN_HG_SIZE_CS_FN> HG_Size_CS;
	Fn<ZOLTAN_HG_CS_FN> HG_CS;
	Fn<ZOLTAN_HG_SIZE_EDGE_WTS_FN> HG_Size_Edge_Wts;
	Fn<ZOLTAN_HG_EDGE_WTS_FN> HG_Edge_Wts;
	Fn<ZOLTAN_HIER_NUM_LEVELS_FN> Hier_Num_Levels;
	Fn<ZOLTAN_HIER_PART_FN> Hier_Part;
	Fn<ZOLTAN_HIER_METHOD_FN> Hier_Method;
};

extern "C" {
int Zoltan_Initialize(int, char**, float* v) { if (v) *v = 3.9f; return ZOLTAN_OK; }
Zoltan_Struct* Zoltan_Create(MPI_Comm c) {
	const sim::Reliable other;
	auto* z = new Zoltan_Struct;
	MPI_Comm_dup(c, &z->comm);
	return z;
}
Zoltan_Struct* Zoltan_Copy(Zoltan_Struct const* o) {
	const sim::Reliable other;
	auto* z = new Zoltan_Struct(*o);
	MPI_Comm_dup(o->comm, &z->comm);
	return z;
}
void Zoltan_Destroy(Zoltan_Struct** z) {
	if (!z || !*z) return;
	MPI_Comm_free(&(*z)->comm);
	delete *z;
	*z = nullptr;
}
int Zoltan_Set_Param(Zoltan_Struct* z, const char* n, const char* v) {
	string name(n);
	for (auto& c: name) c = toupper(c);
	z->params[name] = v;
	return ZOLTAN_OK;
}
#define SET(N, T) int Zoltan_Set_##N##_Fn(Zoltan_Struct* z, T* f, void* d) { z->N.f = f; z->N.data = d; return ZOLTAN_OK; }
SET(Num_Obj, ZOLTAN_NUM_OBJ_FN)
SET(Obj_List, ZOLTAN_OBJ_LIST_FN)
SET(Num_Geom, ZOLTAN_NUM_GEOM_FN)
SET(Geom_Multi, ZOLTAN_GEOM_MULTI_FN)
SET(Num_Edges_Multi, ZOLTAN_NUM_EDGES_MULTI_FN)
SET(Edge_List_Multi, ZOLTAN_EDGE_LIST_MULTI_FN)
SET(HG_Size_CS, ZOLTAN_HG_SIZE_CS_FN)
SET(HG_CS, ZOLTAN_HG_CS_FN)
SET(HG_Size_Edge_Wts, ZOLTAN_HG_SIZE_EDGE_WTS_FN)
SET(HG_Edge_Wts, ZOLTAN_HG_EDGE_WTS_FN)
SET(Hier_Num_Levels, ZOLTAN_HIER_NUM_LEVELS_FN)
SET(Hier_Part, ZOLTAN_HIER_PART_FN)
SET(Hier_Method, ZOLTAN_HIER_METHOD_FN)

// ids consist of one or more items and mean something only to the library
typedef vector<ZOLTAN_ID_TYPE> Id;
static void export_list(const vector<pair<Id, int>>& l, size_t entries, int* n, ZOLTAN_ID_PTR* g, ZOLTAN_ID_PTR* lid, int** p) {
	*n = int(l.size());
	*g = nullptr; *lid = nullptr; *p = nullptr;
	if (l.empty()) return;
	*g = (ZOLTAN_ID_PTR) malloc(l.size() * entries * sizeof(ZOLTAN_ID_TYPE));
	*p = (int*) malloc(l.size() * sizeof(int));
	for (size_t i = 0; i < l.size(); i++) {
		std::copy(l[i].first.begin(), l[i].first.end(), *g + i * entries);
		(*p)[i] = l[i].second;
	}
}
// cell that an id stands for, in whichever order of items
static uint64_t cell_of(sim::Partitioner* o, const ZOLTAN_ID_TYPE* p, size_t entries) {
	uint64_t a = 0, b = 0;
	const int shift = sizeof(ZOLTAN_ID_TYPE) >= 8 ? 0 : int(8 * sizeof(ZOLTAN_ID_TYPE));
	for (size_t i = 0; i < entries; i++) {
		a = a << shift | p[entries - 1 - i];
		b = b << shift | p[i];
	}
	return o->exists(a) || !o->exists(b) ? a : b;
}

int Zoltan_LB_Balance(
	Zoltan_Struct* z, int* changes, int* ng, int* nl,
	int* nimp, ZOLTAN_ID_PTR* impg, ZOLTAN_ID_PTR* impl, int** impp,
	int* nexp, ZOLTAN_ID_PTR* expg, ZOLTAN_ID_PTR* expl, int** expp
) {
	const sim::Reliable other;
	*changes = 0; *ng = 1; *nl = 0;
	*nimp = *nexp = -1;
	*impg = *impl = *expg = *expl = nullptr;
	*impp = *expp = nullptr;
	sim::Partitioner* o = sim::get_partitioner();
	int rank = 0, size = 1;
	MPI_Comm_rank(z->comm, &rank);
	MPI_Comm_size(z->comm, &size);
	if (!o) return ZOLTAN_FATAL;
	if (!o->expected()) o->complain("partitioner was called although not asked for");
	o->check_params(rank, z->params);
	if (z->params["LB_METHOD"] == "NONE") return ZOLTAN_WARN;
	if (o->fails(rank)) return ZOLTAN_FATAL;

	int err = ZOLTAN_OK;
	auto bad = [&](const char* what) {
		if (err != ZOLTAN_OK) o->complain(string("query function reports an error: ") + what);
		err = ZOLTAN_OK;
		sim::count(sim::c_callbacks);
	};
	if (!z->Num_Obj.f || !z->Obj_List.f || !z->Num_Geom.f || !z->Geom_Multi.f
		|| !z->Num_Edges_Multi.f || !z->Edge_List_Multi.f || !z->HG_Size_CS.f || !z->HG_CS.f
		|| !z->HG_Size_Edge_Wts.f || !z->HG_Edge_Wts.f || !z->Hier_Num_Levels.f || !z->Hier_Part.f
		|| !z->Hier_Method.f
	) {
		o->complain("query function not set");
		return ZOLTAN_FATAL;
	}
	const int ne = z->params.count("NUM_GID_ENTRIES") ? atoi(z->params["NUM_GID_ENTRIES"].c_str()) : 1;
	if (ne < 1 || ne > 8) { o->complain("bad number of global id entries"); return ZOLTAN_FATAL; }
	const size_t E = size_t(ne);
	const auto cell = [&](const vector<ZOLTAN_ID_TYPE>& v, size_t i) { return cell_of(o, v.data() + i * E, E); };
	const int n = z->Num_Obj.f(z->Num_Obj.data, &err); bad("number of objects");
	if (n < 0) o->complain("negative number of objects");
	const size_t cap = size_t(std::max(n, 0)) + 1;
	vector<ZOLTAN_ID_TYPE> gid(cap * E, ZOLTAN_ID_TYPE(-1));
	vector<float> w(cap, -77.f);
	z->Obj_List.f(z->Obj_List.data, ne, 0, gid.data(), nullptr, 1, w.data(), &err); bad("object list");
	vector<pair<uint64_t, float>> objs;
	for (int i = 0; i < n; i++) objs.push_back({cell(gid, i), w[i]});
	o->check_objects(rank, objs);

	// from here on ask about what we were given, in another order
	sim::Rng& rng = sim::rank_rng();
	vector<ZOLTAN_ID_TYPE> ids(gid.begin(), gid.begin() + n * ne);
	for (size_t i = size_t(n); i > 1; i--) {
		const size_t j = rng.below(i);
		if (j != i - 1) std::swap_ranges(ids.begin() + long((i - 1) * E), ids.begin() + long(i * E), ids.begin() + long(j * E));
	}

	const int dim = z->Num_Geom.f(z->Num_Geom.data, &err); bad("dimensions");
	if (dim != 3) o->complain("number of dimensions is " + to_string(dim));
	vector<double> geom(size_t(n) * 3 + 3, -1e300);
	z->Geom_Multi.f(z->Geom_Multi.data, ne, 0, n, ids.data(), nullptr, 3, geom.data(), &err); bad("geometry");
	for (int i = 0; i < n; i++) o->check_geometry(rank, cell(ids, i), &geom[3 * i]);

	vector<int> nedges(size_t(n) + 1, -1);
	z->Num_Edges_Multi.f(z->Num_Edges_Multi.data, ne, 0, n, ids.data(), nullptr, nedges.data(), &err); bad("number of edges");
	size_t total = 0;
	for (int i = 0; i < n; i++) {
		if (nedges[i] < 0) { o->complain("negative number of edges"); nedges[i] = 0; }
		total += nedges[i];
	}
	vector<ZOLTAN_ID_TYPE> nbr((total + 1) * E, ZOLTAN_ID_TYPE(-1));
	vector<int> nbrp(total + 1, -1);
	z->Edge_List_Multi.f(z->Edge_List_Multi.data, ne, 0, n, ids.data(), nullptr, nedges.data(), nbr.data(), nbrp.data(), 0, nullptr, &err); bad("edges");
	for (size_t i = 0, k = 0; int(i) < n; i++) {
		vector<pair<uint64_t, int>> e;
		for (int j = 0; j < nedges[i]; j++, k++) e.push_back({cell(nbr, k), nbrp[k]});
		o->check_edges(rank, cell(ids, i), e);
	}

	int nlists = -1, npins = -1, format = -1;
	z->HG_Size_CS.f(z->HG_Size_CS.data, &nlists, &npins, &format, &err); bad("hypergraph size");
	if (format != ZOLTAN_COMPRESSED_VERTEX && format != ZOLTAN_COMPRESSED_EDGE) o->complain("bad hypergraph format");
	if (nlists != n) o->complain("number of hyperedges is " + to_string(nlists) + " with " + to_string(n) + " cells");
	if (nlists >= 0 && npins >= 0) {
		vector<ZOLTAN_ID_TYPE> he((nlists + 1) * E, ZOLTAN_ID_TYPE(-1)), pins((npins + 1) * E, ZOLTAN_ID_TYPE(-1));
		vector<int> start(nlists + 1, -1);
		z->HG_CS.f(z->HG_CS.data, ne, nlists, npins, format, he.data(), start.data(), pins.data(), &err); bad("hypergraph");
		int nw = -1;
		z->HG_Size_Edge_Wts.f(z->HG_Size_Edge_Wts.data, &nw, &err); bad("number of hyperedge weights");
		if (nw < 0) { o->complain("negative number of hyperedge weights"); nw = 0; }
		vector<ZOLTAN_ID_TYPE> we((nw + 1) * E, ZOLTAN_ID_TYPE(-1));
		vector<float> wv(nw + 1, -1);
		z->HG_Edge_Wts.f(z->HG_Edge_Wts.data, ne, 0, nw, 1, we.data(), nullptr, wv.data(), &err); bad("hyperedge weights");
		map<uint64_t, double> wm;
		for (int i = 0; i < nw; i++) {
			const uint64_t c = cell(we, i);
			if (wm.count(c)) o->complain("two weights for hyperedge of cell " + to_string(c));
			wm[c] = wv[i];
		}
		vector<uint64_t> seen;
		for (int i = 0; i < nlists; i++) {
			const int a = start[i], b = i + 1 < nlists ? start[i + 1] : npins;
			if (a < 0 || b < a || b > npins) { o->complain("bad hyperedge extent of cell " + to_string(cell(he, i))); break; }
			vector<uint64_t> m;
			for (int j = a; j < b; j++) m.push_back(cell(pins, j));
			const uint64_t c = cell(he, i);
			seen.push_back(c);
			o->check_hyperedge(rank, c, m, wm.count(c) > 0, wm.count(c) ? wm[c] : 0);
		}
		std::sort(seen.begin(), seen.end());
		vector<uint64_t> want;
		for (int i = 0; i < n; i++) want.push_back(cell(ids, i));
		std::sort(want.begin(), want.end());
		if (seen != want) o->complain("hyperedges don't belong to the process's cells");
	}
	{
		const int levels = z->Hier_Num_Levels.f(z->Hier_Num_Levels.data, &err); bad("hierarchy levels");
		vector<int> parts;
		vector<map<string, string>> opts;
		for (int l = 0; l < levels; l++) {
			parts.push_back(z->Hier_Part.f(z->Hier_Part.data, l, &err)); bad("hierarchy part");
			Zoltan_Struct tmp;
			z->Hier_Method.f(z->Hier_Method.data, l, &tmp, &err); bad("hierarchy method");
			opts.push_back(tmp.params);
		}
		o->check_hier(rank, parts, opts);
	}

	// partition: gather what exists where
	vector<int> counts(size), disp(size);
	MPI_Allgather(&n, 1, MPI_INT, counts.data(), 1, MPI_INT, z->comm);
	int all = 0;
	for (int i = 0; i < size; i++) { counts[i] *= ne; disp[i] = all; all += counts[i]; }
	vector<ZOLTAN_ID_TYPE> every(all + 1);
	MPI_Allgatherv(gid.data(), n * ne, MPI_UNSIGNED, every.data(), counts.data(), disp.data(), MPI_UNSIGNED, z->comm);
	vector<pair<Id, int>> imp, exp;
	bool moved = false;
	for (int p = 0; p < size; p++) for (int i = 0; i < counts[p]; i += ne) {
		const Id id(every.begin() + disp[p] + i, every.begin() + disp[p] + i + ne);
		const uint64_t c = cell_of(o, id.data(), E);
		const int t = o->target(c, p);
		if (t < 0 || t >= size) continue;
		if (t != p) moved = true;
		// like real Zoltan with remapped parts, lists may mention cells that stay
		if (t == p && (p != rank || c % 5 != 0)) continue;
		if (p == rank) exp.push_back({id, t});
		if (t == rank) imp.push_back({id, p});
	}
	sim::count(sim::c_repartition);
	if (!moved) { *nimp = *nexp = 0; return ZOLTAN_OK; }
	for (size_t i = imp.size(); i > 1; i--) std::swap(imp[i - 1], imp[rng.below(i)]);
	for (size_t i = exp.size(); i > 1; i--) std::swap(exp[i - 1], exp[rng.below(i)]);
	*changes = 1;
	export_list(imp, E, nimp, impg, impl, impp);
	export_list(exp, E, nexp, expg, expl, expp);
	return ZOLTAN_OK;
}

int Zoltan_LB_Partition(
	Zoltan_Struct* z, int* changes, int* ng, int* nl,
	int* nimp, ZOLTAN_ID_PTR* impg, ZOLTAN_ID_PTR* impl, int** impp, int** imptp,
	int* nexp, ZOLTAN_ID_PTR* expg, ZOLTAN_ID_PTR* expl, int** expp, int** exptp
) {
	const int r = Zoltan_LB_Balance(z, changes, ng, nl, nimp, impg, impl, impp, nexp, expg, expl, expp);
	auto dup = [](int* p, int n) -> int* {
		if (!p || n <= 0) return nullptr;
		int* q = (int*) malloc(n * sizeof(int));
		memcpy(q, p, n * sizeof(int));
		return q;
	};
	*exptp = dup(*expp, *nexp);
	*imptp = nullptr;
	if (*impp && *nimp > 0) {
		int me = 0;
		MPI_Comm_rank(z->comm, &me);
		*imptp = (int*) malloc(*nimp * sizeof(int));
		for (int i = 0; i < *nimp; i++) (*imptp)[i] = me;
	}
	return r;
}
int Zoltan_LB_Free_Part(ZOLTAN_ID_PTR* a, ZOLTAN_ID_PTR* b, int** c, int** d) {
	free(*a); free(*b); free(*c); free(*d);
	*a = *b = nullptr; *c = *d = nullptr;
	return ZOLTAN_OK;
}
int Zoltan_LB_Free_Data(ZOLTAN_ID_PTR* a, ZOLTAN_ID_PTR* b, int** c, ZOLTAN_ID_PTR* d, ZOLTAN_ID_PTR* e, int** f) {
	free(*a); free(*b); free(*c); free(*d); free(*e); free(*f);
	*a = *b = *d = *e = nullptr; *c = *f = nullptr;
	return ZOLTAN_OK;
}
} // extern "C"
