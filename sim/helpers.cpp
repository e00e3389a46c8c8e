// dccrg's collective helpers against directly computed results
#include "harness.hpp"
#include "dccrg_mpi_support.hpp"
#include <numeric>
using std::vector; using std::to_string;

// rng is in the same state on all ranks
std::string helpers_test(MPI_Comm comm, int rank, int size, sim::Rng& rng, int kind) {
	if (kind == 0) {
		vector<vector<uint64_t>> in(static_cast<size_t>(size)), out;
		const int style = int(rng.below(4));
		// at times more than fits into 8 or 16 bits
		const size_t longest = rng.pm(60) ? 700 : rng.pm(15) ? 90000 : 20;
		for (auto& v: in) {
			size_t n = rng.below(style == 0 ? 1 : style == 1 ? 2 : longest);
			if (style == 3 && rng.pm(500)) n = 0;
			for (size_t i = 0; i < n; i++) v.push_back(rng.next());
		}
		// results of earlier calls must not show
		if (rng.pm(300)) out.assign(rng.below(9), vector<uint64_t>(3, 7));
		vector<uint64_t> mine = in[size_t(rank)];
		dccrg::All_Gather()(mine, out, comm);
		if (mine != in[size_t(rank)]) return "All_Gather changed its input";
		if (out != in) {
			std::string s = "All_Gather result has lengths";
			for (auto& v: out) s += " " + to_string(v.size());
			s += " should be";
			for (auto& v: in) s += " " + to_string(v.size());
			return s + " or has wrong values";
		}
	} else if (kind == 1) {
		vector<uint64_t> in(static_cast<size_t>(size));
		uint64_t sum = 0;
		for (auto& v: in) { v = rng.pm(200) ? rng.next() : rng.below(100); sum += v; }
		const uint64_t r = dccrg::All_Reduce()(in[size_t(rank)], comm);
		if (r != sum) return "All_Reduce returned " + to_string(r) + ", should be " + to_string(sum);
	} else {
		// symmetric relation
		vector<uint64_t> in(static_cast<size_t>(size));
		for (auto& v: in) v = rng.pm(200) ? rng.next() : rng.below(100);
		vector<vector<char>> rel(static_cast<size_t>(size), vector<char>(static_cast<size_t>(size), 0));
		const int pm = int(rng.below(1001));
		for (int i = 0; i < size; i++) for (int j = 0; j < i; j++) {
			rel[size_t(i)][size_t(j)] = rel[size_t(j)][size_t(i)] = rng.pm(pm);
		}
		std::unordered_set<int> peers;
		uint64_t sum = in[size_t(rank)];
		for (int i = 0; i < size; i++) if (rel[size_t(rank)][size_t(i)]) { peers.insert(i); sum += in[size_t(i)]; }
		const uint64_t r = dccrg::Some_Reduce()(in[size_t(rank)], peers, comm);
		if (r != sum) return "Some_Reduce among " + to_string(peers.size()) + " peers returned " + to_string(r) + ", should be " + to_string(sum);
	}
	return "";
}
