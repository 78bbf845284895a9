X("array_int", (std::array<int, 3>), "keep full - -")
X("TupleLike", (TupleLike), "keep full - -")
X("TupleLikeM", (TupleLikeM), "keep full - -")
X("pair_ii", (std::pair<int, int>), "keep full - -")
