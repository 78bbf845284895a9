X("uptr_int", (std::unique_ptr<int>), "mark moveonly - -")
X("uptr_arr", (std::unique_ptr<int[]>), "mark moveonly - -")
X("pair_uptr", (std::pair<int, std::unique_ptr<int>>), "mark moveonly - -")
X("vec_uptr", (std::vector<std::unique_ptr<int>>), "mark moveonly - -")
