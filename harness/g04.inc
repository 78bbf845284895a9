X("uptr_TF", (std::unique_ptr<TF>), "mark moveonly - -")
X("sptr_int", (std::shared_ptr<int>), "mark full - -")
X("array_TN", (std::array<TN, 2>), "mark full ledger2 -")
X("tuple_TN", (std::tuple<int, TN, bool>), "mark full ledger -")
