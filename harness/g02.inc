X("AggT", (AggT), "mark full ledger -")
X("AggN", (AggN), "mark full ledger -")
X("pair_TF_int", (std::pair<TF, int>), "mark full ledger -")
