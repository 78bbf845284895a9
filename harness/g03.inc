X("vec_TF", (std::vector<TF>), "mark full - -")
X("opt_TF", (opt::option<TF>), "mark full ledger -")
X("opt_opt_TN", (opt::option<opt::option<TN>>), "mark full ledger -")
