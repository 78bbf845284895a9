X("opt_bool", (opt::option<bool>), "keep full - -")
X("opt_int", (opt::option<int>), "keep full - -")
X("opt_opt_bool", (opt::option<opt::option<bool>>), "keep full - -")
X("opt_opt_int", (opt::option<opt::option<int>>), "keep full - -")
