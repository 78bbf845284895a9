X("opt_ref", (opt::option<int&>), "keep full - -")
X("opt_ptr", (opt::option<IntPtr>), "keep full - -")
X("opt_double", (opt::option<double>), "keep full - -")
X("stdopt", (std::optional<int>), "keep full - -")
