X("array_str", (std::array<std::string, 2>), "mark full - -")
X("opt_string", (opt::option<std::string>), "mark full - -")
X("opt_opt_string", (opt::option<opt::option<std::string>>), "mark full - -")
X("DefVec", (DefVec), "mark full - -")
