X("pair_str_int", (std::pair<std::string, int>), "mark full - -")
X("tuple_str", (std::tuple<int, std::string, double>), "mark full - -")
X("User", (User), "mark full - -")
