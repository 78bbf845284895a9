X("vec_string", (std::vector<std::string>), "mark full - -")
X("vec_bool", (std::vector<bool>), "mark full - -")
X("deque_int", (std::deque<int>), "mark full - -")
