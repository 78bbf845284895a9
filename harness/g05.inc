X("string", (std::string), "mark full - -")
X("wstring", (std::wstring), "mark full - -")
X("vec_int", (std::vector<int>), "mark full - -")
