N("int", (int), 3, "keep", 0, 0)
N("TM", (TM), 3, "moveonly", 0, 1)
N("tuple_str", (std::tuple<int, std::string>), 2, "mark", 254, 0)
