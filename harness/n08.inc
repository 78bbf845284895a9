N("N00000", (N00000), 4, "keep", 3, 0)
N("vec", (std::vector<int>), 2, "mark", 254, 0)
