N("vec", (std::vector<int>), 3, "mark", 254, 0)
N("MDPtr", (MDPtr), 3, "keep", 254, 0)
N("CCharPtr", (CCharPtr), 2, "keep", 254, 0)
