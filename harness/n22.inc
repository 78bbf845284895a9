N("pair", (std::pair<int, bool>), 3, "keep", 254, 0)
N("float", (float), 3, "keep", 254, 0)
