N("N11111", (N11111), 3, "keep", 3, 0)
N("EStart", (EStart), 3, "keep", 3, 0)
N("array_bool", (std::array<bool, 2>), 2, "keep", 254, 0)
