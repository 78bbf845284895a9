N("refw", (std::reference_wrapper<int>), 3, "keep", 254, 0)
N("AggN", (AggN), 3, "mark", 3, 1)
N("ref", (int&), 1, "keep", 254, 0)
