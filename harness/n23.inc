N("uptr", (std::unique_ptr<int>), 3, "moveonly", 254, 0)
N("Q11111", (Q11111), 3, "keep", 0, 0)
