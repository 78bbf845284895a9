N("TF", (TF), 3, "mark", 0, 1)
N("Q00000", (Q00000), 3, "keep", 0, 0)
N("uptr", (std::unique_ptr<int>), 2, "moveonly", 254, 0)
