N("N11110", (N11110), 4, "keep", 3, 0)
N("ref", (int&), 2, "keep", 254, 0)
