N("S2", (S_2), 4, "keep", 2, 0)
N("double", (double), 2, "keep", 254, 0)
