N("bool", (bool), 4, "keep", 254, 0)
N("S2", (S_2), 2, "keep", 2, 0)
