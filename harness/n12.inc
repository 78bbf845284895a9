N("double", (double), 3, "keep", 254, 0)
N("Pad8", (Pad8), 3, "keep", 254, 0)
N("TM", (TM), 2, "moveonly", 0, 1)
