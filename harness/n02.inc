N("int", (int), 4, "keep", 0, 0)
N("int", (int), 2, "keep", 0, 0)
