N("TMN", (TMN), 4, "moveonly", 3, 1)
N("bool", (bool), 2, "keep", 254, 0)
