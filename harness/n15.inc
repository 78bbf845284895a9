N("TN", (TN), 3, "mark", 3, 1)
N("EAuto", (EAuto), 3, "keep", 254, 0)
N("TupleLike", (TupleLike), 2, "keep", 254, 0)
