N("TN", (TN), 4, "mark", 3, 1)
N("ESent", (ESent), 2, "keep", 1, 0)
