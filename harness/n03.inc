N("ESent", (ESent), 4, "keep", 1, 0)
N("TF", (TF), 2, "mark", 0, 1)
