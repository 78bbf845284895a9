N("ref", (int&), 3, "keep", 254, 0)
N("EStartEnd", (EStartEnd), 3, "keep", 3, 0)
N("ESent", (ESent), 1, "keep", 1, 0)
