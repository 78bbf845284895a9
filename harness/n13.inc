N("ESent", (ESent), 3, "keep", 1, 0)
N("Poly", (Poly), 3, "keep", 254, 0)
N("PolyT", (PolyT), 2, "keep", 254, 0)
