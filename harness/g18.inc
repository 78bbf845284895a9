X("Poly", (Poly), "keep full - -")
X("PolyT", (PolyT), "keep full - -")
X("PolyD", (PolyD), "keep full - -")
X("NonAgg", (NonAgg), "keep full - -")
