X("EAuto", (EAuto), "keep full - -")
X("EAuto32", (EAuto32), "keep full - -")
X("ESent", (ESent), "keep full - -")
X("EStart", (EStart), "keep full - -")
