X("EStartS", (EStartS), "keep full - -")
X("EStartEnd", (EStartEnd), "keep full - -")
X("EOpen", (EOpen), "keep full - -")
X("EPlain", (EPlain), "keep full - -")
X("EOld", (EOld), "keep full - -")
