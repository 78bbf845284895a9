X("Pad8", (Pad8), "keep full - -")
X("Pad16", (Pad16), "keep full - -")
X("Pad32", (Pad32), "keep full - -")
X("PadB", (PadB), "keep full - -")
