X("Q00000", (Q00000), "keep full - ev00000")
X("Q00010", (Q00010), "keep full - ev00010")
X("Q00100", (Q00100), "keep full - ev00100")
X("Q00110", (Q00110), "keep full - ev00110")
