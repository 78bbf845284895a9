X("N00000", (N00000), "keep full - ev00000")
X("N00010", (N00010), "keep full - ev00010")
X("N00100", (N00100), "keep full - ev00100")
X("N00110", (N00110), "keep full - ev00110")
