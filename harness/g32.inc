X("N10000", (N10000), "keep full - ev10000")
X("N10010", (N10010), "keep full - ev10010")
X("N10100", (N10100), "keep full - ev10100")
X("N10110", (N10110), "keep full - ev10110")
