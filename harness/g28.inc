X("Q10000", (Q10000), "keep full - ev10000")
X("Q10010", (Q10010), "keep full - ev10010")
X("Q10100", (Q10100), "keep full - ev10100")
X("Q10110", (Q10110), "keep full - ev10110")
