X("N01000", (N01000), "keep full - ev01000")
X("N01010", (N01010), "keep full - ev01010")
X("N01100", (N01100), "keep full - ev01100")
X("N01110", (N01110), "keep full - ev01110")
