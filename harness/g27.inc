X("Q01000", (Q01000), "keep full - ev01000")
X("Q01010", (Q01010), "keep full - ev01010")
X("Q01100", (Q01100), "keep full - ev01100")
X("Q01110", (Q01110), "keep full - ev01110")
