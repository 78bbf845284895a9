X("Q11000", (Q11000), "keep full - ev11000")
X("Q11010", (Q11010), "keep full - ev11010")
X("Q11100", (Q11100), "keep full - ev11100")
X("Q11110", (Q11110), "keep full - ev11110")
