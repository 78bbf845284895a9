X("N11000", (N11000), "keep full - ev11000")
X("N11010", (N11010), "keep full - ev11010")
X("N11100", (N11100), "keep full - ev11100")
X("N11110", (N11110), "keep full - ev11110")
