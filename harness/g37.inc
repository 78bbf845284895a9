X("Q11001", (Q11001), "keep full - ev11001")
X("Q11011", (Q11011), "keep full - ev11011")
X("Q11101", (Q11101), "keep full - ev11101")
X("Q11111", (Q11111), "keep full - ev11111")
