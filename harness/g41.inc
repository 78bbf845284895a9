X("N11001", (N11001), "keep full - ev11001")
X("N11011", (N11011), "keep full - ev11011")
X("N11101", (N11101), "keep full - ev11101")
X("N11111", (N11111), "keep full - ev11111")
