X("N10001", (N10001), "keep full - ev10001")
X("N10011", (N10011), "keep full - ev10011")
X("N10101", (N10101), "keep full - ev10101")
X("N10111", (N10111), "keep full - ev10111")
