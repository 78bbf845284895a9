X("Q10001", (Q10001), "keep full - ev10001")
X("Q10011", (Q10011), "keep full - ev10011")
X("Q10101", (Q10101), "keep full - ev10101")
X("Q10111", (Q10111), "keep full - ev10111")
