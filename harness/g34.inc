X("Q00001", (Q00001), "keep full - ev00001")
X("Q00011", (Q00011), "keep full - ev00011")
X("Q00101", (Q00101), "keep full - ev00101")
X("Q00111", (Q00111), "keep full - ev00111")
