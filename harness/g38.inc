X("N00001", (N00001), "keep full - ev00001")
X("N00011", (N00011), "keep full - ev00011")
X("N00101", (N00101), "keep full - ev00101")
X("N00111", (N00111), "keep full - ev00111")
