X("N01001", (N01001), "keep full - ev01001")
X("N01011", (N01011), "keep full - ev01011")
X("N01101", (N01101), "keep full - ev01101")
X("N01111", (N01111), "keep full - ev01111")
