X("Q01001", (Q01001), "keep full - ev01001")
X("Q01011", (Q01011), "keep full - ev01011")
X("Q01101", (Q01101), "keep full - ev01101")
X("Q01111", (Q01111), "keep full - ev01111")
