X("sent1", (S_1), "keep full - -")
X("sent3", (S_3), "keep full - -")
X("sentf1", (SF_1), "keep full - -")
X("sentf3", (SF_3), "keep full - -")
