X("AggIF", (AggIF), "keep full - -")
X("AggCB", (AggCB), "keep full - -")
X("AggPtr", (AggPtr), "keep full - -")
X("SentinelT", (SentinelT), "keep full - -")
