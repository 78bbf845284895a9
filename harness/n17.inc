N("IntPtr", (IntPtr), 3, "keep", 254, 0)
N("EStartS", (EStartS), 3, "keep", 3, 0)
N("AggCB", (AggCB), 2, "keep", 254, 0)
