N("N11111", (N11111), 7, "keep", 3, 0)
