N("bool", (bool), 8, "keep", 254, 0)
