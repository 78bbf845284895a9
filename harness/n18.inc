N("string", (std::string), 3, "mark", 254, 0)
N("MFPtr", (MFPtr), 3, "keep", 254, 0)
N("Q11110", (Q11110), 2, "keep", 0, 0)
