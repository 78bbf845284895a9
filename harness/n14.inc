N("S2", (S_2), 3, "keep", 2, 0)
N("sv", (std::string_view), 3, "keep", 254, 0)
N("complexf", (std::complex<float>), 2, "keep", 254, 0)
