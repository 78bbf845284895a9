X("pair_int_bool", (std::pair<int, bool>), "keep full - -")
X("pair_dbl_ptr", (std::pair<double, IntPtr>), "keep full - -")
X("tuple_ibf", (std::tuple<int, bool, float>), "keep full - -")
X("array_bool", (std::array<bool, 3>), "keep full - -")
