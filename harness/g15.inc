X("MDPtr", (MDPtr), "keep full - -")
X("MFPtr", (MFPtr), "keep full - -")
X("sv", (std::string_view), "keep full - -")
X("u32sv", (std::u32string_view), "keep full - -")
