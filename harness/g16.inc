X("refw", (std::reference_wrapper<int>), "keep full - -")
X("complexf", (std::complex<float>), "keep full - -")
X("complexd", (std::complex<double>), "keep full - -")
X("PtrPtr", (PtrPtr), "keep full - -")
