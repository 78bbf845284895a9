X("mem_ptr", (MB_p), "keep full - -")
X("mem_bool", (MB_b), "keep full - -")
#ifndef NO_BUILTIN_TRAITS // opt::enforce<T> asks for a T that has a niche
X("enf_double", (opt::enforce<double>), "keep full - -")
X("enf_string", (opt::enforce<std::string>), "mark full - -")
#endif
