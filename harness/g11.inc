X("bool", (bool), "keep full - -")
X("float", (float), "keep full - -")
X("double", (double), "keep full - -")
X("ldouble", (long double), "keep full - -")
