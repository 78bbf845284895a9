X("int", (int), "keep full - -")
X("char", (char), "keep full - -")
X("uchar", (unsigned char), "keep full - -")
X("ulong", (unsigned long), "keep full - -")
