X("IntPtr", (IntPtr), "keep full - -")
X("CCharPtr", (CCharPtr), "keep full - -")
X("VoidPtr", (VoidPtr), "keep full - -")
X("FnPtr", (FnPtr), "keep full - -")
