X("TM", (TM), "mark moveonly ledger ev00000")
X("TMN", (TMN), "mark moveonly ledger ev00000")
X("TI", (TI), "mark immovable ledger ev00000")
X("TIN", (TIN), "mark immovable ledger ev00000")
X("TA", (TA), "mark noassign ledger ev00000")
