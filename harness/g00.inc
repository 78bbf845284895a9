X("TF", (TF), "mark full ledger ev00000")
X("TN", (TN), "mark full ledger ev00000")
X("TNM", (TNM), "mark full ledger ev00000")
