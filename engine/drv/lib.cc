// structural rules look at the library alone
