package app

import ent "uniswap-simulator/lib/transaction"

func ZZTransactions() []ent.Transaction { return getTransactions() }
