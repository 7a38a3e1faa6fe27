## ---------------------------------------------------------------- balances
#fn storage::to_account_key(account) r
#ens *: r == akey(*account)

#fn storage::balance_of(account) r
#ens *: r == balu(S0, akey(*account))

#fn storage::State::total_supply(s) r
#ens *: r == supply(S0)

#fn storage::State::check_credit_to_account(s, account, amount) r
#ens *: r is Ok <==> bal(S0, akey(*account)) + amount <= u128::MAX, r is Ok ==> r->Ok_0 == bal(S0, akey(*account)) + amount
#fn storage::State::check_total_supply_increase(s, amount) r
#ens *: r is Ok <==> supply(S0) + amount <= u128::MAX, r is Ok ==> r->Ok_0 == supply(S0) + amount
#fn storage::State::check_credit(s, account, amount) r
#ens *: r is Ok <==> bal(S0, akey(*account)) + amount <= u128::MAX && supply(S0) + amount <= u128::MAX
#fn storage::State::check_debit_from_account(s, account, amount) r
#ens *: r is Ok <==> bal(S0, akey(*account)) >= amount, r is Ok ==> r->Ok_0 == bal(S0, akey(*account)) - amount,
   r is Err ==> r->Err_0 == balu(S0, akey(*account))
#fn storage::State::check_total_supply_decrease(s, amount) r
#ens *: r is Ok <==> supply(S0) >= amount, r is Ok ==> r->Ok_0 == supply(S0) - amount

#fn storage::State::credit(s, account, amount) r
#ens C01: msum(S1.balances@) - supply(S1) == msum(S0.balances@) - supply(S0),
   r is Ok ==> supply(S1) == supply(S0) + amount, r is Err ==> eqM(S0, S1)
#ens @M: r is Ok ==> moved(S0, S1, akey(*account), amount as int) && r->Ok_0 == bal(S1, akey(*account)),
   r is Err ==> eqM(S0, S1)
#ens C17: r is Ok <==> bal(S0, akey(*account)) + amount <= u128::MAX && supply(S0) + amount <= u128::MAX
#ens C15 C31: r is Ok <==> bal(S0, akey(*account)) + amount <= u128::MAX && supply(S0) + amount <= u128::MAX,
   r is Err ==> eqM(S0, S1), r is Ok ==> moved(S0, S1, akey(*account), amount as int),
   msum(S1.balances@) - supply(S1) == msum(S0.balances@) - supply(S0)
#ens @B: eqB(S0, S1)
#ens @H: eqH(S0, S1)
#ens @A: eqA(S0, S1)
#ens @D: eqD(S0, S1)
#ens *: eqG(S0, S1)

#fn storage::State::debit(s, account, amount) r
#ens C01: msum(S1.balances@) - supply(S1) == msum(S0.balances@) - supply(S0),
   r is Ok ==> supply(S1) == supply(S0) - amount, r is Err ==> eqM(S0, S1)
#ens @M: r is Ok ==> moved(S0, S1, akey(*account), -(amount as int)) && r->Ok_0 == bal(S1, akey(*account)),
   r is Err ==> eqM(S0, S1)
#ens C15 C31: r is Ok <==> bal(S0, akey(*account)) >= amount && supply(S0) >= amount,
   r is Err ==> eqM(S0, S1), r is Ok ==> moved(S0, S1, akey(*account), -(amount as int)),
   msum(S1.balances@) - supply(S1) == msum(S0.balances@) - supply(S0)
#ens @B: eqB(S0, S1)
#ens @H: eqH(S0, S1)
#ens @A: eqA(S0, S1)
#ens @D: eqD(S0, S1)
#ens *: eqG(S0, S1)
