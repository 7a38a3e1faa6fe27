## ---------------------------------------------------------------- mint, deposit, transfer, approve
#fn storage::mint(to, amount, memo, now) r
#req C31: !crate::ext::hard(E0)
#req C15: !E0.committed
#req C17: crate::ext::hard(E0) ==> memo_ok(memo) && bal(S0, akey(to)) + amount <= u128::MAX && supply(S0) + amount <= u128::MAX
#ens C17: crate::ext::hard(E0) ==> r is Ok
#ens *: eqE(E0, E1), eqG(S0, S1)
#req @INV: inv(S0, E0)
#ens @INV: inv(S1, E1), step(S0, S1, E0.time, E1.time)
#req C03 C11: now == E0.time
#ens C01: r is Ok ==> supply(S1) == supply(S0) + amount, r is Err ==> eqM(S0, S1)
#ens @M: r is Ok ==> moved(S0, S1, akey(to), amount as int), r is Err ==> eqM(S0, S1)
#ens @B: r is Ok ==> grown(S0, S1) && r->Ok_0 == S0.blocks@.len(), r is Err ==> eqB(S0, S1)
#ens @A: eqA(S0, S1)
#ens C06: r is Err ==> eqD(S0, S1)
#ens C17 C24 C29: r is Ok ==> (lastb(S1).transaction.operation is Mint) && lastb(S1).transaction == mtx(to, amount as nat, lastb(S1).transaction.operation->Mint_fee as nat, memo)
#ens C24: r is Ok ==> memo_ok(memo)
#ens C28: r is Ok ==> !(lastb(S1).transaction.operation is Burn)
#ens C26: r is Ok ==> lastb(S1).transaction.operation is Mint

#fn storage::deposit(to, amount, memo, now) r
#req C31: !crate::ext::hard(E0)
#req C15: !E0.committed
#req C17: crate::ext::hard(E0) ==> memo_ok(memo) && amount > FEE() && bal(S0, akey(to)) + (amount - FEE()) <= u128::MAX && supply(S0) + (amount - FEE()) <= u128::MAX
#ens C17: crate::ext::hard(E0) ==> r is Ok
#ens *: eqE(E0, E1), eqG(S0, S1)
#req @INV: inv(S0, E0)
#req @Q: inv_q(S0)
#ens @Q: inv_q(S1)
#ens @INV: inv(S1, E1), step(S0, S1, E0.time, E1.time)
#req C03 C11: now == E0.time
#ens C01: r is Ok ==> supply(S1) == supply(S0) + amount - FEE(), r is Err ==> eqM(S0, S1)
#ens @M: r is Ok ==> amount > FEE() && moved(S0, S1, akey(to), amount - FEE()), r is Err ==> eqM(S0, S1)
#ens @B: r is Ok ==> grown(S0, S1), r is Err ==> eqB(S0, S1)
#ens C17 C24: r is Ok ==> (lastb(S1).transaction.operation is Mint) && lastb(S1).transaction == mtx(to, (amount - FEE()) as nat, lastb(S1).transaction.operation->Mint_fee as nat, memo)
#ens C17: r is Ok ==> r->Ok_0.block_index@ == S0.blocks@.len() && r->Ok_0.balance@ == bal(S1, akey(to))
#ens C24: r is Ok ==> memo_ok(memo)
#ens C06: r is Err ==> eqD(S0, S1)
#ens @A: unexp_same(S0, S1, now)
#ens C10: r is Ok ==> pruned(S0, S1, now, 100)

#fn storage::is_denied_account(principal) r
#ens C15 C17 C31 C26 C25 C27 C12 C08: r == (*principal == crate::ext::mgmt())

#fn storage::transfer(from, to, spender, amount, memo, now, created_at_time, suggested_fee) r
#req C15: !E0.committed
#req C31: crate::ext::hard(E0) ==> memo_ok(memo)
#req C17: !crate::ext::hard(E0)
#ens *: eqE(E0, E1)
#req @INV: inv(S0, E0)
#req @Q: inv_q(S0)
#ens @Q: inv_q(S1)
#req C03 C11: now == E0.time
#ens @INV: inv(S1, E1), step(S0, S1, E0.time, E1.time)
#ens *: tf(S0, S1, now, from, to, spender, amount as nat, optu(suggested_fee), memo, created_at_time, gr_tf(r))
#ens C08 C10: !third(from, spender) ==> unexp_same(S0, S1, now)
#ens C10: forall|k: PK| spender is Some ==> k != pk(from, spender) ==> #[trigger] usablem(S1.approvals@, k, now) == usablem(S0.approvals@, k, now)
#ens C10: queue_sub(S0, S1), expd(S1, now) == expd(S0, now)

#fn storage::approve(from, spender, amount, memo, now, created_at_time, suggested_fee, expected_allowance, expires_at) r
#req C17: !crate::ext::hard(E0)
#req C31: crate::ext::hard(E0) ==> memo_ok(memo) && from.owner != spender.owner
#req C15: E0.committed ==> from.owner != spender.owner && !denied(from) && !denied(spender) && memo_ok(memo) && created_at_time is None && suggested_fee is None && expected_allowance is None && bal(S0, akey(from)) >= FEE() && (expires_at is Some ==> expires_at->Some_0 > now) && now < u64::MAX
#ens C15: E0.committed ==> r is Ok
#ens *: eqE(E0, E1)
#req @INV: inv(S0, E0)
#req @Q: inv_q(S0)
#ens @Q: inv_q(S1)
#req C03 C11: now == E0.time
#req C08 C31: now < u64::MAX
#ens @INV: inv(S1, E1), step(S0, S1, E0.time, E1.time)
#ens *: ap(S0, S1, now, from, spender, amount as nat, optu(suggested_fee), memo, created_at_time, optu(expected_allowance), expires_at, gr_a(r))
#ens C10: forall|k: PK| #![trigger usablem(S1.approvals@, k, now)] #![trigger usablem(S0.approvals@, k, now)] k != (akey(from), akey(spender)) ==> usablem(S1.approvals@, k, now) == usablem(S0.approvals@, k, now)
#ens C10: expd(S1, now).subset_of(expd(S0, now)), r is Err ==> eqA(S0, S1)
#ens @B: r is Ok ==> grown(S0, S1) && r->Ok_0@ == S0.blocks@.len(), r is Err ==> eqB(S0, S1)
#ens @M: r is Ok ==> moved(S0, S1, akey(from), -FEE()), r is Err ==> eqM(S0, S1)
#ens C16: r is Ok ==> unexp_set(S0, S1, now, (akey(from), akey(spender)), norm(amount as nat, match expires_at { Some(e) => e, None => 0u64 })) && bfee(lastb(S1)) == FEE() && lastb(S1).transaction == atx(from, spender, amount as nat, optu(suggested_fee), memo, created_at_time, optu(expected_allowance), expires_at)
