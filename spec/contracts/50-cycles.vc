## ---------------------------------------------------------------- withdrawals, canister creation, refunds
#fn storage::is_self_authenticating(principal) r
#ens C15 C17: true
#ens C28 C25 C11 C12 C31: r == self_auth(*principal)

#fn storage::call_error_to_reject(err) r
#ens C15 C17 C31: true
#ens C13 C14 C22: told(err, Some(r.0), r.1)

#fn storage::reimburse(acc, amount, now, memo) r
#req C31: !crate::ext::hard(E0)
#req C17: !crate::ext::hard(E0)
#ens *: eqE(E0, E1), eqG(S0, S1)
#req @INV: inv(S0, E0)
#ens @INV: inv(S1, E1), step(S0, S1, E0.time, E1.time)
#req C03 C11: now == E0.time
#ens C01: r is Ok ==> supply(S1) == supply(S0) + amount, r is Err ==> eqM(S0, S1)
#ens @M C15 C31: r is Ok ==> moved(S0, S1, akey(acc), amount as int), r is Err ==> eqM(S0, S1)
#ens @B: r is Ok ==> grown(S0, S1) && r->Ok_0 == S0.blocks@.len(), r is Err ==> eqB(S0, S1)
#ens C13 C14 C16 C24: r is Ok ==> lastb(S1).transaction == mtx(acc, amount as nat, 0, mm(memo@))
#ens @A: unexp_same(S0, S1, now)
#ens C10: r is Ok ==> pruned(S0, S1, now, 100)
#ens C14 C15 C31: hashes_sub(S0, S1)
#req C15: E0.committed ==> supply(S0) + amount <= u128::MAX
#ens C15: E0.committed ==> r is Ok

#fn storage::reimburse_approval(from, spender, amount, old_expires_at, now) r
#req C31: !crate::ext::hard(E0)
#req C17: !crate::ext::hard(E0)
#ens *: eqE(E0, E1), eqG(S0, S1)
#req @INV: inv(S0, E0)
#ens @INV: inv(S1, E1), step(S0, S1, E0.time, E1.time)
#req C03 C11: now == E0.time
#req C08 C31: now < u64::MAX
#ens C01: r is Ok ==> supply(S1) == supply(S0) - FEE(), r is Err ==> eqM(S0, S1)
#ens @B: r is Ok ==> grown(S0, S1), r is Err ==> eqB(S0, S1)
#ens C13 C14 C16: r is Ok ==> r->Ok_0@ == S0.blocks@.len() && moved(S0, S1, akey(from), -FEE())
#ens C16: r is Ok ==> ({
      let k = (akey(from), akey(spender));
      let u = usable(S0, k, now);
      let e = if u.1 > 0 { u.1 } else { match old_expires_at { Some(x) => x, None => 0u64 } };
      let v = cap((u.0 + amount) as nat);
      unexp_set(S0, S1, now, k, norm(v, e))
      && lastb(S1).transaction.operation == (Operation::Approve { from, spender, amount: v as u128, expected_allowance: None, expires_at: if e > 0 { Some(e) } else { old_expires_at }, fee: None })
      && bfee(lastb(S1)) == FEE() })
#ens C10: expd(S1, now).subset_of(expd(S0, now))
#req C15: E0.committed ==> from.owner != spender.owner && from.owner != crate::ext::mgmt() && spender.owner != crate::ext::mgmt() && bal(S0, akey(from)) >= FEE() && (old_expires_at is Some ==> old_expires_at->Some_0 > now) && now < u64::MAX
#ens C15: E0.committed ==> r is Ok

#fn storage::withdraw(from, to, spender, amount, now, created_at_time) r
#req *: E0.calls.len() == 0, !E0.committed
#req C17: !crate::ext::hard(E0)
#req @INV: inv(S0, E0)
#req C03 C11: now == E0.time
#req C08 C31: now < u64::MAX
#req C16: now <= E0.time
#ens @INV: inv(S1, E1)
#ens *: wd(S0, S1, E0, E1, now, from, to, spender, amount as nat, created_at_time, true, gr_wf(r))

#fn storage::create_canister(from, spender, amount, now, created_at_time, argument) r
#req *: E0.calls.len() == 0, !E0.committed
#req C17: !crate::ext::hard(E0)
#req @INV: inv(S0, E0)
#req C03 C11: now == E0.time
#req C08 C31: now < u64::MAX
#req C16: now <= E0.time
#ens @INV: inv(S1, E1)
#ens *: cc(S0, S1, E0, E1, now, from, spender, amount as nat, created_at_time, argument, true, gr_cf(r))
