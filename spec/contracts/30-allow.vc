## ---------------------------------------------------------------- allowances
#fn storage::allowance(account, spender, now) r
#ens @A C17: r == usable(S0, (akey(*account), akey(*spender)), now)

#fn storage::record_approval(s, from, spender, amount, expires_at)
#ens @M C15 C31: eqM(S0, S1)
#ens @B: eqB(S0, S1)
#ens @D: eqD(S0, S1)
#ens *: eqG(S0, S1)
#ens C01: eqM(S0, S1)
#ens @H: eqH(S0, S1)
#req @Q: inv_q(S0)
#req C26 C15 C31: from.owner != spender.owner, from.owner != crate::ext::mgmt(), spender.owner != crate::ext::mgmt()
#ens @Q: inv_q(S1)
#ens @A: S1.approvals@ == set_allow(S0.approvals@, (akey(*from), akey(*spender)), amount, match expires_at { Some(e) => e, None => 0 })
#ens C10: forall|q: (u64, PK)| #[trigger] S1.expiration_queue@.contains_key(q) ==> S0.expiration_queue@.contains_key(q) || (expires_at == Some(q.0) && q.1 == (akey(*from), akey(*spender)))
#ens C10: forall|q: (u64, PK)| #[trigger] S0.expiration_queue@.contains_key(q) ==> S1.expiration_queue@.contains_key(q) || q.1 == (akey(*from), akey(*spender))

#fn storage::check_allowance(s, account, spender, amount, now) r
#ens @A: r is Ok <==> amount > 0 && usable(S0, (akey(*account), akey(*spender)), now).0 >= amount,
    r is Ok ==> r->Ok_0.0 == usable(S0, (akey(*account), akey(*spender)), now).0 - amount && r->Ok_0.1 == usable(S0, (akey(*account), akey(*spender)), now).1
#ens C15 C31 C17: r is Err ==> (r->Err_0 is CannotDeduceZero <==> amount == 0)
#ens C31: r is Err && amount > 0 ==> gr_ua(r->Err_0) == GR::NoAllowance(usable(S0, (akey(*account), akey(*spender)), now).0 as nat)

#fn storage::use_allowance(s, account, spender, amount, now) r
#ens @M C15 C31: eqM(S0, S1)
#ens @B: eqB(S0, S1)
#ens @D: eqD(S0, S1)
#ens *: eqG(S0, S1)
#ens C01: eqM(S0, S1)
#ens @H: eqH(S0, S1)
#req @Q: inv_q(S0)
#ens @Q: inv_q(S1)
#ens @A: r is Ok ==> spent(S0, S1, (akey(*account), akey(*spender)), amount as nat, now), r is Err ==> eqA(S0, S1),
    r is Ok <==> amount > 0 && usable(S0, (akey(*account), akey(*spender)), now).0 >= amount
#ens C15 C31 C17: r is Err ==> (r->Err_0 is CannotDeduceZero <==> amount == 0)
#ens C10: queue_sub(S0, S1), expd(S1, now) == expd(S0, now)

#fn storage::prune(now)
#ens C10 C15 C31 @M: eqM(S0, S1)
#ens C10 @B: eqB(S0, S1)
#ens *: eqG(S0, S1)
#ens C01: eqM(S0, S1)
#ens @H: eqH(S0, S1)
#req @Q: inv_q(S0)
#ens @Q: inv_q(S1), unexp_same(S0, S1, now)
#ens C10: pruned(S0, S1, now, 100), queue_sub(S0, S1), earliest(S0, S1, now)
#ens C14 C15 C31 C17: hashes_sub(S0, S1)
#req C11: inv(S0, E0), now == E0.time
#ens C11: inv(S1, E0), hashes_sub(S0, S1), step(S0, S1, E0.time, E0.time)

#fn storage::prune_approvals(now, s, limit)
#locals pruned@1
#ens C10 C15 C31 @M: eqM(S0, S1)
#ens C10 @B: eqB(S0, S1)
#ens @D: eqD(S0, S1)
#ens *: eqG(S0, S1)
#ens C01: eqM(S0, S1)
#ens @H: eqH(S0, S1)
#req @Q: inv_q(S0)
#ens @Q: inv_q(S1), unexp_same(S0, S1, now)
#ens C10: pruned(S0, S1, now, limit as int), queue_sub(S0, S1), earliest(S0, S1, now)
#req *: limit <= 0x7fff_0000
#loop 1 *: invariant limit <= 0x7fff_0000, 0 <= pruned <= limit, eqG(S0, *s)
#loop 1 *: invariant pruned <= it_1.pos(), it_1.items().len() == limit
#loop 1 C01 C10 C15 C31 @M: invariant eqM(S0, *s)
#loop 1 C10 @B: invariant eqB(S0, *s)
#loop 1 @D: invariant eqD(S0, *s)
#loop 1 @H: invariant eqH(S0, *s)
#loop 1 @Q: invariant inv_q(*s), unexp_same(S0, *s, now)
#loop 1 C10: invariant queue_sub(S0, *s), earliest(S0, *s, now), expd(*s, now).subset_of(expd(S0, now)), expd(S0, now).len() - expd(*s, now).len() == pruned
#loop 1 C10: invariant_except_break pruned == it_1.pos()
#loop 1 C10: ensures expd(*s, now).len() == 0 || pruned >= limit

#fn storage::prune_transactions(now, s, limit)
#locals pruned@1
#ens C10 C15 C31 @M: eqM(S0, S1)
#ens C10 @B: eqB(S0, S1)
#ens @A: eqA(S0, S1)
#ens *: eqG(S0, S1)
#ens C01: eqM(S0, S1)
#ens @H: eqH(S0, S1)
#ens C14 C15 C31 C17: hashes_sub(S0, S1)
#req C11: dedup(S0, now)
#ens C11: dedup(S1, now), hashes_sub(S0, S1), hstep(S0, S1, now, now, -1)
#loop 1 *: invariant eqG(S0, *s), pruned <= limit
#loop 1 C01 C10 C15 C31 @M: invariant eqM(S0, *s)
#loop 1 C10 @B: invariant eqB(S0, *s)
#loop 1 @A: invariant eqA(S0, *s)
#loop 1 @H: invariant eqH(S0, *s)
#loop 1 C14 C15 C31 C17: invariant hashes_sub(S0, *s)
#loop 1 C11: invariant dedup(*s, now), hashes_sub(S0, *s), hstep(S0, *s, now, now, -1)
