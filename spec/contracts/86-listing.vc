## ---------------------------------------------------------------- allowance listing
#roots C19: storage::get_allowances canister::icrc103_get_allowances
#fn storage::get_allowances(from, spender, max_results, now) r
#req C19: max_results <= 0x7fff_ffff
#ens C19: listing(S0.approvals@, from, spender, max_results as int, now, r@)
#loop 1 C19: invariant max_results <= 0x7fff_ffff, it_1.items() == its_1@, 0 <= it_1.pos() <= it_1.items().len(),
   listed(S.approvals@, from, spender, max_results as int, now, acc_1@),
   forall|j: int| 0 <= j < it_1.pos() ==> covered(S.approvals@, from, spender, max_results as int, now, acc_1@, (#[trigger] it_1.items()[j]).0),
   forall|i: int, j: int| 0 <= i < acc_1@.len() && it_1.pos() <= j < it_1.items().len() ==> crate::ext::key_lt(lkey(#[trigger] acc_1@[i]), (#[trigger] it_1.items()[j]).0)

#fn canister::icrc103_get_allowances(arg) r
#ens C19: r is Ok, listing(S0.approvals@, match arg.from_account { Some(a) => a, None => acct(E0.caller, None) }, arg.prev_spender, match arg.take { Some(n) => if n@ <= 500 { n@ as int } else { 500 }, None => 500 }, E0.time, r->Ok_0@)
