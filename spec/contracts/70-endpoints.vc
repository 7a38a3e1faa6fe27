## ---------------------------------------------------------------- the ledger's public interface
#fn canister::execute_transfer(from, to, spender, amount, fee, memo, created_at_time) r
#req C31: crate::ext::hard(E0) ==> memo_ok(memo)
#req *: E0.calls.len() == 0, !E0.committed
#req C17: !crate::ext::hard(E0)
#req @INV: inv(S0, E0)
#ens @INV: inv(S1, E1), step(S0, S1, E0.time, E1.time)
#ens *: eqE(E0, E1), tf(S0, S1, E0.time, from, to, spender, amount@, optn(fee), memo, created_at_time, gr_tf(r))
#ens C10: r is Ok ==> pruned(S0, S1, E0.time, 100)
#ens @OPT: true

#fn canister::icrc1_transfer(args) r
#req C31: crate::ext::hard(E0) ==> memo_ok(args.memo)
#req *: E0.calls.len() == 0, !E0.committed
#req C17: !crate::ext::hard(E0)
#req @INV: inv(S0, E0)
#ens @INV: inv(S1, E1), step(S0, S1, E0.time, E1.time)
#ens *: eqE(E0, E1), tf(S0, S1, E0.time, acct(E0.caller, args.from_subaccount), args.to, None, args.amount@, optn(args.fee), args.memo, args.created_at_time, gr_t(r))
#ens C10: r is Ok ==> pruned(S0, S1, E0.time, 100)
#ens @OPT: true

#fn canister::icrc2_transfer_from(args) r
#req C31: crate::ext::hard(E0) ==> memo_ok(args.memo)
#req *: E0.calls.len() == 0, !E0.committed
#req C17: !crate::ext::hard(E0)
#req @INV: inv(S0, E0)
#ens @INV: inv(S1, E1), step(S0, S1, E0.time, E1.time)
#ens *: eqE(E0, E1), tf(S0, S1, E0.time, args.from, args.to, Some(acct(E0.caller, args.spender_subaccount)), args.amount@, optn(args.fee), args.memo, args.created_at_time, gr_tf(r))
#ens C10: r is Ok ==> pruned(S0, S1, E0.time, 100)
#ens @OPT: true

#fn canister::icrc2_approve(args) r
#req C31: crate::ext::hard(E0) ==> memo_ok(args.memo) && E0.caller != args.spender.owner
#req *: E0.calls.len() == 0, !E0.committed
#req C17: !crate::ext::hard(E0)
#req @INV: inv(S0, E0)
#ens @INV: inv(S1, E1), step(S0, S1, E0.time, E1.time)
#ens *: eqE(E0, E1), ap(S0, S1, E0.time, acct(E0.caller, args.from_subaccount), args.spender, args.amount@, optn(args.fee), args.memo, args.created_at_time, optn(args.expected_allowance), args.expires_at, gr_a(r))
#ens C10: r is Ok ==> pruned(S0, S1, E0.time, 100)
#ens @OPA: true

#fn canister::deposit(arg) r
#req C31: !crate::ext::hard(E0)
#req *: E0.calls.len() == 0, !E0.committed
#req @INV: inv(S0, E0)
#ens @INV: inv(S1, E1), step(S0, S1, E0.time, E1.time)
#ens *: eqG(S0, S1)
#ens C01: supply(S1) == supply(S0) + E0.avail - FEE()
#req C17: crate::ext::hard(E0) ==> memo_ok(arg.memo) && E0.avail > FEE() && bal(S0, akey(arg.to)) + (E0.avail - FEE()) <= u128::MAX && supply(S0) + (E0.avail - FEE()) <= u128::MAX
#ens C17: E0.avail > FEE(), E1.avail == 0, E1.accepted == E0.accepted + E0.avail,
   moved(S0, S1, akey(arg.to), E0.avail - FEE()), grown(S0, S1),
   (lastb(S1).transaction.operation is Mint) && lastb(S1).transaction == mtx(arg.to, (E0.avail - FEE()) as nat, lastb(S1).transaction.operation->Mint_fee as nat, arg.memo),
   r.block_index@ == S0.blocks@.len() && r.balance@ == bal(S1, akey(arg.to))
#ens C06: E1.accepted == E0.accepted + E0.avail, grown(S0, S1), moved(S0, S1, akey(arg.to), E0.avail - FEE()), E0.avail > FEE()
#ens C24: memo_ok(arg.memo) && lastb(S1).transaction.memo == arg.memo
#ens C10: pruned(S0, S1, E0.time, 100)
#ens C07 C09 C16: unexp_same(S0, S1, E0.time)

#fn canister::execute_withdraw(from, to, spender, amount, created_at_time) r
#req *: E0.calls.len() == 0, !E0.committed
#req C17: !crate::ext::hard(E0)
#req @INV: inv(S0, E0)
#ens @INV: inv(S1, E1)
#ens *: wd(S0, S1, E0, E1, E0.time, from, to, spender, amount@, created_at_time, true, gr_wf(r))
#ens @OPW: true

#fn canister::withdraw(args) r
#req *: E0.calls.len() == 0, !E0.committed
#req C17: !crate::ext::hard(E0)
#req @INV: inv(S0, E0)
#ens @INV: inv(S1, E1)
#ens *: wd(S0, S1, E0, E1, E0.time, acct(E0.caller, args.from_subaccount), args.to, None, args.amount@, args.created_at_time, false, gr_w(r))
#ens @OPW: true

#fn canister::withdraw_from(args) r
#req *: E0.calls.len() == 0, !E0.committed
#req C17: !crate::ext::hard(E0)
#req @INV: inv(S0, E0)
#ens @INV: inv(S1, E1)
#ens *: wd(S0, S1, E0, E1, E0.time, args.from, args.to, Some(acct(E0.caller, args.spender_subaccount)), args.amount@, args.created_at_time, true, gr_wf(r))
#ens @OPW: true

#fn canister::execute_create_canister(from, spender, amount, created_at_time, creation_args) r
#req *: E0.calls.len() == 0, !E0.committed
#req C17: !crate::ext::hard(E0)
#req @INV: inv(S0, E0)
#ens @INV: inv(S1, E1)
#ens *: cc(S0, S1, E0, E1, E0.time, from, spender, amount@, created_at_time, creation_args, true, gr_cf(r))
#ens @OPC: true

#fn canister::create_canister(args) r
#req *: E0.calls.len() == 0, !E0.committed
#req C17: !crate::ext::hard(E0)
#req @INV: inv(S0, E0)
#ens @INV: inv(S1, E1)
#ens *: cc(S0, S1, E0, E1, E0.time, acct(E0.caller, args.from_subaccount), None, args.amount@, args.created_at_time, args.creation_args, false, gr_c(r))
#ens @OPC: true

#fn canister::create_canister_from(args) r
#req *: E0.calls.len() == 0, !E0.committed
#req C17: !crate::ext::hard(E0)
#req @INV: inv(S0, E0)
#ens @INV: inv(S1, E1)
#ens *: cc(S0, S1, E0, E1, E0.time, args.from, Some(acct(E0.caller, args.spender_subaccount)), args.amount@, args.created_at_time, args.creation_args, true, gr_cf(r))
#ens @OPC: true

## ---------------------------------------------------------------- queries
#fn canister::icrc1_balance_of(account) r
#ens C01 C02 C05 C17: r@ == bal(S0, akey(account))

#fn canister::icrc1_total_supply() r
#ens C01: r@ == supply(S0)

#fn canister::icrc1_fee() r
#ens C27: r@ == FEE()

#fn canister::icrc2_allowance(args) r
#ens C07 C08 C09: ({ let u = usable(S0, (akey(args.account), akey(args.spender)), E0.time);
    r.allowance@ == u.0 && r.expires_at == (if u.1 > 0 { Some(u.1) } else { None::<u64> }) })

#fn canister::icrc106_get_index_principal() r
#ens C29: r == (match S0.config@.index_id { Some(p) => core::result::Result::<crate::ext::candid::Principal, crate::ext::icrc_ledger_types::icrc106::errors::Icrc106Error>::Ok(p), None => core::result::Result::<crate::ext::candid::Principal, crate::ext::icrc_ledger_types::icrc106::errors::Icrc106Error>::Err(crate::ext::icrc_ledger_types::icrc106::errors::Icrc106Error::IndexPrincipalNotSet) })

#fn canister::icrc1_metadata() r
#exit C24 C27 C29: assert(see16(__r@)); assert(see(__r@, 0) && see(__r@, 1) && see(__r@, 2) && see(__r@, 3) && see(__r@, 4) && see(__r@, 5) && see(__r@, 6) && see(__r@, 7) && see(__r@, 8) && see(__r@, 9) && see(__r@, 10) && see(__r@, 11));
#ens C24: says_nat(r@, LIT("icrc1:max_memo_length"), 32)
#ens C27: says_nat(r@, LIT("icrc1:fee"), FEE() as nat)
#ens C29: says_nat(r@, LIT("dfn:max_blocks_per_request"), S0.config@.max_blocks_per_request as nat), says_index(r@, LIT("dfn:index_id"), S0.config@.index_id)

## the certificate served with the tip: the tree that is certified, cut down to the two entries of the tip
#fn storage::State::get_tip_certificate(s) r
#ens C04: r is Some <==> E0.has_certificate, r is Some ==> r->Some_0.certificate@ == E0.certificate && r->Some_0.hash_tree@ == tip_witness(S0.cache.hash_tree@)
#fn canister::icrc3_get_tip_certificate() r
#ens C04: r is Some <==> E0.has_certificate, r is Some ==> r->Some_0.certificate@ == E0.certificate && r->Some_0.hash_tree@ == tip_witness(S0.cache.hash_tree@)
