## ---------------------------------------------------------------- block log
//#if not C20
#fn storage::Block::hash(b) r
#mode trusted
#ens *: r == bhash(b)
//#else
#fn storage::Block::hash(b) r
#ens C20: r == crate::ext::value_hash(GV::Map(block_gvs(b)))
//#endif
//#if not C30
#fn storage::Transaction::hash(t) r
#mode trusted
#ens *: r == core::result::Result::<[u8; 32], crate::ext::anyhow::Error>::Ok(txh(*t))
//#else
#fn storage::Transaction::hash(t) r
#entry C30: proof { tx_gvs_are(*t); assert forall|c: CV| tx_doc(c, *t) implies #[trigger] from_cv(c, 0) == Some(GV::Map(tx_gvs(*t))) by { from_record(c, 0); } }
#ens C30: r is Ok, r->Ok_0 == crate::ext::value_hash(GV::Map(tx_gvs(*t)))
//#endif

#fn storage::State::last_block_hash(s) r
#ens *: r == S0.cache.phash

#fn storage::State::emit_block(s, b) r
#ens *: 0 < S1.blocks@.len() < u64::MAX
#ens C01 C15 C31 @M: eqM(S0, S1)
#ens @A: eqA(S0, S1)
#ens *: eqE(E0, E1), eqG(S0, S1)
#ens @B: S1.blocks@ == S0.blocks@.push(b)
#ens C03: S1.cache.phash == Some(bhash(b))
#ens C04: tip_keys(S0.cache.hash_tree@) ==> inv(S1, E1)
#ens @D: S1.transaction_hashes@ == (match b.transaction.created_at_time { Some(ts) => S0.transaction_hashes@.insert(txh(b.transaction), (S0.blocks@.len() as u64, None)), None => S0.transaction_hashes@ })
#ens @D: S1.transaction_timestamps@ == (match b.transaction.created_at_time { Some(ts) => S0.transaction_timestamps@.insert((ts, S0.blocks@.len() as u64), ()), None => S0.transaction_timestamps@ })

#fn storage::populate_last_block_hash_and_hash_tree(t, i, h)
#ens C04 C15 C17 C23 C31: final(t)@ == old(t)@.insert(LIT("last_block_index"), crate::ext::leb128_bytes(i)).insert(LIT("last_block_hash"), h@)

#fn storage::effective_fee(op) r
#ens C02 C05 C08 C13 C14 C15 C16 C17 C27 C31: op_has_fee(*op) ==> r == (if op_fee(*op) is Some { None::<u128> } else { Some(100_000_000u128) }),
   op is Mint ==> r == Some(0u128)

#fn storage::validate_created_at_time(created_at_time, now) r
#ens C11 C12 C31: r is Ok <==> in_window(*created_at_time, now),
   r is Err ==> match r->Err_0 {
      crate::storage::CreatedAtTimeValidationError::TooOld => created_at_time is Some && too_old(created_at_time->Some_0, now),
      crate::storage::CreatedAtTimeValidationError::InTheFuture { ledger_time } => created_at_time is Some && in_future(created_at_time->Some_0, now) && ledger_time == now,
   }
#ens C15 C31 C17: *created_at_time is None ==> r is Ok

#fn storage::is_before_transaction_window(timestamp, now) r
#ens *: r == too_old(timestamp, now)

#fn memo::validate_memo(memo) r
#ens C24 C31: r is Ok <==> memo_ok(*memo)
#ens C15 C31 C17: memo_ok(*memo) ==> r is Ok

#fn from:CanisterId=>WithdrawMemo(canister) r
#ens @TX C12 C15 C31: r.receiver@ == canister@
#fn memo::encode_withdraw_memo(target_canister) r
#ens @TX C12 C15 C31: r.0@ == wmemo(*target_canister)

#fn storage::check_duplicate(transaction) r
#ens C08 C11 C12 C15 C31 C17 C25 C27: r is Err <==> dup(S0, *transaction),
   r is Err ==> gr_pt(r->Err_0) == dup_ans(S0, *transaction)

#fn storage::process_transaction(transaction, now) r
#ens C01 C15 C31 @M: eqM(S0, S1)
#ens @A: eqA(S0, S1)
#ens *: eqE(E0, E1), eqG(S0, S1)
#ens @B: r is Ok ==> grown(S0, S1) && r->Ok_0 == S0.blocks@.len(), r is Err ==> eqB(S0, S1)
#ens C06 C14 C31: r is Err ==> eqD(S0, S1)
#ens @TX: r is Ok ==> lastb(S1).transaction == transaction
#ens C02 C13 C14 C16: r is Ok ==> lastb(S1).transaction.operation == transaction.operation && (op_has_fee(transaction.operation) ==> bfee(lastb(S1)) == (match op_fee(transaction.operation) { Some(f) => f as int, None => FEE() }))
#req C03: inv(S0, E0), now == E0.time
#ens C03: inv(S1, E1), step(S0, S1, E0.time, E1.time)
#req C04: inv(S0, E0)
#ens C04: inv(S1, E1)
#ens C11 C12 C31: r is Ok ==> in_window(transaction.created_at_time, now)
#ens C31: in_window(transaction.created_at_time, now) ==> r is Ok
#ens C12 C31: r is Err && r->Err_0 is InvalidCreatedAtTime ==> match gr_ca(r->Err_0->InvalidCreatedAtTime_0) {
      GR::TooOld => transaction.created_at_time is Some && too_old(transaction.created_at_time->Some_0, now),
      GR::Future(t) => t == now && transaction.created_at_time is Some && in_future(transaction.created_at_time->Some_0, now),
      _ => false },
   !in_window(transaction.created_at_time, now) ==> r is Err && r->Err_0 is InvalidCreatedAtTime,
   r is Err ==> r->Err_0 is InvalidCreatedAtTime || r->Err_0 is GenericError
#ens C11: r is Err ==> !(r->Err_0 is Duplicate)
#ens C24 C31: memo_ok(transaction.memo)
#ens C25 C27 C08 C12 C28 C31: r is Err ==> !(r->Err_0 is Duplicate)
#ens C27: r is Ok ==> fee_once(lastb(S1))
#req C11: inv(S0, E0), now == E0.time, !dup(S0, transaction)
#ens C11: inv(S1, E1), r is Err ==> eqD(S0, S1), step(S0, S1, E0.time, E1.time)
#req C15 C17: crate::ext::hard(E0) ==> memo_ok(transaction.memo) && transaction.created_at_time is None
#req C31: crate::ext::hard(E0) ==> memo_ok(transaction.memo)
#ens C15 C17: transaction.created_at_time is None && memo_ok(transaction.memo) ==> r is Ok, r is Err ==> eqD(S0, S1)
#ens C11 C14 C15 C31 C17: r is Ok ==> S1.transaction_hashes@ == (match transaction.created_at_time { Some(ts) => S0.transaction_hashes@.insert(txh(transaction), (S0.blocks@.len() as u64, None)), None => S0.transaction_hashes@ })
