## ---------------------------------------------------------------- error conversions
#fn from:ProcessTransactionError=>TransferFromError(error) r
#ens *: keep(gr_pt(error), gr_tfe(r))
#fn from:ProcessTransactionError=>WithdrawFromError(error) r
#ens *: keep(gr_pt(error), gr_wfe(r))
#fn from:ProcessTransactionError=>ApproveError(error) r
#ens *: keep(gr_pt(error), gr_ae(r))
#fn from:ProcessTransactionError=>WithdrawError(error) r
#ens *: keep(gr_pt(error), gr_we(r))
#fn from:ProcessTransactionError=>CreateCanisterError(error) r
#ens *: keep(gr_pt(error), gr_ce(r))
#ens C11 C14 C22: error is Duplicate ==> gr_ce(r) == gr_pt(error)
#fn from:ProcessTransactionError=>CreateCanisterFromError(error) r
#ens *: keep(gr_pt(error), gr_cfe(r))
#ens C11 C14 C22: error is Duplicate ==> gr_cfe(r) == gr_pt(error)
#fn from:CreatedAtTimeValidationError=>ProcessTransactionError(value) r
#ens *: keep(gr_ca(value), gr_pt(r))
#ens C11 C12 C22 C25 C27 C08 C09 C28: r == (crate::storage::ProcessTransactionError::InvalidCreatedAtTime(value))
#fn from:CreatedAtTimeValidationError=>TransferFromError(value) r
#ens *: keep(gr_ca(value), gr_tfe(r))
#fn from:CreatedAtTimeValidationError=>WithdrawError(value) r
#ens *: keep(gr_ca(value), gr_we(r))
#fn from:CreatedAtTimeValidationError=>CreateCanisterError(value) r
#ens *: keep(gr_ca(value), gr_ce(r))
#fn from:CreatedAtTimeValidationError=>CreateCanisterFromError(value) r
#ens *: keep(gr_ca(value), gr_cfe(r))
#fn from:CreatedAtTimeValidationError=>ApproveError(value) r
#ens *: keep(gr_ca(value), gr_ae(r))
#fn from:Error=>ProcessTransactionError(error) r
#ens *: keep(GR::Generic(100000, crate::ext::Str { id: 0 }), gr_pt(r))
#ens C12 C11 C25 C27 C08 C09 C28: r is GenericError
#fn from:UseAllowanceError=>TransferFromError(value) r
#ens *: keep(gr_ua(value), gr_tfe(r))
#fn from:UseAllowanceError=>WithdrawFromError(value) r
#req C15 C17 C22 C31: !(value is CannotDeduceZero)
#ens *: keep(gr_ua(value), gr_wfe(r))
#ens C31: gr_wfe(r) == gr_ua(value)
#fn from:UseAllowanceError=>CreateCanisterFromError(value) r
#req C15 C17 C22 C31: !(value is CannotDeduceZero)
#ens *: keep(gr_ua(value), gr_cfe(r))
#ens C31: gr_cfe(r) == gr_ua(value)
#fn transfer_from_error_to_transfer_error(e) r
#req C15 C17 C31: crate::ext::hard(E0) ==> !(e is InsufficientAllowance)
#req C22: !(e is InsufficientAllowance)
#ens *: !(e is InsufficientAllowance) ==> keep(gr_tfe(e), gr_te(r))
#ens C22: true
#ens C25 C27 C28 C12 C11: e is InsufficientAllowance ==> !(r is InsufficientFunds) && !(r is BadFee) && !(r is Duplicate) && !(r is TooOld) && !(r is CreatedInFuture)
#fn withdraw_from_error_to_withdraw_error(e) r
#req C15 C17 C31: crate::ext::hard(E0) ==> !(e is InsufficientAllowance)
#req C22: !(e is InsufficientAllowance)
#ens *: !(e is InsufficientAllowance) ==> keep(gr_wfe(e), gr_we(r))
#ens C22: true
#ens C25 C27 C28 C12 C11 C13 C06 C16 C14: e is InsufficientAllowance ==> !(r is InsufficientFunds) && !(r is BadFee) && !(r is Duplicate) && !(r is TooOld) && !(r is CreatedInFuture) && !(r is InvalidReceiver) && !(r is FailedToWithdraw)
#fn create_canister_from_error_to_create_canister_error(e) r
#req C15 C17 C31: crate::ext::hard(E0) ==> !(e is InsufficientAllowance)
#req C22: !(e is InsufficientAllowance)
#ens *: !(e is InsufficientAllowance) ==> keep(gr_cfe(e), gr_ce(r))
#ens C11 C14 C22: e is Duplicate ==> gr_ce(r) == gr_cfe(e)
#ens C25 C27 C28 C12 C11 C13 C06 C16 C14: e is InsufficientAllowance ==> !(r is InsufficientFunds) && !(r is Duplicate) && !(r is TooOld) && !(r is CreatedInFuture) && !(r is FailedToCreate)
#fn from:RejectCode=>RejectionCode(value) r
#ens C22 C13 C14: r == rejcode(value)
## ---------------------------------------------------------------- stored forms
#fn from:Account=>CompactAccount(acc) r
#ens C21 C30: compact_of(acc, r)
#fn try:CompactAccount=>Account(compact) r
#req C21: compact_ok(compact)
#ens C21: compact_of(r, compact)
#fn from:Transaction=>FlattenedTransaction(t) r
#ens C21 C30: flat_of(t, r)
#fn try:FlattenedTransaction=>Transaction(value) r
#req C21: flat_ok(value)
#ens C21: unflat(r, value)

## ---------------------------------------------------------------- stored documents (serde)
#roots C21: compact_account::serialize compact_account::deserialize compact_account::opt::serialize compact_account::opt::deserialize storage::phash::serialize storage::phash::deserialize storage::serde_ser_FlattenedTransaction storage::serde_de_FlattenedTransaction storage::serde_ser_Transaction storage::serde_de_Transaction storage::serde_ser_Block storage::serde_de_Block storage::block_to_bytes storage::block_from_bytes
#fn compact_account::serialize(acc, s) r
#ens C21 C30: r is Ok, r->Ok_0@ == acct_cv(*acc)
#fn compact_account::opt::serialize(acc, s) r
#ens C21 C30: r is Ok, r->Ok_0@ == orn(oacct(*acc))
#fn compact_account::deserialize(d) r
#ens C21: forall|a: crate::ext::icrc_ledger_types::icrc1::account::Account| #[trigger] acct_cv(a) == d@ ==> r is Ok && r->Ok_0 == a,
  r is Ok ==> (match crate::ext::decoded::<Vec<crate::ext::serde_bytes::ByteBuf>>(d@) { Some(v) => compact_ok(crate::compact_account::CompactAccount(v)) && compact_of(r->Ok_0, crate::compact_account::CompactAccount(v)), None => false })
#fn compact_account::opt::deserialize(d) r
#ens C21: d@ is Null ==> r is Ok && r->Ok_0 is None,
  forall|a: crate::ext::icrc_ledger_types::icrc1::account::Account| #[trigger] acct_cv(a) == d@ ==> r is Ok && r->Ok_0 == Some(a),
  r is Ok && r->Ok_0 is Some ==> (match crate::ext::decoded::<Vec<crate::ext::serde_bytes::ByteBuf>>(d@) { Some(v) => compact_ok(crate::compact_account::CompactAccount(v)) && compact_of(r->Ok_0->Some_0, crate::compact_account::CompactAccount(v)), None => false })
#fn storage::phash::serialize(phash, serializer) r
#ens C21: r is Ok, r->Ok_0@ == orn(ohash(*phash))
#fn storage::phash::deserialize(deserializer) r
#ens C21: deserializer@ is Null ==> r is Ok && r->Ok_0 is None,
  deserializer@ is Bytes ==> (r is Ok <==> deserializer@->Bytes_0.len() == 32),
  deserializer@ is Bytes && r is Ok ==> r->Ok_0 is Some && r->Ok_0->Some_0@ == deserializer@->Bytes_0,
  forall|h: [u8; 32]| deserializer@ == crate::ext::CV::Bytes(#[trigger] h@) ==> r is Ok && r->Ok_0 == Some(h)
#fn storage::serde_ser_FlattenedTransaction(x, s) r
#ens C21 C30: r is Ok, crate::ext::is_record(r->Ok_0@), crate::ext::fields_of(r->Ok_0@) =~= flat_fields(*x)
#fn storage::serde_de_FlattenedTransaction(d) r
#ens C21: forall|f: crate::storage::FlattenedTransaction| crate::ext::is_record(d@) && crate::ext::fields_of(d@) == #[trigger] flat_fields(f) ==> r is Ok && r->Ok_0 == f,
  r is Ok && crate::ext::is_record(d@) ==> crate::ext::fields_of(d@).contains_key(LIT("op")) && crate::ext::fields_of(d@).contains_key(LIT("amt"))
#fn storage::serde_ser_Transaction(x, s) r
#ens C21 C30: r is Ok, tx_doc(r->Ok_0@, *x)
#fn storage::serde_de_Transaction(d) r
#ens C21: forall|t: Transaction| #[trigger] tx_doc(d@, t) ==> r is Ok && r->Ok_0 == t
#fn storage::serde_ser_Block(x, s) r
#ens C21: r is Ok, block_doc(r->Ok_0@, *x)
#fn storage::serde_de_Block(d) r
#ens C21: forall|b: Block| #[trigger] block_doc(d@, b) ==> r is Ok && r->Ok_0 == b
#fn storage::block_to_bytes(x) r
#ens C21: stored(r@, *x)
#fn storage::block_from_bytes(bytes) r
#req C21: exists|b: Block| #[trigger] stored(bytes@, b)
#ens C21: forall|b: Block| #[trigger] stored(bytes@, b) ==> r == b
#fn config::serde_ser_Config(x, s) r
#ens C23: r is Ok, config_doc(r->Ok_0@, *x)
#fn config::serde_de_Config(d) r
#ens C23: forall|c: crate::config::Config| #[trigger] config_doc(d@, c) ==> r is Ok && r->Ok_0 == c
#fn config::config_to_bytes(x) r
#ens C23: config_stored(r@, *x)
#fn config::config_from_bytes(bytes) r
#ens C23: forall|c: crate::config::Config| #[trigger] config_stored(bytes@, c) ==> r == c
