"""Behaviour-preserving edits of /repo: the checks have to stay quiet on each of them.
usage: python3 quiet/edits.py apply <id> <checkout>   |   python3 quiet/edits.py list"""
import sys
M, S, L = "cycles-ledger/src/main.rs", "cycles-ledger/src/storage.rs", "cycles-ledger/src/lib.rs"
E = {}
def e(id, file, old, new, props=""):
    E.setdefault(id, {"edits": [], "props": ""})
    E[id]["edits"].append((file, old, new))
    if props:
        E[id]["props"] = props

# helper extracted
e("fee-helper", M, '''    let suggested_fee = match fee {
        Some(fee) => match fee.0.to_u128() {
            None => {
                return Err(TransferFromError::BadFee {
                    expected_fee: Nat::from(config::FEE),
                })
            }
            Some(fee) => Some(fee),
        },
        None => None,
    };

    let now = ic_cdk::api::time();
    let block_index = storage::transfer(''', '''    let suggested_fee = parse_fee(fee)?;

    let now = ic_cdk::api::time();
    let block_index = storage::transfer(''', "C27 C25 C05 C24 C06")
e("fee-helper", M, '''fn execute_transfer(
''', '''fn parse_fee(fee: Option<Nat>) -> Result<Option<u128>, TransferFromError> {
    fee.map(|fee| {
        fee.0.to_u128().ok_or_else(|| TransferFromError::BadFee {
            expected_fee: Nat::from(config::FEE),
        })
    })
    .transpose()
}

fn execute_transfer(
''')
# the caller's account in one place
e("caller-helper", M, '''fn execute_transfer(
''', '''fn caller_account(subaccount: Option<[u8; 32]>) -> Account {
    Account {
        owner: ic_cdk::api::msg_caller(),
        subaccount,
    }
}

fn execute_transfer(
''', "C05 C26 C06 C16 C24 C07")
e("caller-helper", M, '''async fn withdraw(args: endpoints::WithdrawArgs) -> Result<Nat, WithdrawError> {
    let from = Account {
        owner: ic_cdk::api::msg_caller(),
        subaccount: args.from_subaccount,
    };
''', '''async fn withdraw(args: endpoints::WithdrawArgs) -> Result<Nat, WithdrawError> {
    let from = caller_account(args.from_subaccount);
''')
e("caller-helper", M, '''fn icrc1_transfer(args: TransferArgs) -> Result<Nat, TransferError> {
    let from = Account {
        owner: ic_cdk::api::msg_caller(),
        subaccount: args.from_subaccount,
    };
''', '''fn icrc1_transfer(args: TransferArgs) -> Result<Nat, TransferError> {
    let from = caller_account(args.from_subaccount);
''')
# is_denied_account
e("denied-loop", S, '''    DENIED_PRINCIPALS.iter().any(|denied| denied == principal)
''', '''    for denied in DENIED_PRINCIPALS.iter() {
        if denied == principal {
            return true;
        }
    }
    false
''', "C22 C05 C24 C08")
e("denied-contains", S, '''    DENIED_PRINCIPALS.iter().any(|denied| denied == principal)
''', '''    DENIED_PRINCIPALS.contains(principal)
''', "C22 C05 C24 C08")
# transfer: one helper for the checks
e("transfer-denied-helper", S, '''    // check that no account is owned by a denied principal
    if is_denied_account(&from.owner) {
        return Err(transfer_from::denied_owner(from));
    }
    if is_denied_account(&to.owner) {
        return Err(transfer_from::denied_owner(to));
    }
    if let Some(spender) = spender {
        if is_denied_account(&spender.owner) {
            return Err(transfer_from::denied_owner(spender));
        }
    }
''', '''    // check that no account is owned by a denied principal
    for account in [Some(from), Some(to), spender].into_iter().flatten() {
        if is_denied_account(&account.owner) {
            return Err(transfer_from::denied_owner(account));
        }
    }
''', "C05 C22 C24 C06 C27")
e("transfer-filter", S, '''    // check allowance
    if let Some(spender) = spender {
        if spender != from {
            read_state(|state| check_allowance(state, &from, &spender, amount_with_fee, now))?;
        }
    }

    // Check that the `from` account has enough funds
''', '''    // check allowance
    if let Some(spender) = spender.filter(|s| *s != from) {
        read_state(|state| check_allowance(state, &from, &spender, amount_with_fee, now))?;
    }

    // Check that the `from` account has enough funds
''', "C06 C07 C05 C24 C01")
e("transfer-reorder-checks", S, '''    // sanity check that the `to` account balance won't overflow
    read_state(|state| state.check_credit_to_account(&to, amount))
        .map_err(transfer_from::anyhow_error)?;

    // sanity check that the total_supply won't underflow
    read_state(|state| state.check_total_supply_decrease(config::FEE))
        .with_context(|| {
            format!(
                "Unable to transfer {} cycles from {} to {} (spender: {:?})",
                amount, from, to, spender
            )
        })
        .map_err(transfer_from::anyhow_error)?;
''', '''    // sanity check that the total_supply won't underflow
    read_state(|state| state.check_total_supply_decrease(config::FEE))
        .with_context(|| {
            format!(
                "Unable to transfer {} cycles from {} to {} (spender: {:?})",
                amount, from, to, spender
            )
        })
        .map_err(transfer_from::anyhow_error)?;

    // sanity check that the `to` account balance won't overflow
    read_state(|state| state.check_credit_to_account(&to, amount))
        .map_err(transfer_from::anyhow_error)?;
''', "C05 C01 C24 C25")
e("transfer-one-mutate", S, '''    if let Err(err) = mutate_state(|state| state.debit(&from, amount_with_fee)) {
        let err = err.context(format!("Unable to perform transfer {transaction}"));
        ic_cdk::trap(format!("{err:#}"));
    };

    if let Err(err) = mutate_state(|state| state.credit(&to, amount)) {
        let err = err.context(format!("Unable to perform transfer {transaction}"));
        ic_cdk::trap(format!("{err:#}"));
    };
''', '''    if let Err(err) = mutate_state(|state| {
        state.debit(&from, amount_with_fee)?;
        state.credit(&to, amount)
    }) {
        let err = err.context(format!("Unable to perform transfer {transaction}"));
        ic_cdk::trap(format!("{err:#}"));
    };
''', "C01 C02 C05 C25")
e("mint-map-err", S, '''    if let Err(err) = read_state(|state| state.check_credit(&to, amount)) {
        // This should not happen as the number of total cycles
        // a canister can deposit should never exceed the max.
        // If this happens then the error is logged and returned
        // to the caller.
        let err = err.context(format!("Unable to mint {} cycles to {}", amount, to));
        log!(P0, "{:#}", err);
        return Err(err);
    }
''', '''    read_state(|state| state.check_credit(&to, amount)).map_err(|err| {
        let err = err.context(format!("Unable to mint {} cycles to {}", amount, to));
        log!(P0, "{:#}", err);
        err
    })?;
''', "C17 C01 C24 C29")
e("deposit-if", S, '''    let amount_to_mint = match amount.checked_sub(crate::config::FEE) {
        None => {
            bail!(
                "The requested amount {} to be deposited is \\
                less than the cycles ledger fee: {}",
                amount,
                crate::config::FEE
            )
        }
        Some(0) => {
            bail!(
                "Cannot deposit 0 cycles (amount: {}, cycles ledger fee: {})",
                amount,
                crate::config::FEE
            )
        }
        Some(amount_to_mint) => amount_to_mint,
    };
''', '''    if amount < crate::config::FEE {
        bail!(
            "The requested amount {} to be deposited is less than the cycles ledger fee: {}",
            amount,
            crate::config::FEE
        );
    }
    let amount_to_mint = amount - crate::config::FEE;
    if amount_to_mint == 0 {
        bail!(
            "Cannot deposit 0 cycles (amount: {}, cycles ledger fee: {})",
            amount,
            crate::config::FEE
        );
    }
''', "C17 C13 C02 C25")
e("supply-sum", S, '''        let mut total_supply = 0;
        for (_, balance) in balances.iter() {
            total_supply += balance;
        }
        total_supply
''', '''        balances.iter().map(|(_, balance)| balance).sum()
''', "C23 C01")
e("supply-rename", S, '''        let mut total_supply = 0;
        for (_, balance) in balances.iter() {
            total_supply += balance;
        }
        total_supply
''', '''        let mut acc: u128 = 0;
        let mut entries = balances.iter();
        while let Some((_account, amount)) = entries.next() {
            acc += amount;
        }
        acc
''', "C23 C01")
e("supply-fold", S, '''        let mut total_supply = 0;
        for (_, balance) in balances.iter() {
            total_supply += balance;
        }
        total_supply
''', '''        balances.iter().fold(0, |acc, (_, balance)| acc + balance)
''', "C23")
e("tip-option", S, '''        let certificate = match ic_cdk::api::data_certificate() {
            Some(certificate) => ByteBuf::from(certificate),
            None => return None,
        };
''', '''        let certificate = ByteBuf::from(ic_cdk::api::data_certificate()?);
''', "C04")
e("emit-idx", S, '''            self.transaction_hashes
                .insert(tx_hash, (self.blocks.len() - 1, None));
            self.transaction_timestamps
                .insert((ts, self.blocks.len() - 1), ());
''', '''            self.transaction_timestamps.insert((ts, block_idx), ());
            self.transaction_hashes.insert(tx_hash, (block_idx, None));
''', "C11 C12 C03 C04")
e("emit-order", S, '''        let hash = b.clone().hash();
        self.cache.phash = Some(hash);
        let tx_hash = b.transaction.hash().unwrap();
        let created_at_time = b.transaction.created_at_time;
''', '''        let created_at_time = b.transaction.created_at_time;
        let tx_hash = b.transaction.hash().unwrap();
        let hash = b.clone().hash();
        self.cache.phash = Some(hash);
''', "C03 C04 C11")
e("debit-via-check", S, '''        let account_key = to_account_key(account);
        let old_balance = self.balances.get(&account_key).unwrap_or_default();
        let new_balance = old_balance
            .checked_sub(amount)
            .context("Underflow while changing the account balance")?;
        self.cache.total_supply = self
            .total_supply()
            .checked_sub(amount)
            .context("Underflow while changing the total supply")?;
        if new_balance == 0 {
            self.balances.remove(&account_key);
        } else {
            self.balances.insert(account_key, new_balance);
        }
        Ok(new_balance)
''', '''        let new_balance = self
            .check_debit_from_account(account, amount)
            .map_err(|_| anyhow!("Underflow while changing the account balance"))?;
        let new_supply = self.check_total_supply_decrease(amount)?;
        self.set_balance(account, new_balance);
        self.cache.total_supply = new_supply;
        Ok(new_balance)
''', "C01 C02 C05 C25 C15")
e("debit-via-check", S, '''    /// Decreases the balance of an account of the given amount.
''', '''    fn set_balance(&mut self, account: &Account, balance: u128) {
        let account_key = to_account_key(account);
        match balance {
            0 => {
                self.balances.remove(&account_key);
            }
            _ => {
                self.balances.insert(account_key, balance);
            }
        }
    }

    /// Decreases the balance of an account of the given amount.
''')
e("process-one-mutate", S, '''    let block = Block {
        transaction,
        timestamp: now,
        phash: read_state(|state| state.last_block_hash()),
        effective_fee,
    };

    let _ = mutate_state(|state| state.emit_block(block));
    let block_index = read_state(|state| state.blocks.len() - 1);

    Ok(block_index)
''', '''    Ok(mutate_state(|state| {
        let phash = state.last_block_hash();
        state.emit_block(Block {
            transaction,
            timestamp: now,
            phash,
            effective_fee,
        });
        state.blocks.len() - 1
    }))
''', "C03 C02 C11 C04 C24")
e("duplicate-and-then", S, '''    let tx_hash = match transaction.hash() {
        Ok(tx_hash) => tx_hash,
        Err(err) => {
            let err = err.context(format!("Unable to process transaction {:?}", transaction));
            log!(P0, "{:#}", err);
            return Err(PTErr::from(err));
        }
    };

    // check whether transaction is a duplicate
    if let Some((block_index, maybe_canister)) =
        read_state(|state| state.transaction_hashes.get(&tx_hash))
    {
        return Err(PTErr::Duplicate {
            duplicate_of: block_index,
            canister_id: maybe_canister,
        });
    }

    Ok(())
''', '''    let tx_hash = transaction.hash().map_err(|err| {
        let err = err.context(format!("Unable to process transaction {:?}", transaction));
        log!(P0, "{:#}", err);
        PTErr::from(err)
    })?;

    // check whether transaction is a duplicate
    match read_state(|state| state.transaction_hashes.get(&tx_hash)) {
        Some((duplicate_of, canister_id)) => Err(PTErr::Duplicate {
            duplicate_of,
            canister_id,
        }),
        None => Ok(()),
    }
''', "C11 C12 C22 C24")
e("window-const", S, '''    let Some(created_at_time) = created_at_time else {
        return Ok(());
    };
    if created_at_time
        .saturating_add(config::TRANSACTION_WINDOW.as_nanos() as u64)
        .saturating_add(config::PERMITTED_DRIFT.as_nanos() as u64)
        < now
    {
        return Err(CreatedAtTimeValidationError::TooOld);
    }

    if created_at_time > &now.saturating_add(config::PERMITTED_DRIFT.as_nanos() as u64) {
        return Err(CreatedAtTimeValidationError::InTheFuture { ledger_time: now });
    }
    Ok(())
''', '''    let drift = config::PERMITTED_DRIFT.as_nanos() as u64;
    match *created_at_time {
        None => Ok(()),
        Some(ts) if ts > now.saturating_add(drift) => {
            Err(CreatedAtTimeValidationError::InTheFuture { ledger_time: now })
        }
        Some(ts) if is_before_transaction_window(ts, now) => {
            Err(CreatedAtTimeValidationError::TooOld)
        }
        Some(_) => Ok(()),
    }
''', "C12 C11 C24")
e("record-approval", S, '''    match s.approvals.get(&key) {
        None => {
            if amount == 0 {
                log!(P0, "[record_approval]: amount was set to 0");
                return;
            }
            if expires_at > 0 {
                s.expiration_queue.insert((expires_at, key), ());
            }
            s.approvals.insert(key, (amount, expires_at));
        }
        Some((_, current_expiration)) => {
            if amount == 0 {
                if current_expiration > 0 {
                    s.expiration_queue.remove(&(current_expiration, key));
                }
                s.approvals.remove(&key);
                return;
            }
            s.approvals.insert(key, (amount, expires_at));
            if expires_at != current_expiration {
                if current_expiration > 0 {
                    s.expiration_queue.remove(&(current_expiration, key));
                }
                if expires_at > 0 {
                    s.expiration_queue.insert((expires_at, key), ());
                }
            }
        }
    }
''', '''    if let Some((_, current_expiration)) = s.approvals.remove(&key) {
        if current_expiration > 0 {
            s.expiration_queue.remove(&(current_expiration, key));
        }
    }
    if amount == 0 {
        return;
    }
    s.approvals.insert(key, (amount, expires_at));
    if expires_at > 0 {
        s.expiration_queue.insert((expires_at, key), ());
    }
''', "C08 C10 C09 C07")
e("use-allowance-helper", S, '''    if new_amount == 0 {
        if expiration > 0 {
            s.expiration_queue.remove(&(expiration, key));
        }
        s.approvals.remove(&key);
    } else {
        s.approvals.insert(key, (new_amount, expiration));
    }

    Ok(())
}
''', '''    if new_amount == 0 {
        drop_approval(s, key, expiration);
    } else {
        s.approvals.insert(key, (new_amount, expiration));
    }

    Ok(())
}

fn drop_approval(s: &mut State, key: ApprovalKey, expiration: u64) {
    s.approvals.remove(&key);
    if expiration > 0 {
        s.expiration_queue.remove(&(expiration, key));
    }
}
''', "C06 C07 C10 C09")
e("prune-approvals-while", S, '''    let mut pruned = 0;
    for _ in 0..limit {
        match s.expiration_queue.first_key_value() {
            None => break,
            Some((key, _)) if key.0 > now => break,
            Some((key, _value)) => {
                if s.approvals.remove(&key.1).is_none() {
                    log!(P0, "Unable to find the approval for {:?}", key.1,)
                }
                s.expiration_queue.remove(&key);
                pruned += 1;
            }
        }
    }
''', '''    let mut pruned = 0;
    while pruned < limit {
        let Some((key, _)) = s.expiration_queue.first_key_value() else {
            break;
        };
        if key.0 > now {
            break;
        }
        if s.approvals.remove(&key.1).is_none() {
            log!(P0, "Unable to find the approval for {:?}", key.1,)
        }
        s.expiration_queue.remove(&key);
        pruned += 1;
    }
''', "C10 C09 C08 C01")
e("prune-tx-for", S, '''    let mut pruned = 0;
    while let Some(((timestamp, block_idx), _)) = s.transaction_timestamps.first_key_value() {
        if pruned >= limit || !is_before_transaction_window(timestamp, now) {
            return;
        }
        s.transaction_timestamps.remove(&(timestamp, block_idx));
        pruned += 1;
''', '''    for _ in 0..limit {
        let Some(((timestamp, block_idx), _)) = s.transaction_timestamps.first_key_value() else {
            return;
        };
        if !is_before_transaction_window(timestamp, now) {
            return;
        }
        s.transaction_timestamps.remove(&(timestamp, block_idx));
''', "C11 C10 C14 C15")
e("blocks-rename", S, '''    let mut blocks = Vec::new();
    for GetBlocksArg { start, length } in args {
        let remaining_length = max_length.saturating_sub(blocks.len() as u64);
        if remaining_length == 0 {
            break;
        }
''', '''    let mut found = Vec::new();
    for arg in args {
        let GetBlocksArg { start, length } = arg;
        let remaining_length = max_length.saturating_sub(found.len() as u64);
        if remaining_length == 0 {
            break;
        }
''', "C18")
e("blocks-rename", S, '''                blocks.push(block_with_id);
            }
        });
    }
    GetBlocksResult {
        log_length: Nat::from(log_length),
        blocks,
''', '''                found.push(block_with_id);
            }
        });
    }
    GetBlocksResult {
        log_length: Nat::from(log_length),
        blocks: found,
''')
e("blocks-extend", S, '''        read_state(|state| {
            for id in start..end_excluded {
                let block = state
                    .blocks
                    .get(id)
                    .unwrap_or_else(|| panic!("Bug: unable to find block at index {}!", id))
                    .0
                    .to_value();
                let block_with_id = BlockWithId {
                    id: Nat::from(id),
                    block,
                };
                blocks.push(block_with_id);
            }
        });
''', '''        let mut part: Vec<BlockWithId> = read_state(|state| {
            (start..end_excluded)
                .map(|id| BlockWithId {
                    id: Nat::from(id),
                    block: state
                        .blocks
                        .get(id)
                        .unwrap_or_else(|| panic!("Bug: unable to find block at index {}!", id))
                        .0
                        .to_value(),
                })
                .collect()
        });
        blocks.append(&mut part);
''', "C18")
e("reimburse-unwrap", S, '''        let amount_to_reimburse = amount.saturating_sub(config::FEE);
        if amount_to_reimburse.is_zero() {
            return Err(FailedToWithdrawFrom {
''', '''        let amount_to_reimburse = if amount > config::FEE {
            amount - config::FEE
        } else {
            0
        };
        if amount_to_reimburse == 0 {
            return Err(FailedToWithdrawFrom {
''', "C13 C16 C15")
e("withdraw-refund-helper", S, '''                if let Some(spender) = spender {
                    let approval_still_valid =
                        old_expires_at.map(|expiry| now < expiry).unwrap_or(true);
                    // charge FEE for every block: withdraw attempt, refund, refund approval
                    if spender != from && amount > 2 * config::FEE && approval_still_valid {
                        match reimburse_approval(
''', '''                if let Some(spender) = spender {
                    let approval_still_valid = still_valid(old_expires_at, now);
                    // charge FEE for every block: withdraw attempt, refund, refund approval
                    if approval_still_valid && amount > 2 * config::FEE && spender != from {
                        match reimburse_approval(
''', "C16 C13 C15")
e("withdraw-refund-helper", S, '''// Reimburse an approval with a given amount
''', '''fn still_valid(expires_at: Option<u64>, now: u64) -> bool {
    match expires_at {
        Some(expiry) => now < expiry,
        None => true,
    }
}

// Reimburse an approval with a given amount
''')
e("create-flat", S, '''        Ok(not_rejected) => match not_rejected {
            Ok(success) => Ok(success),
            Err(err) => match err {
                CmcCreateCanisterError::Refunded {
                    refund_amount,
                    create_error,
                } => Err((RejectionCode::CanisterError, refund_amount, create_error)),
                CmcCreateCanisterError::RefundFailed {
                    create_error,
                    refund_error,
                } => Err((
                    RejectionCode::CanisterError,
                    0,
                    format!("create_error: {create_error}, refund error: {refund_error}"),
                )),
            },
        },
        Err(call_error) => {
''', '''        Ok(Ok(success)) => Ok(success),
        Ok(Err(CmcCreateCanisterError::Refunded {
            refund_amount,
            create_error,
        })) => Err((RejectionCode::CanisterError, refund_amount, create_error)),
        Ok(Err(CmcCreateCanisterError::RefundFailed {
            create_error,
            refund_error,
        })) => Err((
            RejectionCode::CanisterError,
            0,
            format!("create_error: {create_error}, refund error: {refund_error}"),
        )),
        Err(call_error) => {
''', "C14 C16 C15 C22")
e("value-helper", S, '''fn account_to_value(account: Account) -> Value {
    let mut components = vec![Value::blob(account.owner.as_slice())];
    if let Some(sub) = account.subaccount {
        components.push(Value::blob(sub))
    }
    Value::Array(components)
}
''', '''fn account_to_value(account: Account) -> Value {
    let owner = Value::blob(account.owner.as_slice());
    Value::Array(match account.subaccount {
        None => vec![owner],
        Some(sub) => vec![owner, Value::blob(sub)],
    })
}

fn put_nat(map: &mut BTreeMap<String, Value>, key: &str, n: impl Into<candid::Nat>) {
    map.insert(key.to_string(), Value::Nat(n.into()));
}
''', "C20 C18 C04")
e("value-helper", S, '''                map.insert("amt".to_string(), Value::Nat(candid::Nat::from(amount)));
                map.insert("fee".to_string(), Value::Nat(candid::Nat::from(fee)));
            }
            Operation::Transfer {''', '''                put_nat(&mut map, "amt", amount);
                put_nat(&mut map, "fee", fee);
            }
            Operation::Transfer {''')
e("cbor-for", L, '''        CiboriumValue::Array(values) => Ok(Value::Array(
            values
                .iter()
                .map(|v| ciborium_to_generic_value(v, depth + 1))
                .collect::<Result<Vec<_>, _>>()?,
        )),
''', '''        CiboriumValue::Array(values) => {
            let mut converted = Vec::with_capacity(values.len());
            for v in values {
                converted.push(ciborium_to_generic_value(v, depth + 1)?);
            }
            Ok(Value::Array(converted))
        }
''', "C30")
e("post-upgrade-flat", M, '''            if let Some(max_blocks_per_request) = upgrade_args.max_blocks_per_request {
                mutate_config(|config| {
                    config.max_blocks_per_request = max_blocks_per_request;
                })
            }
            if let Some(change_index_id) = upgrade_args.change_index_id {
                mutate_config(|config| {
                    config.index_id = change_index_id.into();
                })
            }
''', '''            mutate_config(|config| {
                if let Some(change_index_id) = upgrade_args.change_index_id {
                    config.index_id = change_index_id.into();
                }
                if let Some(max_blocks_per_request) = upgrade_args.max_blocks_per_request {
                    config.max_blocks_per_request = max_blocks_per_request;
                }
            })
''', "C29 C23 C28")
e("init-iter", M, '''            if let Some(initial_balances) = config.initial_balances.as_ref() {
                for (account, amount) in initial_balances {
                    storage::mint(*account, *amount, None, ic_cdk::api::time())
                        .expect("Failed to mint initial balance");
                }
            }
''', '''            let now = ic_cdk::api::time();
            for (account, amount) in config.initial_balances.iter().flatten() {
                storage::mint(*account, *amount, None, now).expect("Failed to mint initial balance");
            }
''', "C29 C01")
e("allowance-query", M, '''    let allowance = storage::allowance(&args.account, &args.spender, ic_cdk::api::time());
    let expires_at = if allowance.1 > 0 {
        Some(allowance.1)
    } else {
        None
    };
    Allowance {
        allowance: Nat::from(allowance.0),
        expires_at,
    }
''', '''    let now = ic_cdk::api::time();
    let (amount, expiry) = storage::allowance(&args.account, &args.spender, now);
    Allowance {
        allowance: amount.into(),
        expires_at: (expiry > 0).then_some(expiry),
    }
''', "C09 C08 C21")
e("take-min", M, '''    let max_results = arg
        .take
        .map(|take| take.0.to_u64().unwrap_or(config::MAX_TAKE_ALLOWANCES))
        .map(|take| std::cmp::min(take, config::MAX_TAKE_ALLOWANCES))
        .unwrap_or(config::MAX_TAKE_ALLOWANCES);
''', '''    let max_results = match arg.take.and_then(|take| take.0.to_u64()) {
        Some(take) => take.min(config::MAX_TAKE_ALLOWANCES),
        None => config::MAX_TAKE_ALLOWANCES,
    };
''', "C19")
e("approve-helper", S, '''    // check that the `from` account has enough funds to pay the fee
    let balance = balance_of(&from);
    if balance < config::FEE {
        return Err(ApproveError::InsufficientFunds {
            balance: Nat::from(balance),
        });
    }

    // check that the expiration is in the future
    if expires_at.unwrap_or(REMOTE_FUTURE) <= now {
        return Err(ApproveError::Expired { ledger_time: now });
    }
''', '''    check_can_pay_fee(&from)?;

    // check that the expiration is in the future
    if let Some(expires_at) = expires_at {
        if expires_at <= now {
            return Err(ApproveError::Expired { ledger_time: now });
        }
    }
''', "C08 C24 C27 C21")
e("approve-helper", S, '''#[derive(Debug)]
enum ProcessTransactionError {
''', '''// check that the account has enough funds to pay the fee
fn check_can_pay_fee(account: &Account) -> Result<(), ApproveError> {
    match balance_of(account) {
        balance if balance < config::FEE => Err(ApproveError::InsufficientFunds {
            balance: Nat::from(balance),
        }),
        _ => Ok(()),
    }
}

#[derive(Debug)]
enum ProcessTransactionError {
''')
e("cleanup-prune", S, '''pub fn prune(now: u64) {
    mutate_state(|state| {
        prune_approvals(now, state, config::APPROVE_PRUNE_LIMIT);
        prune_transactions(now, state, config::TRANSACTION_PRUNE_LIMIT);
    });
    read_state(check_invariants);
}
''', '''pub fn prune(now: u64) {
    mutate_state(|state| prune_transactions(now, state, config::TRANSACTION_PRUNE_LIMIT));
    mutate_state(|state| prune_approvals(now, state, config::APPROVE_PRUNE_LIMIT));
    read_state(|state| check_invariants(state));
}
''', "C10 C11 C09 C15")
e("penalize-outside", S, '''        if let Err(err) = s.debit(from, crate::config::FEE) {
            let err = err.context(format!("Unable to penalize account {:?}", from));
            ic_cdk::trap(format!("{err:#}"))
        }
        let phash = s.last_block_hash();
''', '''        let phash = s.last_block_hash();
        s.debit(from, crate::config::FEE).unwrap_or_else(|err| {
            let err = err.context(format!("Unable to penalize account {:?}", from));
            ic_cdk::trap(format!("{err:#}"))
        });
''', "C02 C03 C01")
e("supply-trunc-cmp", S, '''    if s.expiration_queue.len() > s.approvals.len() {
''', '''    if s.approvals.len() < s.expiration_queue.len() {
''', "C10 C24")
e("key-destructure", S, '''    (account.owner, *account.effective_subaccount())
''', '''    let subaccount = account.subaccount.unwrap_or([0; 32]);
    (account.owner, subaccount)
''', "C26 C05 C19 C10 C07")
# ---- second batch
# one place that writes a balance
e("set-balance", S, '''            .checked_add(amount)
            .context("Overflow while changing the total supply")?;
        self.balances.insert(account_key, new_balance);
        Ok(new_balance)
    }

    /// Decreases the balance of an account of the given amount.
''', '''            .checked_add(amount)
            .context("Overflow while changing the total supply")?;
        self.set_balance(account_key, new_balance);
        Ok(new_balance)
    }

    fn set_balance(&mut self, key: AccountKey, balance: u128) {
        match balance {
            0 => {
                self.balances.remove(&key);
            }
            _ => {
                self.balances.insert(key, balance);
            }
        }
    }

    /// Decreases the balance of an account of the given amount.
''', "C01 C02 C05 C13 C31 C15")
e("set-balance", S, '''        if new_balance == 0 {
            self.balances.remove(&account_key);
        } else {
            self.balances.insert(account_key, new_balance);
        }
        Ok(new_balance)
    }

    pub fn get_tip_certificate''', '''        self.set_balance(account_key, new_balance);
        Ok(new_balance)
    }

    pub fn get_tip_certificate''')
# allowance and funds taken in one helper
HELP = '''// Uses up the allowance (if somebody else is paying with it) and takes the funds.
fn charge(
    from: &Account,
    spender: Option<Account>,
    amount_with_fee: u128,
    now: u64,
    what: &str,
    transaction: &Transaction,
) {
    if let Some(spender) = spender.filter(|spender| spender != from) {
        if let Err(err) =
            mutate_state(|state| use_allowance(state, from, &spender, amount_with_fee, now))
        {
            ic_cdk::trap(format!("Unable to perform {what} {transaction}: {err}"));
        }
    }
    if let Err(err) = mutate_state(|state| state.debit(from, amount_with_fee)) {
        let err = err.context(format!("Unable to perform {what} {transaction}"));
        ic_cdk::trap(format!("{err:#}"));
    };
}

'''
e("charge-helper", S, '''    if let Some(spender) = spender {
        if spender != from {
            if let Err(err) =
                mutate_state(|state| use_allowance(state, &from, &spender, amount_with_fee, now))
            {
                ic_cdk::trap(format!("Unable to perform transfer {transaction}: {err}"));
            }
        }
    }

    if let Err(err) = mutate_state(|state| state.debit(&from, amount_with_fee)) {
        let err = err.context(format!("Unable to perform transfer {transaction}"));
        ic_cdk::trap(format!("{err:#}"));
    };
''', '''    charge(&from, spender, amount_with_fee, now, "transfer", &transaction);
''', "C01 C02 C05 C07 C13 C14 C16 C31 C17 C15 C11")
e("charge-helper", S, '''    if let Some(spender) = spender {
        if spender != from {
            if let Err(err) =
                mutate_state(|state| use_allowance(state, &from, &spender, amount_with_fee, now))
            {
                let err =
                    anyhow!(err).context(format!("Unable to perform withdraw: {:?}", transaction));
                ic_cdk::trap(format!("{err:#}"));
            };
        }
    }

    if let Err(err) = mutate_state(|state| state.debit(&from, amount_with_fee)) {
        let err = err.context(format!("Unable to perform withdraw: {:?}", transaction));
        ic_cdk::trap(format!("{err:#}"))
    };
''', '''    charge(&from, spender, amount_with_fee, now, "withdraw", &transaction);
''')
e("charge-helper", S, '''    if let Some(spender) = spender {
        if spender != from {
            if let Err(err) =
                mutate_state(|state| use_allowance(state, &from, &spender, amount_with_fee, now))
            {
                let err = anyhow!(err).context(format!(
                    "unable to perform create_canister: {:?}",
                    transaction
                ));
                ic_cdk::trap(format!("{err:#}"));
            }
        }
    }

    if let Err(err) = mutate_state(|state| state.debit(&from, amount_with_fee)) {
        let err = err.context(format!("Unable to perform create_canister {transaction}"));
        ic_cdk::trap(format!("{err:#}"));
    };
''', '''    charge(&from, spender, amount_with_fee, now, "create_canister", &transaction);
''')
e("charge-helper", S, '''#[allow(clippy::too_many_arguments)]
pub fn transfer(
''', HELP + '''#[allow(clippy::too_many_arguments)]
pub fn transfer(
''')
# payment checked in one helper returning the previous expiry
e("payment-helper", S, '''    // check allowance
    let mut old_expires_at = None;
    if let Some(spender) = spender {
        if spender != from {
            let (_, expiry) =
                read_state(|state| check_allowance(state, &from, &spender, amount_with_fee, now))?;
            if expiry > 0 {
                old_expires_at = Some(expiry);
            }
        }
    }

    // check that the `from` account has enough funds
    read_state(|state| state.check_debit_from_account(&from, amount_with_fee)).map_err(
        |balance| InsufficientFunds {
            balance: balance.into(),
        },
    )?;

    // sanity check that the total_supply won't underflow
    read_state(|state| state.check_total_supply_decrease(amount_with_fee))
        .with_context(|| {
            format!(
                "Unable to withdraw {} cycles from {} to {}",
''', '''    // check allowance
    let old_expires_at = expiry_of_allowance(&from, spender, amount_with_fee, now)?;

    // check that the `from` account has enough funds
    if let Err(balance) =
        read_state(|state| state.check_debit_from_account(&from, amount_with_fee))
    {
        return Err(InsufficientFunds {
            balance: Nat::from(balance),
        });
    }

    // sanity check that the total_supply won't underflow
    read_state(|state| state.check_total_supply_decrease(amount_with_fee))
        .with_context(|| {
            format!(
                "Unable to withdraw {} cycles from {} to {}",
''', "C02 C07 C13 C14 C16 C31 C15 C25")
e("payment-helper", S, '''    // check allowance
    let mut old_expires_at = None;
    if let Some(spender) = spender {
        if spender != from {
            let (_, expiry) =
                read_state(|state| check_allowance(state, &from, &spender, amount_with_fee, now))?;
            if expiry > 0 {
                old_expires_at = Some(expiry);
            }
        }
    }

    // check that the `from` account has enough funds
    read_state(|state| state.check_debit_from_account(&from, amount_with_fee)).map_err(
        |balance: u128| InsufficientFunds {
''', '''    // check allowance
    let old_expires_at = expiry_of_allowance(&from, spender, amount_with_fee, now)?;

    // check that the `from` account has enough funds
    read_state(|state| state.check_debit_from_account(&from, amount_with_fee)).map_err(
        |balance: u128| InsufficientFunds {
''')
e("payment-helper", S, '''pub async fn withdraw(
''', '''// Checks the allowance of a third party and returns when it expires (if it does).
fn expiry_of_allowance(
    from: &Account,
    spender: Option<Account>,
    amount: u128,
    now: u64,
) -> Result<Option<u64>, UseAllowanceError> {
    match spender {
        Some(spender) if spender != *from => {
            let (_, expiry) =
                read_state(|state| check_allowance(state, from, &spender, amount, now))?;
            Ok((expiry > 0).then_some(expiry))
        }
        _ => Ok(None),
    }
}

pub async fn withdraw(
''')
# the good answer of a withdrawal first
e("withdraw-let-else", S, '''    // 3. if 2. fails then mint cycles
    if let Err(err) = deposit_cycles_result {
        let (rejection_code, rejection_reason) = call_error_to_reject(err);

        // subtract the fee to pay for the reimburse block
        let amount_to_reimburse = amount.saturating_sub(config::FEE);
        if amount_to_reimburse.is_zero() {
            return Err(FailedToWithdrawFrom {
                withdraw_from_block: Some(block_index.into()),
                refund_block: None,
                approval_refund_block: None,
                rejection_code,
                rejection_reason,
            });
        }
        match reimburse(from, amount_to_reimburse, now, PENALIZE_MEMO) {
            Ok(fee_block) => {
                prune(now);
                if let Some(spender) = spender {
                    let approval_still_valid =
                        old_expires_at.map(|expiry| now < expiry).unwrap_or(true);
                    // charge FEE for every block: withdraw attempt, refund, refund approval
                    if spender != from && amount > 2 * config::FEE && approval_still_valid {
                        match reimburse_approval(
                            from,
                            spender,
                            amount_to_reimburse.saturating_sub(config::FEE),
                            old_expires_at,
                            now,
                        ) {
                            Ok(approval_refund_block) => {
                                return Err(FailedToWithdrawFrom {
                                    withdraw_from_block: Some(block_index.into()),
                                    refund_block: Some(Nat::from(fee_block)),
                                    approval_refund_block: Some(approval_refund_block),
                                    rejection_code,
                                    rejection_reason,
                                });
                            }
                            Err(err) => {
                                // this is a critical error that should not
                                // happen because approving should never fail.
                                ic_cdk::trap(format!("Unable to reimburse approval: {:#?}", err));
                            }
                        }
                    }
                }
                return Err(FailedToWithdrawFrom {
                    withdraw_from_block: Some(block_index.into()),
                    refund_block: Some(Nat::from(fee_block)),
                    approval_refund_block: None,
                    rejection_code,
                    rejection_reason,
                });
            }
            Err(err) => {
                // this is a critical error that should not
                // happen because minting should never fail.
                ic_cdk::trap(format!("Unable to reimburse caller: {}", err))
            }
        }
    }

    Ok(Nat::from(block_index))
}
''', '''    // 3. if 2. fails then mint cycles
    let Err(err) = deposit_cycles_result else {
        return Ok(Nat::from(block_index));
    };
    let (rejection_code, rejection_reason) = call_error_to_reject(err);
    let mut refund_block = None;
    let mut approval_refund_block = None;

    // subtract the fee to pay for the reimburse block
    if amount > config::FEE {
        let amount_to_reimburse = amount - config::FEE;
        let fee_block = reimburse(from, amount_to_reimburse, now, PENALIZE_MEMO)
            .unwrap_or_else(|err| ic_cdk::trap(format!("Unable to reimburse caller: {}", err)));
        refund_block = Some(Nat::from(fee_block));
        prune(now);
        // charge FEE for every block: withdraw attempt, refund, refund approval
        match spender {
            Some(spender)
                if spender != from
                    && amount_to_reimburse > config::FEE
                    && old_expires_at.is_none_or(|expiry| expiry > now) =>
            {
                match reimburse_approval(
                    from,
                    spender,
                    amount_to_reimburse - config::FEE,
                    old_expires_at,
                    now,
                ) {
                    Ok(block) => approval_refund_block = Some(block),
                    Err(err) => {
                        ic_cdk::trap(format!("Unable to reimburse approval: {:#?}", err))
                    }
                }
            }
            _ => {}
        }
    }

    Err(FailedToWithdrawFrom {
        withdraw_from_block: Some(Nat::from(block_index)),
        refund_block,
        approval_refund_block,
        rejection_code,
        rejection_reason,
    })
}
''', "C01 C02 C10 C13 C15 C16 C17 C24 C31")
# guards written differently
e("approve-guards", S, '''    let allowance = allowance(&from, &spender, now).0;
    if expected_allowance.is_some() && expected_allowance != Some(allowance) {
        return Err(ApproveError::AllowanceChanged {
            current_allowance: Nat::from(allowance),
        });
    }

    // BadFee takes precedence over InsufficientFunds per ICRC-1 spec
    if suggested_fee.is_some() && suggested_fee != Some(config::FEE) {
        return Err(ApproveError::BadFee {
            expected_fee: Nat::from(config::FEE),
        });
    }

    // check that the `from` account has enough funds to pay the fee
    let balance = balance_of(&from);
    if balance < config::FEE {
        return Err(ApproveError::InsufficientFunds {
            balance: Nat::from(balance),
        });
    }

    // check that the expiration is in the future
    if expires_at.unwrap_or(REMOTE_FUTURE) <= now {
        return Err(ApproveError::Expired { ledger_time: now });
    }
''', '''    let (current, _) = allowance(&from, &spender, now);
    match expected_allowance {
        Some(expected) if expected != current => {
            return Err(ApproveError::AllowanceChanged {
                current_allowance: current.into(),
            });
        }
        _ => (),
    }

    // BadFee takes precedence over InsufficientFunds per ICRC-1 spec
    if suggested_fee.is_some_and(|fee| fee != config::FEE) {
        return Err(ApproveError::BadFee {
            expected_fee: config::FEE.into(),
        });
    }

    // check that the `from` account has enough funds to pay the fee
    if let Err(balance) = read_state(|s| s.check_debit_from_account(&from, config::FEE)) {
        return Err(ApproveError::InsufficientFunds {
            balance: balance.into(),
        });
    }

    // check that the expiration is in the future
    if let Some(expires_at) = expires_at {
        if now >= expires_at {
            return Err(ApproveError::Expired { ledger_time: now });
        }
    }
''', "C02 C05 C06 C08 C09 C12 C25 C26 C27 C31 C15")
e("fee-unwrap", S, '''    // BadFee takes precedence over InsufficientFunds per ICRC-1 spec
    if suggested_fee.is_some() && suggested_fee != Some(config::FEE) {
        return Err(BadFee {
            expected_fee: Nat::from(config::FEE),
        });
    }

    // if `amount` + `fee` overflows then the user doesn't have enough funds
    let Some(amount_with_fee) = amount.checked_add(config::FEE) else {
        return Err(InsufficientFunds {
            balance: balance_of(&from).into(),
        });
    };
''', '''    // BadFee takes precedence over InsufficientFunds per ICRC-1 spec
    let fee = suggested_fee.unwrap_or(config::FEE);
    if fee != config::FEE {
        return Err(BadFee {
            expected_fee: Nat::from(config::FEE),
        });
    }

    // if `amount` + `fee` overflows then the user doesn't have enough funds
    let amount_with_fee = match amount.checked_add(fee) {
        Some(total) => total,
        None => {
            let balance = Nat::from(balance_of(&from));
            return Err(InsufficientFunds { balance });
        }
    };
''', "C01 C02 C05 C25 C27 C31 C07")
# approvals: the queue entry handled apart from the allowance
e("record-unified", S, '''    match s.approvals.get(&key) {
        None => {
            if amount == 0 {
                log!(P0, "[record_approval]: amount was set to 0");
                return;
            }
            if expires_at > 0 {
                s.expiration_queue.insert((expires_at, key), ());
            }
            s.approvals.insert(key, (amount, expires_at));
        }
        Some((_, current_expiration)) => {
            if amount == 0 {
                if current_expiration > 0 {
                    s.expiration_queue.remove(&(current_expiration, key));
                }
                s.approvals.remove(&key);
                return;
            }
            s.approvals.insert(key, (amount, expires_at));
            if expires_at != current_expiration {
                if current_expiration > 0 {
                    s.expiration_queue.remove(&(current_expiration, key));
                }
                if expires_at > 0 {
                    s.expiration_queue.insert((expires_at, key), ());
                }
            }
        }
    }
}
''', '''    let previous = if amount == 0 {
        s.approvals.remove(&key)
    } else {
        s.approvals.insert(key, (amount, expires_at))
    };
    if let Some((_, old_expiration)) = previous {
        if old_expiration > 0 {
            s.expiration_queue.remove(&(old_expiration, key));
        }
    }
    if amount > 0 && expires_at > 0 {
        s.expiration_queue.insert((expires_at, key), ());
    }
}
''', "C05 C06 C07 C08 C09 C10 C16")
# using an allowance sets it anew
e("use-records", S, '''    let key = (to_account_key(account), to_account_key(spender));

    if new_amount == 0 {
        if expiration > 0 {
            s.expiration_queue.remove(&(expiration, key));
        }
        s.approvals.remove(&key);
    } else {
        s.approvals.insert(key, (new_amount, expiration));
    }

    Ok(())
}
''', '''    let expires_at = if expiration == 0 { None } else { Some(expiration) };
    record_approval(s, account, spender, new_amount, expires_at);
    Ok(())
}
''', "C05 C07 C08 C09 C10 C16 C31")
# pruning: what is done per entry, and the other way round
e("prune-tx-body", S, '''    let mut pruned = 0;
    while let Some(((timestamp, block_idx), _)) = s.transaction_timestamps.first_key_value() {
        if pruned >= limit || !is_before_transaction_window(timestamp, now) {
            return;
        }
        s.transaction_timestamps.remove(&(timestamp, block_idx));
        pruned += 1;

        let Some(block) = s.blocks.get(block_idx) else {
            log!(
                P0,
                "Cannot find block with id: {}. The block id was associated \\
                with the timestamp: {} and was selected for pruning from \\
                the timestamp and hashes pools",
                block_idx,
                timestamp
            );
            continue;
        };
        let tx_hash = match block.transaction.hash() {
            Ok(tx_hash) => tx_hash,
            Err(err) => {
                log!(
                    P0,
                    "Cannot calculate hash of transaction for block id: {}. Error: {}",
                    block_idx,
                    err,
                );
                continue;
            }
        };
''', '''    let mut pruned = 0;
    while pruned < limit {
        let Some(((timestamp, block_idx), _)) = s.transaction_timestamps.first_key_value() else {
            return;
        };
        if !is_before_transaction_window(timestamp, now) {
            return;
        }
        pruned += 1;
        s.transaction_timestamps.remove(&(timestamp, block_idx));

        let tx_hash = match s.blocks.get(block_idx).map(|block| block.transaction.hash()) {
            Some(Ok(tx_hash)) => tx_hash,
            Some(Err(err)) => {
                log!(
                    P0,
                    "Cannot calculate hash of transaction for block id: {}. Error: {}",
                    block_idx,
                    err,
                );
                continue;
            }
            None => {
                log!(P0, "Cannot find block with id: {}", block_idx);
                continue;
            }
        };
''', "C10 C11 C14 C06 C17 C15")
e("prune-app-loop", S, '''    let mut pruned = 0;
    for _ in 0..limit {
        match s.expiration_queue.first_key_value() {
            None => break,
            Some((key, _)) if key.0 > now => break,
            Some((key, _value)) => {
                if s.approvals.remove(&key.1).is_none() {
                    log!(P0, "Unable to find the approval for {:?}", key.1,)
                }
                s.expiration_queue.remove(&key);
                pruned += 1;
            }
        }
    }
    if pruned > 0 {
        log!(P1, "Pruned {} approvals", pruned);
    }
}
''', '''    let mut pruned = 0;
    loop {
        if pruned == limit {
            break;
        }
        let Some(((expires_at, approval), ())) = s.expiration_queue.first_key_value() else {
            break;
        };
        if now < expires_at {
            break;
        }
        s.expiration_queue.remove(&(expires_at, approval));
        if s.approvals.remove(&approval).is_none() {
            log!(P0, "Unable to find the approval for {:?}", approval)
        }
        pruned += 1;
    }
    if pruned > 0 {
        log!(P1, "Pruned {} approvals", pruned);
    }
}
''', "C09 C10 C07 C06 C08")
# queries
e("blocks-nested", S, '''        let remaining_length = max_length.saturating_sub(blocks.len() as u64);
        if remaining_length == 0 {
            break;
        }
        let start = match start.0.to_u64() {
            Some(start) if start < log_length => start,
            _ => continue,
        };
        // a length that does not fit into 64 bits covers the rest of the log
        let length = length.0.to_u64().unwrap_or(u64::MAX);
        let end_excluded = log_length.min(start.saturating_add(remaining_length.min(length)));
        read_state(|state| {
            for id in start..end_excluded {
                let block = state
                    .blocks
                    .get(id)
                    .unwrap_or_else(|| panic!("Bug: unable to find block at index {}!", id))
                    .0
                    .to_value();
                let block_with_id = BlockWithId {
                    id: Nat::from(id),
                    block,
                };
                blocks.push(block_with_id);
            }
        });
    }
''', '''        if blocks.len() as u64 >= max_length {
            break;
        }
        let remaining_length = max_length - blocks.len() as u64;
        if let Some(start) = start.0.to_u64() {
            if start >= log_length {
                continue;
            }
            // a length that does not fit into 64 bits covers the rest of the log
            let length = length.0.to_u64().unwrap_or(u64::MAX);
            let count = std::cmp::min(length, remaining_length).min(log_length - start);
            for id in start..start + count {
                blocks.push(block_with_id(id));
            }
        }
    }
''', "C18")
e("blocks-nested", S, '''pub fn get_blocks(args: GetBlocksArgs) -> GetBlocksResult {
''', '''fn block_with_id(id: u64) -> BlockWithId {
    let Some(block) = read_state(|state| state.blocks.get(id)) else {
        panic!("Bug: unable to find block at index {}!", id);
    };
    BlockWithId {
        id: Nat::from(id),
        block: block.0.to_value(),
    }
}

pub fn get_blocks(args: GetBlocksArgs) -> GetBlocksResult {
''')
e("allowances-nested", S, '''            if spender.is_some() && account_spender == start_account_spender {
                continue;
            }
            if result.len() >= max_results as usize {
                break;
            }
            let (from_account, to_spender) = to_account_pair(&account_spender);
            if from_account.owner != from.owner {
                break;
            }
            if expiration > 0 && expiration <= now {
                continue;
            }
            let expires_at = match expiration {
                0 => None,
                _ => Some(expiration),
            };
            result.push(Allowance {
                from_account,
                to_spender,
                allowance: Nat::from(allowance_amount),
                expires_at,
            });
''', '''            let (from_account, to_spender) = to_account_pair(&account_spender);
            if from_account.owner != from.owner || result.len() as u64 >= max_results {
                break;
            }
            let is_cursor = spender.is_some() && account_spender == start_account_spender;
            let is_live = expiration == 0 || expiration > now;
            if !is_cursor && is_live {
                let allowance = Nat::from(allowance_amount);
                let expires_at = (expiration > 0).then_some(expiration);
                result.push(Allowance {
                    from_account,
                    to_spender,
                    allowance,
                    expires_at,
                });
            }
''', "C19")
# block values
e("nat-helper", S, '''            Operation::Mint { to, amount, fee } => {
                map.insert("op".to_string(), Value::text("mint"));
                map.insert("to".to_string(), account_to_value(to));
                map.insert("amt".to_string(), Value::Nat(candid::Nat::from(amount)));
                map.insert("fee".to_string(), Value::Nat(candid::Nat::from(fee)));
            }
''', '''            Operation::Mint { to, amount, fee } => {
                map.insert("to".to_string(), account_to_value(to));
                map.insert("fee".to_string(), nat(fee));
                map.insert("amt".to_string(), nat(amount));
                map.insert("op".to_string(), Value::text("mint"));
            }
''', "C20 C21")
e("nat-helper", S, '''fn account_to_value(account: Account) -> Value {
    let mut components = vec![Value::blob(account.owner.as_slice())];
    if let Some(sub) = account.subaccount {
        components.push(Value::blob(sub))
    }
    Value::Array(components)
}
''', '''fn nat(n: impl Into<candid::Nat>) -> Value {
    Value::Nat(n.into())
}

fn insert_opt(map: &mut BTreeMap<String, Value>, key: &str, value: Option<Value>) {
    if let Some(value) = value {
        map.insert(key.to_string(), value);
    }
}

fn account_to_value(account: Account) -> Value {
    let owner = Value::blob(account.owner.as_slice());
    Value::Array(match account.subaccount {
        Some(sub) => vec![owner, Value::blob(sub)],
        None => vec![owner],
    })
}
''')
e("nat-helper", S, '''                map.insert("from".to_string(), account_to_value(from));
                map.insert("to".to_string(), account_to_value(to));
                if let Some(spender) = spender {
                    map.insert("spender".to_string(), account_to_value(spender));
                }
                map.insert("amt".to_string(), Value::Nat(candid::Nat::from(amount)));
                if let Some(fee) = fee {
                    map.insert("fee".to_string(), Value::Nat(candid::Nat::from(fee)));
                }
''', '''                map.insert("from".to_string(), account_to_value(from));
                map.insert("to".to_string(), account_to_value(to));
                insert_opt(&mut map, "spender", spender.map(account_to_value));
                map.insert("amt".to_string(), nat(amount));
                insert_opt(&mut map, "fee", fee.map(nat));
''')
e("flatten-match", S, '''            from: match &t.operation {
                Transfer { from, .. } | Burn { from, .. } | Approve { from, .. } => Some(*from),
                _ => None,
            },
            to: match &t.operation {
                Mint { to, .. } | Transfer { to, .. } => Some(*to),
                _ => None,
            },
            spender: match &t.operation {
                Transfer { spender, .. } => spender.to_owned(),
                Approve { spender, .. } => Some(*spender),
                Burn { spender, .. } => spender.to_owned(),
                _ => None,
            },
''', '''            from: match t.operation {
                Transfer { from, .. } | Burn { from, .. } | Approve { from, .. } => Some(from),
                Mint { .. } => None,
            },
            to: match t.operation {
                Mint { to, .. } | Transfer { to, .. } => Some(to),
                Burn { .. } | Approve { .. } => None,
            },
            spender: match t.operation {
                Transfer { spender, .. } | Burn { spender, .. } => spender,
                Approve { spender, .. } => Some(spender),
                Mint { .. } => None,
            },
''', "C20 C21 C30")
e("value-blockfields", S, '''        let mut map = BTreeMap::new();
        map.insert("tx".to_string(), self.transaction.to_value());
        map.insert(
            "ts".to_string(),
            Value::Nat(candid::Nat::from(self.timestamp)),
        );
        if let Some(phash) = self.phash {
            map.insert("phash".to_string(), Value::blob(phash));
        }
        if let Some(effective_fee) = self.effective_fee {
            map.insert(
                "fee".to_string(),
                Value::Nat(candid::Nat::from(effective_fee)),
            );
        }
        Value::Map(map)
''', '''        let Block {
            transaction,
            timestamp,
            phash,
            effective_fee,
        } = self;
        let mut map = BTreeMap::new();
        if let Some(fee) = effective_fee {
            map.insert("fee".to_owned(), Value::Nat(fee.into()));
        }
        if let Some(parent) = phash {
            map.insert("phash".to_owned(), Value::blob(parent));
        }
        map.insert("ts".to_owned(), Value::Nat(timestamp.into()));
        map.insert("tx".to_owned(), transaction.to_value());
        Value::Map(map)
''', "C20 C21")
# memo
e("memo-guard", "cycles-ledger/src/memo.rs", '''    if let Some(memo) = memo {
        if memo.0.len() as u64 > MAX_MEMO_LENGTH {
            return Err(format!(
                "memo length exceeds the maximum of {} bytes",
                MAX_MEMO_LENGTH
            ));
        }
    }
    Ok(())
''', '''    match memo {
        Some(Memo(bytes)) if bytes.len() > MAX_MEMO_LENGTH as usize => Err(format!(
            "memo length exceeds the maximum of {} bytes",
            MAX_MEMO_LENGTH
        )),
        _ => Ok(()),
    }
''', "C24 C31 C17")
# accounts
e("compact-slices", "cycles-ledger/src/compact_account.rs", '''        let elems = compact.0;
        if elems.is_empty() {
            return Err("account tuple must have at least one element".to_string());
        }
        if elems.len() > 2 {
            return Err(format!(
                "account tuple must have at most two elements, got {}",
                elems.len()
            ));
        }

        let principal =
            Principal::try_from(&elems[0][..]).map_err(|e| format!("invalid principal: {}", e))?;
        let subaccount = if elems.len() > 1 {
            Some(Subaccount::try_from(&elems[1][..]).map_err(|_| {
                format!(
                    "invalid subaccount: expected 32 bytes, got {}",
                    elems[1].len()
                )
            })?)
        } else {
            None
        };

        Ok(Account {
            owner: principal,
            subaccount,
        })
''', '''        let (owner, sub) = match compact.0.as_slice() {
            [] => return Err("account tuple must have at least one element".to_string()),
            [owner] => (owner, None),
            [owner, sub] => (owner, Some(sub)),
            more => {
                return Err(format!(
                    "account tuple must have at most two elements, got {}",
                    more.len()
                ))
            }
        };
        let owner =
            Principal::try_from(&owner[..]).map_err(|e| format!("invalid principal: {}", e))?;
        let subaccount = match sub {
            Some(sub) => match Subaccount::try_from(&sub[..]) {
                Ok(sub) => Some(sub),
                Err(_) => {
                    return Err(format!(
                        "invalid subaccount: expected 32 bytes, got {}",
                        sub.len()
                    ))
                }
            },
            None => None,
        };
        Ok(Account { owner, subaccount })
''', "C21 C23 C30")
e("cbor-helpers", L, '''        CiboriumValue::Array(values) => Ok(Value::Array(
            values
                .iter()
                .map(|v| ciborium_to_generic_value(v, depth + 1))
                .collect::<Result<Vec<_>, _>>()?,
        )),
        CiboriumValue::Map(map) => Ok(Value::Map(
            map.iter()
                .map(|(k, v)| {
                    let key = k
                        .to_owned()
                        .into_text()
                        .map_err(|k| ValueDecodingError::UnsupportedKeyType(format!("{:?}", k)))?;
                    Ok((key, ciborium_to_generic_value(v, depth + 1)?))
                })
                .collect::<Result<BTreeMap<_, _>, _>>()?,
        )),
''', '''        CiboriumValue::Array(values) => array_to_generic(values, depth + 1),
        CiboriumValue::Map(map) => {
            let mut result = BTreeMap::new();
            for (k, v) in map {
                let key = match k {
                    CiboriumValue::Text(key) => key.clone(),
                    other => {
                        return Err(ValueDecodingError::UnsupportedKeyType(format!(
                            "{:?}",
                            other
                        )))
                    }
                };
                let value = ciborium_to_generic_value(v, depth + 1)?;
                result.insert(key, value);
            }
            Ok(Value::Map(result))
        }
''', "C30 C21 C23")
e("cbor-helpers", L, '''pub fn ciborium_to_generic_value(
''', '''fn array_to_generic(values: &[CiboriumValue], depth: usize) -> Result<Value, ValueDecodingError> {
    let mut result = Vec::with_capacity(values.len());
    for value in values {
        result.push(ciborium_to_generic_value(value, depth)?);
    }
    Ok(Value::Array(result))
}

pub fn ciborium_to_generic_value(
''')
# amounts read in one place
e("u128-helper", M, '''    let Some(amount) = amount.0.to_u128() else {
        return Err(TransferFromError::InsufficientFunds {
            balance: Nat::from(storage::balance_of(&from)),
        });
    };
''', '''    let amount = as_u128(&amount).ok_or_else(|| TransferFromError::InsufficientFunds {
        balance: storage::balance_of(&from).into(),
    })?;
''', "C05 C13 C14 C25 C27 C31 C12")
e("u128-helper", M, '''    let Some(amount) = amount.0.to_u128() else {
        return Err(WithdrawFromError::InsufficientFunds {
            balance: Nat::from(balance_of(&from)),
        });
    };

    let now = ic_cdk::api::time();
    storage::withdraw(from, to, spender, amount, now, created_at_time).await
''', '''    match as_u128(&amount) {
        Some(amount) => {
            let now = ic_cdk::api::time();
            storage::withdraw(from, to, spender, amount, now, created_at_time).await
        }
        None => Err(WithdrawFromError::InsufficientFunds {
            balance: Nat::from(balance_of(&from)),
        }),
    }
''')
e("u128-helper", M, '''    let Some(amount) = amount.0.to_u128() else {
        return Err(endpoints::CreateCanisterFromError::InsufficientFunds {
            balance: Nat::from(balance_of(&from)),
        });
    };
''', '''    let amount = match as_u128(&amount) {
        Some(amount) => amount,
        None => {
            return Err(endpoints::CreateCanisterFromError::InsufficientFunds {
                balance: Nat::from(balance_of(&from)),
            })
        }
    };
''')
e("u128-helper", M, '''fn execute_transfer(
''', '''fn as_u128(n: &Nat) -> Option<u128> {
    n.0.to_u128()
}

fn execute_transfer(
''')
e("u128-helper", M, '''    let expected_allowance = match args.expected_allowance {
        Some(n) => match n.0.to_u128() {
            None => {
                return Err(ApproveError::AllowanceChanged {
                    current_allowance: Nat::from(storage::allowance(&from, &args.spender, now).0),
                })
            }
            Some(n) => Some(n),
        },
        None => None,
    };
    let suggested_fee = match args.fee {
        Some(fee) => match fee.0.to_u128() {
            None => {
                return Err(ApproveError::BadFee {
                    expected_fee: Nat::from(config::FEE),
                })
            }
            Some(fee) => Some(fee),
        },
        None => None,
    };
''', '''    let expected_allowance = args.expected_allowance.as_ref().and_then(as_u128);
    if args.expected_allowance.is_some() && expected_allowance.is_none() {
        let current = storage::allowance(&from, &args.spender, now);
        return Err(ApproveError::AllowanceChanged {
            current_allowance: Nat::from(current.0),
        });
    }
    let mut suggested_fee = None;
    if let Some(fee) = &args.fee {
        suggested_fee = as_u128(fee);
        if suggested_fee.is_none() {
            return Err(ApproveError::BadFee {
                expected_fee: Nat::from(config::FEE),
            });
        }
    }
''')
# minting in one place
e("mint-shared", S, '''    let transaction = Transaction {
        operation: Operation::Mint {
            to: acc,
            amount,
            fee: 0,
        },
        created_at_time: None,
        memo: Some(Memo::from(ByteBuf::from(memo))),
    };

    let block_index = process_transaction(transaction.clone(), now)?;

    if let Err(err) = mutate_state(|state| state.credit(&acc, amount)) {
        let err = err.context(format!("Unable to reimburse withdraw: {transaction:?}"));
        ic_cdk::trap(format!("{err:#}"))
    };

    prune(now);

    Ok(block_index)
''', '''    let memo = Memo::from(ByteBuf::from(memo));
    let block_index = record_mint(acc, amount, 0, Some(memo), now)?;
    prune(now);
    Ok(block_index)
''', "C01 C02 C13 C14 C15 C29 C24 C31 C10")
e("mint-shared", S, '''    // we are not checking for duplicates, since mint is executed with created_at_time: None
    let block_index = process_transaction(
        Transaction {
            operation: Operation::Mint {
                to,
                amount,
                fee: crate::config::FEE,
            },
            created_at_time: None,
            memo,
        },
        now,
    )?;

    if let Err(err) = mutate_state(|state| state.credit(&to, amount)) {
        // This should not happen because of the checks before
        // and within `process_transaction`.
        // If this happens then log an error and panic so that
        // the state is reset to a valid one.
        let err = err.context(format!("Unable to credit {to} to {amount}"));
        ic_cdk::trap(format!("{err:#}"));
    }

    Ok(block_index)
}
''', '''    // we are not checking for duplicates, since mint is executed with created_at_time: None
    Ok(record_mint(to, amount, config::FEE, memo, now)?)
}

fn record_mint(
    to: Account,
    amount: u128,
    fee: u128,
    memo: Option<Memo>,
    now: u64,
) -> Result<u64, ProcessTransactionError> {
    let operation = Operation::Mint { to, amount, fee };
    let block_index = process_transaction(
        Transaction {
            operation,
            created_at_time: None,
            memo,
        },
        now,
    )?;

    if let Err(err) = mutate_state(|state| state.credit(&to, amount)) {
        // This should not happen because of the checks before
        // and within `process_transaction`.
        // If this happens then log an error and panic so that
        // the state is reset to a valid one.
        let err = err.context(format!("Unable to credit {to} to {amount}"));
        ic_cdk::trap(format!("{err:#}"));
    }
    Ok(block_index)
}
''')
# emit_block in parts
e("emit-split", S, '''        let block_idx = self.blocks.len() - 1;
        populate_last_block_hash_and_hash_tree(&mut self.cache.hash_tree, block_idx, hash);
        certified_data_set(self.root_hash());

        if let Some(ts) = created_at_time {
            // Add block index to the list of transactions and set the hash as its key
            self.transaction_hashes
                .insert(tx_hash, (self.blocks.len() - 1, None));
            self.transaction_timestamps
                .insert((ts, self.blocks.len() - 1), ());
        }

        hash
    }
''', '''        let block_idx = self.blocks.len() - 1;
        if let Some(ts) = created_at_time {
            self.remember(ts, tx_hash, block_idx);
        }
        self.certify(block_idx, hash);
        hash
    }

    // Add block index to the list of transactions and set the hash as its key
    fn remember(&mut self, ts: u64, tx_hash: Hash, block_idx: u64) {
        self.transaction_timestamps.insert((ts, block_idx), ());
        self.transaction_hashes.insert(tx_hash, (block_idx, None));
    }

    fn certify(&mut self, block_idx: u64, hash: Hash) {
        let tree = &mut self.cache.hash_tree;
        populate_last_block_hash_and_hash_tree(tree, block_idx, hash);
        certified_data_set(self.root_hash());
    }
''', "C03 C04 C11 C12 C02 C14")
e("window-helper", S, '''    if created_at_time
        .saturating_add(config::TRANSACTION_WINDOW.as_nanos() as u64)
        .saturating_add(config::PERMITTED_DRIFT.as_nanos() as u64)
        < now
    {
        return Err(CreatedAtTimeValidationError::TooOld);
    }

    if created_at_time > &now.saturating_add(config::PERMITTED_DRIFT.as_nanos() as u64) {
        return Err(CreatedAtTimeValidationError::InTheFuture { ledger_time: now });
    }
    Ok(())
''', '''    if is_before_transaction_window(*created_at_time, now) {
        Err(CreatedAtTimeValidationError::TooOld)
    } else if *created_at_time > now.saturating_add(config::PERMITTED_DRIFT.as_nanos() as u64) {
        Err(CreatedAtTimeValidationError::InTheFuture { ledger_time: now })
    } else {
        Ok(())
    }
''', "C11 C12 C31 C15 C17")
e("selfauth-len", S, '''    principal
        .as_slice()
        .get(CANDID_PRINCIPAL_MAX_LENGTH_IN_BYTES - 1)
        .is_some_and(|b| *b == CANDID_PRINCIPAL_SELF_AUTHENTICATING_TAG)
''', '''    let bytes = principal.as_slice();
    bytes.len() == CANDID_PRINCIPAL_MAX_LENGTH_IN_BYTES
        && bytes[CANDID_PRINCIPAL_MAX_LENGTH_IN_BYTES - 1]
            == CANDID_PRINCIPAL_SELF_AUTHENTICATING_TAG
''', "C28 C31 C12")
e("selfauth-last", S, '''    principal
        .as_slice()
        .get(CANDID_PRINCIPAL_MAX_LENGTH_IN_BYTES - 1)
        .is_some_and(|b| *b == CANDID_PRINCIPAL_SELF_AUTHENTICATING_TAG)
''', '''    let bytes = principal.as_slice();
    bytes.len() >= CANDID_PRINCIPAL_MAX_LENGTH_IN_BYTES
        && bytes.last() == Some(&CANDID_PRINCIPAL_SELF_AUTHENTICATING_TAG)
''', "C28 C31 C12")
e("upgrade-one", M, '''            if let Some(max_blocks_per_request) = upgrade_args.max_blocks_per_request {
                mutate_config(|config| {
                    config.max_blocks_per_request = max_blocks_per_request;
                })
            }
            if let Some(change_index_id) = upgrade_args.change_index_id {
                mutate_config(|config| {
                    config.index_id = change_index_id.into();
                })
            }
''', '''            let endpoints::UpgradeArgs {
                max_blocks_per_request,
                change_index_id,
            } = upgrade_args;
            mutate_config(|config| {
                if let Some(max_blocks) = max_blocks_per_request {
                    config.max_blocks_per_request = max_blocks;
                }
                if let Some(change) = change_index_id {
                    config.index_id = Option::<Principal>::from(change);
                }
            });
''', "C23 C29")
e("metadata-push", M, '''    let mut metadata = vec![
        MV::entry("icrc1:decimals", config::DECIMALS as u64),
        MV::entry("icrc1:name", config::TOKEN_NAME),
        MV::entry("icrc1:symbol", config::TOKEN_SYMBOL),
        MV::entry("icrc1:fee", config::FEE),
        MV::entry("icrc1:max_memo_length", config::MAX_MEMO_LENGTH),
        MV::entry(
            "dfn:max_blocks_per_request",
            read_config(|config| config.max_blocks_per_request),
        ),
        MV::entry("icrc1:logo", config::TOKEN_LOGO),
    ];
    if let Some(index_id) = read_config(|config| config.index_id) {
        metadata.push(MV::entry("icrc106:index_principal", index_id.to_text()));
        metadata.push(MV::entry("dfn:index_id", index_id.as_slice()))
    }
    metadata
''', '''    let (max_blocks, index_id) =
        read_config(|config| (config.max_blocks_per_request, config.index_id));
    let mut metadata = Vec::new();
    metadata.push(MV::entry("dfn:max_blocks_per_request", max_blocks));
    metadata.push(MV::entry("icrc1:decimals", config::DECIMALS as u64));
    metadata.push(MV::entry("icrc1:fee", icrc1_fee()));
    metadata.push(MV::entry("icrc1:logo", config::TOKEN_LOGO));
    metadata.push(MV::entry("icrc1:max_memo_length", config::MAX_MEMO_LENGTH));
    metadata.push(MV::entry("icrc1:name", icrc1_name()));
    metadata.push(MV::entry("icrc1:symbol", config::TOKEN_SYMBOL.to_string()));
    match index_id {
        None => {}
        Some(id) => {
            metadata.push(MV::entry("dfn:index_id", id.as_slice()));
            metadata.push(MV::entry("icrc106:index_principal", id.to_text()));
        }
    }
    metadata
''', "C24 C27 C29")
e("key-default", S, '''    (account.owner, *account.effective_subaccount())
''', '''    let sub = account.subaccount.as_ref().unwrap_or(DEFAULT_SUBACCOUNT);
    (account.owner, *sub)
''', "C05 C19 C10")
e("key-default", S, '''pub fn to_account_key(''', '''use icrc_ledger_types::icrc1::account::DEFAULT_SUBACCOUNT;

pub fn to_account_key(''')
# third batch
C, K, ME = "cycles-ledger/src/config.rs", "cycles-ledger/src/compact_account.rs", "cycles-ledger/src/memo.rs"
# all checks of a transfer in one look at the state
e("transfer-checks-block", S, '''    // check allowance
    if let Some(spender) = spender {
        if spender != from {
            read_state(|state| check_allowance(state, &from, &spender, amount_with_fee, now))?;
        }
    }

    // Check that the `from` account has enough funds
    read_state(|state| state.check_debit_from_account(&from, amount_with_fee)).map_err(
        |balance| TransferFromError::InsufficientFunds {
            balance: balance.into(),
        },
    )?;

    // sanity check that the `to` account balance won't overflow
    read_state(|state| state.check_credit_to_account(&to, amount))
        .map_err(transfer_from::anyhow_error)?;

    // sanity check that the total_supply won't underflow
    read_state(|state| state.check_total_supply_decrease(config::FEE))
        .with_context(|| {
            format!(
                "Unable to transfer {} cycles from {} to {} (spender: {:?})",
                amount, from, to, spender
            )
        })
        .map_err(transfer_from::anyhow_error)?;
''', '''    read_state(|state| -> Result<(), TransferFromError> {
        // check allowance
        match spender {
            Some(spender) if spender != from => {
                check_allowance(state, &from, &spender, amount_with_fee, now)?;
            }
            _ => {}
        }
        // Check that the `from` account has enough funds
        if let Err(balance) = state.check_debit_from_account(&from, amount_with_fee) {
            return Err(InsufficientFunds {
                balance: Nat::from(balance),
            });
        }
        // sanity check that the `to` account balance won't overflow
        if let Err(err) = state.check_credit_to_account(&to, amount) {
            return Err(transfer_from::anyhow_error(err));
        }
        // sanity check that the total_supply won't underflow
        if let Err(err) = state.check_total_supply_decrease(config::FEE) {
            let err = err.context(format!("Unable to transfer {amount} cycles from {from}"));
            return Err(transfer_from::anyhow_error(err));
        }
        Ok(())
    })?;
''', "C01 C02 C05 C06 C24 C25 C31 C22")
# a fee check by value
e("fee-is-some-and", S, '''    if suggested_fee.is_some() && suggested_fee != Some(config::FEE) {
        return Err(BadFee {
            expected_fee: Nat::from(config::FEE),
        });
    }
''', '''    if suggested_fee.is_some_and(|fee| fee != config::FEE) {
        return Err(BadFee {
            expected_fee: config::FEE.into(),
        });
    }
''', "C27 C25 C05 C31")
e("fee-is-some-and", S, '''    if suggested_fee.is_some() && suggested_fee != Some(config::FEE) {
        return Err(ApproveError::BadFee {
            expected_fee: Nat::from(config::FEE),
        });
    }
''', '''    match suggested_fee {
        None | Some(config::FEE) => {}
        Some(_) => {
            return Err(ApproveError::BadFee {
                expected_fee: Nat::from(config::FEE),
            })
        }
    }
''')
e("approve-match-expiry", S, '''    let allowance = allowance(&from, &spender, now).0;
    if expected_allowance.is_some() && expected_allowance != Some(allowance) {
        return Err(ApproveError::AllowanceChanged {
            current_allowance: Nat::from(allowance),
        });
    }
''', '''    let (current, _) = allowance(&from, &spender, now);
    if !expected_allowance.map_or(true, |expected| expected == current) {
        return Err(ApproveError::AllowanceChanged {
            current_allowance: Nat::from(current),
        });
    }
''', "C08 C09 C31 C27")
e("approve-match-expiry", S, '''    if expires_at.unwrap_or(REMOTE_FUTURE) <= now {
        return Err(ApproveError::Expired { ledger_time: now });
    }
''', '''    match expires_at {
        Some(at) if at <= now => return Err(ApproveError::Expired { ledger_time: now }),
        _ => (),
    }
''')
e("credit-combinators", S, '''        let _ = self.check_credit_to_account(account, amount)?;
        let _ = self.check_total_supply_increase(amount)?;
        Ok(())
''', '''        self.check_credit_to_account(account, amount)
            .and_then(|_| self.check_total_supply_increase(amount))
            .map(|_| ())
''', "C01 C02 C17 C31")
e("credit-combinators", S, '''        old_balance.checked_sub(amount).ok_or(old_balance)
    }
''', '''        if amount > old_balance {
            Err(old_balance)
        } else {
            Ok(old_balance - amount)
        }
    }
''')
e("debit-match", S, '''        let new_balance = old_balance
            .checked_sub(amount)
            .context("Underflow while changing the account balance")?;
        self.cache.total_supply = self
            .total_supply()
            .checked_sub(amount)
            .context("Underflow while changing the total supply")?;
        if new_balance == 0 {
            self.balances.remove(&account_key);
        } else {
            self.balances.insert(account_key, new_balance);
        }
        Ok(new_balance)
''', '''        let total_supply = self.check_total_supply_decrease(amount);
        match old_balance.checked_sub(amount) {
            None => Err(anyhow!("Underflow while changing the account balance")),
            Some(new_balance) => {
                self.cache.total_supply = total_supply?;
                match new_balance {
                    0 => {
                        self.balances.remove(&account_key);
                    }
                    _ => {
                        self.balances.insert(account_key, new_balance);
                    }
                }
                Ok(new_balance)
            }
        }
''', "C01 C02 C05 C13 C23 C31")
e("value-closure", S, '''            Operation::Mint { to, amount, fee } => {
                map.insert("op".to_string(), Value::text("mint"));
                map.insert("to".to_string(), account_to_value(to));
                map.insert("amt".to_string(), Value::Nat(candid::Nat::from(amount)));
                map.insert("fee".to_string(), Value::Nat(candid::Nat::from(fee)));
            }
''', '''            Operation::Mint { to, amount, fee } => {
                for (key, value) in [
                    ("op", Value::text("mint")),
                    ("to", account_to_value(to)),
                    ("amt", Value::Nat(candid::Nat::from(amount))),
                    ("fee", Value::Nat(candid::Nat::from(fee))),
                ] {
                    map.insert(key.to_string(), value);
                }
            }
''', "C20 C21")
e("value-extend", S, '''                map.insert("op".to_string(), Value::text("burn"));
                map.insert("from".to_string(), account_to_value(from));
                if let Some(spender) = spender {
                    map.insert("spender".to_string(), account_to_value(spender));
                }
                map.insert("amt".to_string(), Value::Nat(candid::Nat::from(amount)));
            }
''', '''                let spender = spender.map(account_to_value);
                map.extend([
                    ("op".to_owned(), Value::Text("burn".to_owned())),
                    ("from".to_owned(), account_to_value(from)),
                    ("amt".to_owned(), Value::Nat(Nat::from(amount))),
                ]);
                map.extend(spender.map(|v| ("spender".to_owned(), v)));
            }
''', "C20 C21")
e("value-entry-helper", S, '''        if let Some(phash) = self.phash {
            map.insert("phash".to_string(), Value::blob(phash));
        }
        if let Some(effective_fee) = self.effective_fee {
            map.insert(
                "fee".to_string(),
                Value::Nat(candid::Nat::from(effective_fee)),
            );
        }
        Value::Map(map)
''', '''        insert_opt(&mut map, "phash", self.phash.map(Value::blob));
        let fee = self.effective_fee.map(|fee| Value::Nat(Nat::from(fee)));
        insert_opt(&mut map, "fee", fee);
        Value::Map(map)
''', "C20 C21 C18")
e("value-entry-helper", S, '''fn account_to_value(''', '''fn insert_opt(map: &mut BTreeMap<String, Value>, key: &str, value: Option<Value>) {
    if let Some(value) = value {
        map.insert(key.to_string(), value);
    }
}

fn account_to_value(''')
e("flatten-let-else", S, '''            "burn" => Operation::Burn {
                from: value
                    .from
                    .ok_or("`from` field required for `burn` operation")?,
                spender: value.spender,
                amount: value.amount,
            },
''', '''            "burn" => {
                let Some(from) = value.from else {
                    return Err("`from` field required for `burn` operation".to_string());
                };
                Operation::Burn {
                    from,
                    spender: value.spender,
                    amount: value.amount,
                }
            }
''', "C20 C21")
e("flatten-let-else", S, '''            "mint" => Operation::Mint {
                to: value.to.ok_or("`to` field required for `mint` operation")?,
                amount: value.amount,
                fee: value
                    .fee
                    .ok_or("`fee` field required for `mint` operation")?,
            },
''', '''            "mint" => match (value.to, value.fee) {
                (Some(to), Some(fee)) => Operation::Mint {
                    to,
                    amount: value.amount,
                    fee,
                },
                (None, _) => return Err("`to` field required for `mint` operation".into()),
                (_, None) => return Err("`fee` field required for `mint` operation".into()),
            },
''')
e("flatten-from-destructure", S, '''        FlattenedTransaction {
            created_at_time: t.created_at_time,
            memo: t.memo,
            op: match &t.operation {
''', '''        let Transaction {
            ref operation,
            created_at_time,
            memo,
        } = t;
        let op: &str = match operation {
            Burn { .. } => "burn",
            Mint { .. } => "mint",
            Transfer { .. } => "xfer",
            Approve { .. } => "approve",
        };
        FlattenedTransaction {
            created_at_time,
            memo,
            op: op.to_string(),
''', "C20 C21 C11")
e("flatten-from-destructure", S, '''                Burn { .. } => "burn",
                Mint { .. } => "mint",
                Transfer { .. } => "xfer",
                Approve { .. } => "approve",
            }
            .into(),
            from: match &t.operation {
                Transfer { from, .. } | Burn { from, .. } | Approve { from, .. } => Some(*from),
                _ => None,
            },
            to: match &t.operation {
''', '''            from: match operation {
                Transfer { from, .. } | Burn { from, .. } | Approve { from, .. } => Some(*from),
                Mint { .. } => None,
            },
            to: match operation {
''')
for fld in ("spender", "amount", "fee", "expected_allowance", "expires_at"):
    e("flatten-from-destructure", S, "            %s: match &t.operation {\n" % fld, "            %s: match operation {\n" % fld)
e("phash-transpose", S, '''        match Option::<ByteBuf>::deserialize(deserializer)? {
            None => Ok(None),
            Some(bb) => match <[u8; 32]>::try_from(bb.as_slice()) {
                Ok(phash) => Ok(Some(phash)),
                Err(err) => Err(D::Error::custom(err)),
            },
        }
''', '''        let bytes: Option<ByteBuf> = Option::deserialize(deserializer)?;
        bytes
            .map(|bb| <[u8; 32]>::try_from(bb.as_slice()).map_err(D::Error::custom))
            .transpose()
''', "C21")
e("compact-opt-transpose", K, '''        match OptionalCompactAccount::deserialize(d)? {
            Some(compact_account) => Account::try_from(compact_account)
                .map(Some)
                .map_err(D::Error::custom),
            None => Ok(None),
        }
''', '''        let Some(compact_account) = OptionalCompactAccount::deserialize(d)? else {
            return Ok(None);
        };
        let account: Account = compact_account.try_into().map_err(D::Error::custom)?;
        Ok(Some(account))
''', "C21")
e("config-bytes", C, '''        let mut bytes = vec![];
        ciborium::into_writer(self, &mut bytes).expect("Unable to serialize the config as CBOR");
        Cow::Owned(bytes)
''', '''        let mut bytes = Vec::new();
        if let Err(err) = ciborium::into_writer(self, &mut bytes) {
            panic!("Unable to serialize the config as CBOR: {err:?}");
        }
        bytes.into()
''', "C23 C29 C21")
e("validate-let", ME, '''    if let Some(memo) = memo {
        if memo.0.len() as u64 > MAX_MEMO_LENGTH {
            return Err(format!(
                "memo length exceeds the maximum of {} bytes",
                MAX_MEMO_LENGTH
            ));
        }
    }
    Ok(())
''', '''    let len = memo.as_ref().map(|memo| memo.0.len()).unwrap_or(0);
    if len as u64 <= MAX_MEMO_LENGTH {
        return Ok(());
    }
    Err(format!(
        "memo length exceeds the maximum of {} bytes",
        MAX_MEMO_LENGTH
    ))
''', "C24 C17 C31")
e("withdraw-flat", S, '''    if let Err(err) = deposit_cycles_result {
        let (rejection_code, rejection_reason) = call_error_to_reject(err);
''', '''    let Err(err) = deposit_cycles_result else {
        return Ok(block_index.into());
    };
    {
        let (rejection_code, rejection_reason) = call_error_to_reject(err);
''', "C13 C15 C16 C02")
e("withdraw-flat", S, '''                Ok(fee_block) => {
                prune(now);
''' if False else '''            Err(err) => {
                // this is a critical error that should not
                // happen because minting should never fail.
                ic_cdk::trap(format!("Unable to reimburse caller: {}", err))
            }
        }
    }

    Ok(Nat::from(block_index))
}
''', '''            Err(err) => {
                // this is a critical error that should not
                // happen because minting should never fail.
                ic_cdk::trap(format!("Unable to reimburse caller: {}", err))
            }
        }
    }
}
''')
e("withdraw-third-party", S, '''    let mut old_expires_at = None;
    if let Some(spender) = spender {
        if spender != from {
            let (_, expiry) =
                read_state(|state| check_allowance(state, &from, &spender, amount_with_fee, now))?;
            if expiry > 0 {
                old_expires_at = Some(expiry);
            }
        }
    }

    // check that the `from` account has enough funds
    read_state(|state| state.check_debit_from_account(&from, amount_with_fee)).map_err(
        |balance| InsufficientFunds {
            balance: balance.into(),
        },
    )?;
''', '''    let third_party = spender.filter(|spender| *spender != from);
    let old_expires_at = match third_party {
        None => None,
        Some(spender) => {
            let (_, expiry) =
                read_state(|state| check_allowance(state, &from, &spender, amount_with_fee, now))?;
            (expiry > 0).then_some(expiry)
        }
    };

    // check that the `from` account has enough funds
    if let Err(balance) = read_state(|s| s.check_debit_from_account(&from, amount_with_fee)) {
        return Err(InsufficientFunds {
            balance: Nat::from(balance),
        });
    }
''', "C06 C07 C13 C16 C15 C31")
e("withdraw-third-party", S, '''    if let Some(spender) = spender {
        if spender != from {
            if let Err(err) =
                mutate_state(|state| use_allowance(state, &from, &spender, amount_with_fee, now))
            {
                let err =
                    anyhow!(err).context(format!("Unable to perform withdraw: {:?}", transaction));
                ic_cdk::trap(format!("{err:#}"));
            };
        }
    }
''', '''    if let Some(spender) = third_party {
        mutate_state(|state| use_allowance(state, &from, &spender, amount_with_fee, now))
            .unwrap_or_else(|err| {
                ic_cdk::trap(format!("Unable to perform withdraw: {transaction:?}: {err}"))
            });
    }
''')
e("create-args-helper", S, '''    let argument = argument
        .map(|arg| CmcCreateCanisterArgs {
            settings: arg
                .settings
                .map(|settings| CanisterSettings {
                    controllers: Some(
                        settings
                            .controllers
                            .unwrap_or_else(|| vec![ic_cdk::api::msg_caller()]),
                    ),
                    ..settings
                })
                .or_else(|| {
                    Some(CanisterSettings {
                        controllers: Some(vec![ic_cdk::api::msg_caller()]),
                        ..Default::default()
                    })
                }),
            ..arg
        })
        .unwrap_or_else(|| CmcCreateCanisterArgs {
            settings: Some(CanisterSettings {
                controllers: Some(vec![ic_cdk::api::msg_caller()]),
                ..Default::default()
            }),
            subnet_selection: None,
        });
''', '''    let argument = with_default_controllers(argument, ic_cdk::api::msg_caller());
''', "C14 C16 C26 C13")
e("create-args-helper", S, '''// Reimburse an account with a given amount
''', '''fn with_default_controllers(
    argument: Option<CmcCreateCanisterArgs>,
    caller: Principal,
) -> CmcCreateCanisterArgs {
    let (settings, subnet_selection) = match argument {
        Some(arg) => (arg.settings, arg.subnet_selection),
        None => (None, None),
    };
    let mut settings = settings.unwrap_or_default();
    if settings.controllers.is_none() {
        settings.controllers = Some(vec![caller]);
    }
    CmcCreateCanisterArgs {
        settings: Some(settings),
        subnet_selection,
    }
}

// Reimburse an account with a given amount
''')
e("canister-entry", S, '''            if let Ok(tx_hash) = transaction.hash() {
                mutate_state(|state| {
                    if state.transaction_hashes.contains_key(&tx_hash) {
                        state
                            .transaction_hashes
                            .insert(tx_hash, (block_index, Some(canister_id)));
                    }
                });
            } else {
                // this should not happen because processing the transaction already checks if it can be hashed
                ic_cdk::trap(format!("Bug: Transaction in block {block_index} was processed correctly but suddenly cannot be hashed anymore."));
            }
''', '''            let Ok(tx_hash) = transaction.hash() else {
                // this should not happen because processing the transaction already checks if it can be hashed
                ic_cdk::trap(format!("Bug: Transaction in block {block_index} was processed correctly but suddenly cannot be hashed anymore."));
            };
            mutate_state(|state| {
                let hashes = &mut state.transaction_hashes;
                if hashes.get(&tx_hash).is_some() {
                    hashes.insert(tx_hash, (block_index, Some(canister_id)));
                }
            });
''', "C11 C14 C15 C16")
e("blocks-helper", S, '''        read_state(|state| {
            for id in start..end_excluded {
                let block = state
                    .blocks
                    .get(id)
                    .unwrap_or_else(|| panic!("Bug: unable to find block at index {}!", id))
                    .0
                    .to_value();
                let block_with_id = BlockWithId {
                    id: Nat::from(id),
                    block,
                };
                blocks.push(block_with_id);
            }
        });
''', '''        let mut more = read_state(|state| blocks_in(state, start, end_excluded));
        blocks.append(&mut more);
''', "C18")
e("blocks-helper", S, '''pub fn get_blocks(args''', '''fn blocks_in(state: &State, start: u64, end_excluded: u64) -> Vec<BlockWithId> {
    let mut blocks = vec![];
    for id in start..end_excluded {
        let Some(block) = state.blocks.get(id) else {
            panic!("Bug: unable to find block at index {}!", id);
        };
        blocks.push(BlockWithId {
            id: id.into(),
            block: block.0.to_value(),
        });
    }
    blocks
}

pub fn get_blocks(args''')
e("blocks-while", S, '''            for id in start..end_excluded {
                let block = state
''', '''            let mut next = start;
            while next < end_excluded {
                let id = next;
                next += 1;
                let block = state
''', "C18")
e("allowances-iter", S, '''    read_state(|state| {
        for (account_spender, (allowance_amount, expiration)) in
            state.approvals.range(start_account_spender..)
        {
            if spender.is_some() && account_spender == start_account_spender {
                continue;
            }
            if result.len() >= max_results as usize {
                break;
            }
''', '''    read_state(|state| {
        let skip_first = spender.is_some();
        let entries = state.approvals.range(start_account_spender..);
        for (account_spender, (allowance_amount, expiration)) in entries {
            if result.len() == max_results as usize {
                break;
            }
            if skip_first && account_spender == start_account_spender {
                continue;
            }
''', "C19")
e("allowances-chain", S, '''    read_state(|state| {
        for (account_spender, (allowance_amount, expiration)) in
            state.approvals.range(start_account_spender..)
        {
            if spender.is_some() && account_spender == start_account_spender {
                continue;
            }
            if result.len() >= max_results as usize {
                break;
            }
            let (from_account, to_spender) = to_account_pair(&account_spender);
            if from_account.owner != from.owner {
                break;
            }
            if expiration > 0 && expiration <= now {
                continue;
            }
            let expires_at = match expiration {
                0 => None,
                _ => Some(expiration),
            };
            result.push(Allowance {
                from_account,
                to_spender,
                allowance: Nat::from(allowance_amount),
                expires_at,
            });
        }
    });
    result
''', '''    read_state(|state| {
        result.extend(
            state
                .approvals
                .range(start_account_spender..)
                .take_while(|(key, _)| key.0 .0 == from.owner)
                .filter(|(key, _)| spender.is_none() || *key != start_account_spender)
                .filter(|(_, (_, expiration))| *expiration == 0 || *expiration > now)
                .take(max_results as usize)
                .map(|(key, (amount, expiration))| {
                    let (from_account, to_spender) = to_account_pair(&key);
                    Allowance {
                        from_account,
                        to_spender,
                        allowance: Nat::from(amount),
                        expires_at: (expiration > 0).then_some(expiration),
                    }
                }),
        );
    });
    result
''', "C19")
e("allowances-take", M, '''    let max_results = arg
        .take
        .map(|take| take.0.to_u64().unwrap_or(config::MAX_TAKE_ALLOWANCES))
        .map(|take| std::cmp::min(take, config::MAX_TAKE_ALLOWANCES))
        .unwrap_or(config::MAX_TAKE_ALLOWANCES);
''', '''    let max_results = match arg.take.as_ref().and_then(|take| take.0.to_u64()) {
        Some(take) if take < config::MAX_TAKE_ALLOWANCES => take,
        _ => config::MAX_TAKE_ALLOWANCES,
    };
''', "C19")
e("supply-while-let", S, '''        let mut total_supply = 0;
        for (_, balance) in balances.iter() {
            total_supply += balance;
        }
        total_supply
''', '''        let mut total_supply = 0u128;
        let mut entries = balances.iter();
        while let Some((_, balance)) = entries.next() {
            total_supply = total_supply + balance;
        }
        total_supply
''', "C23 C01")
e("init-for-each", M, '''            if let Some(initial_balances) = config.initial_balances.as_ref() {
                for (account, amount) in initial_balances {
                    storage::mint(*account, *amount, None, ic_cdk::api::time())
                        .expect("Failed to mint initial balance");
                }
            }
''', '''            let now = ic_cdk::api::time();
            for &(account, amount) in config.initial_balances.as_deref().unwrap_or_default() {
                if let Err(err) = storage::mint(account, amount, None, now) {
                    ic_cdk::trap(format!("Failed to mint initial balance: {err}"));
                }
            }
''', "C29 C01")
e("tree-helper", S, '''    let mut last_block_index_buf = Vec::with_capacity(MAX_U64_ENCODING_BYTES);
    leb128::write::unsigned(&mut last_block_index_buf, last_block_index).unwrap();
    hash_tree.insert("last_block_index", last_block_index_buf.to_vec());
    hash_tree.insert("last_block_hash", last_block_hash.to_vec());
''', '''    let mut index_bytes = vec![];
    leb128::write::unsigned(&mut index_bytes, last_block_index)
        .expect("writing to a vector does not fail");
    hash_tree.insert("last_block_hash", Vec::from(last_block_hash));
    hash_tree.insert("last_block_index", index_bytes);
''', "C04 C23 C03")
e("last-hash-option", S, '''        let mut hash_tree = RbTree::new();
        let n = blocks.len();
        if n == 0 {
            return (None, hash_tree);
        }
        let last_block_hash = blocks.get(n - 1).unwrap().to_owned().hash();
        populate_last_block_hash_and_hash_tree(&mut hash_tree, n - 1, last_block_hash);
        (Some(last_block_hash), hash_tree)
''', '''        let mut hash_tree = RbTree::new();
        let Some(last) = blocks.len().checked_sub(1) else {
            return (None, hash_tree);
        };
        let last_block_hash = blocks
            .get(last)
            .map(|block| block.0.hash())
            .expect("the last block is in the log");
        populate_last_block_hash_and_hash_tree(&mut hash_tree, last, last_block_hash);
        (Some(last_block_hash), hash_tree)
''', "C23 C04 C03")
e("window-duration", S, '''    if created_at_time
        .saturating_add(config::TRANSACTION_WINDOW.as_nanos() as u64)
        .saturating_add(config::PERMITTED_DRIFT.as_nanos() as u64)
        < now
    {
        return Err(CreatedAtTimeValidationError::TooOld);
    }
''', '''    if is_before_transaction_window(*created_at_time, now) {
        return Err(CreatedAtTimeValidationError::TooOld);
    }
''', "C11 C12 C31")
e("hash-and-then", S, '''        ciborium_to_generic_value(&value.clone(), 0)
            .map(|v| v.hash())
            .context(format!(
                "Bug: unable to convert Ciborium Value to Value. Transaction: {:?}, Value: {:?}",
                self, value
            ))
''', '''        match ciborium_to_generic_value(&value, 0) {
            Ok(v) => Ok(v.hash()),
            Err(err) => Err(anyhow!(err).context("Bug: unable to convert Ciborium Value to Value")),
        }
''', "C11 C21 C12")
e("cbor-match-array", L, '''        CiboriumValue::Array(values) => Ok(Value::Array(
            values
                .iter()
                .map(|v| ciborium_to_generic_value(v, depth + 1))
                .collect::<Result<Vec<_>, _>>()?,
        )),
''', '''        CiboriumValue::Array(values) => {
            let values: Result<Vec<Value>, ValueDecodingError> = values
                .iter()
                .map(|v| ciborium_to_generic_value(v, depth + 1))
                .collect();
            values.map(Value::Array)
        }
''', "C30")
e("reimburse-charges", S, '''    let expires_at = if current_expiry > 0 {
        Some(current_expiry)
    } else {
        old_expires_at
    };
''', '''    let expires_at = match current_expiry {
        0 => old_expires_at,
        expiry => Some(expiry),
    };
''', "C13 C16 C09 C15")
e("endpoint-and-then", M, '''    let Some(amount) = amount.0.to_u128() else {
        return Err(WithdrawFromError::InsufficientFunds {
            balance: Nat::from(balance_of(&from)),
        });
    };

    let now = ic_cdk::api::time();
    storage::withdraw(from, to, spender, amount, now, created_at_time).await
''', '''    match amount.0.to_u128() {
        Some(amount) => {
            let now = ic_cdk::api::time();
            storage::withdraw(from, to, spender, amount, now, created_at_time).await
        }
        None => Err(WithdrawFromError::InsufficientFunds {
            balance: balance_of(&from).into(),
        }),
    }
''', "C05 C13 C24 C31 C27")
# ---- fourth batch: larger restructurings
e("denied-flatten", S, '''    // check that no account is owned by a denied principal
    if is_denied_account(&from.owner) {
        return Err(transfer_from::denied_owner(from));
    }
    if is_denied_account(&to.owner) {
        return Err(transfer_from::denied_owner(to));
    }
    if let Some(spender) = spender {
        if is_denied_account(&spender.owner) {
            return Err(transfer_from::denied_owner(spender));
        }
    }
''', '''    // check that no account is owned by a denied principal
    for account in [Some(from), Some(to), spender].into_iter().flatten() {
        if is_denied_account(&account.owner) {
            return Err(transfer_from::denied_owner(account));
        }
    }
''', "C22 C31 C05")
e("denied-chain", S, '''    // check that no account is owned by a denied principal
    if is_denied_account(&from.owner) {
        return Err(transfer_from::denied_owner(from));
    }
    if is_denied_account(&to.owner) {
        return Err(transfer_from::denied_owner(to));
    }
    if let Some(spender) = spender {
        if is_denied_account(&spender.owner) {
            return Err(transfer_from::denied_owner(spender));
        }
    }
''', '''    // check that no account is owned by a denied principal
    let mut parties = [from, to].into_iter().chain(spender);
    if let Some(denied) = parties.find(|account| is_denied_account(&account.owner)) {
        return Err(transfer_from::denied_owner(denied));
    }
''', "C22 C31 C05")
e("denied-try", S, '''    if is_denied_account(&from.owner) {
        return Err(approve::denied_owner(from));
    }
    if is_denied_account(&spender.owner) {
        return Err(approve::denied_owner(spender));
    }
''', '''    [from, spender].into_iter().try_for_each(|account| {
        if is_denied_account(&account.owner) {
            Err(approve::denied_owner(account))
        } else {
            Ok(())
        }
    })?;
''', "C31 C06 C22")
e("debit-cmp", S, '''        let old_balance = self.balances.get(&account_key).unwrap_or_default();
        old_balance.checked_sub(amount).ok_or(old_balance)
''', '''        let old_balance = self.balances.get(&account_key).unwrap_or_default();
        match old_balance.cmp(&amount) {
            std::cmp::Ordering::Less => Err(old_balance),
            std::cmp::Ordering::Equal => Ok(0),
            std::cmp::Ordering::Greater => Ok(old_balance - amount),
        }
''', "C01 C02 C05 C31")
e("duplicate-map-or", S, '''    if let Some((block_index, maybe_canister)) =
        read_state(|state| state.transaction_hashes.get(&tx_hash))
    {
        return Err(PTErr::Duplicate {
            duplicate_of: block_index,
            canister_id: maybe_canister,
        });
    }

    Ok(())
''', '''    read_state(|state| state.transaction_hashes.get(&tx_hash)).map_or(
        Ok(()),
        |(duplicate_of, canister_id)| {
            Err(PTErr::Duplicate {
                duplicate_of,
                canister_id,
            })
        },
    )
''', "C11 C12 C31")
e("allowance-filter", S, '''    let allowance = read_state(|s| s.approvals.get(&key).unwrap_or_default());
    if allowance.1 > 0 && allowance.1 <= now {
        return (0, 0);
    }
    allowance
}
''', '''    read_state(|s| s.approvals.get(&key))
        .filter(|&(_, expiration)| expiration == 0 || expiration > now)
        .unwrap_or_default()
}
''', "C06 C07 C08 C13 C31")
e("record-diff", S, '''    match s.approvals.get(&key) {
        None => {
            if amount == 0 {
                log!(P0, "[record_approval]: amount was set to 0");
                return;
            }
            if expires_at > 0 {
                s.expiration_queue.insert((expires_at, key), ());
            }
            s.approvals.insert(key, (amount, expires_at));
        }
        Some((_, current_expiration)) => {
            if amount == 0 {
                if current_expiration > 0 {
                    s.expiration_queue.remove(&(current_expiration, key));
                }
                s.approvals.remove(&key);
                return;
            }
            s.approvals.insert(key, (amount, expires_at));
            if expires_at != current_expiration {
                if current_expiration > 0 {
                    s.expiration_queue.remove(&(current_expiration, key));
                }
                if expires_at > 0 {
                    s.expiration_queue.insert((expires_at, key), ());
                }
            }
        }
    }
}
''', '''    let old = s.approvals.get(&key);
    let old_expiration = old.map_or(0, |(_, expiration)| expiration);
    let new_expiration = if amount == 0 { 0 } else { expires_at };
    if amount > 0 {
        s.approvals.insert(key, (amount, expires_at));
    } else if old.is_some() {
        s.approvals.remove(&key);
    } else {
        log!(P0, "[record_approval]: amount was set to 0");
    }
    if old_expiration == new_expiration {
        return;
    }
    if old_expiration > 0 {
        s.expiration_queue.remove(&(old_expiration, key));
    }
    if new_expiration > 0 {
        s.expiration_queue.insert((new_expiration, key), ());
    }
}
''', "C06 C07 C08 C10")
e("prune-approvals-let", S, '''    for _ in 0..limit {
        match s.expiration_queue.first_key_value() {
            None => break,
            Some((key, _)) if key.0 > now => break,
            Some((key, _value)) => {
                if s.approvals.remove(&key.1).is_none() {
                    log!(P0, "Unable to find the approval for {:?}", key.1,)
                }
                s.expiration_queue.remove(&key);
                pruned += 1;
            }
        }
    }
''', '''    for _ in 0..limit {
        let Some((key, ())) = s.expiration_queue.first_key_value() else {
            break;
        };
        let (expiration, approval) = key;
        if now < expiration {
            break;
        }
        s.expiration_queue.remove(&key);
        if s.approvals.remove(&approval).is_none() {
            log!(P0, "Unable to find the approval for {:?}", approval)
        }
        pruned += 1;
    }
''', "C06 C07 C08 C10")
e("prune-tx-helper", S, '''        s.transaction_timestamps.remove(&(timestamp, block_idx));
        pruned += 1;

        let Some(block) = s.blocks.get(block_idx) else {
            log!(
                P0,
                "Cannot find block with id: {}. The block id was associated \\
                with the timestamp: {} and was selected for pruning from \\
                the timestamp and hashes pools",
                block_idx,
                timestamp
            );
            continue;
        };
        let tx_hash = match block.transaction.hash() {
            Ok(tx_hash) => tx_hash,
            Err(err) => {
                log!(
                    P0,
                    "Cannot calculate hash of transaction for block id: {}. Error: {}",
                    block_idx,
                    err,
                );
                continue;
            }
        };
''', '''        s.transaction_timestamps.remove(&(timestamp, block_idx));
        pruned += 1;

        let Some(tx_hash) = hash_of_block(s, block_idx, timestamp) else {
            continue;
        };
''')
e("prune-tx-helper", S, '''fn prune_transactions(now: u64''', '''fn hash_of_block(s: &State, block_idx: u64, timestamp: u64) -> Option<Hash> {
    let Some(block) = s.blocks.get(block_idx) else {
        log!(
            P0,
            "Cannot find block with id: {}. The block id was associated \\
            with the timestamp: {} and was selected for pruning from \\
            the timestamp and hashes pools",
            block_idx,
            timestamp
        );
        return None;
    };
    block
        .transaction
        .hash()
        .inspect_err(|err| {
            log!(
                P0,
                "Cannot calculate hash of transaction for block id: {}. Error: {}",
                block_idx,
                err,
            )
        })
        .ok()
}

fn prune_transactions(now: u64''', "C11 C12 C10")
e("args-take", S, '''    let argument = argument
        .map(|arg| CmcCreateCanisterArgs {
            settings: arg
                .settings
                .map(|settings| CanisterSettings {
                    controllers: Some(
                        settings
                            .controllers
                            .unwrap_or_else(|| vec![ic_cdk::api::msg_caller()]),
                    ),
                    ..settings
                })
                .or_else(|| {
                    Some(CanisterSettings {
                        controllers: Some(vec![ic_cdk::api::msg_caller()]),
                        ..Default::default()
                    })
                }),
            ..arg
        })
        .unwrap_or_else(|| CmcCreateCanisterArgs {
            settings: Some(CanisterSettings {
                controllers: Some(vec![ic_cdk::api::msg_caller()]),
                ..Default::default()
            }),
            subnet_selection: None,
        });
''', '''    let mut argument = argument.unwrap_or(CmcCreateCanisterArgs {
        settings: None,
        subnet_selection: None,
    });
    let mut settings = argument.settings.take().unwrap_or_default();
    if settings.controllers.is_none() {
        settings.controllers = Some(vec![ic_cdk::api::msg_caller()]);
    }
    argument.settings = Some(settings);
''', "C14 C26 C16")
e("third-party", S, '''    // check allowance
    if let Some(spender) = spender {
        if spender != from {
            read_state(|state| check_allowance(state, &from, &spender, amount_with_fee, now))?;
        }
    }
''', '''    // the spender whose allowance is used
    let third_party = spender.filter(|spender| *spender != from);

    // check allowance
    if let Some(spender) = &third_party {
        read_state(|state| check_allowance(state, &from, spender, amount_with_fee, now))?;
    }
''')
e("third-party", S, '''    if let Some(spender) = spender {
        if spender != from {
            if let Err(err) =
                mutate_state(|state| use_allowance(state, &from, &spender, amount_with_fee, now))
            {
                ic_cdk::trap(format!("Unable to perform transfer {transaction}: {err}"));
            }
        }
    }
''', '''    if let Some(spender) = &third_party {
        mutate_state(|state| use_allowance(state, &from, spender, amount_with_fee, now))
            .unwrap_or_else(|err| {
                ic_cdk::trap(format!("Unable to perform transfer {transaction}: {err}"))
            });
    }
''', "C06 C01 C05 C31 C22")
e("charge-struct", S, '''#[allow(clippy::too_many_arguments)]
pub fn transfer(''', '''/// What an operation takes from an account
struct Charge {
    from: Account,
    spender: Option<Account>,
    amount: u128,
}

impl Charge {
    /// the spender, if it is not the owner of the account itself
    fn third_party(&self) -> Option<Account> {
        match self.spender {
            Some(spender) if spender != self.from => Some(spender),
            _ => None,
        }
    }

    fn check(&self, now: u64) -> Result<(), UseAllowanceError> {
        if let Some(spender) = self.third_party() {
            read_state(|state| check_allowance(state, &self.from, &spender, self.amount, now))?;
        }
        Ok(())
    }

    fn collect(&self, state: &mut State, now: u64) -> anyhow::Result<u128> {
        if let Some(spender) = self.third_party() {
            use_allowance(state, &self.from, &spender, self.amount, now)
                .map_err(|err| anyhow!(err))?;
        }
        state.debit(&self.from, self.amount)
    }
}

#[allow(clippy::too_many_arguments)]
pub fn transfer(''')
e("charge-struct", S, '''    // check allowance
    if let Some(spender) = spender {
        if spender != from {
            read_state(|state| check_allowance(state, &from, &spender, amount_with_fee, now))?;
        }
    }
''', '''    // check allowance
    let charge = Charge {
        from,
        spender,
        amount: amount_with_fee,
    };
    charge.check(now)?;
''')
e("charge-struct", S, '''    if let Some(spender) = spender {
        if spender != from {
            if let Err(err) =
                mutate_state(|state| use_allowance(state, &from, &spender, amount_with_fee, now))
            {
                ic_cdk::trap(format!("Unable to perform transfer {transaction}: {err}"));
            }
        }
    }

    if let Err(err) = mutate_state(|state| state.debit(&from, amount_with_fee)) {
''', '''    if let Err(err) = mutate_state(|state| charge.collect(state, now)) {
''', "C06 C01 C02 C05 C31")
e("penalize-guard", S, '''    let balance = balance_of(from);

    mutate_state(|s| {
        if balance < crate::config::FEE {
            log!(
                P1,
                "[penalize]: account {:?} cannot be penalized as its balance {} is too low.",
                from,
                balance
            );
            return None;
        }

        if let Err(err) = s.debit(from, crate::config::FEE) {
            let err = err.context(format!("Unable to penalize account {:?}", from));
            ic_cdk::trap(format!("{err:#}"))
        }
        let phash = s.last_block_hash();
        let block_hash = s.emit_block(Block {
            transaction: Transaction {
                operation: Operation::Burn {
                    from: *from,
                    spender: None,
                    amount: crate::config::FEE,
                },
                memo: Some(Memo(ByteBuf::from(PENALIZE_MEMO))),
                created_at_time: None,
            },
            timestamp: now,
            phash,
            effective_fee: Some(0),
        });
        Some((BlockIndex::from(s.blocks.len() - 1), block_hash))
    })
''', '''    let transaction = Transaction {
        operation: Operation::Burn {
            from: *from,
            spender: None,
            amount: crate::config::FEE,
        },
        memo: Some(Memo(ByteBuf::from(PENALIZE_MEMO))),
        created_at_time: None,
    };

    mutate_state(|s| match s.check_debit_from_account(from, config::FEE) {
        Err(balance) => {
            log!(
                P1,
                "[penalize]: account {:?} cannot be penalized as its balance {} is too low.",
                from,
                balance
            );
            None
        }
        Ok(_) => {
            let phash = s.cache.phash;
            s.debit(from, crate::config::FEE).unwrap_or_else(|err| {
                ic_cdk::trap(format!(
                    "{:#}",
                    err.context(format!("Unable to penalize account {:?}", from))
                ))
            });
            let hash = s.emit_block(Block {
                transaction,
                timestamp: now,
                phash,
                effective_fee: Some(0),
            });
            Some((BlockIndex::from(s.blocks.len() - 1), hash))
        }
    })
''', "C01 C02 C03 C31 C04")
e("withdraw-error-closure", S, '''        // subtract the fee to pay for the reimburse block
        let amount_to_reimburse = amount.saturating_sub(config::FEE);
        if amount_to_reimburse.is_zero() {
            return Err(FailedToWithdrawFrom {
                withdraw_from_block: Some(block_index.into()),
                refund_block: None,
                approval_refund_block: None,
                rejection_code,
                rejection_reason,
            });
        }
        match reimburse(from, amount_to_reimburse, now, PENALIZE_MEMO) {
            Ok(fee_block) => {
                prune(now);
                if let Some(spender) = spender {
                    let approval_still_valid =
                        old_expires_at.map(|expiry| now < expiry).unwrap_or(true);
                    // charge FEE for every block: withdraw attempt, refund, refund approval
                    if spender != from && amount > 2 * config::FEE && approval_still_valid {
                        match reimburse_approval(
                            from,
                            spender,
                            amount_to_reimburse.saturating_sub(config::FEE),
                            old_expires_at,
                            now,
                        ) {
                            Ok(approval_refund_block) => {
                                return Err(FailedToWithdrawFrom {
                                    withdraw_from_block: Some(block_index.into()),
                                    refund_block: Some(Nat::from(fee_block)),
                                    approval_refund_block: Some(approval_refund_block),
                                    rejection_code,
                                    rejection_reason,
                                });
                            }
                            Err(err) => {
                                // this is a critical error that should not
                                // happen because approving should never fail.
                                ic_cdk::trap(format!("Unable to reimburse approval: {:#?}", err));
                            }
                        }
                    }
                }
                return Err(FailedToWithdrawFrom {
                    withdraw_from_block: Some(block_index.into()),
                    refund_block: Some(Nat::from(fee_block)),
                    approval_refund_block: None,
                    rejection_code,
                    rejection_reason,
                });
            }
            Err(err) => {
                // this is a critical error that should not
                // happen because minting should never fail.
                ic_cdk::trap(format!("Unable to reimburse caller: {}", err))
            }
        }
    }
''', '''        let (refund_block, approval_refund_block) =
            refund_withdrawal(from, spender, amount, old_expires_at, now);
        return Err(FailedToWithdrawFrom {
            withdraw_from_block: Some(block_index.into()),
            refund_block,
            approval_refund_block,
            rejection_code,
            rejection_reason,
        });
    }
''')
e("withdraw-error-closure", S, '''pub async fn withdraw(
''', '''/// Gives back what a failed withdrawal took, and the part of the allowance it used
fn refund_withdrawal(
    from: Account,
    spender: Option<Account>,
    amount: u128,
    old_expires_at: Option<u64>,
    now: u64,
) -> (Option<Nat>, Option<Nat>) {
    // subtract the fee to pay for the reimburse block
    let amount_to_reimburse = amount.saturating_sub(config::FEE);
    if amount_to_reimburse == 0 {
        return (None, None);
    }
    let fee_block = reimburse(from, amount_to_reimburse, now, PENALIZE_MEMO)
        .unwrap_or_else(|err| ic_cdk::trap(format!("Unable to reimburse caller: {}", err)));
    prune(now);
    let still_valid = old_expires_at.is_none_or(|expiry| now < expiry);
    let spender = spender.filter(|spender| spender != &from && still_valid);
    // charge FEE for every block: withdraw attempt, refund, refund approval
    let approval_block = match (spender, amount > 2 * config::FEE) {
        (Some(spender), true) => Some(
            reimburse_approval(
                from,
                spender,
                amount_to_reimburse - config::FEE,
                old_expires_at,
                now,
            )
            .unwrap_or_else(|err| {
                ic_cdk::trap(format!("Unable to reimburse approval: {:#?}", err))
            }),
        ),
        _ => None,
    };
    (Some(Nat::from(fee_block)), approval_block)
}

pub async fn withdraw(
''', "C13 C09 C15 C16 C01")
e("create-outcome", S, '''    let flat_create_canister_result = match create_canister_result {
        Ok(not_rejected) => match not_rejected {
            Ok(success) => Ok(success),
            Err(err) => match err {
                CmcCreateCanisterError::Refunded {
                    refund_amount,
                    create_error,
                } => Err((RejectionCode::CanisterError, refund_amount, create_error)),
                CmcCreateCanisterError::RefundFailed {
                    create_error,
                    refund_error,
                } => Err((
                    RejectionCode::CanisterError,
                    0,
                    format!("create_error: {create_error}, refund error: {refund_error}"),
                )),
            },
        },
        Err(call_error) => {
            let (rejection_code, rejection_reason) = call_error_to_reject(call_error);
            Err((rejection_code, amount, rejection_reason))
        }
    };
''', '''    let flat_create_canister_result = create_canister_result
        .map_err(|call_error| {
            let (rejection_code, rejection_reason) = call_error_to_reject(call_error);
            (rejection_code, amount, rejection_reason)
        })
        .and_then(|reply| reply.map_err(create_failure));
''')
e("create-outcome", S, '''pub async fn create_canister(
''', '''/// the rejection code, the cycles that came back and the reason
fn create_failure(err: CmcCreateCanisterError) -> (RejectionCode, u128, String) {
    let (returned, reason) = match err {
        CmcCreateCanisterError::Refunded {
            refund_amount,
            create_error,
        } => (refund_amount, create_error),
        CmcCreateCanisterError::RefundFailed {
            create_error,
            refund_error,
        } => (
            0,
            format!("create_error: {create_error}, refund error: {refund_error}"),
        ),
    };
    (RejectionCode::CanisterError, returned, reason)
}

pub async fn create_canister(
''', "C14 C09 C15 C16 C01")
e("validate-window", S, '''    let Some(created_at_time) = created_at_time else {
        return Ok(());
    };
    if created_at_time
        .saturating_add(config::TRANSACTION_WINDOW.as_nanos() as u64)
        .saturating_add(config::PERMITTED_DRIFT.as_nanos() as u64)
        < now
    {
        return Err(CreatedAtTimeValidationError::TooOld);
    }

    if created_at_time > &now.saturating_add(config::PERMITTED_DRIFT.as_nanos() as u64) {
        return Err(CreatedAtTimeValidationError::InTheFuture { ledger_time: now });
    }
    Ok(())
''', '''    let latest = now.saturating_add(config::PERMITTED_DRIFT.as_nanos() as u64);
    match *created_at_time {
        Some(ts) if is_before_transaction_window(ts, now) => {
            Err(CreatedAtTimeValidationError::TooOld)
        }
        Some(ts) if ts > latest => {
            Err(CreatedAtTimeValidationError::InTheFuture { ledger_time: now })
        }
        Some(_) | None => Ok(()),
    }
''', "C12 C11 C31")
e("fee-check-helper", S, '''    // BadFee takes precedence over InsufficientFunds per ICRC-1 spec
    if suggested_fee.is_some() && suggested_fee != Some(config::FEE) {
        return Err(ApproveError::BadFee {
            expected_fee: Nat::from(config::FEE),
        });
    }
''', '''    // BadFee takes precedence over InsufficientFunds per ICRC-1 spec
    check_fee(suggested_fee).map_err(|expected_fee| ApproveError::BadFee { expected_fee })?;
''')
e("fee-check-helper", S, '''    // BadFee takes precedence over InsufficientFunds per ICRC-1 spec
    if suggested_fee.is_some() && suggested_fee != Some(config::FEE) {
        return Err(BadFee {
            expected_fee: Nat::from(config::FEE),
        });
    }
''', '''    // BadFee takes precedence over InsufficientFunds per ICRC-1 spec
    check_fee(suggested_fee).map_err(|expected_fee| BadFee { expected_fee })?;
''')
e("fee-check-helper", S, '''const DENIED_PRINCIPALS: [Principal; 1]''', '''/// `Err` with the fee that is expected if another one is suggested
fn check_fee(suggested: Option<u128>) -> Result<(), Nat> {
    match suggested {
        None => Ok(()),
        Some(fee) => (fee == config::FEE)
            .then_some(())
            .ok_or_else(|| Nat::from(config::FEE)),
    }
}

const DENIED_PRINCIPALS: [Principal; 1]''', "C25 C31 C05")
e("emit-index-once", S, '''        let hash = b.clone().hash();
        self.cache.phash = Some(hash);
        let tx_hash = b.transaction.hash().unwrap();
        let created_at_time = b.transaction.created_at_time;
        self.blocks
            .append(&Cbor(b))
            .expect("failed to append a block");

        // Change the certified data to point to the new block at the end of the list of blocks
        let block_idx = self.blocks.len() - 1;
        populate_last_block_hash_and_hash_tree(&mut self.cache.hash_tree, block_idx, hash);
        certified_data_set(self.root_hash());

        if let Some(ts) = created_at_time {
            // Add block index to the list of transactions and set the hash as its key
            self.transaction_hashes
                .insert(tx_hash, (self.blocks.len() - 1, None));
            self.transaction_timestamps
                .insert((ts, self.blocks.len() - 1), ());
        }

        hash
''', '''        let block_idx = self.blocks.len();
        let hash = b.clone().hash();
        let tx_hash = b.transaction.hash().unwrap();

        if let Some(ts) = b.transaction.created_at_time {
            // Add block index to the list of transactions and set the hash as its key
            self.transaction_timestamps.insert((ts, block_idx), ());
            self.transaction_hashes.insert(tx_hash, (block_idx, None));
        }

        self.blocks
            .append(&Cbor(b))
            .expect("failed to append a block");

        // Change the certified data to point to the new block at the end of the list of blocks
        self.cache.phash = Some(hash);
        populate_last_block_hash_and_hash_tree(&mut self.cache.hash_tree, block_idx, hash);
        certified_data_set(self.cache.hash_tree.root_hash());

        hash
''', "C03 C04 C11 C01 C12")
e("value-array", S, '''        let mut map = BTreeMap::new();
        map.insert("tx".to_string(), self.transaction.to_value());
        map.insert(
            "ts".to_string(),
            Value::Nat(candid::Nat::from(self.timestamp)),
        );
        if let Some(phash) = self.phash {
''', '''        let mut map: BTreeMap<String, Value> = BTreeMap::from([
            ("tx".to_string(), self.transaction.to_value()),
            (
                "ts".to_string(),
                Value::Nat(candid::Nat::from(self.timestamp)),
            ),
        ]);
        if let Some(phash) = self.phash {
''', "C20 C18 C08")
e("balance-chain", S, '''pub fn balance_of(account: &Account) -> u128 {
    read_state(|s| s.balances.get(&to_account_key(account)).unwrap_or_default())
}
''', '''pub fn balance_of(account: &Account) -> u128 {
    let key = to_account_key(account);
    match read_state(|s| s.balances.get(&key)) {
        Some(balance) => balance,
        None => 0,
    }
}
''', "C01 C05 C27 C31")
e("process-inspect", S, '''    validate_created_at_time(&transaction.created_at_time, now)?;

    let effective_fee = effective_fee(&transaction.operation);

    let block = Block {
        transaction,
        timestamp: now,
        phash: read_state(|state| state.last_block_hash()),
        effective_fee,
    };

    let _ = mutate_state(|state| state.emit_block(block));
    let block_index = read_state(|state| state.blocks.len() - 1);

    Ok(block_index)
''', '''    validate_created_at_time(&transaction.created_at_time, now)?;

    mutate_state(|state| {
        let block_index = state.blocks.len();
        let block = Block {
            effective_fee: effective_fee(&transaction.operation),
            phash: state.last_block_hash(),
            timestamp: now,
            transaction,
        };
        state.emit_block(block);
        Ok(block_index)
    })
''', "C03 C11 C12 C25 C31")
e("mint-inspect", S, '''    if let Err(err) = read_state(|state| state.check_credit(&to, amount)) {
        // This should not happen as the number of total cycles
        // a canister can deposit should never exceed the max.
        // If this happens then the error is logged and returned
        // to the caller.
        let err = err.context(format!("Unable to mint {} cycles to {}", amount, to));
        log!(P0, "{:#}", err);
        return Err(err);
    }
''', '''    // This should not happen as the number of total cycles
    // a canister can deposit should never exceed the max.
    // If this happens then the error is logged and returned
    // to the caller.
    read_state(|state| state.check_credit(&to, amount))
        .with_context(|| format!("Unable to mint {} cycles to {}", amount, to))
        .inspect_err(|err| log!(P0, "{:#}", err))?;
''', "C01 C02 C17 C29")
e("deposit-filter", S, '''    let amount_to_mint = match amount.checked_sub(crate::config::FEE) {
        None => {
            bail!(
                "The requested amount {} to be deposited is \\
                less than the cycles ledger fee: {}",
                amount,
                crate::config::FEE
            )
        }
        Some(0) => {
            bail!(
                "Cannot deposit 0 cycles (amount: {}, cycles ledger fee: {})",
                amount,
                crate::config::FEE
            )
        }
        Some(amount_to_mint) => amount_to_mint,
    };
''', '''    let Some(amount_to_mint) = amount
        .checked_sub(crate::config::FEE)
        .filter(|amount| *amount > 0)
    else {
        bail!(
            "The requested amount {} to be deposited is not \\
            more than the cycles ledger fee: {}",
            amount,
            crate::config::FEE
        )
    };
''', "C17 C01 C25")
e("check-allowance-match", S, '''    let (current_allowance, current_expiration) = s
        .approvals
        .get(&key)
        .ok_or(InsufficientAllowance { allowance: 0 })?;

    if !(current_expiration == 0 || current_expiration > now) {
        return Err(ExpiredApproval);
    }

    let new_allowance = current_allowance
        .checked_sub(amount)
        .ok_or(InsufficientAllowance {
            allowance: current_allowance,
        })?;

    Ok((new_allowance, current_expiration))
''', '''    match s.approvals.get(&key) {
        None => Err(InsufficientAllowance { allowance: 0 }),
        Some((_, expiration)) if (1..=now).contains(&expiration) => Err(ExpiredApproval),
        Some((allowance, expiration)) => match allowance.checked_sub(amount) {
            Some(left) => Ok((left, expiration)),
            None => Err(InsufficientAllowance { allowance }),
        },
    }
''', "C06 C07 C31 C05")
e("use-allowance-match", S, '''    if new_amount == 0 {
        if expiration > 0 {
            s.expiration_queue.remove(&(expiration, key));
        }
        s.approvals.remove(&key);
    } else {
        s.approvals.insert(key, (new_amount, expiration));
    }

    Ok(())
''', '''    match new_amount {
        0 => {
            s.approvals.remove(&key);
            if expiration != 0 {
                s.expiration_queue.remove(&(expiration, key));
            }
        }
        left => {
            s.approvals.insert(key, (left, expiration));
        }
    }

    Ok(())
''', "C06 C07 C08 C10")
e("supply-map", S, '''        let mut total_supply = 0;
        for (_, balance) in balances.iter() {
            total_supply += balance;
        }
        total_supply
''', '''        balances.iter().map(|(_, balance)| balance).sum()
''', "C23")
e("compute-if-let", S, '''        let mut hash_tree = RbTree::new();
        let n = blocks.len();
        if n == 0 {
            return (None, hash_tree);
        }
        let last_block_hash = blocks.get(n - 1).unwrap().to_owned().hash();
        populate_last_block_hash_and_hash_tree(&mut hash_tree, n - 1, last_block_hash);
        (Some(last_block_hash), hash_tree)
''', '''        let mut hash_tree = RbTree::new();
        let last = blocks.len().checked_sub(1);
        let phash = last.map(|index| {
            let hash = blocks.get(index).unwrap().to_owned().hash();
            populate_last_block_hash_and_hash_tree(&mut hash_tree, index, hash);
            hash
        });
        (phash, hash_tree)
''', "C23 C04")
# ---- fifth batch: types with methods, traits, generics, closures, patterns
e("payment-type", S, '''pub async fn withdraw(
    from: Account,''', '''/// An amount together with the accounts that pay for it.
#[derive(Clone, Copy)]
struct Payment {
    from: Account,
    spender: Option<Account>,
    total: u128,
}

impl Payment {
    fn new(from: Account, spender: Option<Account>, amount: u128) -> Option<Self> {
        amount.checked_add(config::FEE).map(|total| Self {
            from,
            spender,
            total,
        })
    }

    /// The spender, if it is not the payer itself.
    fn delegate(&self) -> Option<Account> {
        match self.spender {
            Some(spender) if spender != self.from => Some(spender),
            _ => None,
        }
    }

    fn settle(&self, now: u64) -> anyhow::Result<()> {
        if let Some(spender) = self.delegate() {
            mutate_state(|state| use_allowance(state, &self.from, &spender, self.total, now))
                .map_err(|err| anyhow!(err))?;
        }
        mutate_state(|state| state.debit(&self.from, self.total)).map(|_| ())
    }
}

pub async fn withdraw(
    from: Account,''', "C13 C06 C07 C01 C31 C15")
e("payment-type", S, '''    check_duplicate(&transaction)?;

    // if `amount` + `fee` overflows then the user doesn't have enough funds
    let Some(amount_with_fee) = amount.checked_add(config::FEE) else {
        return Err(InsufficientFunds {
            balance: balance_of(&from).into(),
        });
    };

    // check allowance
    let mut old_expires_at = None;
    if let Some(spender) = spender {
        if spender != from {
            let (_, expiry) =
                read_state(|state| check_allowance(state, &from, &spender, amount_with_fee, now))?;
            if expiry > 0 {
                old_expires_at = Some(expiry);
            }
        }
    }

    // check that the `from` account has enough funds
    read_state(|state| state.check_debit_from_account(&from, amount_with_fee)).map_err(
        |balance| InsufficientFunds {''', '''    check_duplicate(&transaction)?;

    // if `amount` + `fee` overflows then the user doesn't have enough funds
    let Some(payment) = Payment::new(from, spender, amount) else {
        return Err(InsufficientFunds {
            balance: balance_of(&from).into(),
        });
    };
    let amount_with_fee = payment.total;

    // check allowance
    let mut old_expires_at = None;
    if let Some(spender) = payment.delegate() {
        let (_, expiry) =
            read_state(|state| check_allowance(state, &from, &spender, amount_with_fee, now))?;
        if expiry > 0 {
            old_expires_at = Some(expiry);
        }
    }

    // check that the `from` account has enough funds
    read_state(|state| state.check_debit_from_account(&from, amount_with_fee)).map_err(
        |balance| InsufficientFunds {''')
e("payment-type", S, '''    if let Some(spender) = spender {
        if spender != from {
            if let Err(err) =
                mutate_state(|state| use_allowance(state, &from, &spender, amount_with_fee, now))
            {
                let err =
                    anyhow!(err).context(format!("Unable to perform withdraw: {:?}", transaction));
                ic_cdk::trap(format!("{err:#}"));
            };
        }
    }

    if let Err(err) = mutate_state(|state| state.debit(&from, amount_with_fee)) {
        let err = err.context(format!("Unable to perform withdraw: {:?}", transaction));
        ic_cdk::trap(format!("{err:#}"))
    };
''', '''    if let Err(err) = payment.settle(now) {
        let err = err.context(format!("Unable to perform withdraw: {:?}", transaction));
        ic_cdk::trap(format!("{err:#}"))
    };
''')
e("nat-trait", M, '''fn execute_transfer(
''', '''trait FitsU128 {
    fn fits(&self) -> Option<u128>;
}

impl FitsU128 for Nat {
    fn fits(&self) -> Option<u128> {
        self.0.to_u128()
    }
}

fn execute_transfer(
''', "C25 C31 C05 C08")
e("nat-trait", M, '''    let Some(amount) = amount.0.to_u128() else {
        return Err(TransferFromError::InsufficientFunds {
            balance: Nat::from(storage::balance_of(&from)),
        });
    };

    let suggested_fee = match fee {
        Some(fee) => match fee.0.to_u128() {''', '''    let Some(amount) = amount.fits() else {
        return Err(TransferFromError::InsufficientFunds {
            balance: Nat::from(storage::balance_of(&from)),
        });
    };

    let suggested_fee = match fee {
        Some(fee) => match fee.fits() {''')
e("nat-trait", M, '''        args.amount.0.to_u128().unwrap_or(u128::MAX),
''', '''        args.amount.fits().unwrap_or(u128::MAX),
''')
e("nat-generic", M, '''fn execute_transfer(
''', '''fn to_u128_or<E>(nat: &Nat, error: impl FnOnce() -> E) -> Result<u128, E> {
    nat.0.to_u128().ok_or_else(error)
}

fn execute_transfer(
''', "C25 C31 C05 C08 C13")
e("nat-generic", M, '''    let Some(amount) = amount.0.to_u128() else {
        return Err(TransferFromError::InsufficientFunds {
            balance: Nat::from(storage::balance_of(&from)),
        });
    };

    let suggested_fee = match fee {
        Some(fee) => match fee.0.to_u128() {
            None => {
                return Err(TransferFromError::BadFee {
                    expected_fee: Nat::from(config::FEE),
                })
            }
            Some(fee) => Some(fee),
        },
        None => None,
    };
''', '''    let amount = to_u128_or(&amount, || TransferFromError::InsufficientFunds {
        balance: Nat::from(storage::balance_of(&from)),
    })?;

    let suggested_fee = fee
        .map(|fee| {
            to_u128_or(&fee, || TransferFromError::BadFee {
                expected_fee: Nat::from(config::FEE),
            })
        })
        .transpose()?;
''')
e("nat-generic", M, '''    let Some(amount) = amount.0.to_u128() else {
        return Err(WithdrawFromError::InsufficientFunds {
            balance: Nat::from(balance_of(&from)),
        });
    };
''', '''    let amount = to_u128_or(&amount, || WithdrawFromError::InsufficientFunds {
        balance: Nat::from(balance_of(&from)),
    })?;
''')
e("blocks-labelled", S, '''        let remaining_length = max_length.saturating_sub(blocks.len() as u64);
        if remaining_length == 0 {
            break;
        }
        let start''', '''        if blocks.len() as u64 >= max_length {
            break;
        }
        let remaining_length = max_length - blocks.len() as u64;
        let start''', "C18")
e("blocks-closure", S, '''        read_state(|state| {
            for id in start..end_excluded {
                let block = state
                    .blocks
                    .get(id)
                    .unwrap_or_else(|| panic!("Bug: unable to find block at index {}!", id))
                    .0
                    .to_value();
                let block_with_id = BlockWithId {
                    id: Nat::from(id),
                    block,
                };
                blocks.push(block_with_id);
            }
        });
''', '''        let load = |id: u64| {
            read_state(|state| state.blocks.get(id))
                .unwrap_or_else(|| panic!("Bug: unable to find block at index {}!", id))
                .0
        };
        for id in start..end_excluded {
            blocks.push(BlockWithId {
                id: id.into(),
                block: load(id).to_value(),
            });
        }
''', "C18")
e("prune-loop-break", S, '''    let mut pruned = 0;
    for _ in 0..limit {
        match s.expiration_queue.first_key_value() {
            None => break,
            Some((key, _)) if key.0 > now => break,
            Some((key, _value)) => {
                if s.approvals.remove(&key.1).is_none() {
                    log!(P0, "Unable to find the approval for {:?}", key.1,)
                }
                s.expiration_queue.remove(&key);
                pruned += 1;
            }
        }
    }
    if pruned''', '''    let mut pruned = 0;
    for _ in 0..limit {
        let Some(((expires_at, pair), ())) = s.expiration_queue.first_key_value() else {
            break;
        };
        if expires_at > now {
            break;
        }
        s.expiration_queue.remove(&(expires_at, pair));
        match s.approvals.remove(&pair) {
            Some(_) => (),
            None => log!(P0, "Unable to find the approval for {:?}", pair),
        }
        pruned += 1;
    }
    if pruned''', "C10 C09 C07 C06")
e("approvals-methods", S, '''impl State {
''', '''impl State {
    fn approval(&self, key: &ApprovalKey) -> Option<(u128, u64)> {
        self.approvals.get(key)
    }

    fn drop_approval(&mut self, key: ApprovalKey, expiration: u64) {
        if expiration > 0 {
            self.expiration_queue.remove(&(expiration, key));
        }
        self.approvals.remove(&key);
    }

    fn put_approval(&mut self, key: ApprovalKey, amount: u128, expiration: u64) {
        self.approvals.insert(key, (amount, expiration));
    }

''', "C06 C07 C08 C10 C16")
e("approvals-methods", S, '''        Some((_, current_expiration)) => {
            if amount == 0 {
                if current_expiration > 0 {
                    s.expiration_queue.remove(&(current_expiration, key));
                }
                s.approvals.remove(&key);
                return;
            }
            s.approvals.insert(key, (amount, expires_at));
''', '''        Some((_, current_expiration)) => {
            if amount == 0 {
                s.drop_approval(key, current_expiration);
                return;
            }
            s.put_approval(key, amount, expires_at);
''')
e("approvals-methods", S, '''    let (current_allowance, current_expiration) = s
        .approvals
        .get(&key)
        .ok_or(''', '''    let (current_allowance, current_expiration) = s
        .approval(&key)
        .ok_or(''')
e("approvals-methods", S, '''    if new_amount == 0 {
        if expiration > 0 {
            s.expiration_queue.remove(&(expiration, key));
        }
        s.approvals.remove(&key);
    } else {
        s.approvals.insert(key, (new_amount, expiration));
    }
''', '''    if new_amount == 0 {
        s.drop_approval(key, expiration);
    } else {
        s.put_approval(key, new_amount, expiration);
    }
''')
e("operation-methods", S, '''fn effective_fee(op: &Operation) -> Option<u128> {
    use Operation as Op;

    match op {
        Op::Mint { .. } => Some(0),
        Op::Burn { .. } => Some(config::FEE),
        Op::Transfer { fee, .. } | Op::Approve { fee, .. } => fee.is_none().then_some(config::FEE),
    }
}
''', '''impl Operation {
    fn stated_fee(&self) -> Option<u128> {
        match self {
            Self::Transfer { fee, .. } | Self::Approve { fee, .. } => *fee,
            Self::Mint { .. } | Self::Burn { .. } => None,
        }
    }

    fn is_mint(&self) -> bool {
        matches!(self, Self::Mint { .. })
    }
}

fn effective_fee(op: &Operation) -> Option<u128> {
    if op.is_mint() {
        return Some(0);
    }
    match op.stated_fee() {
        Some(_) => None,
        None => Some(config::FEE),
    }
}
''', "C27 C02 C01 C05 C08")
e("refund-enum", S, '''// Reimburse an account with a given amount
// This panics''', '''/// How the payer of a failed call was compensated.
enum Refund {
    Nothing,
    Balance(u64),
    BalanceAndApproval(u64, Nat),
}

impl Refund {
    fn blocks(self) -> (Option<Nat>, Option<Nat>) {
        match self {
            Refund::Nothing => (None, None),
            Refund::Balance(block) => (Some(Nat::from(block)), None),
            Refund::BalanceAndApproval(block, approval) => (Some(Nat::from(block)), Some(approval)),
        }
    }
}

fn refund(
    from: Account,
    spender: Option<Account>,
    returned: u128,
    old_expires_at: Option<u64>,
    now: u64,
    memo: [u8; MAX_MEMO_LENGTH as usize],
) -> Refund {
    // subtract the fee to pay for the reimburse block
    let amount = returned.saturating_sub(config::FEE);
    if amount == 0 {
        return Refund::Nothing;
    }
    let block = match reimburse(from, amount, now, memo) {
        Ok(block) => block,
        // this is a critical error that should not
        // happen because minting should never fail.
        Err(err) => ic_cdk::trap(format!("Unable to reimburse caller: {}", err)),
    };
    prune(now);
    let still_valid = match old_expires_at {
        Some(expiry) => now < expiry,
        None => true,
    };
    match spender {
        Some(spender) if spender != from && amount > config::FEE && still_valid => {
            match reimburse_approval(from, spender, amount - config::FEE, old_expires_at, now) {
                Ok(approval) => Refund::BalanceAndApproval(block, approval),
                Err(err) => ic_cdk::trap(format!("Unable to reimburse approval: {:#?}", err)),
            }
        }
        _ => Refund::Balance(block),
    }
}

// Reimburse an account with a given amount
// This panics''')
e("refund-enum", S, '''        // subtract the fee to pay for the reimburse block
        let amount_to_reimburse = amount.saturating_sub(config::FEE);
        if amount_to_reimburse.is_zero() {
            return Err(FailedToWithdrawFrom {
                withdraw_from_block: Some(block_index.into()),
                refund_block: None,
                approval_refund_block: None,
                rejection_code,
                rejection_reason,
            });
        }
        match reimburse(from, amount_to_reimburse, now, PENALIZE_MEMO) {
            Ok(fee_block) => {
                prune(now);
                if let Some(spender) = spender {
                    let approval_still_valid =
                        old_expires_at.map(|expiry| now < expiry).unwrap_or(true);
                    // charge FEE for every block: withdraw attempt, refund, refund approval
                    if spender != from && amount > 2 * config::FEE && approval_still_valid {
                        match reimburse_approval(
                            from,
                            spender,
                            amount_to_reimburse.saturating_sub(config::FEE),
                            old_expires_at,
                            now,
                        ) {
                            Ok(approval_refund_block) => {
                                return Err(FailedToWithdrawFrom {
                                    withdraw_from_block: Some(block_index.into()),
                                    refund_block: Some(Nat::from(fee_block)),
                                    approval_refund_block: Some(approval_refund_block),
                                    rejection_code,
                                    rejection_reason,
                                });
                            }
                            Err(err) => {
                                // this is a critical error that should not
                                // happen because approving should never fail.
                                ic_cdk::trap(format!("Unable to reimburse approval: {:#?}", err));
                            }
                        }
                    }
                }
                return Err(FailedToWithdrawFrom {
                    withdraw_from_block: Some(block_index.into()),
                    refund_block: Some(Nat::from(fee_block)),
                    approval_refund_block: None,
                    rejection_code,
                    rejection_reason,
                });
            }
            Err(err) => {
                // this is a critical error that should not
                // happen because minting should never fail.
                ic_cdk::trap(format!("Unable to reimburse caller: {}", err))
            }
        }
    }
''', '''        let (refund_block, approval_refund_block) =
            refund(from, spender, amount, old_expires_at, now, PENALIZE_MEMO).blocks();
        return Err(FailedToWithdrawFrom {
            withdraw_from_block: Some(block_index.into()),
            refund_block,
            approval_refund_block,
            rejection_code,
            rejection_reason,
        });
    }
''', "C13 C16 C15 C01 C31")
e("cmc-async-helper", S, '''    let create_canister_result: Result<
        Result<Principal, CmcCreateCanisterError>,
        ic_cdk::call::Error,
    > = Call::unbounded_wait(CMC_PRINCIPAL, "create_canister")
        .with_arg(argument)
        .with_cycles(amount)
        .await
        .map_err(ic_cdk::call::Error::from)
        .and_then(|response| response.candid().map_err(ic_cdk::call::Error::from));
''', '''    let create_canister_result = call_cmc(argument, amount).await;
''', "C14 C15 C09 C16")
e("cmc-async-helper", S, '''pub async fn create_canister(
''', '''async fn call_cmc(
    argument: CmcCreateCanisterArgs,
    cycles: u128,
) -> Result<Result<Principal, CmcCreateCanisterError>, ic_cdk::call::Error> {
    let response = Call::unbounded_wait(CMC_PRINCIPAL, "create_canister")
        .with_arg(argument)
        .with_cycles(cycles)
        .await?;
    Ok(response.candid()?)
}

pub async fn create_canister(
''')
e("settings-if-let", S, '''    let argument = argument
        .map(|arg| CmcCreateCanisterArgs {
            settings: arg
                .settings
                .map(|settings| CanisterSettings {
                    controllers: Some(
                        settings
                            .controllers
                            .unwrap_or_else(|| vec![ic_cdk::api::msg_caller()]),
                    ),
                    ..settings
                })
                .or_else(|| {
                    Some(CanisterSettings {
                        controllers: Some(vec![ic_cdk::api::msg_caller()]),
                        ..Default::default()
                    })
                }),
            ..arg
        })
        .unwrap_or_else(|| CmcCreateCanisterArgs {
            settings: Some(CanisterSettings {
                controllers: Some(vec![ic_cdk::api::msg_caller()]),
                ..Default::default()
            }),
            subnet_selection: None,
        });
''', '''    let (settings, subnet_selection) = match argument {
        Some(CmcCreateCanisterArgs {
            settings,
            subnet_selection,
        }) => (settings, subnet_selection),
        None => (None, None),
    };
    let mut settings = settings.unwrap_or_default();
    if settings.controllers.is_none() {
        settings.controllers = Some(vec![ic_cdk::api::msg_caller()]);
    }
    let argument = CmcCreateCanisterArgs {
        settings: Some(settings),
        subnet_selection,
    };
''', "C14 C15 C16")
e("settings-get-or-insert", S, '''    let argument = argument
        .map(|arg| CmcCreateCanisterArgs {
            settings: arg
                .settings
                .map(|settings| CanisterSettings {
                    controllers: Some(
                        settings
                            .controllers
                            .unwrap_or_else(|| vec![ic_cdk::api::msg_caller()]),
                    ),
                    ..settings
                })
                .or_else(|| {
                    Some(CanisterSettings {
                        controllers: Some(vec![ic_cdk::api::msg_caller()]),
                        ..Default::default()
                    })
                }),
            ..arg
        })
        .unwrap_or_else(|| CmcCreateCanisterArgs {
            settings: Some(CanisterSettings {
                controllers: Some(vec![ic_cdk::api::msg_caller()]),
                ..Default::default()
            }),
            subnet_selection: None,
        });
''', '''    let mut argument = argument.unwrap_or(CmcCreateCanisterArgs {
        settings: None,
        subnet_selection: None,
    });
    argument
        .settings
        .get_or_insert_with(Default::default)
        .controllers
        .get_or_insert_with(|| vec![ic_cdk::api::msg_caller()]);
''', "C14 C15 C16")
e("iife-checks", S, '''    // sanity check that the `to` account balance won't overflow
    read_state(|state| state.check_credit_to_account(&to, amount))
        .map_err(transfer_from::anyhow_error)?;

    // sanity check that the total_supply won't underflow
    read_state(|state| state.check_total_supply_decrease(config::FEE))
        .with_context(|| {
            format!(
                "Unable to transfer {} cycles from {} to {} (spender: {:?})",
                amount, from, to, spender
            )
        })
        .map_err(transfer_from::anyhow_error)?;
''', '''    // sanity checks that the `to` account balance won't overflow and the total_supply won't underflow
    read_state(|state| -> anyhow::Result<()> {
        state.check_credit_to_account(&to, amount)?;
        state
            .check_total_supply_decrease(config::FEE)
            .with_context(|| {
                format!(
                    "Unable to transfer {} cycles from {} to {} (spender: {:?})",
                    amount, from, to, spender
                )
            })?;
        Ok(())
    })
    .map_err(transfer_from::anyhow_error)?;
''', "C01 C05 C06 C25 C31")
e("withdraw-tuple-match", S, '''    let mut old_expires_at = None;
    if let Some(spender) = spender {
        if spender != from {
            let (_, expiry) =
                read_state(|state| check_allowance(state, &from, &spender, amount_with_fee, now))?;
            if expiry > 0 {
                old_expires_at = Some(expiry);
            }
        }
    }

    // check that the `from` account has enough funds
    read_state(|state| state.check_debit_from_account(&from, amount_with_fee)).map_err(
        |balance| InsufficientFunds {''', '''    let old_expires_at = match spender {
        None => None,
        Some(spender) if spender == from => None,
        Some(spender) => {
            match read_state(|state| {
                check_allowance(state, &from, &spender, amount_with_fee, now)
            })? {
                (_, 0) => None,
                (_, expiry) => Some(expiry),
            }
        }
    };

    // check that the `from` account has enough funds
    read_state(|state| state.check_debit_from_account(&from, amount_with_fee)).map_err(
        |balance| InsufficientFunds {''', "C13 C07 C16 C15 C31")
e("reject-binding", S, '''fn call_error_to_reject(err: ic_cdk::call::Error) -> (RejectionCode, String) {
    match err {
        ic_cdk::call::Error::InsufficientLiquidCycleBalance(_) => {
            (RejectionCode::SysTransient, err.to_string())
        }
        ic_cdk::call::Error::CallPerformFailed(_) => (RejectionCode::SysTransient, err.to_string()),
''', '''fn call_error_to_reject(err: ic_cdk::call::Error) -> (RejectionCode, String) {
    match err {
        ic_cdk::call::Error::InsufficientLiquidCycleBalance(_)
        | ic_cdk::call::Error::CallPerformFailed(_) => {
            (RejectionCode::SysTransient, err.to_string())
        }
''', "C13 C14 C22 C15")
e("penalty-const-fn", S, '''pub fn validate_created_at_time(
    created_at_time: &Option<u64>,
    now: u64,
) -> Result<(), CreatedAtTimeValidationError> {
    let Some(created_at_time) = created_at_time else {
        return Ok(());
    };
    if created_at_time
        .saturating_add(config::TRANSACTION_WINDOW.as_nanos() as u64)
        .saturating_add(config::PERMITTED_DRIFT.as_nanos() as u64)
        < now
    {
        return Err(CreatedAtTimeValidationError::TooOld);
    }

    if created_at_time > &now.saturating_add(config::PERMITTED_DRIFT.as_nanos() as u64) {
        return Err(CreatedAtTimeValidationError::InTheFuture { ledger_time: now });
    }
    Ok(())
}
''', '''const fn nanos(d: std::time::Duration) -> u64 {
    d.as_nanos() as u64
}

const WINDOW_NANOS: u64 = nanos(config::TRANSACTION_WINDOW);
const DRIFT_NANOS: u64 = nanos(config::PERMITTED_DRIFT);

pub fn validate_created_at_time(
    created_at_time: &Option<u64>,
    now: u64,
) -> Result<(), CreatedAtTimeValidationError> {
    use CreatedAtTimeValidationError::{InTheFuture, TooOld};

    match *created_at_time {
        Some(t) if t.saturating_add(WINDOW_NANOS).saturating_add(DRIFT_NANOS) < now => Err(TooOld),
        Some(t) if t > now.saturating_add(DRIFT_NANOS) => Err(InTheFuture { ledger_time: now }),
        Some(_) | None => Ok(()),
    }
}
''', "C12 C11 C31")
e("approve-request", M, '''    let block_index = storage::approve(
        from,
        args.spender,
        args.amount.0.to_u128().unwrap_or(u128::MAX),
        args.memo,
        now,
        args.created_at_time,
        suggested_fee,
        expected_allowance,
        args.expires_at,
    )?;

    prune(now);

    Ok(block_index)
''', '''    let ApproveArgs {
        spender,
        amount,
        memo,
        created_at_time,
        expires_at,
        ..
    } = args;
    let amount = match amount.0.to_u128() {
        Some(amount) => amount,
        None => u128::MAX,
    };
    storage::approve(
        from,
        spender,
        amount,
        memo,
        now,
        created_at_time,
        suggested_fee,
        expected_allowance,
        expires_at,
    )
    .inspect(|_| prune(now))
''', "C08 C25 C31 C06")
e("caller-from", M, '''fn execute_transfer(
''', '''struct Caller(Principal);

impl Caller {
    fn current() -> Self {
        Self(ic_cdk::api::msg_caller())
    }

    fn account(self, subaccount: Option<[u8; 32]>) -> Account {
        Account {
            owner: self.0,
            subaccount,
        }
    }
}

fn execute_transfer(
''', "C07 C13 C31 C05")
e("caller-from", M, '''    let spender = Account {
        owner: ic_cdk::api::msg_caller(),
        subaccount: args.spender_subaccount,
    };
    execute_transfer(''', '''    let spender = Caller::current().account(args.spender_subaccount);
    execute_transfer(''')
e("caller-from", M, '''    let spender = Account {
        owner: ic_cdk::api::msg_caller(),
        subaccount: args.spender_subaccount,
    };
    execute_withdraw(''', '''    let spender = Caller::current().account(args.spender_subaccount);
    execute_withdraw(''')
e("take-match", M, '''    let max_results = arg
        .take
        .map(|take| take.0.to_u64().unwrap_or(config::MAX_TAKE_ALLOWANCES))
        .map(|take| std::cmp::min(take, config::MAX_TAKE_ALLOWANCES))
        .unwrap_or(config::MAX_TAKE_ALLOWANCES);
''', '''    let max_results = match arg.take.and_then(|take| take.0.to_u64()) {
        Some(take @ 0..=config::MAX_TAKE_ALLOWANCES) => take,
        _ => config::MAX_TAKE_ALLOWANCES,
    };
''', "C19")
e("allowances-skip-while", S, '''            if spender.is_some() && account_spender == start_account_spender {
                continue;
            }
            if result.len() >= max_results as usize {
                break;
            }
            let (from_account, to_spender) = to_account_pair(&account_spender);
            if from_account.owner != from.owner {
                break;
            }
            if expiration > 0 && expiration <= now {
                continue;
            }
            let expires_at = match expiration {
                0 => None,
                _ => Some(expiration),
            };
''', '''            let is_previous = spender.is_some() && account_spender == start_account_spender;
            let (from_account, to_spender) = to_account_pair(&account_spender);
            if !is_previous
                && (result.len() >= max_results as usize || from_account.owner != from.owner)
            {
                break;
            }
            let is_expired = (1..=now).contains(&expiration);
            if is_previous || is_expired {
                continue;
            }
            let expires_at = Some(expiration).filter(|expiration| *expiration != 0);
''', "C19 C09")
e("tip-and-then", S, '''    pub fn check_credit(&self, account: &Account, amount: u128) -> anyhow::Result<()> {
''', '''    #[inline]
    pub fn check_credit(&self, account: &Account, amount: u128) -> anyhow::Result<()> {
        debug_assert!(self.total_supply() == self.cache.total_supply);
''', "C01 C17")
e("mint-question", S, '''    if let Err(err) = read_state(|state| state.check_credit(&to, amount)) {
        // This should not happen as the number of total cycles
        // a canister can deposit should never exceed the max.
        // If this happens then the error is logged and returned
        // to the caller.
        let err = err.context(format!("Unable to mint {} cycles to {}", amount, to));
        log!(P0, "{:#}", err);
        return Err(err);
    }
''', '''    // This should not happen as the number of total cycles
    // a canister can deposit should never exceed the max.
    // If this happens then the error is logged and returned
    // to the caller.
    read_state(|state| state.check_credit(&to, amount))
        .with_context(|| format!("Unable to mint {} cycles to {}", amount, to))
        .inspect_err(|err| log!(P0, "{:#}", err))?;
''', "C01 C17 C29")

# ---- sixth batch: named closures, nested items, local macros
e("transfer-closures", S, '''    // check that no account is owned by a denied principal
    if is_denied_account(&from.owner) {
        return Err(transfer_from::denied_owner(from));
    }
    if is_denied_account(&to.owner) {
        return Err(transfer_from::denied_owner(to));
    }
    if let Some(spender) = spender {
        if is_denied_account(&spender.owner) {
            return Err(transfer_from::denied_owner(spender));
        }
    }

    // BadFee''', '''    // check that no account is owned by a denied principal
    let check_owner = |account: Account| {
        if is_denied_account(&account.owner) {
            Err(transfer_from::denied_owner(account))
        } else {
            Ok(())
        }
    };
    check_owner(from)?;
    check_owner(to)?;
    if let Some(spender) = spender {
        check_owner(spender)?;
    }
    let insufficient_funds = |balance: u128| InsufficientFunds {
        balance: Nat::from(balance),
    };

    // BadFee''', "C01 C20 C31 C03")
e("transfer-closures", S, '''    let Some(amount_with_fee) = amount.checked_add(config::FEE) else {
        return Err(InsufficientFunds {
            balance: balance_of(&from).into(),
        });
    };

    // check allowance
    if let Some(spender) = spender {
        if spender != from {
            read_state(|state| check_allowance(state, &from, &spender, amount_with_fee, now))?;
        }
    }

    // Check that the `from` account has enough funds
    read_state(|state| state.check_debit_from_account(&from, amount_with_fee)).map_err(
        |balance| TransferFromError::InsufficientFunds {
            balance: balance.into(),
        },
    )?;
''', '''    let Some(amount_with_fee) = amount.checked_add(config::FEE) else {
        return Err(insufficient_funds(balance_of(&from)));
    };

    // check allowance
    if let Some(spender) = spender {
        if spender != from {
            read_state(|state| check_allowance(state, &from, &spender, amount_with_fee, now))?;
        }
    }

    // Check that the `from` account has enough funds
    read_state(|state| state.check_debit_from_account(&from, amount_with_fee))
        .map_err(insufficient_funds)?;
''')
e("state-nested-fn", S, '''    pub fn credit(&mut self, account: &Account, amount: u128) -> anyhow::Result<u128> {
        let account_key = to_account_key(account);
        let old_balance = self.balances.get(&account_key).unwrap_or_default();
        let new_balance = old_balance
            .checked_add(amount)
            .context("Overflow while changing the account balance")?;
        self.cache.total_supply = self
            .total_supply()
            .checked_add(amount)
            .context("Overflow while changing the total supply")?;
''', '''    pub fn credit(&mut self, account: &Account, amount: u128) -> anyhow::Result<u128> {
        fn add(value: u128, amount: u128, what: &str) -> anyhow::Result<u128> {
            value
                .checked_add(amount)
                .with_context(|| format!("Overflow while changing the {what}"))
        }

        let account_key = to_account_key(account);
        let old_balance = self.balances.get(&account_key).unwrap_or_default();
        let new_balance = add(old_balance, amount, "account balance")?;
        self.cache.total_supply = add(self.total_supply(), amount, "total supply")?;
''', "C01 C02 C25")
e("record-closures", S, '''    let expires_at = expires_at.unwrap_or(0);

    match s.approvals.get(&key) {
        None => {
            if amount == 0 {
                log!(P0, "[record_approval]: amount was set to 0");
                return;
            }
            if expires_at > 0 {
                s.expiration_queue.insert((expires_at, key), ());
            }
            s.approvals.insert(key, (amount, expires_at));
        }
        Some((_, current_expiration)) => {
            if amount == 0 {
                if current_expiration > 0 {
                    s.expiration_queue.remove(&(current_expiration, key));
                }
                s.approvals.remove(&key);
                return;
            }
            s.approvals.insert(key, (amount, expires_at));
            if expires_at != current_expiration {
                if current_expiration > 0 {
                    s.expiration_queue.remove(&(current_expiration, key));
                }
                if expires_at > 0 {
                    s.expiration_queue.insert((expires_at, key), ());
                }
            }
        }
    }
''', '''    let expires_at = expires_at.unwrap_or(0);

    let enqueue = |s: &mut State, expiration: u64| {
        if expiration > 0 {
            s.expiration_queue.insert((expiration, key), ());
        }
    };
    let dequeue = |s: &mut State, expiration: u64| {
        if expiration > 0 {
            s.expiration_queue.remove(&(expiration, key));
        }
    };

    let current = s.approvals.get(&key);
    if current.is_none() && amount == 0 {
        log!(P0, "[record_approval]: amount was set to 0");
        return;
    }
    let current_expiration = current.map(|(_, expiration)| expiration).unwrap_or(0);
    if amount == 0 {
        dequeue(s, current_expiration);
        s.approvals.remove(&key);
        return;
    }
    s.approvals.insert(key, (amount, expires_at));
    if expires_at != current_expiration {
        dequeue(s, current_expiration);
        enqueue(s, expires_at);
    }
''', "C08 C09 C10 C05")
e("allowances-closures", S, '''    let mut result = vec![];
    let start_account_spender = match spender {''', '''    let is_expired = |expiration: u64| expiration > 0 && expiration <= now;
    let to_expires_at = |expiration: u64| (expiration > 0).then_some(expiration);
    let mut result = vec![];
    let start_account_spender = match spender {''', "C19 C05")
e("allowances-closures", S, '''            if expiration > 0 && expiration <= now {
                continue;
            }
            let expires_at = match expiration {
                0 => None,
                _ => Some(expiration),
            };
            result.push(Allowance {
                from_account,
                to_spender,
                allowance: Nat::from(allowance_amount),
                expires_at,
            });''', '''            if is_expired(expiration) {
                continue;
            }
            result.push(Allowance {
                from_account,
                to_spender,
                allowance: Nat::from(allowance_amount),
                expires_at: to_expires_at(expiration),
            });''')
e("created-at-closure", S, '''    let Some(created_at_time) = created_at_time else {
        return Ok(());
    };
    if created_at_time
        .saturating_add(config::TRANSACTION_WINDOW.as_nanos() as u64)
        .saturating_add(config::PERMITTED_DRIFT.as_nanos() as u64)
        < now
    {
        return Err(CreatedAtTimeValidationError::TooOld);
    }

    if created_at_time > &now.saturating_add(config::PERMITTED_DRIFT.as_nanos() as u64) {
        return Err(CreatedAtTimeValidationError::InTheFuture { ledger_time: now });
    }
    Ok(())
''', '''    let with_drift = |time: u64| time.saturating_add(config::PERMITTED_DRIFT.as_nanos() as u64);
    let window = config::TRANSACTION_WINDOW.as_nanos() as u64;
    match *created_at_time {
        None => Ok(()),
        Some(time) if with_drift(time.saturating_add(window)) < now => {
            Err(CreatedAtTimeValidationError::TooOld)
        }
        Some(time) if time > with_drift(now) => {
            Err(CreatedAtTimeValidationError::InTheFuture { ledger_time: now })
        }
        Some(_) => Ok(()),
    }
''', "C04 C31 C20")
e("approve-nested-fn", M, '''    let expected_allowance = match args.expected_allowance {
        Some(n) => match n.0.to_u128() {
            None => {
                return Err(ApproveError::AllowanceChanged {
                    current_allowance: Nat::from(storage::allowance(&from, &args.spender, now).0),
                })
            }
            Some(n) => Some(n),
        },
        None => None,
    };
    let suggested_fee = match args.fee {
        Some(fee) => match fee.0.to_u128() {
            None => {
                return Err(ApproveError::BadFee {
                    expected_fee: Nat::from(config::FEE),
                })
            }
            Some(fee) => Some(fee),
        },
        None => None,
    };
''', '''    fn to_u128(n: Option<Nat>, error: impl FnOnce() -> ApproveError) -> Result<Option<u128>, ApproveError> {
        match n {
            None => Ok(None),
            Some(n) => n.0.to_u128().ok_or_else(error).map(Some),
        }
    }

    let expected_allowance = to_u128(args.expected_allowance, || ApproveError::AllowanceChanged {
        current_allowance: Nat::from(storage::allowance(&from, &args.spender, now).0),
    })?;
    let suggested_fee = to_u128(args.fee, || ApproveError::BadFee {
        expected_fee: Nat::from(config::FEE),
    })?;
''', "C05 C08 C31 C25")
e("blocks-nested-struct", S, '''    let log_length = read_state(|state| state.blocks.len());
    let max_length = read_state(|state| state.config.get().max_blocks_per_request);
    let mut blocks = Vec::new();
    for GetBlocksArg { start, length } in args {
        let remaining_length = max_length.saturating_sub(blocks.len() as u64);
        if remaining_length == 0 {
            break;
        }
''', '''    struct Limits {
        log_length: u64,
        max_length: u64,
    }

    impl Limits {
        fn current() -> Self {
            read_state(|state| Self {
                log_length: state.blocks.len(),
                max_length: state.config.get().max_blocks_per_request,
            })
        }

        fn remaining(&self, used: usize) -> u64 {
            self.max_length.saturating_sub(used as u64)
        }
    }

    let limits = Limits::current();
    let log_length = limits.log_length;
    let mut blocks = Vec::new();
    for GetBlocksArg { start, length } in args {
        let remaining_length = limits.remaining(blocks.len());
        if remaining_length == 0 {
            break;
        }
''', "C18 C17")
e("check-allowance-closure", S, '''    let (current_allowance, current_expiration) = s
        .approvals
        .get(&key)
        .ok_or(InsufficientAllowance { allowance: 0 })?;

    if !(current_expiration == 0 || current_expiration > now) {
        return Err(ExpiredApproval);
    }

    let new_allowance = current_allowance
        .checked_sub(amount)
        .ok_or(InsufficientAllowance {
            allowance: current_allowance,
        })?;

    Ok((new_allowance, current_expiration))
''', '''    let insufficient = |allowance| InsufficientAllowance { allowance };
    let Some((allowance, expiration)) = s.approvals.get(&key) else {
        return Err(insufficient(0));
    };
    let live = || expiration == 0 || expiration > now;

    if !live() {
        return Err(ExpiredApproval);
    }

    let left = allowance.checked_sub(amount).ok_or_else(|| insufficient(allowance))?;

    Ok((left, expiration))
''', "C06 C05 C31")
e("penalize-closure", S, '''    let balance = balance_of(from);

    mutate_state(|s| {
        if balance < crate::config::FEE {''', '''    let balance = balance_of(from);

    let make_block = |phash: Option<Hash>| Block {
        transaction: Transaction {
            operation: Operation::Burn {
                from: *from,
                spender: None,
                amount: crate::config::FEE,
            },
            memo: Some(Memo(ByteBuf::from(PENALIZE_MEMO))),
            created_at_time: None,
        },
        timestamp: now,
        phash,
        effective_fee: Some(0),
    };
    let apply = |s: &mut State| {
        if balance < crate::config::FEE {''', "C01 C02 C13 C21")
e("penalize-closure", S, '''        let phash = s.last_block_hash();
        let block_hash = s.emit_block(Block {
            transaction: Transaction {
                operation: Operation::Burn {
                    from: *from,
                    spender: None,
                    amount: crate::config::FEE,
                },
                memo: Some(Memo(ByteBuf::from(PENALIZE_MEMO))),
                created_at_time: None,
            },
            timestamp: now,
            phash,
            effective_fee: Some(0),
        });
        Some((BlockIndex::from(s.blocks.len() - 1), block_hash))
    })
}
''', '''        let block_hash = s.emit_block(make_block(s.last_block_hash()));
        Some((BlockIndex::from(s.blocks.len() - 1), block_hash))
    };
    mutate_state(apply)
}
''')
e("check-debit-trait", S, '''impl State {
    pub fn last_block_hash(&self) -> Option<Hash> {''', '''/// Read access to balances.
trait Funds {
    fn balance(&self, account: &Account) -> u128;

    fn after_credit(&self, account: &Account, amount: u128) -> Option<u128> {
        self.balance(account).checked_add(amount)
    }

    fn after_debit(&self, account: &Account, amount: u128) -> Result<u128, u128> {
        let balance = self.balance(account);
        balance.checked_sub(amount).ok_or(balance)
    }
}

impl Funds for State {
    fn balance(&self, account: &Account) -> u128 {
        self.balances
            .get(&to_account_key(account))
            .unwrap_or_default()
    }
}

impl State {
    pub fn last_block_hash(&self) -> Option<Hash> {''', "C01 C31 C17 C20")
e("check-debit-trait", S, '''        let account_key = to_account_key(account);
        let old_balance = self.balances.get(&account_key).unwrap_or_default();
        old_balance
            .checked_add(amount)
            .context("Overflow while changing the account balance")
''', '''        self.after_credit(account, amount)
            .context("Overflow while changing the account balance")
''')
e("check-debit-trait", S, '''        let account_key = to_account_key(account);
        let old_balance = self.balances.get(&account_key).unwrap_or_default();
        old_balance.checked_sub(amount).ok_or(old_balance)
''', '''        self.after_debit(account, amount)
''')
e("allowance-let-chain", M, '''    let allowance = storage::allowance(&args.account, &args.spender, ic_cdk::api::time());
    let expires_at = if allowance.1 > 0 {
        Some(allowance.1)
    } else {
        None
    };
    Allowance {
        allowance: Nat::from(allowance.0),
        expires_at,
    }
''', '''    struct View(u128, u64);
    impl From<View> for Allowance {
        fn from(View(amount, expiration): View) -> Self {
            Self {
                allowance: amount.into(),
                expires_at: Some(expiration).filter(|at| *at != 0),
            }
        }
    }
    let now = ic_cdk::api::time();
    let (amount, expiration) = storage::allowance(&args.account, &args.spender, now);
    View(amount, expiration).into()
''', "C05 C19")
if __name__ == "__main__":
    if sys.argv[1] == "list":
        for k, v in E.items():
            print(k, v["props"])
    else:
        for f, a, b in E[sys.argv[2]]["edits"]:
            p = sys.argv[3] + "/" + f
            s = open(p).read()
            assert s.count(a) == 1, (sys.argv[2], f, s.count(a), a[:80])
            open(p, "w").write(s.replace(a, b))
