## ---------------------------------------------------------------- installation and upgrades
#roots C29: canister::init canister::post_upgrade canister::icrc106_get_index_principal canister::icrc1_metadata
#fn canister::init(ledger_args)
#ens C29: ledger_args is Init, S1.config@ == ledger_args->Init_0, installed(S0, S1, initial(ledger_args->Init_0), initial(ledger_args->Init_0).len() as int)
#loop 1 C29: invariant ledger_args is Init, it_1.items() == crate::ext::refseq(initial(ledger_args->Init_0)), installed(S0, S, initial(ledger_args->Init_0), it_1.pos())

#fn canister::post_upgrade(ledger_args)
#ens C23 C29: !(ledger_args is Some && ledger_args->Some_0 is Init), eqM(S0, S1), eqB(S0, S1), eqA(S0, S1), eqD(S0, S1), eqH(S0, S1),
   S1.config@ == upgraded(S0.config@, ledger_args)
#fn from:ChangeIndexId=>Option<Principal>(value) r
#ens C23 C29: r == index_of(value)

## the ledger's state after an upgrade is what the stable structures hold, with the in-memory part rebuilt
#roots C23: storage::__init_state storage::State::compute_total_supply storage::State::compute_last_block_hash_and_hash_tree storage::populate_last_block_hash_and_hash_tree storage::State::last_block_hash storage::State::total_supply canister::post_upgrade config::config_to_bytes config::config_from_bytes config::serde_ser_Config config::serde_de_Config
#fn storage::State::compute_total_supply(balances) r
#locals total_supply@1
#req C23: msum(balances@) <= u128::MAX
#ens C23: r == msum(balances@)
#loop 1 C23: invariant msum(balances@) <= u128::MAX, crate::ext::enumerates(it_1.items(), balances@), total_supply == psum(it_1.items(), it_1.pos()), 0 <= it_1.pos() <= it_1.items().len()

#fn storage::State::compute_last_block_hash_and_hash_tree(blocks) r
#ens C23: r.0 == last_hash(blocks@)
#ens C23: tip_tree(blocks@, r.1@)

#fn storage::__init_state(mm_static) r
#req C23: msum(crate::ext::stable_map::<crate::ext::AKey, u128>(3)) <= u128::MAX
#ens C23: r.blocks@ == crate::ext::stable_seq::<crate::storage::Block>(1, 2)
#ens C23: r.balances@ == crate::ext::stable_map::<crate::ext::AKey, u128>(3)
#ens C23: r.approvals@ == crate::ext::stable_map::<(crate::ext::AKey, crate::ext::AKey), (u128, u64)>(4)
#ens C23: r.expiration_queue@ == crate::ext::stable_map::<(u64, (crate::ext::AKey, crate::ext::AKey)), ()>(5)
#ens C23: r.transaction_hashes@ == crate::ext::stable_map::<[u8; 32], (u64, Option<crate::ext::candid::Principal>)>(6)
#ens C23: r.transaction_timestamps@ == crate::ext::stable_map::<(u64, u64), ()>(7)
#ens C23: crate::ext::stable_cell::<crate::config::Config>(8) is Some ==> r.config@ == crate::ext::stable_cell::<crate::config::Config>(8)->Some_0
#ens C23: supply(r) == msum(r.balances@)
#ens C23: r.cache.phash == last_hash(r.blocks@)
#ens C23: tip_tree(r.blocks@, r.cache.hash_tree@)
