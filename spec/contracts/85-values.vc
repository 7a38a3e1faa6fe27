## ---------------------------------------------------------------- the published form of blocks
#roots C20: storage::Block::to_value storage::Block::hash storage::Transaction::to_value storage::account_to_value
#fn storage::account_to_value(account) r
#ens C18 C20: gv(r) is Array && gv(r)->Array_0 =~= account_gvs(account)
#fn storage::Transaction::to_value(t) r
#ens C18 C20: gv(r) is Map && gv(r)->Map_0 =~= tx_gvs(t)
#fn storage::Block::to_value(b) r
#ens C18 C20: gv(r) is Map && gv(r)->Map_0 =~= block_gvs(b)

## ---------------------------------------------------------------- block queries
#roots C18: storage::get_blocks canister::icrc3_get_blocks storage::Block::to_value
#fn storage::get_blocks(args) r
#locals blocks@1
#ens C18: r.log_length@ == S0.blocks@.len(), serves(S0, r.blocks@, args@, args@.len() as int)
#loop 1 C18: invariant it_1.items() == args@, 0 <= it_1.pos() <= args@.len(), serves(S, acc_1@, args@, it_1.pos())
#loop 2 C18: invariant it_2.items() == its_2@, 0 < it_1.pos() <= args@.len(), 0 <= it_2.pos() <= it_2.items().len(), added(S, acc0_2@, acc_2@, ints(it_2.items(), it_2.pos()))
#fn canister::icrc3_get_blocks(args) r
#ens C18: r.log_length@ == S0.blocks@.len(), serves(S0, r.blocks@, args@, args@.len() as int)
