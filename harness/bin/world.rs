#![allow(warnings)]
#[path = "@MAIN@"]
mod canister;
macro_rules! table { ($($id:ident $name:literal),* $(,)?) => {
    extern "Rust" { $( #[link_name = $name] fn $id(); )* }
    const T: &[(&str, engine::raw::Entry)] = &[ $( ($name, $id) ),* ];
} }
table! {
    e01 "canister_init", e02 "canister_post_upgrade",
    e03 "canister_update.deposit", e04 "canister_update.icrc1_transfer", e05 "canister_update.icrc2_transfer_from", e06 "canister_update.icrc2_approve",
    e07 "canister_update.withdraw", e08 "canister_update.withdraw_from", e09 "canister_update.create_canister", e10 "canister_update.create_canister_from",
    e11 "canister_query.icrc1_total_supply", e12 "canister_query.icrc1_metadata", e13 "canister_query.icrc1_fee", e14 "canister_query.icrc1_balance_of",
    e15 "canister_query.icrc106_get_index_principal", e16 "canister_query.http_request", e17 "canister_query.icrc3_get_tip_certificate", e18 "canister_query.icrc2_allowance",
    e19 "canister_query.icrc3_get_blocks", e20 "canister_query.icrc103_get_allowances",
}
fn main() { engine::main(engine::raw::Table { f: T }) }
