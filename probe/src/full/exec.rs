//! the execution-facing interface
use fuel_tx::*;
use fuel_types::*;
use fuel_crypto::{PublicKey, SecretKey};

macro_rules! ex {
    ($m:ident, $t:ty) => {
        pub mod $m {
            use super::*;
            pub fn prepare_init_script(tx: &mut $t) -> &mut $t { tx.prepare_init_script() }
            pub fn prepare_init_predicate(tx: &mut $t) -> &mut $t { tx.prepare_init_predicate() }
            pub fn check_predicate_owners(tx: &$t) -> bool { tx.check_predicate_owners() }
            pub fn input_asset_ids(tx: &$t) -> Vec<&AssetId> { tx.input_asset_ids().collect() }
            pub fn input_asset_ids_unique(tx: &$t) -> Vec<&AssetId> { tx.input_asset_ids_unique().collect() }
            pub fn input_contracts(tx: &$t) -> Vec<&ContractId> { tx.input_contracts().collect() }
            pub fn add_unsigned_coin_input(tx: &mut $t, u: UtxoId, o: &PublicKey, a: Word, i: AssetId, p: TxPointer, m: Word) {
                tx.add_unsigned_coin_input(u, o, a, i, p, m)
            }
            pub fn add_unsigned_message_input(tx: &mut $t, s: Address, r: Address, n: Word, a: Word, d: Vec<u8>) {
                tx.add_unsigned_message_input(s, r, n, a, d)
            }
            pub fn sign_inputs(tx: &mut $t, s: &SecretKey) { tx.sign_inputs(s) }
            pub fn precompute(tx: &mut $t) { tx.precompute() }
        }
    };
}
ex!(script, Script);
ex!(create, Create);
