//! questions a transaction answers about its inputs
use fuel_tx::field::Inputs;
use fuel_tx::*;
use fuel_types::*;

macro_rules! q {
    ($m:ident, $t:ty) => {
        pub mod $m {
            pub mod real {
                use super::super::*;
                pub fn predicate_owners(tx: &$t) -> bool { tx.check_predicate_owners() }
                pub fn asset_ids(tx: &$t) -> Vec<AssetId> { tx.input_asset_ids().copied().collect() }
                pub fn asset_count(tx: &$t) -> usize { tx.input_asset_ids().count() }
                pub fn unique_asset_ids(tx: &$t) -> Vec<AssetId> { tx.input_asset_ids_unique().copied().collect() }
                pub fn contracts(tx: &$t) -> Vec<ContractId> { tx.input_contracts().copied().collect() }
            }
            pub mod want {
                use super::super::*;
                pub fn predicate_owners(tx: &$t) -> bool {
                    for i in tx.inputs() {
                        let (owner, code) = match i {
                            Input::CoinPredicate { owner, predicate, .. } => (owner, predicate),
                            Input::MessagePredicate { recipient, predicate, .. } => (recipient, predicate),
                            _ => continue,
                        };
                        if !Input::is_predicate_owner_valid(owner, code) {
                            return false;
                        }
                    }
                    true
                }
                pub fn asset_ids(tx: &$t) -> Vec<AssetId> {
                    let mut ids = Vec::new();
                    for i in tx.inputs() {
                        match i {
                            Input::CoinSigned { asset_id, .. } | Input::CoinPredicate { asset_id, .. } => ids.push(*asset_id),
                            Input::MessageSigned { .. } | Input::MessagePredicate { .. } => ids.push(AssetId::zeroed()),
                            Input::Contract { .. } => (),
                        }
                    }
                    ids
                }
                pub fn asset_count(tx: &$t) -> usize {
                    let mut n = 0;
                    for i in tx.inputs() {
                        if !i.is_contract() {
                            n += 1;
                        }
                    }
                    n
                }
                pub fn unique_asset_ids(tx: &$t) -> Vec<AssetId> {
                    let ids = asset_ids(tx);
                    let mut v: Vec<AssetId> = Vec::new();
                    for i in ids.iter() {
                        if !v.contains(i) {
                            v.push(*i);
                        }
                    }
                    v
                }
                pub fn contracts(tx: &$t) -> Vec<ContractId> {
                    let mut v: Vec<ContractId> = Vec::new();
                    for i in tx.inputs() {
                        if let Input::Contract { contract_id, .. } = i {
                            if !v.contains(contract_id) {
                                v.push(*contract_id);
                            }
                        }
                    }
                    v
                }
            }
        }
    };
}
q!(script, Script);
q!(create, Create);
