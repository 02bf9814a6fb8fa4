//! Reference definitions: the required behaviour of the validity rules, written out as directly as possible over the public data types.
//! They are analysed by the same engine and their summaries compared with those of the crate; they are never executed.
use fuel_tx::*;
use fuel_types::*;
#[cfg(feature = "full")]
use std::collections::BTreeMap;

#[cfg(feature = "full")]
pub mod balances {
    use super::*;

    macro_rules! b {
        ($m:ident, $t:ty) => {
            pub mod $m {
                use super::*;
                use fuel_tx::field::{Inputs, Outputs};
                pub fn real(tx: $t, h: Word, p: &ConsensusParameters) -> Option<(BTreeMap<AssetId, Word>, Word, TransactionFee)> {
                    match tx.into_checked_basic(h, p) {
                        Ok(c) => {
                            let (_, m) = c.into();
                            Some((m.initial_free_balances, m.block_height, m.fee))
                        }
                        Err(_) => None,
                    }
                }
                pub fn want(tx: $t, h: Word, p: &ConsensusParameters) -> Option<(BTreeMap<AssetId, Word>, Word, TransactionFee)> {
                    let mut tx = tx;
                    tx.precompute();
                    if tx.check_without_signatures(h, p).is_err() {
                        return None;
                    }
                    let mut map: BTreeMap<AssetId, Word> = BTreeMap::new();
                    for i in tx.inputs() {
                        let (asset, amount) = match i {
                            Input::CoinSigned { asset_id, amount, .. } => (*asset_id, *amount),
                            Input::CoinPredicate { asset_id, amount, .. } => (*asset_id, *amount),
                            Input::MessageSigned { amount, .. } => (AssetId::BASE, *amount),
                            Input::MessagePredicate { amount, .. } => (AssetId::BASE, *amount),
                            Input::Contract { .. } => continue,
                        };
                        let e = map.entry(asset).or_insert(0);
                        match e.checked_add(amount) {
                            Some(x) => *e = x,
                            None => return None,
                        }
                    }
                    let fee = TransactionFee::checked_from_tx(p, &tx)?;
                    let e = map.entry(AssetId::BASE).or_insert(0);
                    *e = e.checked_sub(fee.total())?;
                    for o in tx.outputs() {
                        if let Output::Coin { asset_id, amount, .. } = o {
                            let e = map.get_mut(asset_id)?;
                            *e = e.checked_sub(*amount)?;
                        }
                    }
                    Some((map, h, fee))
                }
            }
        };
    }
    b!(script, Script);
    b!(create, Create);
}

/// validity verdicts; `Ok` of the real checks must coincide with `true` here
pub mod valid;
