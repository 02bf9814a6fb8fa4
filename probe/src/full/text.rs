//! Text forms: parsing what formatting gives, and parsing anything.
use core::str::FromStr;
use fuel_tx::{TxPointer, UtxoId};

macro_rules! forms {
    ($m:ident, $t:ty) => {
        pub mod $m {
            use super::*;
            type R = Result<$t, <$t as FromStr>::Err>;
            pub fn parse(s: &str) -> R { <$t>::from_str(s) }
            pub fn lower(x: $t) -> R { <$t>::from_str(&format!("{:x}", x)) }
            pub fn upper(x: $t) -> R { <$t>::from_str(&format!("{:X}", x)) }
            pub fn lower_prefixed(x: $t) -> R { <$t>::from_str(&format!("{:#x}", x)) }
            pub fn upper_prefixed(x: $t) -> R { <$t>::from_str(&format!("{:#X}", x)) }
            pub fn with_prefix(x: $t) -> R { <$t>::from_str(&format!("0x{:x}", x)) }
            pub fn same(x: $t) -> R { Ok(x) }
        }
    };
}
forms!(utxo_id, UtxoId);
forms!(tx_pointer, TxPointer);
