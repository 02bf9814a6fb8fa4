//! field accessors, shared and mutable, of each transaction kind
use fuel_tx::field::*;
use fuel_types::{Bytes32, Word};

macro_rules! acc {
    ($m:ident, $t:ty, $($f:ident $g:ident $r:ty;)*) => {
        pub mod $m {
            use super::*;
            $(pub fn $f(tx: &$t) -> &$r { <$t>::$f(tx) }
              pub fn $g(tx: &mut $t) -> &mut $r { <$t>::$g(tx) })*
            pub mod set {
                use super::*;
                $(pub fn $f(tx: &mut $t, value: $r) { *<$t>::$g(tx) = value })*
            }
        }
    };
}

acc!(script, fuel_tx::Script, gas_price gas_price_mut Word; gas_limit gas_limit_mut Word; maturity maturity_mut Word;
     receipts_root receipts_root_mut Bytes32; script script_mut Vec<u8>; script_data script_data_mut Vec<u8>;
     inputs inputs_mut Vec<fuel_tx::Input>; outputs outputs_mut Vec<fuel_tx::Output>; witnesses witnesses_mut Vec<fuel_tx::Witness>;);
acc!(create, fuel_tx::Create, gas_price gas_price_mut Word; gas_limit gas_limit_mut Word; maturity maturity_mut Word;
     bytecode_length bytecode_length_mut Word; bytecode_witness_index bytecode_witness_index_mut u8; salt salt_mut fuel_types::Salt;
     storage_slots storage_slots_mut Vec<fuel_tx::StorageSlot>;
     inputs inputs_mut Vec<fuel_tx::Input>; outputs outputs_mut Vec<fuel_tx::Output>; witnesses witnesses_mut Vec<fuel_tx::Witness>;);
acc!(mint, fuel_tx::Mint, tx_pointer tx_pointer_mut fuel_tx::TxPointer; outputs outputs_mut Vec<fuel_tx::Output>;);
