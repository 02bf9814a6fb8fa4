//! every published offset of a transaction
use fuel_tx::field::*;

macro_rules! fixed {
    ($m:ident, $t:ty, $($f:ident)*) => {
        pub mod $m {
            use super::*;
            $(pub fn $f(tx: &$t) -> usize { <$t>::$f(tx) })*
        }
    };
}
macro_rules! at {
    ($m:ident, $t:ty, $($f:ident)*) => {
        pub mod $m {
            use super::*;
            $(pub fn $f(tx: &$t, idx: usize) -> Option<usize> { tx.$f(idx) })*
        }
    };
}
macro_rules! stat {
    ($m:ident, $t:ty, $($f:ident)*) => {
        pub mod $m {
            use super::*;
            $(pub fn $f() -> usize { <$t>::$f() })*
        }
    };
}

fixed!(script, fuel_tx::Script, gas_price_offset gas_limit_offset maturity_offset receipts_root_offset script_offset script_data_offset
       inputs_offset outputs_offset witnesses_offset);
fixed!(create, fuel_tx::Create, gas_price_offset gas_limit_offset maturity_offset bytecode_length_offset bytecode_witness_index_offset salt_offset
       storage_slots_offset inputs_offset outputs_offset witnesses_offset);
fixed!(mint, fuel_tx::Mint, tx_pointer_offset outputs_offset);
stat!(script_static, fuel_tx::Script, gas_price_offset_static gas_limit_offset_static maturity_offset_static receipts_root_offset_static
      script_offset_static);
stat!(create_static, fuel_tx::Create, gas_price_offset_static gas_limit_offset_static maturity_offset_static bytecode_length_offset_static
      bytecode_witness_index_offset_static salt_offset_static storage_slots_offset_static);
stat!(mint_static, fuel_tx::Mint, tx_pointer_static);
at!(script_at, fuel_tx::Script, inputs_offset_at outputs_offset_at witnesses_offset_at);
at!(create_at, fuel_tx::Create, storage_slots_offset_at inputs_offset_at outputs_offset_at witnesses_offset_at);
at!(mint_at, fuel_tx::Mint, outputs_offset_at);

pub mod predicate {
    use super::*;
    pub fn script(tx: &fuel_tx::Script, idx: usize) -> Option<(usize, usize)> {
        tx.inputs_predicate_offset_at(idx)
    }
    pub fn create(tx: &fuel_tx::Create, idx: usize) -> Option<(usize, usize)> {
        tx.inputs_predicate_offset_at(idx)
    }
}
