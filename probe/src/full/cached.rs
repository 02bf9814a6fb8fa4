//! each query after precomputing
use fuel_tx::field::*;
use fuel_tx::{Cacheable, UniqueIdentifier};

macro_rules! pre {
    ($m:ident, $t:ty, [$($f:ident)*], [$($g:ident)*]) => {
        pub mod $m {
            use super::*;
            pub fn precompute(tx: &mut $t) { tx.precompute() }
            pub fn is_computed(tx: &$t) -> bool { tx.is_computed() }
            pub fn id_plain(tx: &$t) -> fuel_types::Bytes32 { tx.id() }
            pub fn id(tx: &mut $t) -> fuel_types::Bytes32 { tx.precompute(); tx.id() }
            pub fn size(tx: &mut $t) -> usize { tx.precompute(); fuel_types::bytes::SizedBytes::serialized_size(tx) }
            pub fn encode(tx: &mut $t, buf: &mut [u8]) -> std::io::Result<usize> { tx.precompute(); std::io::Read::read(tx, buf) }
            pub fn computed(tx: &mut $t) -> bool { tx.precompute(); tx.is_computed() }
            $(pub fn $f(tx: &mut $t) -> usize { tx.precompute(); <$t>::$f(tx) })*
            $(pub fn $g(tx: &mut $t, idx: usize) -> Option<usize> { tx.precompute(); tx.$g(idx) })*
        }
    };
}
pre!(script, fuel_tx::Script, [gas_price_offset gas_limit_offset maturity_offset receipts_root_offset script_offset script_data_offset inputs_offset
     outputs_offset witnesses_offset], [inputs_offset_at outputs_offset_at witnesses_offset_at]);
pre!(create, fuel_tx::Create, [gas_price_offset gas_limit_offset maturity_offset bytecode_length_offset bytecode_witness_index_offset salt_offset
     storage_slots_offset inputs_offset outputs_offset witnesses_offset], [storage_slots_offset_at inputs_offset_at outputs_offset_at
     witnesses_offset_at]);
pre!(mint, fuel_tx::Mint, [tx_pointer_offset outputs_offset], [outputs_offset_at]);

pub mod predicate {
    use super::*;
    pub fn script(tx: &mut fuel_tx::Script, idx: usize) -> Option<(usize, usize)> {
        tx.precompute();
        tx.inputs_predicate_offset_at(idx)
    }
    pub fn create(tx: &mut fuel_tx::Create, idx: usize) -> Option<(usize, usize)> {
        tx.precompute();
        tx.inputs_predicate_offset_at(idx)
    }
}

pub mod enumeration {
    use super::*;
    pub fn precompute(tx: &mut fuel_tx::Transaction) { tx.precompute() }
    pub fn is_computed(tx: &fuel_tx::Transaction) -> bool { tx.is_computed() }
    pub fn id(tx: &fuel_tx::Transaction) -> fuel_types::Bytes32 { tx.id() }
}
