//! constructors, conversions and accessors of transactions and their small parts
use fuel_tx::*;
use fuel_types::*;

pub mod transaction {
    use super::*;
    pub fn script(gas_price: Word, gas_limit: Word, maturity: Word, script: Vec<u8>, script_data: Vec<u8>, inputs: Vec<Input>,
                  outputs: Vec<Output>, witnesses: Vec<Witness>) -> Script {
        Transaction::script(gas_price, gas_limit, maturity, script, script_data, inputs, outputs, witnesses)
    }
    pub fn create(gas_price: Word, gas_limit: Word, maturity: Word, bytecode_witness_index: u8, salt: Salt, storage_slots: Vec<StorageSlot>,
                  inputs: Vec<Input>, outputs: Vec<Output>, witnesses: Vec<Witness>) -> Create {
        Transaction::create(gas_price, gas_limit, maturity, bytecode_witness_index, salt, storage_slots, inputs, outputs, witnesses)
    }
    pub fn mint(tx_pointer: TxPointer, outputs: Vec<Output>) -> Mint { Transaction::mint(tx_pointer, outputs) }
    pub fn is_script(t: &Transaction) -> bool { t.is_script() }
    pub fn is_create(t: &Transaction) -> bool { t.is_create() }
    pub fn is_mint(t: &Transaction) -> bool { t.is_mint() }
    pub fn as_script(t: &Transaction) -> Option<&Script> { t.as_script() }
    pub fn as_create(t: &Transaction) -> Option<&Create> { t.as_create() }
    pub fn as_mint(t: &Transaction) -> Option<&Mint> { t.as_mint() }
    pub fn as_script_mut(t: &mut Transaction) -> Option<&mut Script> { t.as_script_mut() }
    pub fn as_create_mut(t: &mut Transaction) -> Option<&mut Create> { t.as_create_mut() }
    pub fn as_mint_mut(t: &mut Transaction) -> Option<&mut Mint> { t.as_mint_mut() }
}

pub mod witness {
    use super::*;
    pub fn as_vec(w: &Witness) -> &Vec<u8> { w.as_vec() }
    pub fn as_ref(w: &Witness) -> &[u8] { w.as_ref() }
    pub fn as_vec_mut(w: &mut Witness) -> &mut Vec<u8> { w.as_vec_mut() }
    pub fn set(w: &mut Witness, data: Vec<u8>) { *w.as_vec_mut() = data }
    pub fn into_inner(w: Witness) -> Vec<u8> { w.into_inner() }
    pub fn from_vec(data: Vec<u8>) -> Witness { data.into() }
    pub fn from_slice(data: &[u8]) -> Witness { data.into() }
    pub fn default() -> Witness { Default::default() }
    pub fn as_mut(w: &mut Witness) -> &mut [u8] { w.as_mut() }
    pub fn fill(w: &mut Witness, x: u8) {
        for b in w.as_mut() {
            *b = x;
        }
    }
    pub fn extend(w: &mut Witness, data: Vec<u8>) { w.extend(data) }
    pub fn clone(w: &Witness) -> Witness { w.clone() }
}

pub mod storage {
    use super::*;
    pub fn new(key: Bytes32, value: Bytes32) -> StorageSlot { StorageSlot::new(key, value) }
    pub fn key(s: &StorageSlot) -> &Bytes32 { s.key() }
    pub fn value(s: &StorageSlot) -> &Bytes32 { s.value() }
    pub fn to_bytes64(s: &StorageSlot) -> Bytes64 { s.into() }
    pub fn from_bytes64(b: &Bytes64) -> StorageSlot { b.into() }
}

pub mod utxo_id {
    use super::*;
    pub fn new(tx_id: TxId, output_index: u8) -> UtxoId { UtxoId::new(tx_id, output_index) }
    pub fn tx_id(u: &UtxoId) -> &TxId { u.tx_id() }
    pub fn output_index(u: &UtxoId) -> u8 { u.output_index() }
    pub fn replace_tx_id(u: &mut UtxoId, tx_id: TxId) { u.replace_tx_id(tx_id) }
}

pub mod tx_pointer {
    use super::*;
    pub fn new(block_height: u32, tx_index: u16) -> TxPointer { TxPointer::new(block_height, tx_index) }
    pub fn block_height(u: &TxPointer) -> u32 { u.block_height() }
    pub fn tx_index(u: &TxPointer) -> u16 { u.tx_index() }
}

pub mod contract {
    use super::*;
    pub fn from_vec(c: Vec<u8>) -> Contract { c.into() }
    pub fn from_slice(c: &[u8]) -> Contract { c.into() }
    pub fn from_mut_slice(c: &mut [u8]) -> Contract { c.into() }
    pub fn as_mut(c: &mut Contract) -> &mut [u8] { c.as_mut() }
    pub fn fill(c: &mut Contract, x: u8) {
        for b in c.as_mut() {
            *b = x;
        }
    }
    pub fn default() -> Contract { Default::default() }
    pub fn into_vec(c: Contract) -> Vec<u8> { c.into() }
    pub fn as_ref(c: &Contract) -> &[u8] { c.as_ref() }
    pub fn from_create(c: &Create) -> Result<Contract, CheckError> { Contract::try_from(c) }
    pub fn from_transaction(c: &Transaction) -> Result<Contract, CheckError> { Contract::try_from(c) }
    pub fn root(c: &Contract) -> Bytes32 { c.root() }
    pub fn root_from_code(c: &[u8]) -> Bytes32 { Contract::root_from_code(c) }
    pub fn initial_state_root(c: &[StorageSlot]) -> Bytes32 { Contract::initial_state_root(c.iter()) }
    pub fn default_state_root() -> Bytes32 { Contract::default_state_root() }
    pub fn id(c: &Contract, salt: &Salt, root: &Bytes32, state_root: &Bytes32) -> ContractId { c.id(salt, root, state_root) }
}

pub mod params {
    use super::*;
    macro_rules! set {
        ($($f:ident $g:ident;)*) => {
            $(pub fn $f(p: ConsensusParameters, value: u64) -> ConsensusParameters { p.$f(value) })*
            pub mod get {
                use super::*;
                $(pub fn $g(p: &ConsensusParameters) -> u64 { p.$g })*
            }
        };
    }
    set!(with_contract_max_size contract_max_size; with_max_inputs max_inputs; with_max_outputs max_outputs; with_max_witnesses max_witnesses;
         with_max_gas_per_tx max_gas_per_tx; with_max_script_length max_script_length; with_max_script_data_length max_script_data_length;
         with_max_storage_slots max_storage_slots; with_max_predicate_length max_predicate_length;
         with_max_predicate_data_length max_predicate_data_length; with_gas_price_factor gas_price_factor; with_gas_per_byte gas_per_byte;
         with_max_message_data_length max_message_data_length;);
    pub fn default() -> ConsensusParameters { Default::default() }
    pub fn constant() -> ConsensusParameters { ConsensusParameters::DEFAULT }
    pub fn tx_offset(p: &ConsensusParameters) -> usize { p.tx_offset() }
    pub mod published {
        #![allow(deprecated)]
        use fuel_tx::default_parameters::*;
        pub fn contract_max_size() -> u64 { CONTRACT_MAX_SIZE }
        pub fn max_inputs() -> u64 { MAX_INPUTS }
        pub fn max_outputs() -> u64 { MAX_OUTPUTS }
        pub fn max_witnesses() -> u64 { MAX_WITNESSES }
        pub fn max_gas_per_tx() -> u64 { MAX_GAS_PER_TX }
        pub fn max_script_length() -> u64 { MAX_SCRIPT_LENGTH }
        pub fn max_script_data_length() -> u64 { MAX_SCRIPT_DATA_LENGTH }
        pub fn max_storage_slots() -> u64 { MAX_STORAGE_SLOTS }
        pub fn max_predicate_length() -> u64 { MAX_PREDICATE_LENGTH }
        pub fn max_predicate_data_length() -> u64 { MAX_PREDICATE_DATA_LENGTH }
        pub fn gas_price_factor() -> u64 { GAS_PRICE_FACTOR }
        pub fn gas_per_byte() -> u64 { GAS_PER_BYTE }
        pub fn max_message_data_length() -> u64 { MAX_MESSAGE_DATA_LENGTH }
    }
}
