//! the transaction builder
use fuel_tx::*;
use fuel_types::*;
use fuel_crypto::SecretKey;

macro_rules! common {
    ($m:ident, $t:ty) => {
        pub mod $m {
            use super::*;
            pub type B = TransactionBuilder<$t>;
            pub fn gas_price(b: &mut B, x: Word) -> &mut B { b.gas_price(x) }
            pub fn gas_limit(b: &mut B, x: Word) -> &mut B { b.gas_limit(x) }
            pub fn maturity(b: &mut B, x: Word) -> &mut B { b.maturity(x) }
            pub fn add_input(b: &mut B, x: Input) -> &mut B { b.add_input(x) }
            pub fn add_output(b: &mut B, x: Output) -> &mut B { b.add_output(x) }
            pub fn add_witness(b: &mut B, x: Witness) -> &mut B { b.add_witness(x) }
            pub fn prepare_script(b: &mut B, x: bool) -> &mut B { b.prepare_script(x) }
            pub fn prepare_predicate(b: &mut B, x: bool) -> &mut B { b.prepare_predicate(x) }
            pub fn sign_keys(b: &B) -> &[SecretKey] { b.sign_keys() }
            pub fn inputs(b: &B) -> &[Input] { b.inputs() }
            pub fn outputs(b: &B) -> &[Output] { b.outputs() }
            pub fn witnesses(b: &B) -> &[Witness] { b.witnesses() }
            pub fn add_unsigned_coin_input(b: &mut B, s: SecretKey, u: UtxoId, a: Word, i: AssetId, t: TxPointer, m: Word) -> &mut B {
                b.add_unsigned_coin_input(s, u, a, i, t, m)
            }
            pub fn add_unsigned_message_input(b: &mut B, s: SecretKey, f: Address, n: Word, a: Word, d: Vec<u8>) -> &mut B {
                b.add_unsigned_message_input(s, f, n, a, d)
            }
            pub fn finalize(b: &mut B) -> $t { b.finalize() }
            pub fn finalize_without_signature(b: &mut B) -> $t { b.finalize_without_signature() }
            pub fn finalize_as_transaction(b: &mut B) -> Transaction { b.finalize_as_transaction() }
            pub fn finalize_without_signature_as_transaction(b: &mut B) -> Transaction { b.finalize_without_signature_as_transaction() }
            pub fn finalize_checked(b: &mut B, h: Word, p: &ConsensusParameters) -> Checked<$t> { b.finalize_checked(h, p) }
            pub fn finalize_checked_basic(b: &mut B, h: Word, p: &ConsensusParameters) -> Checked<$t> { b.finalize_checked_basic(h, p) }
            pub fn sign_inputs(t: &mut $t, s: &SecretKey) { t.sign_inputs(s) }
        }
    };
}
common!(script, Script);
common!(create, Create);

pub mod mint {
    use super::*;
    pub type B = TransactionBuilder<Mint>;
    pub fn add_output(b: &mut B, x: Output) -> &mut B { b.add_output(x) }
    pub fn finalize(b: &mut B) -> Mint { b.finalize() }
    pub fn finalize_without_signature(b: &mut B) -> Mint { b.finalize_without_signature() }
    pub fn finalize_as_transaction(b: &mut B) -> Transaction { b.finalize_as_transaction() }
    pub fn finalize_without_signature_as_transaction(b: &mut B) -> Transaction { b.finalize_without_signature_as_transaction() }
}

pub fn new_script(a: Vec<u8>, b: Vec<u8>) -> TransactionBuilder<Script> { TransactionBuilder::script(a, b) }
pub fn new_create(a: Witness, s: Salt, x: Vec<StorageSlot>) -> TransactionBuilder<Create> { TransactionBuilder::create(a, s, x) }
pub fn new_mint(a: u32, s: u16) -> TransactionBuilder<Mint> { TransactionBuilder::mint(a, s) }
