//! The transaction builder beside its definition, through its public interface only: what it holds is observed by finalizing it.
use fuel_crypto::{PublicKey, SecretKey};
use fuel_tx::field::{BytecodeLength, BytecodeWitnessIndex, GasLimit, GasPrice, Inputs, Maturity, Outputs, Salt as _, StorageSlots, TxPointer as _, Witnesses};
use fuel_tx::*;
use fuel_types::*;

macro_rules! common {
    ($m:ident, $t:ty) => {
        pub mod $m {
            use super::*;
            pub type B = TransactionBuilder<$t>;
            type O = ($t, Vec<SecretKey>);
            /// what the builder holds, with no preparation
            fn seen(b: &mut B) -> O {
                let k = b.sign_keys().to_vec();
                b.prepare_script(false).prepare_predicate(false);
                (b.finalize_without_signature(), k)
            }
            fn edit(b: &mut B, f: impl FnOnce(&mut $t, &mut Vec<SecretKey>)) -> O {
                let (mut tx, mut k) = seen(b);
                f(&mut tx, &mut k);
                tx.precompute();
                (tx, k)
            }
            pub mod real {
                use super::*;
                pub fn gas_price(b: &mut B, x: Word) -> O { b.gas_price(x); seen(b) }
                pub fn gas_limit(b: &mut B, x: Word) -> O { b.gas_limit(x); seen(b) }
                pub fn maturity(b: &mut B, x: Word) -> O { b.maturity(x); seen(b) }
                pub fn add_input(b: &mut B, x: Input) -> O { b.add_input(x); seen(b) }
                pub fn add_output(b: &mut B, x: Output) -> O { b.add_output(x); seen(b) }
                pub fn add_witness(b: &mut B, x: Witness) -> O { b.add_witness(x); seen(b) }
                pub fn unsigned_coin(b: &mut B, s: SecretKey, u: UtxoId, a: Word, i: AssetId, t: TxPointer, m: Word) -> O {
                    b.add_unsigned_coin_input(s, u, a, i, t, m);
                    seen(b)
                }
                pub fn unsigned_message(b: &mut B, s: SecretKey, f: Address, n: Word, a: Word, d: Vec<u8>) -> O {
                    b.add_unsigned_message_input(s, f, n, a, d);
                    seen(b)
                }
                /// the preparations asked for are those done
                pub fn flags(b: &mut B, p: bool, s: bool) -> $t { b.prepare_predicate(p).prepare_script(s).finalize_without_signature() }
                pub fn script_prepared(b: &mut B) -> $t { b.prepare_predicate(false).prepare_script(true).finalize_without_signature() }
                pub fn predicate_prepared(b: &mut B) -> $t { b.prepare_script(false).prepare_predicate(true).finalize_without_signature() }
                pub fn both_prepared(b: &mut B) -> $t { b.prepare_predicate(true).prepare_script(true).finalize_without_signature() }
                pub fn finalize_plain(b: &mut B) -> $t { b.prepare_script(false).prepare_predicate(false).finalize() }
                pub fn finalize_enum_plain(b: &mut B) -> Transaction { b.prepare_script(false).prepare_predicate(false).finalize_as_transaction() }
                pub fn unsigned_enum_plain(b: &mut B) -> Transaction { b.prepare_script(false).prepare_predicate(false).finalize_without_signature_as_transaction() }
                pub fn finalize_script(b: &mut B) -> $t { b.prepare_script(true).prepare_predicate(false).finalize() }
                pub fn finalize_enum_script(b: &mut B) -> Transaction { b.prepare_script(true).prepare_predicate(false).finalize_as_transaction() }
                pub fn unsigned_enum_script(b: &mut B) -> Transaction { b.prepare_script(true).prepare_predicate(false).finalize_without_signature_as_transaction() }
                pub fn finalize_predicate(b: &mut B) -> $t { b.prepare_script(false).prepare_predicate(true).finalize() }
                pub fn finalize_enum_predicate(b: &mut B) -> Transaction { b.prepare_script(false).prepare_predicate(true).finalize_as_transaction() }
                pub fn unsigned_enum_predicate(b: &mut B) -> Transaction { b.prepare_script(false).prepare_predicate(true).finalize_without_signature_as_transaction() }
                pub fn finalize_both(b: &mut B) -> $t { b.prepare_script(true).prepare_predicate(true).finalize() }
                pub fn finalize_enum_both(b: &mut B) -> Transaction { b.prepare_script(true).prepare_predicate(true).finalize_as_transaction() }
                pub fn unsigned_enum_both(b: &mut B) -> Transaction { b.prepare_script(true).prepare_predicate(true).finalize_without_signature_as_transaction() }
                pub fn inputs(b: &mut B) -> Vec<Input> { b.inputs().to_vec() }
                pub fn outputs(b: &mut B) -> Vec<Output> { b.outputs().to_vec() }
                pub fn witnesses(b: &mut B) -> Vec<Witness> { b.witnesses().to_vec() }
            }
            pub mod want {
                use super::*;
                pub fn gas_price(b: &mut B, x: Word) -> O { edit(b, |t, _| *t.gas_price_mut() = x) }
                pub fn gas_limit(b: &mut B, x: Word) -> O { edit(b, |t, _| *t.gas_limit_mut() = x) }
                pub fn maturity(b: &mut B, x: Word) -> O { edit(b, |t, _| *t.maturity_mut() = x) }
                pub fn add_input(b: &mut B, x: Input) -> O { edit(b, |t, _| t.inputs_mut().push(x)) }
                pub fn add_output(b: &mut B, x: Output) -> O { edit(b, |t, _| t.outputs_mut().push(x)) }
                pub fn add_witness(b: &mut B, x: Witness) -> O { edit(b, |t, _| t.witnesses_mut().push(x)) }
                pub fn unsigned_coin(b: &mut B, s: SecretKey, u: UtxoId, a: Word, i: AssetId, t: TxPointer, m: Word) -> O {
                    edit(b, |tx, k| {
                        let w = tx.witnesses().len() as u8;
                        tx.inputs_mut().push(Input::coin_signed(u, Input::owner(&PublicKey::from(&s)), a, i, t, w, m));
                        tx.witnesses_mut().push(Witness::default());
                        k.push(s);
                    })
                }
                pub fn unsigned_message(b: &mut B, s: SecretKey, f: Address, n: Word, a: Word, d: Vec<u8>) -> O {
                    edit(b, |tx, k| {
                        let w = tx.witnesses().len() as u8;
                        let r = Input::owner(&PublicKey::from(&s));
                        let id = Input::compute_message_id(&f, &r, n, a, &d);
                        tx.inputs_mut().push(Input::message_signed(id, f, r, a, n, w, d));
                        tx.witnesses_mut().push(Witness::default());
                        k.push(s);
                    })
                }
                pub fn flags(b: &mut B, p: bool, s: bool) -> $t {
                    match (p, s) {
                        (false, false) => b.prepare_predicate(false).prepare_script(false).finalize_without_signature(),
                        (true, false) => b.prepare_predicate(true).prepare_script(false).finalize_without_signature(),
                        (false, true) => b.prepare_predicate(false).prepare_script(true).finalize_without_signature(),
                        (true, true) => b.prepare_predicate(true).prepare_script(true).finalize_without_signature(),
                    }
                }
                pub fn script_prepared(b: &mut B) -> $t { edit(b, |t, _| { t.prepare_init_script(); }).0 }
                pub fn predicate_prepared(b: &mut B) -> $t { edit(b, |t, _| { t.prepare_init_predicate(); }).0 }
                pub fn both_prepared(b: &mut B) -> $t { edit(b, |t, _| { t.prepare_init_predicate(); t.prepare_init_script(); }).0 }
                /// every remembered key signs what finalizing without signatures gives
                fn signed(b: &mut B) -> $t {
                    let k = b.sign_keys().to_vec();
                    let mut tx = b.finalize_without_signature();
                    for k in k.iter() {
                        tx.sign_inputs(k);
                    }
                    tx.precompute();
                    tx
                }
                pub fn finalize_plain(b: &mut B) -> $t { signed(b.prepare_script(false).prepare_predicate(false)) }
                pub fn finalize_enum_plain(b: &mut B) -> Transaction { Transaction::from(signed(b.prepare_script(false).prepare_predicate(false))) }
                pub fn unsigned_enum_plain(b: &mut B) -> Transaction { Transaction::from(b.prepare_script(false).prepare_predicate(false).finalize_without_signature()) }
                pub fn finalize_script(b: &mut B) -> $t { signed(b.prepare_script(true).prepare_predicate(false)) }
                pub fn finalize_enum_script(b: &mut B) -> Transaction { Transaction::from(signed(b.prepare_script(true).prepare_predicate(false))) }
                pub fn unsigned_enum_script(b: &mut B) -> Transaction { Transaction::from(b.prepare_script(true).prepare_predicate(false).finalize_without_signature()) }
                pub fn finalize_predicate(b: &mut B) -> $t { signed(b.prepare_script(false).prepare_predicate(true)) }
                pub fn finalize_enum_predicate(b: &mut B) -> Transaction { Transaction::from(signed(b.prepare_script(false).prepare_predicate(true))) }
                pub fn unsigned_enum_predicate(b: &mut B) -> Transaction { Transaction::from(b.prepare_script(false).prepare_predicate(true).finalize_without_signature()) }
                pub fn finalize_both(b: &mut B) -> $t { signed(b.prepare_script(true).prepare_predicate(true)) }
                pub fn finalize_enum_both(b: &mut B) -> Transaction { Transaction::from(signed(b.prepare_script(true).prepare_predicate(true))) }
                pub fn unsigned_enum_both(b: &mut B) -> Transaction { Transaction::from(b.prepare_script(true).prepare_predicate(true).finalize_without_signature()) }
                pub fn inputs(b: &mut B) -> Vec<Input> { seen(b).0.inputs().clone() }
                pub fn outputs(b: &mut B) -> Vec<Output> { seen(b).0.outputs().clone() }
                pub fn witnesses(b: &mut B) -> Vec<Witness> { seen(b).0.witnesses().clone() }
            }
        }
    };
}
common!(script, Script);
common!(create, Create);

/// a new builder holds what it was given and nothing else
pub mod new {
    use super::*;
    pub mod real {
        use super::*;
        pub fn script(code: Vec<u8>, data: Vec<u8>) -> (Script, usize) {
            let mut b = TransactionBuilder::script(code, data);
            let n = b.sign_keys().len();
            (b.finalize_without_signature(), n)
        }
        pub fn create(code: Witness, salt: Salt, slots: Vec<StorageSlot>) -> (Create, usize) {
            let mut b = TransactionBuilder::create(code, salt, slots);
            let n = b.sign_keys().len();
            (b.finalize_without_signature(), n)
        }
        /// a script builder prepares the script, and predicates only when told to
        pub fn script_prepares(code: Vec<u8>, data: Vec<u8>, o: Output) -> Script {
            let mut b = TransactionBuilder::script(code, data);
            b.add_output(o);
            b.finalize_without_signature()
        }
        pub fn create_prepares_nothing(code: Witness, salt: Salt, slots: Vec<StorageSlot>, i: Input, o: Output) -> Create {
            let mut b = TransactionBuilder::create(code, salt, slots);
            b.add_input(i).add_output(o);
            b.finalize_without_signature()
        }
        pub fn checked_script(b: &mut TransactionBuilder<Script>, h: Word, p: &ConsensusParameters) -> Checked<Script> { b.finalize_checked(h, p) }
        pub fn basic_script(b: &mut TransactionBuilder<Script>, h: Word, p: &ConsensusParameters) -> Checked<Script> { b.finalize_checked_basic(h, p) }
        pub fn checked_create(b: &mut TransactionBuilder<Create>, h: Word, p: &ConsensusParameters) -> Checked<Create> { b.finalize_checked(h, p) }
        pub fn basic_create(b: &mut TransactionBuilder<Create>, h: Word, p: &ConsensusParameters) -> Checked<Create> { b.finalize_checked_basic(h, p) }
        pub fn checked_mint(b: &mut TransactionBuilder<Mint>, h: Word, p: &ConsensusParameters) -> Checked<Mint> { b.finalize_checked(h, p) }
        pub fn basic_mint(b: &mut TransactionBuilder<Mint>, h: Word, p: &ConsensusParameters) -> Checked<Mint> { b.finalize_checked_basic(h, p) }
        pub fn mint(h: u32, i: u16) -> Mint { TransactionBuilder::mint(h, i).finalize() }
        pub fn mint_output(b: &mut TransactionBuilder<Mint>, o: Output) -> Mint { b.add_output(o); b.finalize() }
        pub fn mint_enum(b: &mut TransactionBuilder<Mint>) -> Transaction { b.finalize_as_transaction() }
        pub fn mint_plain(b: &mut TransactionBuilder<Mint>) -> Mint { b.finalize_without_signature() }
        pub fn mint_plain_enum(b: &mut TransactionBuilder<Mint>) -> Transaction { b.finalize_without_signature_as_transaction() }
    }
    pub mod want {
        use super::*;
        pub fn script(code: Vec<u8>, data: Vec<u8>) -> (Script, usize) {
            let mut tx = Transaction::script(0, 0, 0, code, data, vec![], vec![], vec![]);
            tx.precompute();
            (tx, 0)
        }
        pub fn create(code: Witness, salt: Salt, slots: Vec<StorageSlot>) -> (Create, usize) {
            let n = (code.as_ref().len() / 4) as Word;
            let mut tx = Create::default();
            *tx.bytecode_length_mut() = n;
            *tx.bytecode_witness_index_mut() = 0;
            *tx.salt_mut() = salt;
            *tx.storage_slots_mut() = slots;
            tx.witnesses_mut().push(code);
            tx.precompute();
            (tx, 0)
        }
        pub fn script_prepares(code: Vec<u8>, data: Vec<u8>, o: Output) -> Script {
            let mut b = TransactionBuilder::script(code, data);
            b.add_output(o);
            b.prepare_script(true).prepare_predicate(false).finalize_without_signature()
        }
        pub fn create_prepares_nothing(code: Witness, salt: Salt, slots: Vec<StorageSlot>, i: Input, o: Output) -> Create {
            let mut b = TransactionBuilder::create(code, salt, slots);
            b.add_input(i).add_output(o);
            b.prepare_script(false).prepare_predicate(false).finalize_without_signature()
        }
        pub fn checked_script(b: &mut TransactionBuilder<Script>, h: Word, p: &ConsensusParameters) -> Checked<Script> { b.finalize().into_checked(h, p).unwrap() }
        pub fn basic_script(b: &mut TransactionBuilder<Script>, h: Word, p: &ConsensusParameters) -> Checked<Script> { b.finalize().into_checked_basic(h, p).unwrap() }
        pub fn checked_create(b: &mut TransactionBuilder<Create>, h: Word, p: &ConsensusParameters) -> Checked<Create> { b.finalize().into_checked(h, p).unwrap() }
        pub fn basic_create(b: &mut TransactionBuilder<Create>, h: Word, p: &ConsensusParameters) -> Checked<Create> { b.finalize().into_checked_basic(h, p).unwrap() }
        pub fn checked_mint(b: &mut TransactionBuilder<Mint>, h: Word, p: &ConsensusParameters) -> Checked<Mint> { b.finalize().into_checked(h, p).unwrap() }
        pub fn basic_mint(b: &mut TransactionBuilder<Mint>, h: Word, p: &ConsensusParameters) -> Checked<Mint> { b.finalize().into_checked_basic(h, p).unwrap() }
        pub fn mint(h: u32, i: u16) -> Mint {
            let mut tx = Mint::default();
            *tx.tx_pointer_mut() = TxPointer::new(h, i);
            tx.precompute();
            tx
        }
        pub fn mint_output(b: &mut TransactionBuilder<Mint>, o: Output) -> Mint {
            let mut tx = b.finalize();
            tx.outputs_mut().push(o);
            tx.precompute();
            tx
        }
        pub fn mint_enum(b: &mut TransactionBuilder<Mint>) -> Transaction { Transaction::from(b.finalize()) }
        pub fn mint_plain(b: &mut TransactionBuilder<Mint>) -> Mint { b.finalize() }
        pub fn mint_plain_enum(b: &mut TransactionBuilder<Mint>) -> Transaction { Transaction::from(b.finalize()) }
    }
}
