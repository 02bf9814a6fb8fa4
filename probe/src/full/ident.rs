//! Derived identities: the crate's functions beside their definitions.
use super::spec::valid::sig;
use fuel_crypto::{Hasher, PublicKey};
use fuel_merkle::sparse::in_memory::MerkleTree;
use fuel_tx::*;
use fuel_types::*;
use std::convert::TryFrom;

macro_rules! digest {
    ($($p:expr),*) => {{
        let mut all: Vec<u8> = Vec::new();
        $(all.extend_from_slice($p);)*
        *Hasher::hash(&all)
    }};
}

pub mod contract {
    use super::*;
    pub mod real {
        use super::*;
        pub fn id(c: &Contract, salt: &Salt, root: &Bytes32, state: &Bytes32) -> ContractId { c.id(salt, root, state) }
        pub fn code_root(code: &[u8]) -> Bytes32 { Contract::root_from_code(code) }
        pub fn root(c: &Contract) -> Bytes32 { c.root() }
        pub fn state_root(slots: &[StorageSlot]) -> Bytes32 { Contract::initial_state_root(slots.iter()) }
        pub fn empty_state() -> Bytes32 { Contract::default_state_root() }
        pub fn of_create(tx: &Create) -> Option<Vec<u8>> { Contract::try_from(tx).ok().map(|c| c.into()) }
        pub fn of_transaction(tx: &Transaction) -> Option<Vec<u8>> { Contract::try_from(tx).ok().map(|c| c.into()) }
        pub fn of_vec(v: Vec<u8>) -> Vec<u8> { Contract::from(v).as_ref().to_vec() }
        pub fn of_slice(v: &[u8]) -> Vec<u8> { Contract::from(v).into() }
    }
    pub mod want {
        use super::*;
        pub fn id(_c: &Contract, salt: &Salt, root: &Bytes32, state: &Bytes32) -> ContractId {
            let seed = [0x46u8, 0x55, 0x45, 0x4c];
            ContractId::from(digest!(&seed, &salt[..], &root[..], &state[..]))
        }
        pub fn code_root(code: &[u8]) -> Bytes32 { sig::root(code) }
        pub fn root(c: &Contract) -> Bytes32 { sig::root(c.as_ref()) }
        pub fn state_root(slots: &[StorageSlot]) -> Bytes32 {
            let mut t = MerkleTree::new();
            for k in 0..slots.len() {
                t.update(slots[k].key(), &slots[k].value()[..]);
            }
            t.root().into()
        }
        pub fn empty_state() -> Bytes32 { MerkleTree::new().root().into() }
        pub fn of_create(tx: &Create) -> Option<Vec<u8>> {
            use fuel_tx::field::{BytecodeWitnessIndex, Witnesses};
            let k = *tx.bytecode_witness_index() as usize;
            if k < tx.witnesses().len() {
                Some(tx.witnesses()[k].as_ref().to_vec())
            } else {
                None
            }
        }
        pub fn of_transaction(tx: &Transaction) -> Option<Vec<u8>> {
            match tx {
                Transaction::Create(x) => of_create(x),
                _ => None,
            }
        }
        pub fn of_vec(v: Vec<u8>) -> Vec<u8> { v }
        pub fn of_slice(v: &[u8]) -> Vec<u8> { v.to_vec() }
    }
}

pub mod message {
    use super::*;
    pub mod real {
        use super::*;
        pub fn input_id(sender: &Address, recipient: &Address, nonce: Word, amount: Word, data: &[u8]) -> MessageId {
            Input::compute_message_id(sender, recipient, nonce, amount, data)
        }
        pub fn output_id(sender: &Address, recipient: &Address, nonce: &Bytes32, amount: Word, data: &[u8]) -> MessageId {
            Output::message_id(sender, recipient, nonce, amount, data)
        }
        pub fn nonce(id: &Bytes32, k: u8) -> Bytes32 { Output::message_nonce(id, k as Word) }
        pub fn data_digest(data: &[u8]) -> Bytes32 { Output::message_digest(data) }
        pub fn predicate_owner(code: &[u8]) -> Address { Input::predicate_owner(code) }
        pub fn owner_valid(owner: &Address, code: &[u8]) -> bool { Input::is_predicate_owner_valid(owner, code) }
        pub fn owner(pk: &PublicKey) -> Address { Input::owner(pk) }
        pub fn receipt(id: &Bytes32, k: u8, sender: Address, recipient: Address, amount: Word, data: Vec<u8>) -> Receipt {
            Receipt::message_out_from_tx_output(id, k as Word, sender, recipient, amount, data)
        }
    }
    pub mod want {
        use super::*;
        pub fn input_id(sender: &Address, recipient: &Address, nonce: Word, amount: Word, data: &[u8]) -> MessageId {
            MessageId::from(digest!(&sender[..], &recipient[..], &nonce.to_be_bytes(), &amount.to_be_bytes(), data))
        }
        pub fn output_id(sender: &Address, recipient: &Address, nonce: &Bytes32, amount: Word, data: &[u8]) -> MessageId {
            MessageId::from(digest!(&sender[..], &recipient[..], &nonce[..], &amount.to_be_bytes(), data))
        }
        pub fn nonce(id: &Bytes32, k: u8) -> Bytes32 { Bytes32::from(digest!(&id[..], &[k])) }
        pub fn data_digest(data: &[u8]) -> Bytes32 { Bytes32::from(digest!(data)) }
        pub fn predicate_owner(code: &[u8]) -> Address { Address::from(*sig::root(code)) }
        pub fn owner_valid(owner: &Address, code: &[u8]) -> bool { **owner == *sig::root(code) }
        pub fn owner(pk: &PublicKey) -> Address { Address::from(digest!(pk.as_ref())) }
        pub fn receipt(id: &Bytes32, k: u8, sender: Address, recipient: Address, amount: Word, data: Vec<u8>) -> Receipt {
            let n = nonce(id, k);
            Receipt::MessageOut {
                message_id: output_id(&sender, &recipient, &n, amount, &data),
                sender,
                recipient,
                amount,
                nonce: n,
                len: ((data.len() + 7) / 8 * 8) as Word,
                digest: data_digest(&data),
                data,
            }
        }
    }
}
