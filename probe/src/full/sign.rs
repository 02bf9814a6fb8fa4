//! Signing beside its definition.
use fuel_crypto::{Hasher, Message, PublicKey, SecretKey, Signature};
use fuel_tx::field::{Inputs, Witnesses};
use fuel_tx::*;
use fuel_types::*;

fn names(i: &Input, owner: &[u8; 32], j: usize) -> bool {
    match i {
        Input::CoinSigned { owner: o, witness_index, .. } => **o == *owner && *witness_index as usize == j,
        Input::MessageSigned { recipient: o, witness_index, .. } => **o == *owner && *witness_index as usize == j,
        _ => false,
    }
}

macro_rules! s {
    ($m:ident, $t:ty) => {
        pub mod $m {
            use super::*;
            pub fn real(tx: &mut $t, key: &SecretKey) { tx.sign_inputs(key) }
            pub fn want(tx: &mut $t, key: &SecretKey) {
                let owner: [u8; 32] = *Hasher::hash(PublicKey::from(key));
                let id = tx.id();
                let sig = Signature::sign(key, &unsafe { Message::from_bytes_unchecked(*id) });
                for j in 0..tx.witnesses().len() {
                    let mut named = false;
                    for i in tx.inputs() {
                        if names(i, &owner, j) {
                            named = true;
                        }
                    }
                    if named {
                        tx.witnesses_mut()[j] = Witness::from(sig.as_ref());
                    }
                }
            }
        }
    };
}
s!(script, Script);
s!(create, Create);
