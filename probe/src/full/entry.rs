//! entry points that decode into a fresh value
use fuel_tx::*;
use fuel_types::bytes::Deserializable;
use fuel_types::*;
use std::io::Write;

pub mod real {
    use super::*;
    pub fn receipt(b: &[u8]) -> Option<Receipt> { Receipt::from_bytes(b).ok() }
    pub fn transaction(b: &[u8]) -> Option<(usize, Transaction)> { Transaction::try_from_bytes(b).ok() }
}
pub mod want {
    use super::*;
    pub fn receipt(b: &[u8]) -> Option<Receipt> {
        let mut r = Receipt::revert(ContractId::zeroed(), 1, 2, 3);
        match r.write(b) {
            Ok(_) => Some(r),
            Err(_) => None,
        }
    }
    pub fn transaction(b: &[u8]) -> Option<(usize, Transaction)> {
        let mut t = Transaction::Mint(Mint::default());
        match t.write(b) {
            Ok(n) => Some((n, t)),
            Err(_) => None,
        }
    }
}
