//! the checked-transaction type state
use fuel_tx::*;
use fuel_types::Word;

macro_rules! ck {
    ($m:ident, $t:ty) => {
        pub mod $m {
            use super::*;
            pub fn check(tx: &$t, h: Word, p: &ConsensusParameters) -> Result<(), CheckError> { tx.check(h, p) }
            pub fn check_signatures(tx: &$t) -> Result<(), CheckError> { tx.check_signatures() }
            pub fn check_without_signatures(tx: &$t, h: Word, p: &ConsensusParameters) -> Result<(), CheckError> {
                tx.check_without_signatures(h, p)
            }
            pub fn into_checked(tx: $t, h: Word, p: &ConsensusParameters) -> Result<Checked<$t>, CheckError> { tx.into_checked(h, p) }
            pub fn into_checked_basic(tx: $t, h: Word, p: &ConsensusParameters) -> Result<Checked<$t>, CheckError> { tx.into_checked_basic(h, p) }
            pub fn transaction(c: &Checked<$t>) -> &$t { c.transaction() }
            pub fn as_ref(c: &Checked<$t>) -> &$t { c.as_ref() }
            pub fn borrow(c: &Checked<$t>) -> &$t { core::borrow::Borrow::borrow(c) }
            pub fn metadata(c: &Checked<$t>) -> &<$t as IntoChecked>::Metadata { c.metadata() }
            pub fn basic_parts(tx: $t, h: Word, p: &ConsensusParameters) -> Result<($t, u32), CheckError> {
                let c = tx.into_checked_basic(h, p)?;
                let bits = c.checks().bits();
                let (t, _) = c.into();
                Ok((t, bits))
            }
            pub fn all_parts(tx: $t, h: Word, p: &ConsensusParameters) -> Result<($t, u32), CheckError> {
                let c = tx.into_checked(h, p)?;
                let bits = c.checks().bits();
                let (t, _) = c.into();
                Ok((t, bits))
            }
            pub fn later_parts(c: Checked<$t>) -> Result<($t, u32, <$t as IntoChecked>::Metadata), CheckError> {
                let c = c.check_signatures()?;
                let bits = c.checks().bits();
                let (t, m) = c.into();
                Ok((t, bits, m))
            }
            pub fn clone_parts(c: &Checked<$t>) -> ($t, u32, <$t as IntoChecked>::Metadata) {
                let c = c.clone();
                let bits = c.checks().bits();
                let (t, m) = c.into();
                (t, bits, m)
            }
            pub fn parts(c: Checked<$t>) -> ($t, u32, <$t as IntoChecked>::Metadata) {
                let bits = c.checks().bits();
                let (t, m) = c.into();
                (t, bits, m)
            }
            pub fn checks(c: &Checked<$t>) -> u32 { c.checks().bits() }
            pub fn sign_later(c: Checked<$t>) -> Result<Checked<$t>, CheckError> { c.check_signatures() }
            pub fn split(c: Checked<$t>) -> ($t, <$t as IntoChecked>::Metadata) { c.into() }
        }
    };
}
ck!(script, Script);
ck!(create, Create);
ck!(mint, Mint);
ck!(enumeration, Transaction);

pub mod convert {
    use super::*;
    pub fn script(c: Checked<Script>) -> CheckedTransaction { c.into() }
    pub fn create(c: Checked<Create>) -> CheckedTransaction { c.into() }
    pub fn mint(c: Checked<Mint>) -> CheckedTransaction { c.into() }
    pub fn to_enum(c: CheckedTransaction) -> Checked<Transaction> { c.into() }
    pub fn from_enum(c: Checked<Transaction>) -> CheckedTransaction { c.into() }
    pub fn script_parts(c: Checked<Script>) -> (Transaction, u32, CheckedMetadata) { enumeration::parts(CheckedTransaction::from(c).into()) }
    pub fn create_parts(c: Checked<Create>) -> (Transaction, u32, CheckedMetadata) { enumeration::parts(CheckedTransaction::from(c).into()) }
    pub fn mint_parts(c: Checked<Mint>) -> (Transaction, u32, CheckedMetadata) { enumeration::parts(CheckedTransaction::from(c).into()) }
    pub fn there_and_back(c: Checked<Transaction>) -> (Transaction, u32, CheckedMetadata) { enumeration::parts(CheckedTransaction::from(c).into()) }
    pub fn clone_parts(c: &CheckedTransaction) -> (Transaction, u32, CheckedMetadata) { enumeration::parts(c.clone().into()) }
    pub fn enum_parts(c: CheckedTransaction) -> (Transaction, u32, CheckedMetadata) { enumeration::parts(c.into()) }
    pub fn tx_script(c: Script) -> Transaction { c.into() }
    pub fn tx_create(c: Create) -> Transaction { c.into() }
    pub fn tx_mint(c: Mint) -> Transaction { c.into() }
    pub fn meta_script(c: <Script as IntoChecked>::Metadata) -> CheckedMetadata { c.into() }
    pub fn meta_create(c: <Create as IntoChecked>::Metadata) -> CheckedMetadata { c.into() }
    pub fn meta_mint(c: <Mint as IntoChecked>::Metadata) -> CheckedMetadata { c.into() }
}

pub mod fee {
    use super::*;
    pub fn script(tx: &Script, p: &ConsensusParameters) -> Option<TransactionFee> { TransactionFee::checked_from_tx(p, tx) }
    pub fn create(tx: &Create, p: &ConsensusParameters) -> Option<TransactionFee> { TransactionFee::checked_from_tx(p, tx) }
    pub fn script_price(tx: &Script) -> Word { Chargeable::price(tx) }
    pub fn create_price(tx: &Create) -> Word { Chargeable::price(tx) }
    pub fn script_limit(tx: &Script) -> Word { Chargeable::limit(tx) }
    pub fn create_limit(tx: &Create) -> Word { Chargeable::limit(tx) }
    pub fn script_metered(tx: &Script) -> usize { Chargeable::metered_bytes_size(tx) }
    pub fn create_metered(tx: &Create) -> usize { Chargeable::metered_bytes_size(tx) }
    pub fn script_metered_cached(tx: &mut Script) -> usize { tx.precompute(); Chargeable::metered_bytes_size(tx) }
    pub fn create_metered_cached(tx: &mut Create) -> usize { tx.precompute(); Chargeable::metered_bytes_size(tx) }
    pub fn from_values(p: &ConsensusParameters, metered: Word, limit: Word, price: Word) -> Option<TransactionFee> {
        TransactionFee::checked_from_values(p, metered, limit, price)
    }
    pub fn refund(p: &ConsensusParameters, gas: Word, price: Word) -> Option<Word> { TransactionFee::gas_refund_value(p, gas, price) }
    pub fn deduct(f: &TransactionFee, balance: Word) -> Option<Word> { f.checked_deduct_total(balance) }
    pub fn new(bytes: Word, total: Word, min_gas: Word, max_gas: Word) -> TransactionFee { TransactionFee::new(bytes, total, min_gas, max_gas) }
    pub fn min(f: &TransactionFee) -> Word { f.min() }
    pub fn total(f: &TransactionFee) -> Word { f.total() }
    pub fn min_gas(f: &TransactionFee) -> Word { f.min_gas() }
    pub fn max_gas(f: &TransactionFee) -> Word { f.max_gas() }
    pub fn into_inner(f: TransactionFee) -> (Word, Word) { f.into_inner() }
    pub fn into_word(f: TransactionFee) -> Word { f.into() }
}
