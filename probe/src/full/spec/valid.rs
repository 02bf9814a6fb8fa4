use super::*;

fn asset_of(i: &Input) -> Option<AssetId> {
    match i {
        Input::CoinSigned { asset_id, .. } => Some(*asset_id),
        Input::CoinPredicate { asset_id, .. } => Some(*asset_id),
        Input::MessageSigned { .. } => Some(AssetId::BASE),
        Input::MessagePredicate { .. } => Some(AssetId::BASE),
        Input::Contract { .. } => None,
    }
}
fn has_asset(inputs: &[Input], asset: &AssetId) -> bool {
    for i in inputs {
        if let Some(a) = asset_of(i) {
            if a == *asset {
                return true;
            }
        }
    }
    false
}
/// limits on numbers
pub fn sizes(gas_limit: Word, maturity: Word, inputs: &[Input], outputs: &[Output], witnesses: &[Witness], h: Word, p: &ConsensusParameters) -> bool {
    gas_limit <= p.max_gas_per_tx
        && maturity <= h
        && inputs.len() <= p.max_inputs as usize
        && outputs.len() <= p.max_outputs as usize
        && witnesses.len() <= p.max_witnesses as usize
}
/// at most one change output per asset of the inputs
pub fn one_change_each(inputs: &[Input], outputs: &[Output]) -> bool {
    for i in inputs {
        if let Some(a) = asset_of(i) {
            let mut seen = 0usize;
            for o in outputs {
                if let Output::Change { asset_id, .. } = o {
                    if *asset_id == a {
                        seen += 1;
                    }
                }
            }
            if seen > 1 {
                return false;
            }
        }
    }
    true
}
pub fn utxos_differ(inputs: &[Input]) -> bool {
    for k in 0..inputs.len() {
        let a = match &inputs[k] {
            Input::CoinSigned { utxo_id, .. } => utxo_id,
            Input::CoinPredicate { utxo_id, .. } => utxo_id,
            _ => continue,
        };
        for j in 0..k {
            match &inputs[j] {
                Input::CoinSigned { utxo_id, .. } if utxo_id == a => return false,
                Input::CoinPredicate { utxo_id, .. } if utxo_id == a => return false,
                _ => {}
            }
        }
    }
    true
}
pub fn contracts_differ(inputs: &[Input]) -> bool {
    for k in 0..inputs.len() {
        if let Input::Contract { contract_id: a, .. } = &inputs[k] {
            for j in 0..k {
                if let Input::Contract { contract_id, .. } = &inputs[j] {
                    if contract_id == a {
                        return false;
                    }
                }
            }
        }
    }
    true
}
pub fn messages_differ(inputs: &[Input]) -> bool {
    for k in 0..inputs.len() {
        let a = match &inputs[k] {
            Input::MessageSigned { message_id, .. } => message_id,
            Input::MessagePredicate { message_id, .. } => message_id,
            _ => continue,
        };
        for j in 0..k {
            match &inputs[j] {
                Input::MessageSigned { message_id, .. } if message_id == a => return false,
                Input::MessagePredicate { message_id, .. } if message_id == a => return false,
                _ => {}
            }
        }
    }
    true
}
/// change and coin outputs are of assets present in the inputs
pub fn assets_present(inputs: &[Input], outputs: &[Output]) -> bool {
    for o in outputs {
        match o {
            Output::Change { asset_id, .. } | Output::Coin { asset_id, .. } => {
                if !has_asset(inputs, asset_id) {
                    return false;
                }
            }
            _ => {}
        }
    }
    true
}
pub fn input(i: &Input, index: usize, outputs: &[Output], witnesses: &[Witness], p: &ConsensusParameters) -> bool {
    match i {
        Input::CoinSigned { witness_index, .. } => (*witness_index as usize) < witnesses.len(),
        Input::CoinPredicate { predicate, predicate_data, .. } => {
            predicate.len() > 0 && predicate.len() <= p.max_predicate_length as usize && predicate_data.len() <= p.max_predicate_data_length as usize
        }
        Input::Contract { .. } => {
            let mut n = 0usize;
            for o in outputs {
                if let Output::Contract { input_index, .. } = o {
                    if *input_index as usize == index {
                        n += 1;
                    }
                }
            }
            n == 1
        }
        Input::MessageSigned { witness_index, data, .. } => {
            (*witness_index as usize) < witnesses.len() && data.len() <= p.max_message_data_length as usize
        }
        Input::MessagePredicate { predicate, predicate_data, data, .. } => {
            predicate.len() > 0
                && predicate.len() <= p.max_predicate_length as usize
                && predicate_data.len() <= p.max_predicate_data_length as usize
                && data.len() <= p.max_message_data_length as usize
        }
    }
}
pub fn output(o: &Output, inputs: &[Input]) -> bool {
    match o {
        Output::Contract { input_index, .. } => {
            let i = *input_index as usize;
            i < inputs.len() && inputs[i].is_contract()
        }
        _ => true,
    }
}
pub fn all_inputs(inputs: &[Input], outputs: &[Output], witnesses: &[Witness], p: &ConsensusParameters) -> bool {
    for k in 0..inputs.len() {
        if !input(&inputs[k], k, outputs, witnesses, p) {
            return false;
        }
    }
    true
}
pub fn all_outputs(inputs: &[Input], outputs: &[Output]) -> bool {
    for o in outputs {
        if !output(o, inputs) {
            return false;
        }
    }
    true
}
macro_rules! tx {
    ($m:ident, $t:ty, $own:ident) => {
        pub mod $m {
            use super::*;
            use fuel_tx::field::{GasLimit, Inputs, Maturity, Outputs, Witnesses};
            pub fn sizes(tx: &$t, h: Word, p: &ConsensusParameters) -> bool {
                super::sizes(*tx.gas_limit(), *tx.maturity(), tx.inputs(), tx.outputs(), tx.witnesses(), h, p)
            }
            pub fn one_change_each(tx: &$t, _h: Word, _p: &ConsensusParameters) -> bool { super::one_change_each(tx.inputs(), tx.outputs()) }
            pub fn utxos_differ(tx: &$t, _h: Word, _p: &ConsensusParameters) -> bool { super::utxos_differ(tx.inputs()) }
            pub fn contracts_differ(tx: &$t, _h: Word, _p: &ConsensusParameters) -> bool { super::contracts_differ(tx.inputs()) }
            pub fn messages_differ(tx: &$t, _h: Word, _p: &ConsensusParameters) -> bool { super::messages_differ(tx.inputs()) }
            pub fn assets_present(tx: &$t, _h: Word, _p: &ConsensusParameters) -> bool { super::assets_present(tx.inputs(), tx.outputs()) }
            pub fn all_inputs(tx: &$t, _h: Word, p: &ConsensusParameters) -> bool { super::all_inputs(tx.inputs(), tx.outputs(), tx.witnesses(), p) }
            pub fn all_outputs(tx: &$t, _h: Word, _p: &ConsensusParameters) -> bool { super::all_outputs(tx.inputs(), tx.outputs()) }
            pub fn own(tx: &$t, h: Word, p: &ConsensusParameters) -> bool { $own(tx, h, p) }
        }
    };
}
tx!(script, Script, script_own);
tx!(create, Create, create_own);

pub fn script_lengths(tx: &Script, _h: Word, p: &ConsensusParameters) -> bool {
    use fuel_tx::field::{Script as _, ScriptData};
    tx.script().len() <= p.max_script_length as usize && tx.script_data().len() <= p.max_script_data_length as usize
}
pub fn script_outputs(tx: &Script, _h: Word, _p: &ConsensusParameters) -> bool {
    use fuel_tx::field::Outputs;
    for o in tx.outputs() {
        if let Output::ContractCreated { .. } = o {
            return false;
        }
    }
    true
}
pub fn script_own(tx: &Script, h: Word, p: &ConsensusParameters) -> bool { script_lengths(tx, h, p) && script_outputs(tx, h, p) }

pub fn create_bytecode(tx: &Create, _h: Word, p: &ConsensusParameters) -> bool {
    use fuel_tx::field::{BytecodeLength, BytecodeWitnessIndex, Witnesses};
    let index = *tx.bytecode_witness_index() as usize;
    if index >= tx.witnesses().len() {
        return false;
    }
    let len = tx.witnesses()[index].as_vec().len() as Word;
    len <= p.contract_max_size && len / 4 == *tx.bytecode_length()
}
pub fn create_slots(tx: &Create, _h: Word, p: &ConsensusParameters) -> bool {
    use fuel_tx::field::StorageSlots;
    let slots = tx.storage_slots();
    if slots.len() > p.max_storage_slots as usize {
        return false;
    }
    for k in 1..slots.len() {
        if slots[k - 1].key() > slots[k].key() {
            return false;
        }
    }
    true
}
pub fn create_inputs(tx: &Create, _h: Word, _p: &ConsensusParameters) -> bool {
    use fuel_tx::field::Inputs;
    for i in tx.inputs() {
        if i.is_contract() {
            return false;
        }
    }
    true
}
pub fn create_outputs(tx: &Create, _h: Word, _p: &ConsensusParameters) -> bool {
    use fuel_tx::field::Outputs;
    let mut created = false;
    for o in tx.outputs() {
        match o {
            Output::Contract { .. } => return false,
            Output::Variable { .. } => return false,
            Output::Change { asset_id, .. } => {
                if *asset_id != AssetId::BASE {
                    return false;
                }
            }
            Output::ContractCreated { .. } => {
                if created {
                    return false;
                }
                created = true
            }
            _ => {}
        }
    }
    true
}
pub fn create_own(tx: &Create, h: Word, p: &ConsensusParameters) -> bool {
    create_bytecode(tx, h, p) && create_slots(tx, h, p) && create_inputs(tx, h, p) && create_outputs(tx, h, p)
}
pub fn mint(tx: &Mint, h: Word, p: &ConsensusParameters) -> bool {
    use fuel_tx::field::{Outputs, TxPointer as _};
    if tx.outputs().len() > p.max_outputs as usize || tx.tx_pointer().block_height() as Word != h {
        return false;
    }
    let outputs = tx.outputs();
    for k in 0..outputs.len() {
        match &outputs[k] {
            Output::Coin { asset_id: a, .. } => {
                for j in 0..k {
                    if let Output::Coin { asset_id, .. } = &outputs[j] {
                        if asset_id == a {
                            return false;
                        }
                    }
                }
            }
            _ => return false,
        }
    }
    true
}

pub fn real_script(tx: &Script, h: Word, p: &ConsensusParameters) -> Result<(), CheckError> { tx.check_without_signatures(h, p) }
pub fn real_create(tx: &Create, h: Word, p: &ConsensusParameters) -> Result<(), CheckError> { tx.check_without_signatures(h, p) }
pub fn real_mint(tx: &Mint, h: Word, p: &ConsensusParameters) -> Result<(), CheckError> { tx.check_without_signatures(h, p) }
pub fn real_enum(tx: &Transaction, h: Word, p: &ConsensusParameters) -> Result<(), CheckError> { tx.check_without_signatures(h, p) }
pub fn want_enum(tx: &Transaction, h: Word, p: &ConsensusParameters) -> Result<(), CheckError> {
    match tx {
        Transaction::Script(x) => x.check_without_signatures(h, p),
        Transaction::Create(x) => x.check_without_signatures(h, p),
        Transaction::Mint(x) => x.check_without_signatures(h, p),
    }
}
pub fn real_input(i: &Input, index: usize, outputs: &[Output], witnesses: &[Witness], p: &ConsensusParameters) -> Result<(), CheckError> {
    i.check_without_signature(index, outputs, witnesses, p)
}
pub fn real_output(o: &Output, index: usize, inputs: &[Input]) -> Result<(), CheckError> { o.check(index, inputs) }
pub fn want_input(i: &Input, index: usize, outputs: &[Output], witnesses: &[Witness], p: &ConsensusParameters) -> bool {
    input(i, index, outputs, witnesses, p)
}
pub fn want_output(o: &Output, index: usize, inputs: &[Input]) -> bool {
    let _ = index;
    output(o, inputs)
}

/// ownership
#[cfg(feature = "full")]
pub mod sig {
    use super::*;
    use fuel_crypto::{Hasher, Message, Signature};
    use fuel_tx::field::{Inputs, Witnesses};
    use fuel_merkle::binary::in_memory::MerkleTree;
    /// the root over the code in leaves of 8 bytes, the last padded with zeros
    pub fn root(code: &[u8]) -> Bytes32 {
        let mut tree = MerkleTree::new();
        let n = (code.len() + 7) / 8;
        for k in 0..n {
            let mut leaf = [0u8; 8];
            let rest = code.len() - 8 * k;
            let m = if rest < 8 { rest } else { 8 };
            leaf[..m].copy_from_slice(&code[8 * k..8 * k + m]);
            tree.push(&leaf);
        }
        tree.root().into()
    }
    fn signed_by(w: &[u8], id: &Bytes32, owner: &Address) -> bool {
        if w.len() != 64 {
            return false;
        }
        let mut s = [0u8; 64];
        s.copy_from_slice(w);
        match unsafe { Signature::from_bytes_unchecked(s) }.recover(&unsafe { Message::from_bytes_unchecked(**id) }) {
            Ok(pk) => *Hasher::hash(pk) == **owner,
            Err(_) => false,
        }
    }
    pub fn want_input(i: &Input, _index: usize, id: &Bytes32, witnesses: &[Witness]) -> bool {
        match i {
            Input::CoinSigned { witness_index, owner, .. } | Input::MessageSigned { witness_index, recipient: owner, .. } => {
                let k = *witness_index as usize;
                k < witnesses.len() && signed_by(witnesses[k].as_ref(), id, owner)
            }
            Input::CoinPredicate { owner, predicate, .. } | Input::MessagePredicate { recipient: owner, predicate, .. } => *root(predicate) == **owner,
            Input::Contract { .. } => true,
        }
    }
    fn all(inputs: &[Input], id: &Bytes32, witnesses: &[Witness]) -> bool {
        for i in inputs {
            if !want_input(i, 0, id, witnesses) {
                return false;
            }
        }
        true
    }
    pub fn want_script(tx: &Script) -> bool { all(tx.inputs(), &tx.id(), tx.witnesses()) }
    pub fn want_create(tx: &Create) -> bool { all(tx.inputs(), &tx.id(), tx.witnesses()) }
    pub fn real_input(i: &Input, index: usize, id: &Bytes32, witnesses: &[Witness]) -> Result<(), CheckError> { i.check_signature(index, id, witnesses) }
    pub fn real_script(tx: &Script) -> Result<(), CheckError> { tx.check_signatures() }
    pub fn real_create(tx: &Create) -> Result<(), CheckError> { tx.check_signatures() }
    pub fn real_mint(tx: &Mint) -> Result<(), CheckError> { tx.check_signatures() }
    pub fn real_enum(tx: &Transaction) -> Result<(), CheckError> { tx.check_signatures() }
    pub fn want_enum(tx: &Transaction) -> Result<(), CheckError> {
        match tx {
            Transaction::Script(x) => x.check_signatures(),
            Transaction::Create(x) => x.check_signatures(),
            Transaction::Mint(x) => x.check_signatures(),
        }
    }
}

/// the full check: both parts
#[cfg(feature = "full")]
pub mod full {
    use super::*;
    macro_rules! f {
        ($real:ident, $want:ident, $t:ty) => {
            pub fn $real(tx: &$t, h: Word, p: &ConsensusParameters) -> bool { tx.check(h, p).is_ok() }
            pub fn $want(tx: &$t, h: Word, p: &ConsensusParameters) -> bool {
                let a = tx.check_without_signatures(h, p).is_ok();
                let b = tx.check_signatures().is_ok();
                a && b
            }
        };
    }
    f!(real_script, want_script, Script);
    f!(real_create, want_create, Create);
    f!(real_mint, want_mint, Mint);
    f!(real_enum, want_enum, Transaction);
    pub fn real_input(i: &Input, index: usize, id: &Bytes32, outputs: &[Output], witnesses: &[Witness], p: &ConsensusParameters) -> bool {
        i.check(index, id, outputs, witnesses, p).is_ok()
    }
    pub fn want_input(i: &Input, index: usize, id: &Bytes32, outputs: &[Output], witnesses: &[Witness], p: &ConsensusParameters) -> bool {
        let a = i.check_without_signature(index, outputs, witnesses, p).is_ok();
        let b = i.check_signature(index, id, witnesses).is_ok();
        a && b
    }
}
