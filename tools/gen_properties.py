#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the wording lives in one place)."""
import json, os
T = "src/transaction/types/"
P = []

def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe or [], hook_needed=None)))

prop("C01", "Canonical binary encoding round-trips",
     "Encoding any canonical value (transaction of any kind, input, output, witness, storage slot, UTXO id, transaction pointer, receipt) and decoding the produced bytes yields an equal value and consumes exactly the bytes produced, whatever the value being decoded into held before. "
     "Canonical excludes only values the format cannot express (a predicate input with an empty predicate; a receipt result code that is an alias of a named one).",
     ["inputs"], "every variant, every field value, every length of every variable-length field and collection",
     "tests/bytes.rs samples a few hand-built values and random ones with default-sized collections; the decoder is exercised only on those",
     [T+"input.rs", T+"output.rs", T+"script.rs", T+"create.rs", T+"mint.rs", T+"witness.rs", T+"storage.rs", T+"utxo_id.rs", "src/tx_pointer.rs", "src/receipt/receipt_std.rs", "src/transaction/txio.rs"],
     [("paired io::Read (encode) and io::Write (decode) implementations", "the io impls of each type")],
     observe=["io::Read::read", "io::Write::write", "to_bytes / from_bytes"])

prop("C02", "Reported size, bytes written and the short-buffer error agree",
     "For every value, the encoder reports success exactly when the buffer is at least the value's reported serialized size, and then it has filled exactly that many bytes, contiguously from the start and including zero padding; with a shorter buffer it returns an error. "
     "The serialized size is the fixed part of that kind of value plus its padded variable part, and is a multiple of 8. Encoding never changes the value.",
     ["inputs"], "every value and every buffer length",
     "tests only encode into a buffer of the reported size for sampled values; an off-by-a-word size for one variant and length class is not reached",
     [T+"input.rs", T+"output.rs", T+"script.rs", T+"create.rs", T+"mint.rs", T+"witness.rs", T+"storage.rs", T+"utxo_id.rs", "src/tx_pointer.rs", "src/receipt.rs", "src/receipt/receipt_std.rs", "src/transaction/txio.rs"],
     [("SizedBytes::serialized_size and the length check at the head of each encoder", "io impls")],
     observe=["SizedBytes::serialized_size", "io::Read::read"])

prop("C03", "The encoding is the published wire layout",
     "The bytes of every encoded value follow the Fuel transaction format: a big-endian 8-byte word identifying the kind, then the fields of that kind in specification order (numbers as 8-byte big-endian words, hashes and ids verbatim, all lengths and counts in the fixed part before any variable data), then variable data zero-padded to 8 bytes, then storage slots, inputs, outputs and witnesses in index order.",
     ["inputs"], "every variant and field of every encodable type",
     "round-trip tests are blind to a change made consistently in encoder and decoder; no test pins the layout of every field",
     [T+"input.rs", T+"output.rs", T+"script.rs", T+"create.rs", T+"mint.rs", T+"witness.rs", T+"storage.rs", T+"utxo_id.rs", "src/tx_pointer.rs", "src/receipt/receipt_std.rs", "src/transaction/repr.rs"],
     [("order of stores in each encoder", "io::Read impls")], observe=["io::Read::read"])

prop("C04", "Offset accessors point at the bytes they name",
     "Every byte offset the crate publishes - for script, script data, contract salt, bytecode, storage slots, receipts root, every input, output and witness of a transaction by index, every field of inputs and outputs, and the predicate (offset and padded length) of an input - is the position, in the encoding of that transaction or element, of the first byte of the thing it names, and absent exactly when the element does not exist.",
     ["inputs"], "every transaction, index and variant",
     "tests/offset.rs checks sampled transactions with small random lengths; unaligned lengths, out-of-range indices and rarely used fields are not settled",
     [T+"script.rs", T+"create.rs", T+"mint.rs", T+"input/repr.rs", T+"output/repr.rs", T+"input.rs", "src/transaction.rs"],
     [("offset arithmetic over fixed sizes and padded lengths", "field::* impls, InputRepr, OutputRepr")],
     observe=["field::*::*_offset*", "InputRepr::*_offset", "OutputRepr::*_offset", "Input::predicate_offset"])

prop("C05", "Precomputed metadata never changes an answer",
     "After precomputing, every id and offset query on an unmodified transaction returns exactly what it returned before precomputing; precomputing discards whatever had been cached earlier, and decoding into a value leaves nothing cached.",
     ["inputs", "histories"], "every transaction, and every previous cache content",
     "tests compare a few offsets on sampled transactions; a cached field filled from the wrong source shows only for specific shapes",
     ["src/transaction/metadata.rs", T+"script.rs", T+"create.rs", T+"mint.rs"],
     [("Cacheable::precompute, CommonMetadata::compute, ScriptMetadata, CreateMetadata", "src/transaction/metadata.rs and the tx types")],
     state=[dict(name="metadata", meaning="cached id and offsets", where="Script, Create, Mint")],
     observe=["Cacheable::precompute", "UniqueIdentifier::id", "field::*_offset*"])

prop("C06", "Transaction id commits to everything but the malleable fields",
     "The id of a transaction is the SHA-256 of its canonical encoding after removing all witnesses and zeroing exactly the fields fixed at execution: the script's receipts root, contract-input UTXO id, balance root, state root and pointer, coin-input pointer, contract-output roots, and the amounts (and recipients or assets) of message, change, variable outputs as the specification lists. "
     "Computing it does not modify the transaction.",
     ["inputs"], "every transaction and every single-field change",
     "the id tests mutate a subset of fields on random transactions; they cannot show that no other field is dropped from, or leaks into, the preimage",
     ["src/transaction/id.rs", T+"script.rs", T+"create.rs", T+"mint.rs", T+"input.rs", T+"output.rs"],
     [("UniqueIdentifier::id, prepare_sign on inputs and outputs", "id.rs, tx types, Input::prepare_sign, Output::prepare_sign")],
     observe=["UniqueIdentifier::id"])

prop("C07", "Preparing for execution zeroes exactly the execution-fixed fields",
     "Preparing a transaction for script execution zeroes exactly the execution-fixed fields of its outputs (change amounts, variable-output recipients, amounts and assets, message-output recipients and amounts) and nothing else; preparing for predicate execution zeroes exactly the fields that signing leaves out of the id, in inputs and outputs, and nothing else. The transaction id is unchanged by both.",
     ["inputs"], "every transaction",
     "tests/prepared_init.rs looks at the listed fields of one constructed transaction; untouched fields are not compared",
     ["src/transaction.rs", T+"input.rs", T+"output.rs", T+"script.rs"],
     [("Executable::prepare_init_script, prepare_init_predicate", "src/transaction.rs, Input/Output::prepare_init_*")],
     observe=["Executable::prepare_init_script", "Executable::prepare_init_predicate"])

prop("C08", "Decoding arbitrary bytes never panics or reads out of bounds",
     "Decoding any byte string into any transaction type, input, output, witness, storage slot, UTXO id, transaction pointer or receipt returns a value or an error; it never panics, never reads outside the given buffer, never reports consuming more bytes than it was given, and never asks for memory for more elements than the input has bytes.",
     ["inputs"], "every byte string of every length, including hostile length prefixes",
     "tests decode only truncations of valid encodings; hostile length fields and mid-field truncation in every variant are not reached",
     [T+"input.rs", T+"output.rs", T+"script.rs", T+"create.rs", T+"mint.rs", T+"witness.rs", T+"storage.rs", T+"utxo_id.rs", "src/tx_pointer.rs", "src/receipt/receipt_std.rs", "src/transaction/txio.rs"],
     [("length checks that dominate every unchecked read", "io::Write impls")], observe=["io::Write::write"])

prop("C09", "Every transaction is held to the common limits",
     "A script or create transaction passes the unsigned validity check only if its gas limit is at most the maximum per transaction, its maturity is not above the block height, it has at most the maximum numbers of inputs, outputs and witnesses, no asset of its inputs has two change outputs, every change and coin output's asset is the asset of some coin or message input (messages carry the base asset), and no UTXO id, message id or contract id is used by two inputs - and these common rules reject nothing else. The transaction enum gives the verdict of the transaction it holds.",
     ["inputs"], "every transaction, block height and consensus parameter set",
     "valid_cases tests try a handful of transactions per rule; boundaries, positions of the offending element and combinations are not exhausted",
     ["src/transaction/checkable.rs"],
     [("check_common_part and its helpers", "src/transaction/checkable.rs")],
     observe=["FormatValidityChecks::check_without_signatures"])

prop("C10", "Every input and output is individually valid",
     "Each input passes the unsigned check exactly when: its predicate, if it has one, is non-empty and within the maximum predicate length and its predicate data within its maximum; a signed input's witness index exists; a contract input's index is named by exactly one contract output; a message's data is within its maximum. Each output passes exactly when, if it is a contract output, the input it names exists and is a contract. A script or create transaction passes only if each of its inputs and outputs passes, at its own index.",
     ["inputs"], "every input and output, at every index, in every surrounding list",
     "input/output validity tests sample a few sizes and neighbours per rule",
     ["src/transaction/checkable.rs"],
     [("Input::check_without_signature, Output::check", "src/transaction/checkable.rs")],
     observe=["Input::check_without_signature", "Output::check"])

prop("C11", "Create transactions obey the deployment rules",
     "A create transaction passes its specific checks exactly when the bytecode witness exists, its length is within the contract limit and its number of whole instructions equals the declared bytecode length, there are at most the maximum storage slots and their keys never decrease, no input is a contract, no output is a contract or variable output, every change output is of the base asset, and at most one output creates a contract.",
     ["inputs"], "every create transaction and parameter set",
     "tests sample a few creations per rule; boundaries and element positions are not exhausted",
     [T+"create.rs"], [("Create::check_without_signatures", T+"create.rs")], observe=["FormatValidityChecks::check_without_signatures for Create"])

prop("C12", "Script transactions obey the script rules",
     "A script transaction passes its specific checks exactly when script and script data are within their maximum lengths and no output creates a contract.",
     ["inputs"], "every script transaction and parameter set",
     "tests sample boundaries with default parameters",
     [T+"script.rs"], [("Script::check_without_signatures", T+"script.rs")], observe=["FormatValidityChecks::check_without_signatures for Script"])

prop("C13", "Mint transactions obey the mint rules",
     "A mint transaction passes its checks exactly when it has at most the maximum number of outputs, every output is a coin output, no asset appears in two outputs, and its pointer names the block height being checked.",
     ["inputs"], "every mint transaction, height and parameter set",
     "few tests build mint transactions",
     [T+"mint.rs"], [("Mint::check_without_signatures", T+"mint.rs")], observe=["FormatValidityChecks::check_without_signatures for Mint"])

prop("C14", "Ownership of every input is verified",
     "Checking signatures succeeds exactly when, for every input, a signed coin or message's witness holds a signature that recovers over the transaction id to its owner or recipient, and a predicate input's owner is the address derived from its predicate; no input is skipped and contract inputs need none.",
     ["inputs"], "every transaction, every input position and witness content",
     "tests try one corrupted signature; skipped positions or a wrong digest for one variant are not excluded",
     ["src/transaction/checkable.rs", T+"input.rs", T+"script.rs", T+"create.rs"],
     [("check_signatures, Input::check_signature, Input::is_predicate_owner_valid", "src/transaction/checkable.rs")],
     observe=["FormatValidityChecks::check_signatures"])

prop("C15", "A checked transaction has really passed its checks",
     "Outside the crate, without the internals feature, a checked-transaction value can only come from running the basic checks on that transaction (directly or from another checked value), carries the metadata computed for that transaction, records the signature check only after that check succeeded, gives no mutable access to the transaction, and cannot be deserialized or assembled from parts.",
     ["programs", "histories"], "every program that uses the public API",
     "no test can show that no program bypasses the checks; it is a property of the API surface",
     ["src/checked_transaction.rs"],
     [("private fields of Checked, IntoChecked, check_signatures", "src/checked_transaction.rs")],
     state=[dict(name="checks_bitmask", meaning="which checks have passed", where="Checked")],
     observe=["Checked", "CheckedTransaction", "IntoChecked"])

prop("C16", "Fees follow the fee formula with no silent overflow",
     "For a non-zero gas price factor: minimum gas is gas per byte times the metered size (the encoded size before the witnesses), maximum gas is that plus the gas limit; the bytes fee is minimum gas times gas price divided by the factor, and the total fee maximum gas times gas price divided by the factor, both rounded up; a refund is gas times price divided by the factor rounded down. Any arithmetic overflow or value beyond 64 bits yields no fee rather than a wrong one, and the answer is the same before and after precomputing.",
     ["inputs"], "every gas limit, price, size and parameter value",
     "fee tests check a few parameter triples",
     ["src/transaction/fee.rs", "src/checked_transaction.rs"],
     [("TransactionFee, Chargeable", "src/transaction/fee.rs")], observe=["TransactionFee::checked_from_values", "TransactionFee::checked_from_tx", "Chargeable"])

prop("C17", "Free balances conserve every asset",
     "A checked script or create transaction records, per asset, exactly the sum of its coin and message input amounts, minus the maximum fee on the base asset, minus its coin outputs of that asset; the check fails when an asset is overspent or a sum does not fit in 64 bits, and never wraps or panics.",
     ["inputs"], "every multiset of inputs and outputs, every amount",
     "tests sample one or two assets and small amounts",
     ["src/checked_transaction.rs"],
     [("initial_free_balances", "src/checked_transaction.rs")], observe=["into_checked_basic", "CheckedMetadata::initial_free_balances"])

prop("C18", "Input, output and receipt accessors report the field they are named after",
     "Every accessor and predicate of inputs, outputs and receipts returns the same-named field (or classification) of exactly the variants that have it and nothing for the others, and constructors put each argument in the field of its name; the numeric identifier of each kind is unique and converts back to that kind, every other number being rejected.",
     ["inputs"], "every variant, accessor and identifier value",
     "accessors are exercised on a few variants; a wrong variant arm is visible only on that variant",
     [T+"input.rs", T+"output.rs", "src/receipt.rs", T+"input/repr.rs", T+"output/repr.rs", "src/transaction/repr.rs", "src/receipt/receipt_repr.rs", "src/receipt/script_result.rs"],
     [("match arms of accessors; From/TryFrom for the repr enums", "input.rs, output.rs, receipt.rs, repr.rs")], observe=["Input::*", "Output::*", "Receipt::*"])

prop("C19", "Transaction accessors and conversions lose nothing",
     "Every field accessor of script, create and mint transactions (shared, mutable, and through the transaction enum) addresses the field of its name, constructors store each argument in the field of its name, and wrapping into or unwrapping from the transaction and checked-transaction enums keeps the kind and all contents.",
     ["inputs"], "every transaction kind and accessor",
     "a swapped pair of same-typed fields passes tests that use equal or default values",
     ["src/transaction.rs", T+"script.rs", T+"create.rs", T+"mint.rs", "src/checked_transaction.rs"],
     [("field::* impls, constructors, From/TryFrom and as_* conversions", "src/transaction.rs and types")], observe=["field::*", "Transaction::script/create/mint", "Transaction::as_*"])

prop("C20", "Signing fills exactly the signer's witnesses",
     "Signing a transaction with a key writes, into the witness each signed input owned by that key's address names, the signature of that key over the transaction id, and modifies no other witness or field; the id is unchanged by signing.",
     ["inputs"], "every transaction, ownership pattern and witness index",
     "tests sign transactions whose inputs all belong to the signer or use distinct indices",
     ["src/transaction/id.rs"], [("Signable::sign_inputs", "src/transaction/id.rs")], observe=["Signable::sign_inputs"])

prop("C21", "The builder produces a signed, prepared, precomputed transaction",
     "Each builder setter changes only what it names; adding an unsigned input appends the input pointing at a fresh witness and remembers its key; finalizing prepares the transaction, signs it with every remembered key, and precomputes it after that, and finalizing without signing leaves dummy witnesses untouched.",
     ["histories", "inputs"], "every sequence of builder calls",
     "tests use the builder as a tool and check only that the result validates",
     ["src/builder.rs"], [("TransactionBuilder", "src/builder.rs")], observe=["TransactionBuilder::*"])

prop("C22", "Contract ids and roots commit to code, salt and state",
     "The contract id is the hash of the fixed seed, salt, code root and state root in that order; the code root is the Merkle root over the whole bytecode split into 8-byte leaves, the last one padded with zeros; the state root is the sparse Merkle root over every storage slot keyed by its key.",
     ["inputs"], "every bytecode length, salt and slot set",
     "snapshot tests cover a few lengths; order and coverage for all lengths are not settled",
     ["src/contract.rs"], [("Contract::id, root_from_code, initial_state_root", "src/contract.rs")], observe=["Contract::id", "Contract::root_from_code", "Contract::initial_state_root"])

prop("C23", "Message and predicate identities are derived from all their parts",
     "A message id is the hash of sender, recipient, nonce, amount and data in the specified order and width; an outgoing message's nonce is derived from the transaction id and output index, its digest from its data; a predicate's owner address is derived from its code; the receipt emitted for a message output carries exactly these.",
     ["inputs"], "every message, index and data",
     "tests check that ids match the function under test itself",
     [T+"input.rs", T+"output.rs", "src/receipt.rs"],
     [("Input::compute_message_id, Output::message_nonce, Output::message_digest, Receipt::message_out*", "input.rs, output.rs, receipt.rs")], observe=["Input::compute_message_id", "Input::predicate_owner", "Output::message_nonce", "Receipt::message_out_from_tx_output"])

prop("C24", "Text forms of ids and pointers parse back and never panic",
     "Parsing the hexadecimal text form of a UTXO id or transaction pointer gives back the same value (with or without a leading 0x for UTXO ids), and parsing any string returns a value or an error without panicking.",
     ["inputs"], "every value and every string, including non-ASCII",
     "display tests cover a few literals",
     [T+"utxo_id.rs", "src/tx_pointer.rs"], [("FromStr and LowerHex/Display impls", "utxo_id.rs, tx_pointer.rs")], observe=["FromStr", "Display"])

prop("C25", "Cached metadata is invisible to serialization and decoding",
     "Serialized forms of a transaction never contain cached metadata and deserialized transactions never start with any; equality and hashing of transactions consider every serialized field and not the cache.",
     ["inputs", "programs"], "every transaction, cached or not",
     "serde tests compare values whose cache state is the same on both sides",
     [T+"script.rs", T+"create.rs", T+"mint.rs"], [("serde(skip) and derivative attributes", "tx structs")], observe=["serde::Serialize", "PartialEq", "Hash"])

prop("C26", "Consensus parameters are set one at a time and read as set",
     "Each consensus-parameter setter replaces exactly the parameter it names and keeps all others, and the default set equals the published default constants.",
     ["inputs"], "every parameter value and setter sequence",
     "tests use the defaults or set the one parameter under test to one value",
     ["src/transaction/consensus_parameters.rs"], [("with_* const setters, DEFAULT", "consensus_parameters.rs")], observe=["ConsensusParameters"])

prop("C27", "Validation never panics and does not depend on the std feature",
     "Running the validity checks on any transaction, height and parameters returns a verdict without panicking, and builds with and without the standard library accept exactly the same transactions.",
     ["inputs", "configurations"], "every transaction, every feature configuration",
     "the tests run only the std build on sampled transactions",
     ["src/transaction/checkable.rs", T+"script.rs", T+"create.rs", T+"mint.rs"],
     [("cfg(feature = \"std\") twins of duplicate detection; absence of unchecked indexing", "src/transaction/checkable.rs")], observe=["FormatValidityChecks"])

prop("C28", "Questions about a transaction's inputs are answered exactly",
     "For any transaction with inputs, the contracts, assets and distinct assets reported for it are exactly those of its inputs (duplicates removed where distinct ones are asked for), and the check that predicates belong to their owners holds exactly when the owner of every predicate input is the address of its predicate code.",
     ["inputs"], "every list of inputs in every order and repetition",
     "tests query a handful of transactions with few inputs",
     ["src/transaction.rs"], [("Executable / field::Inputs queries", "src/transaction.rs")], observe=["input_contracts", "input_asset_ids", "check_predicate_owners"])

prop("C29", "A full check accepts exactly what passes both of its parts",
     "For every transaction kind, the transaction enumeration and single inputs, the full check accepts exactly when both the check without signatures and the signature check accept, for every height and parameter set; none of the parts is skipped for any kind.",
     ["inputs"], "every transaction, height and parameter set",
     "tests mostly call one part, and the full check on transactions where both agree",
     ["src/transaction/checkable.rs", T+"script.rs", T+"create.rs", T+"mint.rs", T+"input.rs"],
     [("Checkable::check, check_signatures", "src/transaction/checkable.rs")], observe=["Checkable::check", "Input::check"])

prop("C30", "Equality, hashing, ordering and cloning follow the fields",
     "Two inputs, outputs, receipts, witnesses, slots, ids, pointers, parameter sets, fees or contracts are equal exactly when they are of the same kind and all fields of that kind are equal (a panic receipt's contract id excepted), equal values hash alike and every field that equality considers is hashed, clones equal their originals, and ids, pointers and slots are ordered lexicographically by the fields that identify them.",
     ["inputs"], "every pair of values of every kind",
     "tests compare values that are equal or differ in one chosen place",
     ["src/receipt.rs", T+"input.rs", T+"output.rs", T+"utxo_id.rs", T+"storage.rs", "src/tx_pointer.rs", T+"witness.rs"],
     [("derived and written PartialEq, Hash, Ord, Clone", "value types")], observe=["PartialEq", "Hash", "Ord", "Clone"])

prop("C31", "The structured (serde) form carries every field of every value",
     "Serializing any public data value hands every field of its kind to the format exactly once, in declaration order and under its own name, after announcing the kind; reading those values back by position or by name, in any order of names, puts each into the field it came from and selects the same kind; omitted consensus parameters take their defaults; and JSON is that form of the value itself.",
     ["inputs"], "every value of every kind, whatever the format",
     "round-trip tests sample values in two formats and compare the whole, so values skipped when empty or defaulted pass unnoticed",
     [T+"input.rs", T+"output.rs", "src/receipt.rs", T+"witness.rs", T+"storage.rs", T+"utxo_id.rs", "src/tx_pointer.rs", "src/transaction/consensus_parameters.rs", "src/transaction/checkable/error.rs"],
     [("serde::Serialize and Deserialize impls", "all public data types")], observe=["serde::Serialize", "serde::Deserialize", "Transaction::to_json", "Transaction::from_json"])

prop("N01", "Signatures verify only for the signer's key",
     "A signature produced by signing with a key is accepted for the address of that key and, except with negligible probability, for no other address or transaction.",
     ["inputs"], "every key, message and address",
     "a cryptographic statement over all keys", ["src/transaction/id.rs"], [("secp256k1 via fuel-crypto", "dependency")])
prop("N02", "Distinct transactions have distinct ids",
     "Two transactions that differ in a non-malleable field have different ids.",
     ["inputs"], "every pair of transactions", "collision resistance of SHA-256", ["src/transaction/id.rs"], [("SHA-256", "dependency")])
prop("N03", "Every supported serde format round-trips",
     "Serializing any transaction, receipt or parameter set with any serde format and deserializing it yields an equal value.",
     ["inputs"], "every value and every serde format", "depends on the format implementation", [T+"script.rs"], [("serde derives", "all types")])
prop("N04", "Decoding cost is bounded by the input length",
     "Time and memory used to decode a byte string are at most proportional to its length.",
     ["inputs"], "every byte string", "resource bounds at run time", [T+"script.rs", T+"create.rs"], [("allocation by length prefix", "io::Write impls")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
