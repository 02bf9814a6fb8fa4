//! equality, hashing and serialization
use fuel_tx::*;
use fuel_tx::ScriptExecutionResult;
use std::collections::hash_map::DefaultHasher;
use std::hash::Hash;

macro_rules! cmp {
    ($m:ident, $t:ty) => {
        pub mod $m {
            use super::*;
            pub fn eq(a: &$t, b: &$t) -> bool { a == b }
            pub fn ne(a: &$t, b: &$t) -> bool { a != b }
            pub fn hash(a: &$t, h: &mut DefaultHasher) { a.hash(h) }
        }
    };
}
cmp!(script, Script);
cmp!(create, Create);
cmp!(mint, Mint);
cmp!(enumeration, Transaction);

/// a serializer and a deserializer without a format: what matters is what is handed to them
pub mod record {
    use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
    use serde::ser::{Impossible, SerializeStruct, SerializeStructVariant, Serializer};
    use serde::Serialize;

    #[derive(Debug)]
    pub struct Fail;
    impl core::fmt::Display for Fail {
        fn fmt(&self, _: &mut core::fmt::Formatter) -> core::fmt::Result { Ok(()) }
    }
    impl std::error::Error for Fail {}
    impl serde::ser::Error for Fail {
        fn custom<T: core::fmt::Display>(_: T) -> Self { Fail }
    }
    impl de::Error for Fail {
        fn custom<T: core::fmt::Display>(_: T) -> Self { Fail }
    }

    pub struct Rec;
    macro_rules! no { ($($f:ident $t:ty;)*) => { $(fn $f(self, _: $t) -> Result<(), Fail> { Err(Fail) })* } }
    impl Serializer for Rec {
        type Ok = ();
        type Error = Fail;
        type SerializeSeq = Impossible<(), Fail>;
        type SerializeTuple = Impossible<(), Fail>;
        type SerializeTupleStruct = Impossible<(), Fail>;
        type SerializeTupleVariant = Impossible<(), Fail>;
        type SerializeMap = Impossible<(), Fail>;
        type SerializeStruct = Fields;
        type SerializeStructVariant = Fields;
        no! { serialize_bool bool; serialize_i8 i8; serialize_i16 i16; serialize_i32 i32; serialize_i64 i64; serialize_u8 u8; serialize_u16 u16;
              serialize_u32 u32; serialize_u64 u64; serialize_f32 f32; serialize_f64 f64; serialize_char char; serialize_str &str; serialize_bytes &[u8];
              serialize_unit_struct &'static str; }
        fn serialize_none(self) -> Result<(), Fail> { Err(Fail) }
        fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<(), Fail> { Err(Fail) }
        fn serialize_unit(self) -> Result<(), Fail> { Err(Fail) }
        fn serialize_unit_variant(self, _: &'static str, k: u32, n: &'static str) -> Result<(), Fail> { tag(k, n); Ok(()) }
        fn serialize_newtype_struct<T: ?Sized + Serialize>(self, n: &'static str, v: &T) -> Result<(), Fail> { put(n, v) }
        fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, k: u32, n: &'static str, v: &T) -> Result<(), Fail> { tag(k, n); put(n, v) }
        fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, Fail> { Err(Fail) }
        fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, Fail> { Err(Fail) }
        fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Fail> { Err(Fail) }
        fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Fail> { Err(Fail) }
        fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Fail> { Err(Fail) }
        fn serialize_struct(self, _: &'static str, _: usize) -> Result<Fields, Fail> { Ok(Fields) }
        fn serialize_struct_variant(self, _: &'static str, k: u32, n: &'static str, _: usize) -> Result<Fields, Fail> { tag(k, n); Ok(Fields) }
    }
    pub struct Fields;
    impl SerializeStruct for Fields {
        type Ok = ();
        type Error = Fail;
        fn serialize_field<T: ?Sized + Serialize>(&mut self, n: &'static str, v: &T) -> Result<(), Fail> { put(n, v) }
        fn end(self) -> Result<(), Fail> { Ok(()) }
    }
    impl SerializeStructVariant for Fields {
        type Ok = ();
        type Error = Fail;
        fn serialize_field<T: ?Sized + Serialize>(&mut self, n: &'static str, v: &T) -> Result<(), Fail> { put(n, v) }
        fn end(self) -> Result<(), Fail> { Ok(()) }
    }
    /// the variant announced to the serializer
    pub fn tag(_: u32, _: &'static str) {}
    /// one named value handed to the serializer
    pub fn put<T: ?Sized + Serialize>(_: &'static str, _: &T) -> Result<(), Fail> { Ok(()) }

    /// the fields the deserializer is asked for
    pub fn ask(_: &'static [&'static str]) {}
    /// the next value, in order
    pub fn take<T>() -> Result<Option<T>, Fail> { Err(Fail) }
    pub fn pull<T>() -> Result<T, Fail> { Err(Fail) }

    macro_rules! src {
        ($n:ident, $f:ident) => {
            pub struct $n;
            impl<'de> Deserializer<'de> for $n {
                type Error = Fail;
                fn deserialize_any<V: Visitor<'de>>(self, _: V) -> Result<V::Value, Fail> { Err(Fail) }
                fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, f: &'static [&'static str], v: V) -> Result<V::Value, Fail> {
                    ask(f);
                    v.$f(self)
                }
                fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Fail> { v.$f(self) }
                serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
                    unit_struct seq tuple tuple_struct map enum identifier ignored_any }
            }
        };
    }
    src!(Seq, visit_seq);
    src!(Map, visit_map);
    /// values under given names
    pub struct Named { pub names: &'static [&'static str], pub at: usize }
    impl<'de> Deserializer<'de> for Named {
        type Error = Fail;
        fn deserialize_any<V: Visitor<'de>>(self, _: V) -> Result<V::Value, Fail> { Err(Fail) }
        fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, f: &'static [&'static str], v: V) -> Result<V::Value, Fail> {
            ask(f);
            v.visit_map(self)
        }
        fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Fail> { v.visit_newtype_struct(self) }
        serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
            unit_struct seq tuple tuple_struct map enum identifier ignored_any }
    }
    impl<'de> MapAccess<'de> for Named {
        type Error = Fail;
        fn next_key<K: serde::Deserialize<'de>>(&mut self) -> Result<Option<K>, Fail> {
            if self.at < self.names.len() {
                let k = K::deserialize(Name(self.names[self.at]));
                self.at += 1;
                match k {
                    Ok(k) => Ok(Some(k)),
                    Err(e) => Err(e),
                }
            } else {
                Ok(None)
            }
        }
        fn next_value<T: serde::Deserialize<'de>>(&mut self) -> Result<T, Fail> { pull() }
        fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, _: T) -> Result<Option<T::Value>, Fail> { take() }
        fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, _: T) -> Result<T::Value, Fail> { pull() }
    }
    impl<'de> VariantAccess<'de> for Seq {
        type Error = Fail;
        fn unit_variant(self) -> Result<(), Fail> { Ok(()) }
        fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, _: T) -> Result<T::Value, Fail> { pull() }
        fn tuple_variant<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, Fail> { v.visit_seq(self) }
        fn struct_variant<V: Visitor<'de>>(self, f: &'static [&'static str], v: V) -> Result<V::Value, Fail> {
            ask(f);
            v.visit_seq(self)
        }
    }
    /// a variant given by its number, or by its name, with its fields in order
    macro_rules! pick {
        ($n:ident, $t:ty, $visit:ident) => {
            pub struct $n(pub $t);
            impl<'de> EnumAccess<'de> for $n {
                type Error = Fail;
                type Variant = Seq;
                fn variant<T: serde::Deserialize<'de>>(self) -> Result<(T, Seq), Fail> {
                    match T::deserialize(self) {
                        Ok(v) => Ok((v, Seq)),
                        Err(e) => Err(e),
                    }
                }
                fn variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<(T::Value, Seq), Fail> {
                    match s.deserialize(self) {
                        Ok(v) => Ok((v, Seq)),
                        Err(e) => Err(e),
                    }
                }
            }
            impl<'de> Deserializer<'de> for $n {
                type Error = Fail;
                fn deserialize_any<V: Visitor<'de>>(self, _: V) -> Result<V::Value, Fail> { Err(Fail) }
                fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, f: &'static [&'static str], v: V) -> Result<V::Value, Fail> {
                    ask(f);
                    v.visit_enum(self)
                }
                fn deserialize_identifier<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Fail> { v.$visit(self.0) }
                serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
                    unit_struct newtype_struct seq tuple tuple_struct map struct ignored_any }
            }
        };
    }
    pick!(Number, u64, visit_u64);
    pick!(Name, &'static str, visit_str);
    /// a variant given by its name, with its fields under given names
    pub struct Entry(pub &'static str, pub Named);
    impl<'de> EnumAccess<'de> for Entry {
        type Error = Fail;
        type Variant = Named;
        fn variant<T: serde::Deserialize<'de>>(self) -> Result<(T, Named), Fail> {
            match T::deserialize(Name(self.0)) {
                Ok(v) => Ok((v, self.1)),
                Err(e) => Err(e),
            }
        }
        fn variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<(T::Value, Named), Fail> {
            match s.deserialize(Name(self.0)) {
                Ok(v) => Ok((v, self.1)),
                Err(e) => Err(e),
            }
        }
    }
    impl<'de> Deserializer<'de> for Entry {
        type Error = Fail;
        fn deserialize_any<V: Visitor<'de>>(self, _: V) -> Result<V::Value, Fail> { Err(Fail) }
        fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, f: &'static [&'static str], v: V) -> Result<V::Value, Fail> {
            ask(f);
            v.visit_enum(self)
        }
        serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
            unit_struct newtype_struct seq tuple tuple_struct map struct identifier ignored_any }
    }
    impl<'de> VariantAccess<'de> for Named {
        type Error = Fail;
        fn unit_variant(self) -> Result<(), Fail> { Ok(()) }
        fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, _: T) -> Result<T::Value, Fail> { pull() }
        fn tuple_variant<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, Fail> { v.visit_map(self) }
        fn struct_variant<V: Visitor<'de>>(self, f: &'static [&'static str], v: V) -> Result<V::Value, Fail> {
            ask(f);
            v.visit_map(self)
        }
    }
    impl<'de> SeqAccess<'de> for Seq {
        type Error = Fail;
        fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, _: T) -> Result<Option<T::Value>, Fail> { take() }
    }
    impl<'de> MapAccess<'de> for Map {
        type Error = Fail;
        fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, _: T) -> Result<Option<T::Value>, Fail> { take() }
        fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, _: T) -> Result<T::Value, Fail> { pull() }
    }
}

macro_rules! ser {
    ($m:ident, $t:ty) => {
        pub mod $m {
            use super::*;
            pub fn serialize(t: &$t) -> Result<(), record::Fail> { serde::Serialize::serialize(t, record::Rec) }
            pub fn from_seq() -> Result<$t, record::Fail> { serde::Deserialize::deserialize(record::Seq) }
            pub fn from_named(names: &'static [&'static str]) -> Result<$t, record::Fail> {
                serde::Deserialize::deserialize(record::Named { names, at: 0 })
            }
            pub fn from_map() -> Result<$t, record::Fail> { serde::Deserialize::deserialize(record::Map) }
        }
    };
}
macro_rules! ser_enum {
    ($m:ident, $t:ty) => {
        pub mod $m {
            use super::*;
            pub fn serialize(t: &$t) -> Result<(), record::Fail> { serde::Serialize::serialize(t, record::Rec) }
            pub fn from_number(k: u64) -> Result<$t, record::Fail> { serde::Deserialize::deserialize(record::Number(k)) }
            pub fn from_named(names: &'static [&'static str], k: &'static str) -> Result<$t, record::Fail> {
                serde::Deserialize::deserialize(record::Entry(k, record::Named { names, at: 0 }))
            }
            pub fn from_name(k: &'static str) -> Result<$t, record::Fail> { serde::Deserialize::deserialize(record::Name(k)) }
        }
    };
}
pub mod parts {
    use super::*;
    ser_enum!(input, Input);
    ser_enum!(output, Output);
    ser_enum!(receipt, Receipt);
    ser_enum!(result, ScriptExecutionResult);
    ser_enum!(transaction, Transaction);
    ser_enum!(error, CheckError);
    ser!(witness, Witness);
    ser!(slot, StorageSlot);
    ser!(utxo, UtxoId);
    ser!(pointer, TxPointer);
    ser!(params, ConsensusParameters);
    ser!(fee, TransactionFee);
    ser!(contract, Contract);
}
pub mod same {
    use super::*;
    cmp!(input, Input);
    cmp!(output, Output);
    cmp!(receipt, Receipt);
    cmp!(result, ScriptExecutionResult);
    cmp!(witness, Witness);
    cmp!(slot, StorageSlot);
    cmp!(utxo, UtxoId);
    cmp!(pointer, TxPointer);
    cmp!(params, ConsensusParameters);
    cmp!(fee, TransactionFee);
    cmp!(contract, Contract);
    macro_rules! cl { ($($m:ident $t:ty;)*) => { pub mod cloned { use super::*; $(pub fn $m(x: &$t) -> $t { Clone::clone(x) })* } } }
    cl! { input Input; output Output; receipt Receipt; result ScriptExecutionResult; witness Witness; slot StorageSlot; utxo UtxoId; pointer TxPointer;
          params ConsensusParameters; fee TransactionFee; contract Contract; script Script; create Create; mint Mint; transaction Transaction; }
}
pub mod order {
    use super::*;
    use core::cmp::Ordering;
    macro_rules! o { ($($m:ident $t:ty;)*) => { $(pub mod $m { use super::*;
        pub fn cmp(a: &$t, b: &$t) -> Ordering { a.cmp(b) }
        pub fn partial(a: &$t, b: &$t) -> Option<Ordering> { a.partial_cmp(b) }
        pub fn less(a: &$t, b: &$t) -> bool { a < b }
    })* } }
    o! { utxo UtxoId; pointer TxPointer; fee TransactionFee; slot StorageSlot; }
    pub mod want {
        use super::*;
        pub fn utxo(a: &UtxoId, b: &UtxoId) -> Ordering {
            match a.tx_id().cmp(b.tx_id()) { Ordering::Equal => a.output_index().cmp(&b.output_index()), o => o }
        }
        pub fn pointer(a: &TxPointer, b: &TxPointer) -> Ordering {
            match a.block_height().cmp(&b.block_height()) { Ordering::Equal => a.tx_index().cmp(&b.tx_index()), o => o }
        }
        pub fn slot(a: &StorageSlot, b: &StorageSlot) -> Ordering { a.key().cmp(b.key()) }
    }
}
pub mod serial {
    use super::*;
    ser!(script, Script);
    ser!(create, Create);
    ser!(mint, Mint);
    ser!(enumeration, Transaction);
}

pub mod json {
    use fuel_tx::Transaction;
    pub fn to(t: &Transaction) -> String { t.to_json() }
    pub fn from(s: &str) -> Option<Transaction> { Transaction::from_json(s) }
}
