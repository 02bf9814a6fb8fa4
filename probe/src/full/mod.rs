#[cfg(feature = "full")]
pub mod ident;
#[cfg(feature = "full")]
pub mod sign;
#[cfg(feature = "full")]
pub mod offsets;
#[cfg(feature = "full")]
pub mod accessors;
#[cfg(feature = "full")]
pub mod cached;
#[cfg(feature = "full")]
pub mod checked;
#[cfg(feature = "full")]
pub mod build;
#[cfg(feature = "full")]
pub mod exec;
#[cfg(feature = "full")]
pub mod values;
#[cfg(feature = "full")]
pub mod compare;
pub mod spec;
#[cfg(feature = "full")]
pub mod builder;
#[cfg(feature = "full")]
pub mod text;
#[cfg(feature = "full")]
pub mod queries;
#[cfg(feature = "full")]
pub mod entry;
