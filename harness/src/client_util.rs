//! The one item of the client's util.rs that its adapter needs; the file itself pulls in the RPC client.
use anchor_lang::error::Error;
use anchor_lang::{AccountDeserialize, ZeroCopy};

pub trait ZeroCopyDeserialize {
    fn try_deserialize_from_slice(buf: &mut &[u8]) -> Result<Self, Error>
    where
        Self: Sized;
}

impl<T: AccountDeserialize + ZeroCopy> ZeroCopyDeserialize for T {
    fn try_deserialize_from_slice(buf: &mut &[u8]) -> Result<Self, Error> {
        Self::try_deserialize(&mut &buf[..std::mem::size_of::<Self>() + 8])
    }
}
