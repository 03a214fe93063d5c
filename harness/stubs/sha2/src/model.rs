//! Ideal-hash model used by the verification harness in place of Sha256.
//!
//! The digest of a byte string is an injective function of it: the index of the
//! string among all distinct strings hashed so far in this execution.
#![allow(static_mut_refs, missing_docs)]
use alloc::vec::Vec;
use digest::{
    consts::{U32, U64}, core_api::BlockSizeUser, FixedOutput, FixedOutputReset, HashMarker, Output,
    OutputSizeUser, Reset, Update,
};
#[cfg(feature = "oid")]
use digest::const_oid::{AssociatedOid, ObjectIdentifier};

static mut TABLE: Vec<Vec<u8>> = Vec::new();

fn intern(p: &[u8]) -> usize {
    unsafe {
        for (i, q) in TABLE.iter().enumerate() {
            if q.len() == p.len() && q[..] == *p {
                return i;
            }
        }
        TABLE.push(p.to_vec());
        TABLE.len() - 1
    }
}

/// The modelled hash function.
#[derive(Clone, Default, Debug)]
pub struct Sha256 {
    buf: Vec<u8>,
}
impl HashMarker for Sha256 {}
impl OutputSizeUser for Sha256 {
    type OutputSize = U32;
}
impl BlockSizeUser for Sha256 {
    type BlockSize = U64;
}
impl Update for Sha256 {
    fn update(&mut self, data: &[u8]) {
        self.buf.extend_from_slice(data);
    }
}
impl FixedOutput for Sha256 {
    fn finalize_into(self, out: &mut Output<Self>) {
        let i = intern(&self.buf);
        for b in out.iter_mut() {
            *b = 0xa5u8;
        }
        out[1] = (i >> 8) as u8;
        out[2] = i as u8;
    }
}
impl Reset for Sha256 {
    fn reset(&mut self) {
        self.buf.clear();
    }
}
impl FixedOutputReset for Sha256 {
    fn finalize_into_reset(&mut self, out: &mut Output<Self>) {
        self.clone().finalize_into(out);
        self.reset();
    }
}
#[cfg(feature = "oid")]
impl AssociatedOid for Sha256 {
    const OID: ObjectIdentifier = ObjectIdentifier::new_unwrap("2.16.840.1.101.3.4.2.1");
}
