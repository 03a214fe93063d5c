//! Ideal-hash model used by the verification harness in place of Sha1.
//!
//! The digest of a byte string is an injective function of it: the index of the
//! string among all distinct strings hashed so far in this execution.
#![allow(static_mut_refs, missing_docs)]
use alloc::vec::Vec;
use digest::{
    consts::{U20, U64}, core_api::BlockSizeUser, FixedOutput, FixedOutputReset, HashMarker, Output,
    OutputSizeUser, Reset, Update,
};
#[cfg(feature = "oid")]
use digest::const_oid::{AssociatedOid, ObjectIdentifier};

static mut TABLE: Vec<Vec<u8>> = Vec::new();

fn intern(p: &[u8]) -> usize {
    unsafe {
        for (i, q) in TABLE.iter().enumerate() {
            if q.len() == p.len() && q[..] == *p {
                return i;
            }
        }
        TABLE.push(p.to_vec());
        TABLE.len() - 1
    }
}

/// The modelled hash function.
#[derive(Clone, Default, Debug)]
pub struct Sha1 {
    buf: Vec<u8>,
}
impl HashMarker for Sha1 {}
impl OutputSizeUser for Sha1 {
    type OutputSize = U20;
}
impl BlockSizeUser for Sha1 {
    type BlockSize = U64;
}
impl Update for Sha1 {
    fn update(&mut self, data: &[u8]) {
        self.buf.extend_from_slice(data);
    }
}
impl FixedOutput for Sha1 {
    fn finalize_into(self, out: &mut Output<Self>) {
        let i = intern(&self.buf);
        for b in out.iter_mut() {
            *b = 0x51u8;
        }
        out[1] = (i >> 8) as u8;
        out[2] = i as u8;
    }
}
impl Reset for Sha1 {
    fn reset(&mut self) {
        self.buf.clear();
    }
}
impl FixedOutputReset for Sha1 {
    fn finalize_into_reset(&mut self, out: &mut Output<Self>) {
        self.clone().finalize_into(out);
        self.reset();
    }
}
#[cfg(feature = "oid")]
impl AssociatedOid for Sha1 {
    const OID: ObjectIdentifier = ObjectIdentifier::new_unwrap("1.3.14.3.2.26");
}
