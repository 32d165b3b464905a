//! SHA-256 as an ideal (collision-free) function.
pub use digest::{self, Digest};
use digest::consts::U32;
use digest::generic_array::GenericArray;

#[derive(Clone, Default)]
pub struct Sha256 {
    buffer: Vec<u8>,
}
impl digest::BlockInput for Sha256 {
    type BlockSize = digest::consts::U64;
}
impl digest::Update for Sha256 {
    fn update(&mut self, data: impl AsRef<[u8]>) {
        self.buffer.extend_from_slice(data.as_ref());
    }
}
impl digest::FixedOutputDirty for Sha256 {
    type OutputSize = U32;
    fn finalize_into_dirty(&mut self, out: &mut GenericArray<u8, U32>) {
        out.copy_from_slice(&vrt::hash(&self.buffer));
    }
}
impl digest::Reset for Sha256 {
    fn reset(&mut self) {
        self.buffer.clear();
    }
}
