//! Changed for /verif: the default memory is the mock system API's stable memory on native
//! targets, too (the thread's current canister instance).
use crate::Memory;

#[derive(Clone, Copy, Default)]
pub struct Ic0StableMemory;

impl Memory for Ic0StableMemory {
    #[inline]
    fn size(&self) -> u64 {
        ic0::mock::stable_size()
    }

    #[inline]
    fn grow(&self, pages: u64) -> i64 {
        ic0::mock::stable_grow(pages)
    }

    #[inline]
    fn read(&self, offset: u64, dst: &mut [u8]) {
        ic0::mock::stable_read(offset, dst)
    }

    #[inline]
    fn write(&self, offset: u64, src: &[u8]) {
        ic0::mock::stable_write(offset, src)
    }
}
