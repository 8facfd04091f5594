//! Boundary to the thread simulator (the conc crate).

extern "C" {
    fn dst_in_lib(v: i32);
    fn dst_off() -> i32;
    fn dst_back(v: i32);
    fn dst_note_alloc(p: usize, n: usize);
}

#[inline]
pub fn in_lib(v: bool) {
    unsafe { dst_in_lib(v as i32) }
}

#[inline]
pub fn note_alloc(p: *mut u8, n: usize) {
    if !p.is_null() {
        unsafe { dst_note_alloc(p as usize, n) }
    }
}

/// The allocator is not library code.
pub struct Off(i32);
impl Off {
    #[inline]
    pub fn new() -> Off {
        Off(unsafe { dst_off() })
    }
}
impl Drop for Off {
    #[inline]
    fn drop(&mut self) {
        unsafe { dst_back(self.0) }
    }
}
