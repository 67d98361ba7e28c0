//! Objects of the crate under test, put at varying addresses: exactly sized heap blocks at every
//! legal alignment, or flush against inaccessible pages.
use hcore::data::Buf;
use std::cell::Cell;
use std::ops::{Deref, DerefMut};

thread_local! {
    static NEXT: Cell<u32> = Cell::new(0);
}
/// Placement depends on the case alone.
pub fn restart() {
    NEXT.with(|n| n.set(0));
}

pub struct Placed<T> {
    at: *mut T,
    _room: Buf,
}
impl<T> Placed<T> {
    pub fn new(v: T) -> Placed<T> {
        let k = NEXT.with(|n| {
            n.set(n.get().wrapping_add(1));
            n.get()
        });
        let align = std::mem::align_of::<T>();
        // Offsets 8, 16, 24 ... for an alignment of 8: mostly not what a larger type would get.
        let off = (k as usize * align) % 64;
        let room = Buf::room(std::mem::size_of::<T>(), off as u8);
        let at = room.start() as *mut T;
        assert!(at as usize % align == 0);
        unsafe { at.write(v) };
        Placed { at, _room: room }
    }
}
impl<T> Deref for Placed<T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.at }
    }
}
impl<T> DerefMut for Placed<T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.at }
    }
}
impl<T> Drop for Placed<T> {
    fn drop(&mut self) {
        unsafe { std::ptr::drop_in_place(self.at) };
    }
}
