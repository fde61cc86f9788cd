//! Stand-in for the author's fork of triomphe (a git dependency, not available offline):
//! the part linkspace-pkt uses, with the same layout (count, then the header, then the slice).
use std::alloc::{alloc, dealloc, handle_alloc_error, Layout};
use std::fmt;
use std::marker::PhantomData;
use std::ops::Deref;
use std::ptr::NonNull;
use std::sync::atomic::{fence, AtomicUsize, Ordering};

#[repr(C)]
struct ArcInner<T: ?Sized> {
    count: AtomicUsize,
    data: T,
}
#[derive(Debug)]
#[repr(C)]
pub struct HeaderSlice<H, T: ?Sized> {
    pub header: H,
    pub slice: T,
}
#[repr(transparent)]
pub struct Arc<T: ?Sized> {
    p: NonNull<ArcInner<T>>,
    phantom: PhantomData<T>,
}
unsafe impl<T: ?Sized + Sync + Send> Send for Arc<T> {}
unsafe impl<T: ?Sized + Sync + Send> Sync for Arc<T> {}

/// arcs allocated and freed so far in this process (read by the monitors)
pub static ALLOCATED: AtomicUsize = AtomicUsize::new(0);
pub static FREED: AtomicUsize = AtomicUsize::new(0);

impl<T: ?Sized> Arc<T> {
    fn inner(&self) -> &ArcInner<T> {
        unsafe { self.p.as_ref() }
    }
    pub fn count(this: &Self) -> usize {
        this.inner().count.load(Ordering::Acquire)
    }
    pub fn into_raw(this: Self) -> *const T {
        let p: *const T = unsafe { std::ptr::addr_of!((*this.p.as_ptr()).data) };
        std::mem::forget(this);
        p
    }
    pub fn heap_ptr(&self) -> *const std::ffi::c_void {
        self.p.as_ptr() as *const std::ffi::c_void
    }
    pub fn as_ptr(this: &Self) -> *const T {
        unsafe { std::ptr::addr_of!((*this.p.as_ptr()).data) }
    }
}
impl<H> Arc<HeaderSlice<H, [u8]>> {
    pub fn from_header_and_fn(header: H, len: usize, init: impl FnOnce(&mut [u8])) -> Self {
        let off = std::mem::size_of::<H>();
        let layout = Layout::new::<AtomicUsize>()
            .extend(Layout::from_size_align(off + len, std::mem::align_of::<H>()).unwrap())
            .unwrap()
            .0
            .pad_to_align();
        unsafe {
            let mem = alloc(layout);
            if mem.is_null() {
                handle_alloc_error(layout);
            }
            let fat = std::ptr::slice_from_raw_parts_mut(mem, len) as *mut ArcInner<HeaderSlice<H, [u8]>>;
            std::ptr::addr_of_mut!((*fat).count).write(AtomicUsize::new(1));
            std::ptr::addr_of_mut!((*fat).data.header).write(header);
            let sl = std::ptr::addr_of_mut!((*fat).data.slice) as *mut u8;
            std::ptr::write_bytes(sl, 0xA5, len);
            ALLOCATED.fetch_add(1, Ordering::Relaxed);
            let arc = Arc { p: NonNull::new_unchecked(fat), phantom: PhantomData };
            init(std::slice::from_raw_parts_mut(sl, len));
            arc
        }
    }
}
impl<T: ?Sized> Clone for Arc<T> {
    fn clone(&self) -> Self {
        let old = self.inner().count.fetch_add(1, Ordering::Relaxed);
        assert!(old < isize::MAX as usize && old > 0, "triomphe: bad reference count {old}");
        Arc { p: self.p, phantom: PhantomData }
    }
}
impl<T: ?Sized> Drop for Arc<T> {
    fn drop(&mut self) {
        let old = self.inner().count.fetch_sub(1, Ordering::Release);
        assert!(old > 0, "triomphe: reference count underflow");
        if old != 1 {
            return;
        }
        fence(Ordering::Acquire);
        FREED.fetch_add(1, Ordering::Relaxed);
        unsafe {
            let layout = Layout::for_value(self.p.as_ref());
            std::ptr::drop_in_place(std::ptr::addr_of_mut!((*self.p.as_ptr()).data));
            dealloc(self.p.as_ptr() as *mut u8, layout);
        }
    }
}
impl<T: ?Sized> Deref for Arc<T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.inner().data
    }
}
impl<T: ?Sized> fmt::Pointer for Arc<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Pointer::fmt(&Arc::as_ptr(self), f)
    }
}
