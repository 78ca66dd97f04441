//! Memory regions which may be fenced by inaccessible pages.

use std::ptr;

pub struct Region {
    base: *mut u8,
    map_len: usize,
    ptr: *mut u8,
    len: usize,
}

unsafe impl Send for Region {}
unsafe impl Sync for Region {}

const PAGE: usize = 4096;

/// Whether that much (mostly untouched) memory can be mapped
pub fn mappable(len: usize) -> bool {
    unsafe {
        let p = libc::mmap(
            ptr::null_mut(),
            len,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        p != libc::MAP_FAILED && libc::munmap(p, len) == 0
    }
}

impl Region {
    /// `fence`: "tail" the last byte is followed by an inaccessible page, "head" the first byte is
    /// preceded by one, "none" neither. `misalign` bytes are added to the (page aligned) address
    /// if "none".
    pub fn new(len: usize, fence: &str, misalign: usize) -> Region {
        let pages = (len + misalign + PAGE - 1) / PAGE;
        let map_len = (pages + 2) * PAGE;
        unsafe {
            let base = libc::mmap(
                ptr::null_mut(),
                map_len,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            );
            assert!(base != libc::MAP_FAILED, "mmap");
            let base = base as *mut u8;
            assert_eq!(libc::mprotect(base.cast(), PAGE, libc::PROT_NONE), 0);
            assert_eq!(
                libc::mprotect(base.add(PAGE + pages * PAGE).cast(), PAGE, libc::PROT_NONE),
                0
            );
            let ptr = match fence {
                "tail" => base.add(PAGE + pages * PAGE - len),
                "head" => base.add(PAGE),
                _ => base.add(PAGE + misalign),
            };
            Region {
                base,
                map_len,
                ptr,
                len,
            }
        }
    }

    /// The same memory. Must not be used anymore once `self` is gone
    pub fn alias(&self) -> Region {
        Region {
            base: ptr::null_mut(),
            map_len: 0,
            ptr: self.ptr,
            len: self.len,
        }
    }

    pub fn ptr(&self) -> *mut u8 {
        self.ptr
    }

    pub fn bytes(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.ptr, self.len) }
    }

    pub fn bytes_mut(&mut self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.ptr, self.len) }
    }
}

impl Drop for Region {
    fn drop(&mut self) {
        if self.base.is_null() {
            return;
        }
        unsafe {
            libc::munmap(self.base.cast(), self.map_len);
        }
    }
}
