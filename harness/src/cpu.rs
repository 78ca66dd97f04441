//! Makes the process believe that its CPU lacks features, so that all backends of the code under
//! test can be executed on one machine: the cache std keeps of the detected features is edited. Only
//! ever removes features.

use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

/// Address of std_detect's cache in this process
fn cache() -> &'static [AtomicUsize; 3] {
    // Fills the cache
    assert!(is_x86_feature_detected!("sse2"));

    let elf = std::fs::read("/proc/self/exe").expect("read own executable");
    let u16at = |o: usize| u16::from_le_bytes(elf[o..o + 2].try_into().unwrap()) as usize;
    let u32at = |o: usize| u32::from_le_bytes(elf[o..o + 4].try_into().unwrap()) as usize;
    let u64at = |o: usize| u64::from_le_bytes(elf[o..o + 8].try_into().unwrap()) as usize;
    let (shoff, shentsize, shnum) = (u64at(0x28), u16at(0x3A), u16at(0x3C));
    let mut found = vec![];
    for s in (0..shnum).map(|i| shoff + i * shentsize) {
        const SHT_SYMTAB: usize = 2;
        if u32at(s + 4) != SHT_SYMTAB {
            continue;
        }
        let (off, size) = (u64at(s + 0x18), u64at(s + 0x20));
        let str_off = u64at(shoff + u32at(s + 0x28) * shentsize + 0x18);
        for sym in (off..off + size).step_by(24) {
            let name = &elf[str_off + u32at(sym)..];
            let name = &name[..name.iter().position(|b| *b == 0).unwrap()];
            let name = std::str::from_utf8(name).unwrap_or("");
            if name.contains("std_detect") && name.contains("5cache5CACHE") {
                found.push(u64at(sym + 8));
            }
        }
    }
    assert_eq!(found.len(), 1, "std_detect's cache");

    // Load address of the executable, which is the first object
    unsafe extern "C" fn first(
        info: *mut libc::dl_phdr_info,
        _: libc::size_t,
        data: *mut libc::c_void,
    ) -> libc::c_int {
        *(data as *mut usize) = (*info).dlpi_addr as usize;
        1
    }
    let mut base = 0usize;
    unsafe {
        libc::dl_iterate_phdr(Some(first), (&mut base as *mut usize).cast());
        &*((base + found[0]) as *const [AtomicUsize; 3])
    }
}

/// Clears the bit which makes the feature detected
fn remove(cache: &[AtomicUsize; 3], detected: fn() -> bool) {
    if !detected() {
        return;
    }
    for w in cache {
        // The most significant bit marks the cache as filled
        for bit in 0..63 {
            let old = w.load(SeqCst);
            if old & (1 << bit) == 0 {
                continue;
            }
            w.store(old & !(1 << bit), SeqCst);
            if !detected() {
                return;
            }
            w.store(old, SeqCst);
        }
    }
    panic!("feature can't be removed");
}

pub fn restrict(cpu: &str) {
    let all = match cpu {
        "" => return,
        "avx2" => false,
        "scalar" => true,
        c => panic!("unknown CPU {c}"),
    };
    let cache = cache();
    remove(cache, || is_x86_feature_detected!("avx512f"));
    remove(cache, || is_x86_feature_detected!("avx512bw"));
    remove(cache, || is_x86_feature_detected!("avx512vl"));
    remove(cache, || is_x86_feature_detected!("avx512dq"));
    if all {
        remove(cache, || is_x86_feature_detected!("avx2"));
        remove(cache, || is_x86_feature_detected!("fma"));
    }
    assert!(is_x86_feature_detected!("sse2"));
}
