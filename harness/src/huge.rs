//! Inputs too large to write.

/// 4 GiB and a bit of NUL characters that are never written, so they occupy no memory
pub fn endless() -> Option<&'static str> {
    static TEXT: std::sync::OnceLock<Option<&'static str>> = std::sync::OnceLock::new();
    *TEXT.get_or_init(|| {
        let n = (1usize << 32) + (1 << 20) + 7;
        let layout = std::alloc::Layout::from_size_align(n, 4096).unwrap();
        let p = unsafe { std::alloc::alloc_zeroed(layout) };
        if p.is_null() {
            return None;
        }
        Some(unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) })
    })
}
