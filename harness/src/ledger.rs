//! Ledger of tracked values: every creation and release is recorded per thread.
use std::cell::{Cell, RefCell};

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static CREATED: Cell<u64> = const { Cell::new(0) };
    static STATE: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
    static DOUBLE: Cell<u64> = const { Cell::new(0) };
}

/// forget everything (call at the beginning of a case)
pub fn reset() {
    LIVE.set(0);
    DOUBLE.set(0);
    CREATED.set(0);
    STATE.with(|s| s.borrow_mut().clear());
}
pub fn live() -> i64 {
    LIVE.get()
}
pub fn created() -> u64 {
    CREATED.get()
}
pub fn double_releases() -> u64 {
    DOUBLE.get()
}

/// tracked token; not Clone on purpose
#[derive(Debug)]
pub struct Tok(u32);

impl Tok {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Tok {
        CREATED.set(CREATED.get() + 1);
        LIVE.set(LIVE.get() + 1);
        STATE.with(|s| {
            let mut s = s.borrow_mut();
            s.push(1);
            Tok(s.len() as u32 - 1)
        })
    }
}

impl Drop for Tok {
    fn drop(&mut self) {
        LIVE.set(LIVE.get() - 1);
        STATE.with(|s| {
            let mut s = s.borrow_mut();
            match s.get_mut(self.0 as usize) {
                Some(x) if *x == 1 => *x = 2,
                _ => DOUBLE.set(DOUBLE.get() + 1),
            }
        })
    }
}

/// all released, exactly once
pub fn balanced() -> Result<(), String> {
    if double_releases() > 0 {
        return Err(format!("{} value(s) released more than once", double_releases()));
    }
    if live() != 0 {
        return Err(format!(
            "{} of {} value(s) never released",
            live(),
            created()
        ));
    }
    Ok(())
}
