//! Verification shim: observation points for error construction.

/// Number of enclosing enum-variant attempts (an error inside one is recoverable).
pub static mut TRY_DEPTH: u32 = 0;

/// Called whenever the runtime or generated code constructs an error.
#[inline]
#[allow(unsafe_code)]
pub fn on_error() {
    if unsafe { TRY_DEPTH } == 0 {
        terminal_error();
    }
}

/// An error that no enum alternative can recover from. No effect unless a proof harness stubs it.
pub fn terminal_error() {}

/// Enter an enum-variant attempt.
#[inline]
#[allow(unsafe_code)]
pub fn try_enter() {
    unsafe { TRY_DEPTH += 1 }
}

/// Leave an enum-variant attempt.
#[inline]
#[allow(unsafe_code)]
pub fn try_leave() {
    unsafe { TRY_DEPTH -= 1 }
}
