use super::CustomError;
use alloc::borrow::Cow;

/// An error backtrace (verif shim: empty).
#[derive(Debug)]
pub struct Backtrace;

/// A captured backtrace frame.
#[derive(Debug)]
pub enum BacktraceFrame {
    /// A standard frame.
    Full {
        /// code
        code: Option<&'static str>,
        /// message
        message: Cow<'static, str>,
        /// file
        file: &'static str,
        /// line
        line: u32,
    },
    /// A message-only frame.
    Message(Cow<'static, str>),
    /// A user-specified custom error context.
    Custom(Box<dyn CustomError>),
}

impl<T: CustomError + 'static> From<T> for BacktraceFrame {
    fn from(err: T) -> Self {
        Self::Custom(Box::new(err) as _)
    }
}
