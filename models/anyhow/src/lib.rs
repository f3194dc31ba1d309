//! Model of `anyhow`: boxed errors without backtraces.
use std::error::Error as StdError;
use std::fmt;
pub struct Error(Box<dyn StdError + Send + Sync + 'static>);
pub type Result<T, E = Error> = std::result::Result<T, E>;
#[derive(Debug)]
pub struct Message;
impl fmt::Display for Message { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("error") } }
impl StdError for Message {}
impl Error {
    pub fn msg<M>(_: M) -> Self { Error(Box::new(Message)) }
    pub fn new<E: StdError + Send + Sync + 'static>(e: E) -> Self { Error(Box::new(e)) }
    pub fn context<C>(self, _: C) -> Self { self }
    pub fn downcast_ref<E: StdError + 'static>(&self) -> Option<&E> { self.0.downcast_ref() }
}
impl fmt::Debug for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&self.0, f) } }
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.0, f) } }
impl std::ops::Deref for Error { type Target = dyn StdError + Send + Sync + 'static; fn deref(&self) -> &Self::Target { &*self.0 } }
impl AsRef<dyn StdError + Send + Sync> for Error { fn as_ref(&self) -> &(dyn StdError + Send + Sync + 'static) { &*self.0 } }
impl<E: StdError + Send + Sync + 'static> From<E> for Error { fn from(e: E) -> Self { Error(Box::new(e)) } }
pub trait Context<T> {
    fn context<C>(self, c: C) -> Result<T>;
    fn with_context<C, F: FnOnce() -> C>(self, f: F) -> Result<T>;
}
impl<T, E: Into<Error>> Context<T> for std::result::Result<T, E> {
    fn context<C>(self, _: C) -> Result<T> { self.map_err(Into::into) }
    fn with_context<C, F: FnOnce() -> C>(self, _: F) -> Result<T> { self.map_err(Into::into) }
}
impl<T> Context<T> for Option<T> {
    fn context<C>(self, c: C) -> Result<T> { self.ok_or_else(|| Error::msg(c)) }
    fn with_context<C, F: FnOnce() -> C>(self, f: F) -> Result<T> { self.ok_or_else(|| Error::msg(f())) }
}
#[macro_export]
macro_rules! anyhow { ($($t:tt)*) => { $crate::Error::msg(format!($($t)*)) }; }
#[macro_export]
macro_rules! bail { ($($t:tt)*) => { return Err($crate::anyhow!($($t)*)) }; }
#[macro_export]
macro_rules! ensure { ($c:expr, $($t:tt)*) => { if !($c) { return Err($crate::anyhow!($($t)*)) } }; ($c:expr) => { if !($c) { return Err($crate::anyhow!("condition")) } }; }
