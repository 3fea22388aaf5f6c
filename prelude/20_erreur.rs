// Errors carry no information that any contract depends on.
pub mod erreur {
use vstd::prelude::*;
use crate::base::*;
pub type StdResult<T, E> = core::result::Result<T, E>;
pub type Result<T, E = Report> = core::result::Result<T, E>;
#[verifier::external_body]
pub struct Report { x: u8 }
impl Report {
    #[verifier::external_body] pub fn some() -> Report { unimplemented!() }
    #[verifier::external_body] pub fn new<E>(e: E) -> Report { unimplemented!() }
    #[verifier::external_body] pub fn msg<E>(e: E) -> Report { unimplemented!() }
}
/// context(), with_context(), note() ... keep what they are called on, an error becomes a report
pub trait Context<T>: Sized {
    spec fn val(self) -> Option<T>;
    fn context(self) -> (r: Result<T>) ensures r is Ok <==> self.val() is Some, r is Ok ==> Some(r->Ok_0) == self.val();
    fn with_context(self) -> (r: Result<T>) ensures r is Ok <==> self.val() is Some, r is Ok ==> Some(r->Ok_0) == self.val();
}
impl<T> Context<T> for Option<T> {
    open spec fn val(self) -> Option<T> { self }
    #[verifier::external_body] fn context(self) -> (r: Result<T>) { unimplemented!() }
    #[verifier::external_body] fn with_context(self) -> (r: Result<T>) { unimplemented!() }
}
impl<T, E> Context<T> for core::result::Result<T, E> {
    open spec fn val(self) -> Option<T> { if self is Ok { Some(self->Ok_0) } else { None } }
    #[verifier::external_body] fn context(self) -> (r: Result<T>) { unimplemented!() }
    #[verifier::external_body] fn with_context(self) -> (r: Result<T>) { unimplemented!() }
}
pub trait Help<T>: Sized {
    spec fn val_h(self) -> Option<T>;
    fn note(self) -> (r: Result<T>) ensures r is Ok <==> self.val_h() is Some, r is Ok ==> Some(r->Ok_0) == self.val_h();
    fn with_note(self) -> (r: Result<T>) ensures r is Ok <==> self.val_h() is Some, r is Ok ==> Some(r->Ok_0) == self.val_h();
    fn suggestion(self) -> (r: Result<T>) ensures r is Ok <==> self.val_h() is Some, r is Ok ==> Some(r->Ok_0) == self.val_h();
    fn with_suggestion(self) -> (r: Result<T>) ensures r is Ok <==> self.val_h() is Some, r is Ok ==> Some(r->Ok_0) == self.val_h();
    fn warning(self) -> (r: Result<T>) ensures r is Ok <==> self.val_h() is Some, r is Ok ==> Some(r->Ok_0) == self.val_h();
}
impl<T, E> Help<T> for core::result::Result<T, E> {
    open spec fn val_h(self) -> Option<T> { if self is Ok { Some(self->Ok_0) } else { None } }
    #[verifier::external_body] fn note(self) -> (r: Result<T>) { unimplemented!() }
    #[verifier::external_body] fn with_note(self) -> (r: Result<T>) { unimplemented!() }
    #[verifier::external_body] fn suggestion(self) -> (r: Result<T>) { unimplemented!() }
    #[verifier::external_body] fn with_suggestion(self) -> (r: Result<T>) { unimplemented!() }
    #[verifier::external_body] fn warning(self) -> (r: Result<T>) { unimplemented!() }
}
pub trait LogAndDiscardResult { fn log_and_discard(self); }
impl<T> LogAndDiscardResult for Result<T> { #[verifier::external_body] fn log_and_discard(self) { unimplemented!() } }
pub use bail_ as bail; pub use bail_ as ensure;
pub fn bail_() {}
pub trait StdError {}
#[verifier::external_body] pub fn install_panic_handler() -> (r: Result<()>) { unimplemented!() }
}
