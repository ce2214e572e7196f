//! Offline stand-in for `tracing-futures`: instrumentation is a no-op.
pub trait Instrument: Sized {
    fn instrument(self, _span: tracing::Span) -> Self { self }
    fn in_current_span(self) -> Self { self }
}
impl<T: Sized> Instrument for T {}
