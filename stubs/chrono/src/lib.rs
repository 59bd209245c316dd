//! Stand-in: only the log timestamp the compiler prints.
pub struct Local;
impl Local { pub fn now() -> Local { Local } pub fn format(&self, _f: &str) -> &'static str { "00:00:00" } }
