//! Stand-in for parse-display: the derives and attributes linkspace uses.
pub use parse_display_derive::{Display, FromStr};
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct ParseError(pub &'static str);
impl std::fmt::Display for ParseError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(self.0)
    }
}
impl std::error::Error for ParseError {}
