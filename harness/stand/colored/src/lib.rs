//! Stand-in for `colored`: text without styles.
use std::fmt;
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct ColoredString(String);
impl fmt::Display for ColoredString { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.0.fmt(f) } }
impl std::ops::Deref for ColoredString { type Target = str; fn deref(&self) -> &str { &self.0 } }
impl From<&str> for ColoredString { fn from(s: &str) -> Self { ColoredString(s.into()) } }
macro_rules! styles {
    ($($f:ident)*) => {
        pub trait Colorize: Sized { fn plain_(self) -> ColoredString; $(fn $f(self) -> ColoredString { self.plain_() })* }
    };
}
styles!(black red green yellow blue magenta cyan white bright_black bright_red bright_green bright_yellow bright_blue bright_magenta bright_cyan bright_white bold dimmed italic underline normal clear);
impl Colorize for &str { fn plain_(self) -> ColoredString { ColoredString(self.to_string()) } }
impl Colorize for ColoredString { fn plain_(self) -> ColoredString { self } }
pub mod control {
    pub fn set_virtual_terminal(_: bool) -> Result<(), u32> { Ok(()) }
    pub fn set_override(_: bool) {}
}
