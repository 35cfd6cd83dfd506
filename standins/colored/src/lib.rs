//! Offline stand-in for `colored`.
use std::fmt;

pub mod control {
    use std::io::IsTerminal;
    use std::sync::atomic::{AtomicU8, Ordering};
    static OVERRIDE: AtomicU8 = AtomicU8::new(0);
    pub fn set_override(on: bool) {
        OVERRIDE.store(if on { 1 } else { 2 }, Ordering::Relaxed)
    }
    pub fn unset_override() {
        OVERRIDE.store(0, Ordering::Relaxed)
    }
    pub(crate) fn enabled() -> bool {
        match OVERRIDE.load(Ordering::Relaxed) {
            1 => return true,
            2 => return false,
            _ => {}
        }
        let force = std::env::var("CLICOLOR_FORCE").map(|v| v != "0").unwrap_or(false);
        if force {
            return true;
        }
        if std::env::var_os("NO_COLOR").is_some() {
            return false;
        }
        std::env::var("CLICOLOR").map(|v| v != "0").unwrap_or(true) && std::io::stdout().is_terminal()
    }
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct ColoredString {
    pub input: String,
    codes: Vec<&'static str>,
}
impl fmt::Display for ColoredString {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.codes.is_empty() || !control::enabled() {
            return f.pad(&self.input);
        }
        write!(f, "\x1b[{}m", self.codes.join(";"))?;
        f.pad(&self.input)?;
        f.write_str("\x1b[0m")
    }
}
impl std::ops::Deref for ColoredString {
    type Target = str;
    fn deref(&self) -> &str {
        &self.input
    }
}
impl From<&str> for ColoredString {
    fn from(s: &str) -> Self {
        Self { input: s.to_string(), codes: vec![] }
    }
}
macro_rules! styles {
    ($($n:ident = $c:expr),* $(,)?) => {
        pub trait Colorize {
            fn style_with(self, code: &'static str) -> ColoredString where Self: Sized;
            $(fn $n(self) -> ColoredString where Self: Sized { self.style_with($c) })*
            fn normal(self) -> ColoredString where Self: Sized;
            fn clear(self) -> ColoredString where Self: Sized { self.normal() }
        }
    };
}
styles! {
    black = "30", red = "31", green = "32", yellow = "33", blue = "34", magenta = "35", purple = "35",
    cyan = "36", white = "37", bright_black = "90", bright_red = "91", bright_green = "92",
    bright_yellow = "93", bright_blue = "94", bright_magenta = "95", bright_cyan = "96", bright_white = "97",
    bold = "1", dimmed = "2", italic = "3", underline = "4", blink = "5", reversed = "7", hidden = "8",
    strikethrough = "9", on_red = "41", on_green = "42", on_yellow = "43", on_blue = "44", on_white = "47",
    on_black = "40", on_cyan = "46", on_magenta = "45",
}
impl Colorize for &str {
    fn style_with(self, code: &'static str) -> ColoredString {
        ColoredString { input: self.to_string(), codes: vec![code] }
    }
    fn normal(self) -> ColoredString {
        ColoredString::from(self)
    }
}
impl Colorize for ColoredString {
    fn style_with(mut self, code: &'static str) -> ColoredString {
        if code.starts_with('3') || code.starts_with('9') && code.len() > 1 {
            self.codes.retain(|c| !((c.starts_with('3') || c.starts_with('9')) && c.len() > 1));
        }
        self.codes.push(code);
        self
    }
    fn normal(mut self) -> ColoredString {
        self.codes.clear();
        self
    }
}
