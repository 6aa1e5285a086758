//! Decoding error with a chain of contexts.
use std::borrow::Cow;
use std::fmt;

#[derive(PartialEq, Eq, Clone, Debug)]
pub struct Error {
    cause: Option<Box<Error>>,
    desc: Cow<'static, str>,
}

impl Error {
    pub fn chain(self, desc: impl Into<Cow<'static, str>>) -> Self {
        Self { desc: desc.into(), cause: Some(Box::new(self)) }
    }

    fn display(&self, indent: u32, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for _ in 0..indent {
            f.write_str("\t")?;
        }
        if let Some(cause) = &self.cause {
            writeln!(f, "{}:", self.desc)?;
            cause.display(indent + 1, f)
        } else {
            writeln!(f, "{}", self.desc)
        }
    }
}

impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.display(0, f)
    }
}

impl std::error::Error for Error {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        self.cause.as_ref().map(|e| e as &(dyn std::error::Error + 'static))
    }
}

impl From<&'static str> for Error {
    fn from(desc: &'static str) -> Error {
        Error { desc: Cow::Borrowed(desc), cause: None }
    }
}
