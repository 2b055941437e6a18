//! Stand-in for the template engine, which is not available here: it keeps the source of a template.
use std::borrow::Cow;

#[derive(Debug)]
pub struct Error(String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}

pub struct Template<'a> {
    source: Cow<'a, str>,
}
impl<'a> Template<'a> {
    pub fn new(source: impl Into<Cow<'a, str>>) -> Result<Self, Error> {
        let source = source.into();
        if source.matches("{{").count() != source.matches("}}").count() {
            return Err(Error("unclosed tag".into()));
        }
        Ok(Template { source })
    }
    pub fn source(&self) -> &str {
        &self.source
    }
}
