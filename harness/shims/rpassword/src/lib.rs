//! Stand-in: there is no terminal to ask.
pub fn prompt_password(_prompt: impl ToString) -> std::io::Result<String> {
    Err(std::io::Error::new(std::io::ErrorKind::Other, "no terminal"))
}
