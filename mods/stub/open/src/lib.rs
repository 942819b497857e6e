//! Stand-in: nothing is ever opened.
pub fn that(_: impl AsRef<std::ffi::OsStr>) -> std::io::Result<()> {
    Err(std::io::Error::new(std::io::ErrorKind::Unsupported, "stand-in"))
}
