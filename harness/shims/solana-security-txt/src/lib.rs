//! Stand-in: the program is built without its entrypoint, so nothing here is used.
#[macro_export]
macro_rules! security_txt {
    ($($name:ident: $value:expr),* $(,)?) => {};
}
