//! Stand-in: the program is built without its entrypoint, so nothing here is used.
#[macro_export]
macro_rules! default_env {
    ($name:expr, $default:expr) => {
        $default
    };
}
