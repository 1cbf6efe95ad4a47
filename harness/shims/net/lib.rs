pub use standin::*;
