/// Constants naming bits of a u32 plus a function listing the names of the bits set.
macro_rules! bitflags_lite {
    ($($n:ident = $b:expr, $s:expr;)*) => {
        $(pub const $n: u32 = 1 << $b;)*
        #[allow(dead_code)]
        pub fn aspect_names(a: u32) -> String {
            let mut v: Vec<&str> = vec![];
            $(if a & $n != 0 { v.push($s); })*
            v.join(", ")
        }
    };
}
