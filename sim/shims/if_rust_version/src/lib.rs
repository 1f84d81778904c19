#[macro_export]
macro_rules! if_rust_version {
    (>= $v:literal { $($a:tt)* } $(else { $($b:tt)* })?) => { $($a)* };
}
