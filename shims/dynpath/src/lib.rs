//! `wrap!` puts the file named by an environment variable and a relative path
//! into a module.
#[macro_export]
macro_rules! wrap {
    (@ [$($attr:tt)*] #[dynpath($v:literal, $f:literal)] $($rest:tt)*) => { $crate::wrap!(@@ [$($attr)*] $v $f $($rest)*); };
    (@ [$($attr:tt)*] #[$m:meta] $($rest:tt)*) => { $crate::wrap!(@ [$($attr)* #[$m]] $($rest)*); };
    (@@ [$($attr:tt)*] $v:literal $f:literal #[$m:meta] $($rest:tt)*) => { $crate::wrap!(@@ [$($attr)* #[$m]] $v $f $($rest)*); };
    (@@ [$($attr:tt)*] $v:literal $f:literal $vis:vis mod $n:ident;) => {
        $($attr)* $vis mod $n { include!(concat!(env!($v), "/", $f)); }
    };
    ($($t:tt)*) => { $crate::wrap!(@ [] $($t)*); };
}
