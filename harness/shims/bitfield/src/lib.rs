//! Offline stand-in for the subset of `bitfield` that bfffs uses: read-only
//! getters of contiguous ranges, and `impl Debug`.
#[macro_export]
macro_rules! bitfield {
    ($(#[$m:meta])* $vis:vis struct $name:ident($t:ty); $($rest:tt)*) => {
        $(#[$m])*
        $vis struct $name(pub $t);
        $crate::bitfield_body!{$name, $t, $t; []; $($rest)*}
    };
}
#[macro_export]
macro_rules! bitfield_body {
    ($name:ident, $t:ty, $cur:ty; [$($dbg:tt)*];) => {};
    ($name:ident, $t:ty, $cur:ty; [$($dbg:tt)*]; impl Debug; $($rest:tt)*) => {
        impl ::core::fmt::Debug for $name {
            fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {
                f.debug_tuple(stringify!($name)).field(&self.0).finish()
            }
        }
        $crate::bitfield_body!{$name, $t, $cur; [$($dbg)*]; $($rest)*}
    };
    ($name:ident, $t:ty, $cur:ty; [$($dbg:tt)*]; pub $f:ident, _ : $hi:expr, $lo:expr; $($rest:tt)*) => {
        impl $name { #[allow(dead_code)] pub fn $f(&self) -> $cur { $crate::bitfield_get!(self.0, $t, $cur, $hi, $lo) } }
        $crate::bitfield_body!{$name, $t, $cur; [$($dbg)*]; $($rest)*}
    };
    ($name:ident, $t:ty, $cur:ty; [$($dbg:tt)*]; $f:ident, _ : $hi:expr, $lo:expr; $($rest:tt)*) => {
        impl $name { #[allow(dead_code)] fn $f(&self) -> $cur { $crate::bitfield_get!(self.0, $t, $cur, $hi, $lo) } }
        $crate::bitfield_body!{$name, $t, $cur; [$($dbg)*]; $($rest)*}
    };
    ($name:ident, $t:ty, $cur:ty; [$($dbg:tt)*]; $new:ty; $($rest:tt)*) => {
        $crate::bitfield_body!{$name, $t, $new; [$($dbg)*]; $($rest)*}
    };
}
#[macro_export]
macro_rules! bitfield_get {
    ($v:expr, $t:ty, $cur:ty, $hi:expr, $lo:expr) => {{
        const W: u32 = $hi - $lo + 1;
        const B: u32 = (::core::mem::size_of::<$t>() * 8) as u32;
        let x: $t = $v >> $lo;
        let mask: $t = if W >= B { !0 } else { ((1 as $t) << (W % B)) - 1 };
        (x & mask) as $cur
    }};
}
