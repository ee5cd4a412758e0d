//! Stand-in for the `bitfield` crate (not available offline): single-bit fields of a tuple struct.
#[macro_export]
macro_rules! bitfield {
    ($(#[$m:meta])* $v:vis struct $name:ident($t:ty); impl Debug; $($fv:vis $get:ident, $set:ident : $bit:expr;)*) => {
        $(#[$m])* $v struct $name($v $t);
        impl $name { $( $fv fn $get(&self) -> bool { self.0 >> $bit & 1 == 1 } $fv fn $set(&mut self, b: bool) { if b { self.0 |= 1 << $bit } else { self.0 &= !(1 << $bit) } } )* }
        impl std::fmt::Debug for $name { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}({:b})", stringify!($name), self.0) } }
    };
}
