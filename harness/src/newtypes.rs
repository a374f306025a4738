//! User number types that get their arithmetic from the crate's field-forwarding macros.
#[allow(unused_imports)]
use prexel::num_traits::{FromPrimitive, ToPrimitive, Zero};

macro_rules! tuple {
    ($name:ident, $t:ty) => {
        #[derive(Copy)]
        pub struct $name(pub $t);
        impl From<$t> for $name {
            fn from(x: $t) -> Self {
                $name(x)
            }
        }
    };
}
tuple!(M8, i8);
tuple!(M64, i64);
tuple!(U64, i64);

prexel::impl_checked_num_traits_with_field_and_from_str!(M8 => 0, i8);
prexel::impl_checked_num_traits_with_field_and_from_str!(M64 => 0, i64);
prexel::impl_unchecked_num_traits_with_field_and_from_str!(U64 => 0, i64);

/// A named field.
#[derive(Copy)]
pub struct M128 {
    pub value: i128,
}
impl From<i128> for M128 {
    fn from(value: i128) -> Self {
        M128 { value }
    }
}
prexel::impl_checked_num_traits_with_field_and_from_str!(M128 => value, i128);

