//! Stands in for num_enum.

pub use num_enum_derive::{IntoPrimitive, TryFromPrimitive};

pub trait TryFromPrimitive: Sized {
    type Primitive: Copy + std::fmt::Debug;
    const NAME: &'static str;
    fn try_from_primitive(n: Self::Primitive) -> Result<Self, TryFromPrimitiveError<Self>>;
}

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub struct TryFromPrimitiveError<E: TryFromPrimitive> {
    pub number: E::Primitive,
}
impl<E: TryFromPrimitive> std::fmt::Display for TryFromPrimitiveError<E> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "No discriminant in enum `{}` matches the value `{:?}`", E::NAME, self.number)
    }
}
impl<E: TryFromPrimitive + std::fmt::Debug> std::error::Error for TryFromPrimitiveError<E> {}
