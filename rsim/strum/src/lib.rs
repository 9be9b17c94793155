pub use strum_derive::EnumIter;
pub trait IntoEnumIterator: Sized {
  type Iterator: Iterator<Item = Self>;
  fn iter() -> Self::Iterator;
}
