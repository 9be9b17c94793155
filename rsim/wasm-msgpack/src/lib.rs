//! Not available offline: a codec that refuses everything. No check depends on it.
macro_rules! err {
  () => {
    #[derive(Debug)]
    pub struct Error;
    impl std::fmt::Display for Error {
      fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("codec not available")
      }
    }
    impl std::error::Error for Error {}
  };
}
pub mod decode {
  err!();
  pub fn from_slice<'de, T: serde::Deserialize<'de>>(_: &'de [u8]) -> Result<T, Error> {
    Err(Error)
  }
}
pub mod encode {
  err!();
  pub mod serde {
    pub fn to_array<T: ?Sized + ::serde::Serialize>(_: &T, _: &mut [u8]) -> Result<usize, super::Error> {
      Err(super::Error)
    }
  }
}
pub mod timestamp {
  #[derive(Debug, Clone, Copy)]
  pub struct Timestamp;
}
