#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    f.write_str("wasi")
  }
}
impl std::error::Error for Error {}
pub struct WasiCtx;
