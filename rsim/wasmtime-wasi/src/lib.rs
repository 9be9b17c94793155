//! WASI is not simulated: modules get no files, no environment.
pub use wasi_common::WasiCtx;
pub struct AmbientAuthority;
pub fn ambient_authority() -> AmbientAuthority {
  AmbientAuthority
}
impl Clone for AmbientAuthority {
  fn clone(&self) -> Self {
    *self
  }
}
impl Copy for AmbientAuthority {}
pub struct Dir;
impl Dir {
  pub fn open_ambient_dir(_: impl AsRef<std::path::Path>, _: AmbientAuthority) -> std::io::Result<Dir> {
    Ok(Dir)
  }
  pub fn try_clone(&self) -> std::io::Result<Dir> {
    Ok(Dir)
  }
}
pub struct WasiCtxBuilder;
type E = Box<dyn std::error::Error + Send + Sync>;
impl WasiCtxBuilder {
  pub fn new() -> Self {
    WasiCtxBuilder
  }
  pub fn inherit_stdio(self) -> Self {
    self
  }
  pub fn args(self, _: &[String]) -> Result<Self, E> {
    Ok(self)
  }
  pub fn envs(self, _: &[(String, String)]) -> Result<Self, E> {
    Ok(self)
  }
  pub fn preopened_dir(self, _: Dir, _: impl AsRef<std::path::Path>) -> Result<Self, E> {
    Ok(self)
  }
  pub fn build(self) -> WasiCtx {
    WasiCtx
  }
}
pub fn add_to_linker<T>(
  _: &mut wasmtime::Linker<T>,
  _: impl Fn(&mut T) -> &mut WasiCtx + Send + Sync + Copy + 'static,
) -> anyhow::Result<()> {
  Ok(())
}
