pub struct QrCode;
#[derive(Debug)]
pub struct QrError;
impl std::fmt::Display for QrError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("qr") } }
impl std::error::Error for QrError {}
pub struct Renderer<P>(std::marker::PhantomData<P>);
impl QrCode {
    pub fn new<D: AsRef<[u8]>>(_d: D) -> Result<Self, QrError> { loop {} }
    pub fn render<P>(&self) -> Renderer<P> { loop {} }
}
impl<P> Renderer<P> { pub fn build(&self) -> image::ImageBuffer<P> { loop {} } }
