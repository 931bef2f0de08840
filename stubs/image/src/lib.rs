pub struct Luma<T>(pub [T; 1]);
pub struct ImageBuffer<P>(std::marker::PhantomData<P>);
#[derive(Clone, Copy, Debug)]
pub enum ImageFormat { Png, Jpeg }
#[derive(Debug)]
pub struct ImageError;
impl std::fmt::Display for ImageError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("image") } }
impl std::error::Error for ImageError {}
impl<P> ImageBuffer<P> {
    pub fn write_to<W: std::io::Write + std::io::Seek>(&self, _w: &mut W, _f: ImageFormat) -> Result<(), ImageError> { loop {} }
}
