//! Thin, instrumented instantiation of the library under test: the generic code of auto-palette is
//! monomorphised here, so the basic-block callbacks (the simulator's preemption points) cover it.
use auto_palette::image::ImageData;
use auto_palette::swatch::Swatch;

pub type Img<'a> = ImageData<'a>;

#[inline(never)]
pub fn image(data: &[u8], w: u32, h: u32) -> Img<'_> {
    ImageData::new(data, w, h)
}
#[inline(never)]
pub fn extract64(img: &Img<'_>) -> Vec<Swatch<f64>> {
    img.extract::<f64>()
}
#[inline(never)]
pub fn extract32(img: &Img<'_>) -> Vec<Swatch<f32>> {
    img.extract::<f32>()
}

#[cfg(feature = "internals")]
pub mod internals;
