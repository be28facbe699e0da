use crate::run::Prop;
pub mod block; // C07, C08: EXIF block level
pub mod history; // C10
pub mod image; // C03-C06, C11, C21
pub mod ops; // C09, C15, C17, C18, C19
pub mod robust; // C01, C02
pub mod tiffprop; // C14
pub mod xmp; // C16
pub mod heifprop; // C20
pub mod cycle; // C22, C23
pub mod values; // C12, C13

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(block::props());
    v.extend(values::props());
    v.extend(history::props());
    v.extend(image::props());
    v.extend(robust::props());
    v.extend(tiffprop::props());
    v.extend(xmp::props());
    v.extend(heifprop::props());
    v.extend(cycle::props());
    v.extend(ops::props());
    v.sort_by_key(|p| p.id);
    v
}
pub fn find(id: &str) -> Option<Prop> {
    all().into_iter().find(|p| p.id == id)
}
