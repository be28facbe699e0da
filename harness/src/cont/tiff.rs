use super::*;
use crate::gen::*;

pub fn parse(b: &[u8]) -> Result<Parsed, String> {
    crate::exif::parse(b)?;
    let mut p = Parsed::default();
    p.carriers.push(b.to_vec());
    Ok(p)
}
pub fn gen(r: &mut Rng, _o: &Opts) -> Img {
    let mut note = vec![];
    let pages = if r.chance(1, 3) { r.range(2, 4) } else { 1 };
    if pages > 1 {
        note.push("multi-page");
    }
    let fo = ForeignOpts { exceptions: r.chance(1, 4), max_tags: 6, pages, strips: true, text_terminated: true };
    let mut t = gen_foreign(r, &fo);
    for d in t.pages.iter_mut() {
        make_tiff_page(r, d);
    }
    if t.be {
        note.push("big-endian");
    }
    let l = crate::exif::Layout::random(r);
    let bytes = crate::exif::write_foreign(&t, &l, r);
    Img { kind: Kind::Tiff, bytes, note }
}
