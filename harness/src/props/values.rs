//! C12: number <-> rational conversion. C13: value <-> byte conversion and the tag tables.
use crate::exif::*;
use crate::gen::*;
use crate::rng::*;
use crate::run::*;
use crate::tagtable::TAGS;
use little_exif::endian::Endian;
use little_exif::exif_tag::ExifTag;
use little_exif::exif_tag_format::ExifTagFormat;
use little_exif::ifd::{ExifTagGroup, ImageFileDirectory};
use little_exif::rational::*;
use little_exif::u8conversion::U8conversion;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C12",
            rule: "a case is a batch of 32 numbers (random bit patterns, quotients of random integers, neighbourhoods of 2^31 and 2^32, integers, tiny/huge/non-finite values) converted to both rational types and back, compared with an exact best-approximation computed in integer arithmetic; every batch is non-trivial; distinct by the bits of the numbers",
            assumptions: &["numbers below zero are outside the range of the unsigned rational: only totality is required of them", "the documented tolerance is the 1e-9 of the continued-fraction expansion; a numerator or denominator has 31/32 bits"],
            quick: 1_000_000,
            thorough: 40_000_000,
            run: c12,
            min_nontrivial: 10_000,
        },
        Prop {
            id: "C13",
            rule: "cases 0..511 enumerate all tag numbers of all four groups and all format codes against an independent table; other cases convert one random value of one format to bytes in both byte orders and back against an independent codec, plus ill-fitting lengths; distinct by format and bytes",
            assumptions: &["signalling NaNs are excluded (hardware may quieten them)", "text that is not UTF-8 denotes Latin-1, trailing NULs are terminators"],
            quick: 1_000_000,
            thorough: 40_000_000,
            run: c13,
            min_nontrivial: 10_000,
        },
    ]
}

// ---------------------------------------------------------------- C12
/// |x - p/q| as f64, exact up to one rounding, for x in [1e-10, 2^33)
fn decompose(x: f64) -> (u128, u32) {
    // x = m / 2^k exactly
    if x == 0.0 {
        return (0, 0);
    }
    let bits = x.to_bits();
    let e = ((bits >> 52) & 0x7ff) as i32;
    let f = bits & ((1 << 52) - 1);
    let (m, ex) = if e == 0 { (f, -1074) } else { (f | (1 << 52), e - 1075) };
    if ex >= 0 {
        ((m as u128) << ex, 0)
    } else {
        let tz = m.trailing_zeros().min((-ex) as u32);
        ((m >> tz) as u128, (-ex) as u32 - tz)
    }
}
fn abs_err(x: f64, p: u64, q: u64) -> f64 {
    let (m, k) = decompose(x);
    if k > 100 {
        return (x - p as f64 / q as f64).abs();
    }
    let a = m * q as u128;
    let b = (p as u128) << k;
    let d = a.abs_diff(b);
    d as f64 / q as f64 / (k as f64).exp2()
}
/// smallest error any p/q with p <= pm, q <= qm has
fn best_err(x: f64, pm: u64, qm: u64) -> f64 {
    let (m, k) = decompose(x);
    if k > 100 {
        return x; // 0/1 is at least that good
    }
    let (mut n, mut d) = (m, 1u128 << k);
    let (mut p0, mut q0, mut p1, mut q1) = (0u128, 1u128, 1u128, 0u128); // h_{-2}, h_{-1}
    let mut best = f64::INFINITY;
    loop {
        let a = n / d;
        // largest multiple that stays in range
        let mut t = a;
        if p1 > 0 {
            t = t.min((pm as u128 - p0.min(pm as u128)) / p1);
        }
        if q1 > 0 {
            t = t.min((qm as u128 - q0) / q1);
        }
        let (p, q) = (t * p1 + p0, t * q1 + q0);
        if q > 0 && p <= pm as u128 && q <= qm as u128 {
            best = best.min(abs_err(x, p as u64, q as u64));
        }
        if q1 > 0 && p1 <= pm as u128 && q1 <= qm as u128 {
            best = best.min(abs_err(x, p1 as u64, q1 as u64));
        }
        if t < a {
            break;
        }
        let r = n - a * d;
        p0 = p1;
        q0 = q1;
        p1 = p;
        q1 = q;
        if r == 0 {
            break;
        }
        n = d;
        d = r;
    }
    best
}
fn gcd(a: u64, b: u64) -> u64 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}
fn rand_num(r: &mut Rng) -> f64 {
    let b31 = 2147483648.0f64;
    let x = match r.below(16) {
        0 => f64::from_bits(r.u64()),
        1 => r.u32() as f64 / (r.u32().max(1)) as f64,
        2 => (r.u32() >> r.below(32)) as f64 / ((r.u32() >> r.below(32)).max(1)) as f64,
        3 => b31 + (r.below(2001) as f64 - 1000.0) / *r.pick(&[1.0, 2.0, 4.0, 100.0, 1000.0]),
        4 => 2.0 * b31 + (r.below(2001) as f64 - 1000.0) / *r.pick(&[1.0, 2.0, 4.0, 100.0, 1000.0]),
        5 => r.u32() as f64,
        6 => (r.u32() as f64).sqrt(),
        7 => r.below(10000) as f64 / 10f64.powi(r.below(12) as i32),
        8 => r.u32() as f64 + r.u32() as f64 / 4294967296.0,
        9 => (r.u32() as f64 / 4294967296.0) * 10f64.powi(-(r.below(25) as i32)),
        10 => *r.pick(&[0.0, 1.0, 0.5, f64::MIN_POSITIVE, 5e-324, f64::MAX, f64::INFINITY, f64::NAN, 1e-9, 1e-10, 4294967295.0, 4294967294.0, 4294967294.5, 4294967295.5, 2147483647.0, 2147483646.5, 2147483647.5, 2147483648.0, 2147483648.5, 2147483649.0, 4294967296.0, 1e300, 3.0e9, std::f64::consts::PI, std::f64::consts::E, std::f64::consts::SQRT_2]),
        11 => r.below(1000) as f64 + *r.pick(&[1e-9, 1e-10, 1.0 - 1e-9, 1.0 - 1e-10, 1e-8, 1.0 - 1e-8, 2e-9, 5e-10]),
        12 => 2f64.powf(r.below(70) as f64 - 35.0 + r.below(1000) as f64 / 1000.0),
        13 => 1.0 / (r.u32().max(1)) as f64,
        14 => b31 * (1.0 + r.below(1000) as f64 / 1000.0) + r.below(7) as f64 / 7.0,
        _ => (r.u64() >> 11) as f64 / (1u64 << 53) as f64 * *r.pick(&[1.0, 10.0, 1e3, 1e6, 1e8]),
    };
    if r.chance(1, 3) {
        -x
    } else {
        x
    }
}
fn c12(c: &mut Ctx) {
    let mut r = c.rng.clone();
    let mut h = 0u64;
    for _ in 0..32 {
        let x = rand_num(&mut r);
        h = h.rotate_left(9) ^ x.to_bits();
        for signed in [false, true] {
            c.count("conversions");
            let out = c.call("to rational", 0, || {
                if signed {
                    let f = iR64::from(x);
                    (f.nominator as i64, f.denominator as i64)
                } else {
                    let f = uR64::from(x);
                    (f.nominator as i64, f.denominator as i64)
                }
            });
            let t = if signed { "signed" } else { "unsigned" };
            let (n, d) = match out {
                Out::Ok(v) => v,
                Out::Panic(p) => {
                    c.violate(format!("{}: conversion panics: {}", t, norm_panic(&p)), format!("{:e} -> {}", x, p), &[]);
                    continue;
                }
            };
            let what = format!("{} rational of {:e} (bits {:016x}) is {}/{}", t, x, x.to_bits(), n, d);
            if x.is_nan() {
                c.count("nan");
                if d != 0 {
                    c.violate(format!("{}: not-a-number becomes a number", t), what, &[]);
                }
                continue;
            }
            if !signed && x < 0.0 {
                c.count("negative_for_unsigned");
                continue;
            }
            let pm: u64 = if !signed { u32::MAX as u64 } else if x < 0.0 { 1 << 31 } else { i32::MAX as u64 };
            let a = x.abs();
            if d <= 0 {
                c.violate(format!("{}: denominator not positive", t), what, &[]);
                continue;
            }
            if (x < 0.0 && n > 0) || (x > 0.0 && n < 0) {
                c.violate(format!("{}: sign changed", t), what, &[]);
                continue;
            }
            let (p, q) = (n.unsigned_abs(), d as u64);
            if a > pm as f64 - 0.5 {
                c.count(if a > pm as f64 { "saturated" } else { "at_limit" });
                // at or beyond the end of the range: the largest value
                if (p, q) != (pm, 1) {
                    c.violate(format!("{}: out-of-range number does not saturate", t), what, &[]);
                }
                continue;
            }
            if gcd(p, q) != 1 {
                c.violate(format!("{}: fraction not in lowest terms", t), what.clone(), &[]);
            }
            if a.fract() == 0.0 && (p as f64 != a || q != 1) {
                c.violate(format!("{}: integer not exact", t), what, &[]);
                continue;
            }
            let err = abs_err(a, p, q);
            if err > 1e-9 {
                c.count("beyond_tolerance");
                let best = best_err(a, pm, i32::MAX as u64);
                if err > best * 1.0001 + a * 1e-15 && err > 1.001e-9 {
                    c.violate(format!("{}: approximation is worse than the precision available", t), format!("{}: error {:e}, best possible {:e}", what, err, best), &[]);
                }
            } else if err == 0.0 {
                c.count("exact");
            }
            // back: the quotient
            let back = c.call("to float", 0, || if signed { f64::from(iR64 { nominator: n as i32, denominator: d as i32 }) } else { f64::from(uR64 { nominator: n as u32, denominator: d as u32 }) });
            match back {
                Out::Ok(b) => {
                    if b != n as f64 / d as f64 {
                        c.violate(format!("{}: quotient wrong", t), format!("{} -> {:e}", what, b), &[]);
                    }
                }
                Out::Panic(p) => c.violate(format!("{}: back-conversion panics: {}", t, norm_panic(&p)), what, &[]),
            }
        }
    }
    // integers
    for _ in 0..4 {
        let u = match r.below(3) {
            0 => r.u32(),
            1 => u32::MAX - r.below(3) as u32,
            _ => (1u32 << 31).wrapping_add(r.below(5) as u32).wrapping_sub(2),
        };
        let i = u as i32;
        c.add("integer_conversions", 5);
        let o = c.call("from integer", 0, || {
            let a = uR64::from(u);
            let b = iR64::from(i);
            let e = iR64::from(u);
            (a, b, e)
        });
        match o {
            Out::Panic(p) => c.violate(format!("integer conversion panics: {}", norm_panic(&p)), format!("{} / {}: {}", u, i, p), &[]),
            Out::Ok((a, b, e)) => {
                if a != (uR64 { nominator: u, denominator: 1 }) {
                    c.violate("u32 to unsigned rational not exact", format!("{} -> {:?}", u, a), &[]);
                }
                if b != (iR64 { nominator: i, denominator: 1 }) {
                    c.violate("i32 to signed rational not exact", format!("{} -> {:?}", i, b), &[]);
                }
                let want = u.min(i32::MAX as u32) as i32;
                if e != (iR64 { nominator: want, denominator: 1 }) {
                    c.violate("u32 to signed rational not exact/saturated", format!("{} -> {:?}", u, e), &[]);
                }
            }
        }
    }
    // arbitrary rationals (as read from a file) to numbers: never panic, quotient
    for _ in 0..8 {
        let pick = |r: &mut Rng| match r.below(6) {
            0 => 0u32,
            1 => u32::MAX - r.below(2) as u32,
            2 => 1 << 31,
            3 => r.below(20) as u32,
            _ => r.u32(),
        };
        let (n, d) = (pick(&mut r), pick(&mut r));
        c.add("rational_to_number", 5);
        let o = c.call("to number", 0, || {
            let u = uR64 { nominator: n, denominator: d };
            let s = iR64 { nominator: n as i32, denominator: d as i32 };
            (f64::from(u.clone()), u32::from(u), f64::from(s.clone()), u32::from(s.clone()), i32::from(s))
        });
        match o {
            Out::Panic(p) => c.violate(format!("rational to number panics: {}", norm_panic(&p)), format!("{}/{}: {}", n, d, p), &[]),
            Out::Ok((fu, uu, fs, us, is)) => {
                let eu = n as f64 / d as f64;
                let es = (n as i32) as f64 / (d as i32) as f64;
                let same = |a: f64, b: f64| a == b || (a.is_nan() && b.is_nan());
                if !same(fu, eu) || !same(fs, es) {
                    c.violate("rational to float is not the quotient", format!("{}/{}: {} {}", n, d, fu, fs), &[]);
                }
                // integers: the quotient truncated towards zero, whenever it fits
                let fits = |q: f64, lo: f64, hi: f64| q.is_finite() && q > lo - 1.0 && q < hi + 1.0;
                if fits(eu, 0.0, 4294967295.0) && uu != (n / d) {
                    c.violate("unsigned rational to u32 is not the truncated quotient", format!("{}/{} -> {}", n, d, uu), &[]);
                }
                if fits(es, 0.0, 4294967295.0) && d != 0 && us as i64 != ((n as i32) as i64 / (d as i32) as i64).max(0) {
                    c.violate("signed rational to u32 is not the truncated quotient", format!("{}/{} -> {}", n as i32, d as i32, us), &[]);
                }
                if fits(es, -2147483648.0, 2147483647.0) && d != 0 && is as i64 != (n as i32) as i64 / (d as i32) as i64 {
                    c.violate("signed rational to i32 is not the truncated quotient", format!("{}/{} -> {}", n as i32, d as i32, is), &[]);
                }
            }
        }
    }
    c.eval(true, h);
    c.sample(|| format!("batch ending with e.g. {:e}", rand_num(&mut r)));
}

// ---------------------------------------------------------------- C13
const FMTS: [ExifTagFormat; 12] = [
    ExifTagFormat::INT8U,
    ExifTagFormat::STRING,
    ExifTagFormat::INT16U,
    ExifTagFormat::INT32U,
    ExifTagFormat::RATIONAL64U,
    ExifTagFormat::INT8S,
    ExifTagFormat::UNDEF,
    ExifTagFormat::INT16S,
    ExifTagFormat::INT32S,
    ExifTagFormat::RATIONAL64S,
    ExifTagFormat::FLOAT,
    ExifTagFormat::DOUBLE,
];
fn c13_tables(c: &mut Ctx) {
    // 512 slices x 128 tag numbers, each in all four groups
    let base = (c.case as u32) * 128;
    for t in base..base + 128 {
        let t = t as u16;
        if ExifTagFormat::from_u16(t).map(|f| fmt_code(f)) != (1..=12).contains(&t).then_some(t) {
            c.violate("format code table", format!("code {:04x} -> {:?}", t, ExifTagFormat::from_u16(t)), &[]);
        }
        for g in [G_IFD, G_EXIF, G_INTEROP, G_GPS] {
            c.count("tag_numbers_enumerated");
            let r = c.call("from_u16", 0, || ExifTag::from_u16(t, &grp(g)));
            let r = match r {
                Out::Ok(r) => r,
                Out::Panic(p) => {
                    c.violate("from_u16 panics", format!("{:04x} in group {}: {}", t, g, p), &[]);
                    continue;
                }
            };
            let row = TAGS.iter().find(|x| x.1 == t && x.5 == g);
            let want: Option<(u16, bool, u8)> = if is_data_tag(t) { Some((4, true, G_IFD)) } else { row.map(|x| (x.2, x.4, g)) };
            match (r, want) {
                (Err(_), None) => (),
                (Ok(tag), Some((f, w, tg))) => {
                    c.count("known_tags");
                    let name = format!("{:?}", tag);
                    if tag.as_u16() != t || fmt_code(tag.format()) != f || tag.is_writable() != w || grp_code(tag.get_group()) != tg || tag.is_unknown() || tag.is_string() != (f == 2) || !tag.unknown_is_justified() {
                        c.violate(format!("tag table: {:04x} group {}", t, g), format!("{}: number {:04x} format {:?} writable {} group {:?} unknown {} string {}", name, tag.as_u16(), tag.format(), tag.is_writable(), tag.get_group(), tag.is_unknown(), tag.is_string()), &[]);
                    }
                    if let Some(x) = row {
                        // a value that is yet to be set has the predefined number of components
                        let n = if f == 2 { 1 } else { x.3 };
                        if !is_data_tag(t) && tag.number_of_components() != n {
                            c.violate(format!("tag table: {:04x} group {} component count", t, g), format!("{}: {} components instead of {}", name, tag.number_of_components(), n), &[]);
                        }
                        let d = match x.1 {
                            0x8769 if g == G_IFD => Some(G_EXIF),
                            0x8825 if g == G_IFD => Some(G_GPS),
                            0xa005 if g == G_EXIF => Some(G_INTEROP),
                            _ => None,
                        };
                        if ImageFileDirectory::get_ifd_type_for_offset_tag(&tag).map(grp_code) != d {
                            c.violate(format!("tag table: {:04x} group {} directory it refers to", t, g), name.clone(), &[]);
                        }
                        if let Some(k) = d {
                            let up = ImageFileDirectory::new_with_tags(vec![], grp(k), 3).get_offset_tag_for_parent_ifd().map(|(a, b)| (grp_code(a), b.as_u16()));
                            if up != Some((g, t)) {
                                c.violate(format!("offset tag of directory kind {}", k), format!("{:?}", up), &[]);
                            }
                        }
                        if !name.starts_with(x.0) && !is_data_tag(t) {
                            c.violate(format!("tag table: {:04x} group {} has another identity", t, g), format!("{} instead of {}", name, x.0), &[]);
                        }
                    }
                }
                (Ok(tag), None) => c.violate(format!("tag table: {:04x} group {} unexpectedly known", t, g), format!("{:?}", tag), &[]),
                (Err(e), Some(_)) => c.violate(format!("tag table: {:04x} group {} unexpectedly unknown", t, g), e, &[]),
            }
        }
    }
    if c.case < 12 {
        let f = FMTS[c.case as usize];
        if f.as_u16() as u64 != c.case + 1 || f.bytes_per_component() as usize != fmt_size(f.as_u16()).unwrap() || ExifTagFormat::from_u16(f.as_u16()) != Some(f) {
            c.violate("format table inconsistent", format!("{:?}", f), &[]);
        }
    }
    let k = c.case;
    c.eval(true, hash_str(&format!("table{}", k)));
}
macro_rules! conv {
    ($c:expr, $t:ty, $vals:expr, $n:expr, $le:expr, $be:expr, $same:expr) => {{
        let vals: Vec<$t> = $vals;
        let n: usize = $n;
        for (e, want) in [(Endian::Little, $le), (Endian::Big, $be)] {
            let want: &Vec<u8> = want;
            let o = $c.call("to bytes", want.len(), || {
                let whole = <Vec<$t> as U8conversion<Vec<$t>>>::to_u8_vec(&vals, &e);
                let single: Vec<Vec<u8>> = vals.iter().map(|v| <$t as U8conversion<$t>>::to_u8_vec(v, &e)).collect();
                let back = <Vec<$t> as U8conversion<Vec<$t>>>::from_u8_vec_res(want, &e);
                let sback: Vec<_> = want.chunks_exact(n).map(|w| <$t as U8conversion<$t>>::from_u8_vec_res(w, &e)).collect();
                // lengths that do not fit
                let mut bad = vec![];
                for l in 0..=(2 * n + 1) {
                    let buf = vec![1u8; l];
                    bad.push((l, <$t as U8conversion<$t>>::from_u8_vec_res(&buf, &e).is_ok(), <Vec<$t> as U8conversion<Vec<$t>>>::from_u8_vec_res(&buf, &e).map(|v| v.len()).ok()));
                }
                (whole, single, back, sback, bad)
            });
            match o {
                Out::Panic(p) => $c.violate(format!("{} conversion panics: {}", stringify!($t), norm_panic(&p)), p, &[]),
                Out::Ok((whole, single, back, sback, bad)) => {
                    $c.add("values_converted", vals.len() as u64);
                    if &whole != want || single.concat() != *want {
                        $c.violate(format!("{}: byte image wrong", stringify!($t)), format!("{:?} {:?}: got {:02x?} want {:02x?}", vals, e, whole, want), &[]);
                    }
                    let ok = match &back {
                        Ok(b) => b.len() == vals.len() && b.iter().zip(&vals).all($same),
                        Err(_) => false,
                    };
                    let sok = sback.iter().zip(&vals).all(|(a, b)| match a {
                        Ok(a) => $same((a, b)),
                        Err(_) => false,
                    });
                    if !ok || !sok {
                        $c.violate(format!("{}: bytes do not convert back", stringify!($t)), format!("{:02x?} {:?} -> {:?}, {:?} want {:?}", want, e, back, sback, vals), &[]);
                    }
                    for (l, s, v) in bad {
                        $c.count("lengths_tried");
                        if s != (l == n) || v != (l % n == 0).then_some(l / n) {
                            $c.violate(format!("{}: length handling", stringify!($t)), format!("{} bytes: single ok={} vector={:?}", l, s, v), &[]);
                        }
                    }
                }
            }
        }
    }};
}
fn c13(c: &mut Ctx) {
    if c.case < 512 {
        return c13_tables(c);
    }
    let mut r = c.rng.clone();
    let fmt = r.range(1, 14) as u16;
    if fmt > 12 {
        // 64-bit integers: not an EXIF format but part of the conversion
        let k = r.range(1, 4);
        let le = r.bytes(8 * k);
        let be: Vec<u8> = le.chunks(8).flat_map(|x| x.iter().rev().cloned().collect::<Vec<_>>()).collect();
        c.eval(true, hash_bytes(&le));
        if fmt == 13 {
            let v = le.chunks(8).map(|x| u64::from_le_bytes(x.try_into().unwrap())).collect();
            conv!(c, u64, v, 8, &le, &be, |(a, b)| a == b);
        } else {
            let v = le.chunks(8).map(|x| i64::from_le_bytes(x.try_into().unwrap())).collect();
            conv!(c, i64, v, 8, &le, &be, |(a, b)| a == b);
        }
        return;
    }
    let v = rand_val(&mut r, fmt, true);
    c.count(&format!("format.{}", fmt));
    c.eval(!v.data.is_empty(), hash_bytes(&v.data) ^ fmt as u64);
    c.sample(|| format!("format {} value {:02x?}", fmt, &v.data[..v.data.len().min(40)]));
    let le = v.data.clone();
    let be = swapped(fmt, &le);
    macro_rules! ints {
        ($t:ty) => {
            le.chunks_exact(std::mem::size_of::<$t>()).map(|x| <$t>::from_le_bytes(x.try_into().unwrap())).collect()
        };
    }
    match fmt {
        1 | 7 => conv!(c, u8, le.clone(), 1, &le, &be, |(a, b)| a == b),
        2 => {
            let s = String::from_utf8(le.clone()).unwrap();
            let mut want = le.clone();
            want.push(0);
            for e in [Endian::Little, Endian::Big] {
                let o = c.call("text", want.len(), || (s.to_u8_vec(&e), String::from_u8_vec_res(&want, &e), String::from_u8_vec_res(&le, &e)));
                match o {
                    Out::Panic(p) => c.violate(format!("text conversion panics: {}", norm_panic(&p)), p, &[]),
                    Out::Ok((b, x, y)) => {
                        if b != want {
                            c.violate("text: byte image wrong", format!("{:?} -> {:02x?}", s, b), &[]);
                        }
                        if x.as_ref().ok() != Some(&s) || y.as_ref().ok() != Some(&s) {
                            c.violate("text: bytes do not convert back", format!("{:?} -> {:?} / {:?}", s, x, y), &[]);
                        }
                    }
                }
            }
            // Latin-1
            let n = r.below(20);
            let mut raw: Vec<u8> = r.bytes(n);
            raw.push(0xe4);
            raw.push(b'z');
            raw.push(0);
            let want: String = String::from_utf8(text_of(&raw)).unwrap();
            match c.call("latin1", raw.len(), || String::from_u8_vec_res(&raw, &Endian::Big)) {
                Out::Ok(Ok(g)) if g == want => c.count("latin1"),
                Out::Ok(g) => c.violate("text that is not UTF-8 is not read as Latin-1", format!("{:02x?} -> {:?} want {:?}", raw, g, want), &[]),
                Out::Panic(p) => c.violate(format!("text conversion panics: {}", norm_panic(&p)), p, &[]),
            }
        }
        3 => conv!(c, u16, ints!(u16), 2, &le, &be, |(a, b)| a == b),
        4 => conv!(c, u32, ints!(u32), 4, &le, &be, |(a, b)| a == b),
        6 => conv!(c, i8, ints!(i8), 1, &le, &be, |(a, b)| a == b),
        8 => conv!(c, i16, ints!(i16), 2, &le, &be, |(a, b)| a == b),
        9 => conv!(c, i32, ints!(i32), 4, &le, &be, |(a, b)| a == b),
        11 => conv!(c, f32, ints!(f32), 4, &le, &be, |(a, b): (&f32, &f32)| a.to_bits() == b.to_bits()),
        12 => conv!(c, f64, ints!(f64), 8, &le, &be, |(a, b): (&f64, &f64)| a.to_bits() == b.to_bits()),
        5 => {
            let v = le.chunks_exact(8).map(|x| uR64 { nominator: u32::from_le_bytes(x[0..4].try_into().unwrap()), denominator: u32::from_le_bytes(x[4..8].try_into().unwrap()) }).collect();
            conv!(c, uR64, v, 8, &le, &be, |(a, b)| a == b)
        }
        _ => {
            let v = le.chunks_exact(8).map(|x| iR64 { nominator: i32::from_le_bytes(x[0..4].try_into().unwrap()), denominator: i32::from_le_bytes(x[4..8].try_into().unwrap()) }).collect();
            conv!(c, iR64, v, 8, &le, &be, |(a, b)| a == b)
        }
    }
    // the same value in a tag, known and unknown
    let g = *r.pick(&[G_IFD, G_EXIF, G_INTEROP, G_GPS]);
    let known_ids: Vec<u16> = all_known().iter().filter(|t| t.0 == g && t.2 == fmt).map(|t| t.1).collect();
    let id = if !known_ids.is_empty() && r.chance(1, 2) { *r.pick(&known_ids) } else { rand_unknown_id(&mut r, g) };
    let is_known = known(g, id).is_some();
    for (e, bytes) in [(Endian::Little, &le), (Endian::Big, &be)] {
        let mut raw = bytes.clone();
        if fmt == 2 {
            raw.push(0);
        }
        let o = c.call("tag from bytes", raw.len(), || {
            let t = ExifTag::from_u16_with_data(id, &fmt_of(fmt), &raw, &e, &grp(g));
            t.map(|t| (t.as_u16(), fmt_code(t.format()), grp_code(t.get_group()), t.is_unknown(), t.unknown_is_justified(), t.number_of_components(), t.value_as_u8_vec(&Endian::Little), t.value_as_u8_vec(&Endian::Big), t.is_string(), t.is_writable()))
        });
        match o {
            Out::Panic(p) => c.violate(format!("tag construction panics: {}", norm_panic(&p)), format!("{:04x} group {} {}", id, g, p), &[]),
            Out::Ok(Err(x)) => c.violate("tag construction refused", format!("{:04x} group {} format {}: {}", id, g, fmt, x), &[]),
            Out::Ok(Ok((i, f, gg, unk, just, n, l, b, s, _))) => {
                c.count(if is_known { "known_tag_values" } else { "unknown_tag_values" });
                let (mut wl, mut wb) = (le.clone(), be.clone());
                if fmt == 2 {
                    wl.push(0);
                    wb.push(0);
                }
                let wn = (wl.len() / fmt_size(fmt).unwrap()) as u32;
                if i != id || f != fmt || gg != g || unk == is_known || !just || l != wl || b != wb || s != (fmt == 2) {
                    c.violate("tag does not hold the value it was built from", format!("{:04x} group {} format {} {:?}: number {:04x} format {} group {} unknown {} values {:02x?} / {:02x?} want {:02x?} / {:02x?}", id, g, fmt, e, i, f, gg, unk, l, b, wl, wb), &[]);
                }
                // an empty value may report the count the specification prescribes
                if n != wn && !wl.is_empty() {
                    c.violate("tag reports a wrong component count", format!("{:04x} group {} format {}: {} instead of {}", id, g, fmt, n, wn), &[]);
                }
            }
        }
        // bytes that do not fit the format are refused
        let sz = fmt_size(fmt).unwrap();
        if sz > 1 {
            let n = r.range(0, 3) * sz + r.range(1, sz - 1);
            let raw = r.bytes(n);
            c.count("ill_fitting_tag_bytes");
            match c.call("ill-fitting bytes", n, || ExifTag::from_u16_with_data(id, &fmt_of(fmt), &raw, &e, &grp(g)).is_ok()) {
                Out::Ok(false) => (),
                Out::Ok(true) => c.violate("ill-fitting bytes accepted", format!("{:04x} format {} {} bytes", id, fmt, n), &[]),
                Out::Panic(p) => c.violate(format!("ill-fitting bytes: {}", norm_panic(&p)), format!("{:04x} group {} format {} {} bytes: {}", id, g, fmt, n, p), &[]),
            }
        }
    }
    let _ = ExifTagGroup::GENERIC;
}
