//! XMP packets: generator, independent tokenizer and the "lost exactly its
//! EXIF properties" judgement.
use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Tok {
    Start(String, Vec<(String, String)>, bool),
    End(String),
    Text(String),
    Comment(String),
    Pi(String),
    Cdata(String),
    Decl(String),
}
fn decode(s: &str) -> Result<String, String> {
    let mut o = String::new();
    let mut rest = s;
    while let Some(i) = rest.find('&') {
        o.push_str(&rest[..i]);
        let e = rest[i..].find(';').ok_or("entity without end")?;
        let n = &rest[i + 1..i + e];
        match n {
            "lt" => o.push('<'),
            "gt" => o.push('>'),
            "amp" => o.push('&'),
            "quot" => o.push('"'),
            "apos" => o.push('\''),
            _ => {
                let c = if let Some(h) = n.strip_prefix("#x") {
                    u32::from_str_radix(h, 16).ok()
                } else if let Some(d) = n.strip_prefix('#') {
                    d.parse().ok()
                } else {
                    None
                };
                o.push(c.and_then(char::from_u32).ok_or(format!("entity {}", n))?);
            }
        }
        rest = &rest[i + e + 1..];
    }
    o.push_str(rest);
    Ok(o)
}
fn name_ok(n: &str) -> bool {
    !n.is_empty() && n.chars().all(|c| c.is_alphanumeric() || ":_-.".contains(c)) && !n.starts_with(|c: char| c.is_ascii_digit() || c == '-' || c == '.')
}
/// strict tokenizer; also checks nesting and a single root
pub fn tokens(b: &[u8]) -> Result<Vec<Tok>, String> {
    let s = std::str::from_utf8(b).map_err(|_| "not UTF-8")?;
    let s = s.strip_prefix('\u{feff}').unwrap_or(s);
    let mut v = vec![];
    let mut open: Vec<String> = vec![];
    let mut roots = 0;
    let mut rest = s;
    let cut = |rest: &str, end: &str, what: &str| -> Result<(String, usize), String> {
        let e = rest.find(end).ok_or(format!("unterminated {}", what))?;
        Ok((rest[..e].to_string(), e + end.len()))
    };
    while !rest.is_empty() {
        if let Some(r) = rest.strip_prefix("<!--") {
            let (c, k) = cut(r, "-->", "comment")?;
            v.push(Tok::Comment(c));
            rest = &r[k..];
        } else if let Some(r) = rest.strip_prefix("<![CDATA[") {
            let (c, k) = cut(r, "]]>", "CDATA")?;
            v.push(Tok::Cdata(c));
            rest = &r[k..];
        } else if let Some(r) = rest.strip_prefix("<?") {
            let (c, k) = cut(r, "?>", "processing instruction")?;
            v.push(Tok::Pi(c));
            rest = &r[k..];
        } else if let Some(r) = rest.strip_prefix("<!") {
            let (c, k) = cut(r, ">", "declaration")?;
            if !(c.starts_with("DOCTYPE") && roots == 0) {
                return Err("declaration in the content".into());
            }
            v.push(Tok::Decl(c));
            rest = &r[k..];
        } else if let Some(r) = rest.strip_prefix("</") {
            let (c, k) = cut(r, ">", "end tag")?;
            let n = c.trim_end().to_string();
            if open.pop().as_deref() != Some(&n) {
                return Err(format!("end tag {} does not match", n));
            }
            v.push(Tok::End(n));
            rest = &r[k..];
        } else if let Some(r) = rest.strip_prefix('<') {
            let e = r.find(|c: char| c.is_whitespace() || c == '>' || c == '/').ok_or("unterminated tag")?;
            let name = r[..e].to_string();
            if !name_ok(&name) {
                return Err(format!("element name {:?}", name));
            }
            let mut r = &r[e..];
            let mut at: Vec<(String, String)> = vec![];
            let empty = loop {
                let t = r.trim_start();
                if let Some(x) = t.strip_prefix("/>") {
                    r = x;
                    break true;
                }
                if let Some(x) = t.strip_prefix('>') {
                    r = x;
                    break false;
                }
                if t.len() == r.len() {
                    return Err("missing space between attributes".into());
                }
                let eq = t.find('=').ok_or("attribute without value")?;
                let k = t[..eq].trim_end().to_string();
                if !name_ok(&k) {
                    return Err(format!("attribute name {:?}", k));
                }
                let t = t[eq + 1..].trim_start();
                let q = t.chars().next().ok_or("attribute without value")?;
                if q != '"' && q != '\'' {
                    return Err("unquoted attribute value".into());
                }
                let e = t[1..].find(q).ok_or("unterminated attribute value")?;
                let val = &t[1..1 + e];
                if val.contains('<') {
                    return Err("< in an attribute value".into());
                }
                if at.iter().any(|a| a.0 == k) {
                    return Err(format!("attribute {} twice", k));
                }
                at.push((k, decode(val)?));
                r = &t[e + 2..];
            };
            if open.is_empty() {
                roots += 1;
            }
            if !empty {
                open.push(name.clone());
            }
            v.push(Tok::Start(name, at, empty));
            rest = r;
        } else {
            let e = rest.find('<').unwrap_or(rest.len());
            let t = decode(&rest[..e])?;
            if open.is_empty() && !t.trim().is_empty() && !t.trim_matches('\u{feff}').trim().is_empty() {
                return Err("text outside the root element".into());
            }
            v.push(Tok::Text(t));
            rest = &rest[e..];
        }
    }
    if !open.is_empty() {
        return Err(format!("{} elements not closed", open.len()));
    }
    if roots != 1 {
        return Err(format!("{} root elements", roots));
    }
    Ok(v)
}
/// canonical form for comparison: adjacent text merged, whitespace collapsed,
/// whitespace-only text dropped, empty-element tags expanded, xmlns:exif ignored
fn canon(v: Vec<Tok>) -> Vec<Tok> {
    let mut o: Vec<Tok> = vec![];
    for t in v {
        match t {
            Tok::Text(s) => {
                if let Some(Tok::Text(p)) = o.last_mut() {
                    p.push_str(&s);
                } else {
                    o.push(Tok::Text(s));
                }
            }
            Tok::Start(n, a, e) => {
                let a = a.into_iter().filter(|x| x.0 != "xmlns:exif").collect();
                o.push(Tok::Start(n.clone(), a, false));
                if e {
                    o.push(Tok::End(n));
                }
            }
            t => o.push(t),
        }
    }
    for t in o.iter_mut() {
        if let Tok::Text(s) | Tok::Decl(s) = t {
            *s = s.split_whitespace().collect::<Vec<_>>().join(" ");
        }
    }
    o.retain(|t| !matches!(t, Tok::Text(s) if s.is_empty()));
    o
}
fn strip(v: &[Tok]) -> Vec<Tok> {
    let mut o = vec![];
    let mut skip = 0usize;
    for t in v {
        match t {
            Tok::Start(n, a, e) => {
                if skip > 0 {
                    skip += !*e as usize;
                } else if n.starts_with("exif:") {
                    skip += !*e as usize;
                } else {
                    let a = a.iter().filter(|x| !x.0.starts_with("exif:")).cloned().collect();
                    o.push(Tok::Start(n.clone(), a, *e));
                }
            }
            Tok::End(_) if skip > 0 => skip -= 1,
            t if skip == 0 => o.push(t.clone()),
            _ => (),
        }
    }
    o
}
/// for each element that is no EXIF property nor part of one, in order: its
/// text if that is all it holds
fn leaf_texts(v: &[Tok]) -> Vec<Option<String>> {
    let mut o = vec![];
    let mut skip = 0usize;
    for (i, t) in v.iter().enumerate() {
        match t {
            Tok::Start(n, _, e) if skip > 0 || n.starts_with("exif:") => skip += !*e as usize,
            Tok::Start(_, _, true) => o.push(None),
            Tok::Start(..) => o.push(match v.get(i + 1..i + 3) {
                Some([Tok::Text(s), Tok::End(_)]) => Some(s.clone()),
                _ => None,
            }),
            Tok::End(_) if skip > 0 => skip -= 1,
            _ => (),
        }
    }
    o
}
pub fn has_exif_props(b: &[u8]) -> bool {
    tokens(b).map(|v| v.iter().any(|t| matches!(t, Tok::Start(n, a, _) if n.starts_with("exif:") || a.iter().any(|x| x.0.starts_with("exif:"))))).unwrap_or(false)
}
/// Err(what) if `after` is not `before` without its EXIF properties
pub fn judge(before: &[u8], after: &[u8]) -> Result<&'static str, String> {
    match tokens(before) {
        Err(e) => {
            if before == after {
                return Ok("malformed packet kept");
            }
            if e.contains("not closed") || e.contains("does not match") || e.contains("unterminated") {
                return Err("a packet that is not well-formed lost content".into());
            }
            // lexical damage a lenient reader may overlook: what it makes of
            // the packet is not specified
            Ok("exif properties removed from a packet with lexical damage (no claim)")
        }
        Ok(b) => {
            let want = canon(strip(&b));
            let a = tokens(after).map_err(|e| format!("the packet is no longer well-formed: {}", e))?;
            // text that is all an element holds stays as it is, white space included
            let (x, y) = (leaf_texts(&b), leaf_texts(&a));
            let got = canon(a);
            if want == got {
                if let Some((p, q)) = x.iter().zip(&y).find(|(p, q)| p.as_ref().is_some_and(|t| !t.trim().is_empty()) && p != q) {
                    return Err(format!("text of an element differs: expected {:?}, found {:?}", p, q));
                }
            }
            if want != got {
                let i = want.iter().zip(&got).position(|(x, y)| x != y).unwrap_or(want.len().min(got.len()));
                return Err(format!("content differs at token {}: expected {:?}, found {:?}", i, want.get(i), got.get(i)));
            }
            Ok(if has_exif_props(before) { "exif properties removed" } else { "packet without exif properties kept" })
        }
    }
}

fn text(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.below(5) {
        s.push_str(*r.pick(&["Grün", " ", "a", "x y", "&amp;", "&lt;tag&gt;", "&#233;", "&#x1F600;", "\n", "exif:Foo", "\"q\"", "'", "日本", "1/200", "&quot;", "\t"]));
    }
    s
}
fn attr(r: &mut Rng, k: &str) -> String {
    let mut v = text(r).replace(['\n', '\t'], " ");
    if r.chance(1, 2) {
        v = v.replace('\'', "");
        if r.chance(1, 2) {
            format!(" {}='{}'", k, v)
        } else {
            format!("\n   {} = '{}'", k, v.replace("&quot;", "\""))
        }
    } else {
        format!(" {}=\"{}\"", k, v.replace('"', ""))
    }
}
fn inner(r: &mut Rng, depth: usize, out: &mut String) {
    // content of a property: text, or an RDF container, or a structure
    match r.below(8) {
        0 | 1 | 2 => out.push_str(&text(r)),
        // elements that are no EXIF properties themselves, without content
        6 => {
            for _ in 0..r.range(1, 3) {
                out.push_str(*r.pick(&["<rdf:Description exif:Fired=\"True\" dc:a='b'/>", "<rdf:Description/>", "<rdf:Seq />", "<rdf:li/>", "<rdf:li xml:lang=\"de\"/>", "<!-- c -->", "\n", "t"]));
            }
        }
        // the fields of a structure (rdf:parseType="Resource")
        7 if depth > 0 => {
            for _ in 0..r.range(1, 3) {
                prop(r, depth - 1, out);
            }
        }
        3 => {
            let k = *r.pick(&["rdf:Seq", "rdf:Bag", "rdf:Alt"]);
            out.push_str(&format!("\n<{}>", k));
            for _ in 0..r.below(4) {
                out.push_str("\n <rdf:li");
                if r.chance(1, 4) {
                    out.push_str(" xml:lang=\"x-default\"");
                }
                out.push_str(&format!(">{}</rdf:li>", text(r)));
            }
            out.push_str(&format!("</{}>\n", k));
        }
        4 if depth > 0 => {
            out.push_str("<rdf:Description>");
            for _ in 0..r.below(3) {
                prop(r, depth - 1, out);
            }
            out.push_str("</rdf:Description>");
        }
        _ => match r.below(4) {
            0 => out.push_str(&format!("<!-- {} -->", "comment exif:x")),
            1 => out.push_str("<![CDATA[ <exif:raw> & ]]>"),
            2 => out.push_str(*r.pick(&["<?pi some data?>", "<?xml-stylesheet href=\"a.xsl\"?>", "<?exif:x?>"])),
            _ => (),
        },
    }
}
fn prop(r: &mut Rng, depth: usize, out: &mut String) {
    let n = *r.pick(&[
        "exif:ExposureTime", "exif:Flash", "exif:ISOSpeedRatings", "exif:UserComment", "exif:GPSLatitude", "exif:ComponentsConfiguration", "exifEX:LensModel", "tiff:Orientation", "dc:title", "dc:creator", "xmp:CreateDate",
        "aux:Lens", "exi:f", "Exif:Case", "photoshop:exif",
    ]);
    if r.chance(1, 5) {
        let at = if r.chance(1, 2) {
            let k = *r.pick(&["rdf:resource", "exif:mode", "dc:x"]);
            attr(r, k)
        } else {
            String::new()
        };
        out.push_str(&format!("<{}{}{}/>", n, at, if r.chance(1, 2) { " " } else { "" }));
    } else {
        let at = if r.chance(1, 4) {
            let k = *r.pick(&["rdf:parseType", "exif:Fired", "dc:a"]);
            attr(r, k)
        } else {
            String::new()
        };
        out.push_str(&format!("<{}{}>", n, at));
        inner(r, depth, out);
        out.push_str(&format!("</{}{}>", n, if r.chance(1, 12) { *r.pick(&[" ", "\n"]) } else { "" }));
    }
    out.push_str(*r.pick(&["\n", "\n    ", "", " ", "\r\n"]));
}
pub fn gen_packet(r: &mut Rng, k: usize) -> Vec<u8> {
    let mut s = String::new();
    if r.chance(1, 12) {
        s.push('\u{feff}');
    }
    if r.chance(1, 12) {
        s.push_str(*r.pick(&["<?xml version=\"1.0\"?>\n", "<?xml version='1.0' encoding='UTF-8' ?>"]));
    }
    if r.chance(1, 20) {
        s.push_str(*r.pick(&["<!DOCTYPE xmpmeta>\n", "<!DOCTYPE  x:xmpmeta SYSTEM \"exif:x\" >", "<!-- exif:first -->"]));
    }
    if r.chance(2, 3) {
        s.push_str("<?xpacket begin=\"\u{feff}\" id=\"W5M0MpCehiHzreSzNTczkc9d\"?>\n");
    }
    s.push_str("<x:xmpmeta xmlns:x=\"adobe:ns:meta/\" x:xmptk=\"t\">\n <rdf:RDF xmlns:rdf='http://www.w3.org/1999/02/22-rdf-syntax-ns#'>\n");
    for _ in 0..r.range(1, 2) {
        s.push_str("  <rdf:Description rdf:about=\"\" xmlns:exif=\"http://ns.adobe.com/exif/1.0/\" xmlns:dc=\"http://purl.org/dc/elements/1.1/\"");
        let mut keys = vec!["exif:ExposureTime", "exif:FNumber", "exifEX:SerialNumber", "tiff:Make", "dc:format", "xmp:Rating", "exif:GPSAltitude", "Exif:B"];
        r.shuffle(&mut keys);
        for q in keys.iter().take(r.below(5)) {
            let a = attr(r, q);
            s.push_str(&a);
        }
        s.push('>');
        s.push('\n');
        for _ in 0..r.below(6) {
            prop(r, 2, &mut s);
        }
        s.push_str("  </rdf:Description>\n");
    }
    s.push_str(" </rdf:RDF>\n</x:xmpmeta>\n");
    if r.chance(1, 4) {
        s.push_str(&" ".repeat(k));
        s.push('\n');
    }
    if s.contains("<?xpacket") {
        s.push_str("<?xpacket end=\"w\"?>");
    }
    let mut b = s.into_bytes();
    match r.below(12) {
        0 => {
            // damaged: cut off in the middle
            let n = r.below(b.len());
            b.truncate(n);
        }
        1 => {
            // mismatched end tag
            let t = String::from_utf8(b).unwrap().replacen("</rdf:RDF>", *r.pick(&["</rdf:RDX>", "", "</exif:x></rdf:RDF>", "<exif:open></rdf:RDF>"]), 1);
            b = t.into_bytes();
        }
        2 if r.chance(1, 2) => {
            let n = r.below(b.len());
            b[n] = 0xff;
        }
        3 if r.chance(1, 2) => {
            // UTF-16
            let t = String::from_utf8(b).unwrap();
            b = vec![0xfe, 0xff];
            b.extend(t.encode_utf16().flat_map(|c| c.to_be_bytes()));
        }
        _ => (),
    }
    b
}
