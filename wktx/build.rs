//! Regenerates, from /repo's current source, the WKT reader with the symbolic number in the
//! place of f64: the same text, with the type name, the crate's name and the name of the wkt
//! crate replaced.
use std::{env, fs, path::Path};

const SRC: &str = "/repo/src/serde/wkt.rs";

/// every whole word `a` becomes `b`, outside string literals and line comments
fn words(s: &str, map: &[(&str, &str)]) -> String {
    let b: Vec<char> = s.chars().collect();
    let (mut o, mut i) = (String::new(), 0);
    while i < b.len() {
        let c = b[i];
        if c == '/' && b.get(i + 1) == Some(&'/') {
            while i < b.len() && b[i] != '\n' { i += 1; }
        } else if c == '"' {
            o.push(c);
            i += 1;
            while i < b.len() && b[i] != '"' {
                if b[i] == '\\' { o.push(b[i]); i += 1; }
                o.push(b[i]);
                i += 1;
            }
            if i < b.len() { o.push('"'); i += 1; }
        } else if c.is_alphabetic() || c == '_' {
            let j = (i..b.len()).find(|&j| !(b[j].is_alphanumeric() || b[j] == '_')).unwrap_or(b.len());
            let w: String = b[i..j].iter().collect();
            let r = map.iter().find(|(a, _)| *a == w).map(|(_, r)| r.to_string()).unwrap_or(w);
            o.push_str(&r);
            i = j;
        } else if c.is_ascii_digit() {
            let j = (i..b.len()).find(|&j| !(b[j].is_alphanumeric() || b[j] == '_')).unwrap_or(b.len());
            o.extend(&b[i..j]);
            i = j;
        } else { o.push(c); i += 1; }
    }
    o
}

/// without the items under #[cfg(test)]
fn untested(s: &str) -> String {
    let mut s = s.to_string();
    while let Some(a) = s.find("#[cfg(test)]") {
        let Some(open) = s[a..].find('{') else { break };
        let (mut d, mut end) = (0, s.len());
        for (i, c) in s[a + open..].char_indices() {
            if c == '{' { d += 1 }
            if c == '}' { d -= 1; if d == 0 { end = a + open + i + 1; break } }
        }
        s.replace_range(a..end, "");
    }
    s
}

fn main() {
    println!("cargo:rerun-if-changed={}", SRC);
    println!("cargo:rerun-if-changed=build.rs");
    let s = untested(&fs::read_to_string(SRC).expect("the WKT reader"));
    let s = s.replace("use wkt;", "");
    let s = words(&s, &[("f64", "Sym"), ("crate", "magog"), ("wkt", "wktgen")]);
    let s = format!("#[allow(unused_imports)]\nuse crate::{{wktgen, Sym}};\n#[allow(unused_imports)]\nuse num_traits::Float as _;\n{}", s.replace("use wktgen::", "use crate::wktgen::"));
    fs::write(Path::new(&env::var("OUT_DIR").unwrap()).join("wkt.rs"), s).unwrap();
}
