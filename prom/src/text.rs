//! The text exposition format, read strictly.
use std::collections::{BTreeMap, BTreeSet};

/// Ordered bits of a sample's value.
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct F(pub u64);
impl F {
    pub fn of(v: f64) -> F {
        // the sign of zero does not matter
        F(if v == 0.0 { 0 } else { v.to_bits() })
    }
}
impl std::fmt::Debug for F {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", f64::from_bits(self.0))
    }
}
pub type Labels = BTreeMap<String, String>;
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Family {
    pub help: String,
    pub kind: String,
    pub samples: BTreeMap<(String, Labels), F>,
}
pub type Scrape = BTreeMap<String, Family>;

fn name_ok(s: &str, colon: bool) -> bool {
    let c = |c: char| c.is_ascii_alphanumeric() || c == '_' || (colon && c == ':');
    !s.is_empty() && s.chars().all(c) && !s.starts_with(|c: char| c.is_ascii_digit())
}
fn number(s: &str) -> Result<f64, String> {
    match s {
        "+Inf" => Ok(f64::INFINITY),
        "-Inf" => Ok(f64::NEG_INFINITY),
        _ => s.parse().map_err(|_| format!("not a number: {s:?}")),
    }
}
fn labels(s: &str) -> Result<(Labels, &str), String> {
    let mut out = Labels::new();
    let Some(mut s) = s.strip_prefix('{') else { return Ok((out, s)) };
    loop {
        if let Some(rest) = s.strip_prefix('}') {
            return Ok((out, rest));
        }
        let (k, rest) = s.split_once("=\"").ok_or(format!("label without value: {s:?}"))?;
        if !name_ok(k, false) {
            return Err(format!("invalid label name {k:?}"));
        }
        let mut v = String::new();
        let mut it = rest.char_indices();
        let end = loop {
            match it.next() {
                Some((i, '"')) => break i,
                Some((_, '\\')) => v.push(match it.next() {
                    Some((_, '\\')) => '\\',
                    Some((_, '"')) => '"',
                    Some((_, 'n')) => '\n',
                    x => return Err(format!("bad escape {x:?}")),
                }),
                Some((_, c)) => v.push(c),
                None => return Err("label value without end".into()),
            }
        };
        if out.insert(k.to_string(), v).is_some() {
            return Err(format!("label {k} given twice"));
        }
        s = &rest[end + 1..];
        if let Some(r) = s.strip_prefix(',') {
            s = r;
        }
    }
}
pub fn parse(t: &str) -> Result<Scrape, String> {
    let mut out = Scrape::new();
    let mut current: Option<String> = None;
    let mut typed = BTreeSet::new();
    for line in t.lines() {
        if let Some(r) = line.strip_prefix("# HELP ") {
            let (n, h) = r.split_once(' ').unwrap_or((r, ""));
            if out.insert(n.to_string(), Family { help: h.replace("\\n", "\n").replace("\\\\", "\\"), ..Family::default() }).is_some() {
                return Err(format!("two metrics are called {n}"));
            }
            current = Some(n.to_string());
        } else if let Some(r) = line.strip_prefix("# TYPE ") {
            let (n, k) = r.split_once(' ').ok_or("TYPE without type")?;
            if !name_ok(n, true) {
                return Err(format!("invalid metric name {n:?}"));
            }
            if !typed.insert(n.to_string()) {
                return Err(format!("two metrics are called {n}"));
            }
            out.entry(n.to_string()).or_default().kind = k.to_string();
            current = Some(n.to_string());
        } else {
            let fam = current.as_ref().ok_or("sample before any TYPE")?;
            let at = line.find(['{', ' ']).ok_or(format!("sample {line:?}"))?;
            let (l, rest) = labels(&line[at..])?;
            let v = number(rest.trim())?;
            let key = (line[..at].to_string(), l);
            let f = out.get_mut(fam).unwrap();
            let plain = f.kind != "histogram";
            if plain && key.0 != *fam || !plain && !["_bucket", "_sum", "_count"].iter().any(|x| key.0.strip_suffix(x) == Some(fam)) {
                return Err(format!("sample {} within {fam}", key.0));
            }
            if f.samples.insert(key.clone(), F::of(v)).is_some() {
                return Err(format!("sample {key:?} occurs twice"));
            }
        }
    }
    Ok(out)
}
