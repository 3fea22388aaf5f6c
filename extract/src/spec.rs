//! Contract files: see /verif/specs/*.spec for the format.
use std::collections::BTreeMap;

#[derive(Debug, Clone, Default)]
pub struct FnSpec {
    pub params: Vec<String>,
    /// section name (e.g. "requires", "ensures", "loop 0 invariant") -> text
    pub sec: BTreeMap<String, String>,
    pub used: bool,
    pub file: String,
    pub line: usize,
}

impl FnSpec {
    pub fn get(&self, k: &str) -> Option<&str> {
        self.sec.get(k).map(|s| s.as_str())
    }
    pub fn loops(&self) -> usize {
        self.ordinals("loop ")
    }
    pub fn closures(&self) -> usize {
        self.ordinals("closure ")
    }
    fn ordinals(&self, p: &str) -> usize {
        self.sec
            .keys()
            .filter_map(|k| k.strip_prefix(p))
            .filter_map(|k| k.split(' ').next().unwrap().parse::<usize>().ok())
            .map(|n| n + 1)
            .max()
            .unwrap_or(0)
    }
}

#[derive(Debug, Default)]
pub struct Specs {
    pub fns: BTreeMap<String, FnSpec>,
    pub impls: BTreeMap<String, FnSpec>,
    pub types: BTreeMap<String, FnSpec>,
    pub mods: BTreeMap<String, FnSpec>,
}

pub fn norm(k: &str) -> String {
    k.chars().filter(|c| !c.is_whitespace()).collect()
}

impl Specs {
    pub fn load(&mut self, name: &str, text: &str) {
        let mut cur: Option<(String, String, FnSpec)> = None;
        let mut sec: Option<String> = None;
        for (ln, line) in text.lines().enumerate() {
            if line.starts_with('#') {
                continue;
            }
            if line.starts_with("fn ") || line.starts_with("impl ") || line.starts_with("type ") || line.starts_with("mod ") {
                if let Some(c) = cur.take() {
                    self.put(c);
                }
                sec = None;
                let (kind, rest) = line.split_once(' ').unwrap();
                let rest = rest.trim();
                let (key, params) = if kind == "fn" {
                    match rest.rfind('(') {
                        Some(i) => (
                            &rest[..i],
                            rest[i + 1..].trim_end_matches(')').split(',').map(|x| x.trim().to_string()).filter(|x| !x.is_empty()).collect(),
                        ),
                        None => (rest, vec![]),
                    }
                } else {
                    (rest, vec![])
                };
                let key = if kind == "mod" && key == "." { "" } else { key };
                cur = Some((kind.to_string(), norm(key), FnSpec { params, file: name.to_string(), line: ln + 1, ..Default::default() }));
                continue;
            }
            if line.trim().is_empty() {
                continue;
            }
            let c = cur.as_mut().unwrap_or_else(|| panic!("{}:{}: text outside of an entry", name, ln + 1));
            let indent = line.len() - line.trim_start().len();
            if indent == 2 {
                let (k, v) = line.trim().split_once(':').unwrap_or_else(|| panic!("{}:{}: no section", name, ln + 1));
                sec = Some(k.to_string());
                c.2.sec.insert(k.to_string(), v.trim().to_string());
            } else {
                let k = sec.as_ref().unwrap_or_else(|| panic!("{}:{}: no section", name, ln + 1));
                let e = c.2.sec.get_mut(k).unwrap();
                e.push('\n');
                e.push_str(line);
            }
        }
        if let Some(c) = cur.take() {
            self.put(c);
        }
    }

    fn put(&mut self, (kind, key, s): (String, String, FnSpec)) {
        let m = match kind.as_str() {
            "fn" => &mut self.fns,
            "impl" => &mut self.impls,
            "type" => &mut self.types,
            _ => &mut self.mods,
        };
        if m.insert(key.clone(), s).is_some() {
            panic!("duplicate entry {} {}", kind, key);
        }
    }
}

/// Replace whole identifiers in a piece of contract text.
pub fn subst(text: &str, map: &BTreeMap<String, String>) -> String {
    if map.is_empty() {
        return text.to_string();
    }
    let mut out = String::new();
    let mut id = String::new();
    let mut prev = ' ';
    let mut flush = |id: &mut String, out: &mut String, prev: char| {
        if !id.is_empty() {
            match map.get(id.as_str()) {
                // not a field or method name
                Some(r) if prev != '.' => out.push_str(r),
                _ => out.push_str(id),
            }
            id.clear();
        }
    };
    for ch in text.chars() {
        if ch.is_alphanumeric() || ch == '_' {
            if id.is_empty() {
                prev = out.chars().last().unwrap_or(' ');
            }
            id.push(ch);
        } else {
            flush(&mut id, &mut out, prev);
            out.push(ch);
        }
    }
    flush(&mut id, &mut out, prev);
    out
}
