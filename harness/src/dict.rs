//! Words and numbers that the program under test mentions. They're only ingredients for generators: what a run has to do
//! never depends on them.

use std::path::Path;
use std::sync::OnceLock;

#[derive(Default, Clone)]
pub struct Dict {
    pub words: Vec<String>,
    pub nums: Vec<i64>,
}

static DICT: OnceLock<Dict> = OnceLock::new();

pub fn set(d: Dict) {
    let _ = DICT.set(d);
}
pub fn get() -> &'static Dict {
    DICT.get_or_init(Dict::default)
}

impl Dict {
    pub fn of_dir(dir: &Path) -> Dict {
        let mut d = Dict::default();
        let mut files = vec![];
        walk(dir, &mut files);
        files.sort();
        for f in files {
            if let Ok(t) = std::fs::read_to_string(&f) {
                scan(&t, &mut d);
            }
        }
        d.words.sort();
        d.words.dedup();
        d.nums.sort();
        d.nums.dedup();
        d
    }
    pub fn to_line(&self) -> String {
        let w: Vec<String> = self.words.iter().map(|w| w.bytes().map(|b| format!("{b:02x}")).collect()).collect();
        let n: Vec<String> = self.nums.iter().map(|n| n.to_string()).collect();
        format!("{}|{}", w.join(","), n.join(","))
    }
    pub fn of_line(l: &str) -> Dict {
        let (w, n) = l.split_once('|').unwrap_or((l, ""));
        let hex = |x: &str| -> Option<String> {
            let b: Option<Vec<u8>> = (0..x.len() / 2).map(|i| u8::from_str_radix(x.get(2 * i..2 * i + 2)?, 16).ok()).collect();
            String::from_utf8(b?).ok()
        };
        Dict { words: w.split(',').filter(|x| !x.is_empty()).filter_map(hex).collect(), nums: n.split(',').filter_map(|x| x.parse().ok()).collect() }
    }
}

fn walk(dir: &Path, out: &mut Vec<std::path::PathBuf>) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    for e in rd.flatten() {
        let p = e.path();
        if p.is_dir() {
            walk(&p, out);
        } else if p.extension().is_some_and(|x| x == "rs") {
            out.push(p);
        }
    }
}

fn add_word(d: &mut Dict, w: &str) {
    // the words of messages aren't interesting
    let n = w.chars().count();
    if n >= 1 && n <= 24 && !w.contains(['{', '}', '\n']) && w.split_whitespace().count() <= 2 && !w.trim().is_empty() {
        d.words.push(w.to_string());
    }
}

fn scan(t: &str, d: &mut Dict) {
    let c: Vec<char> = t.chars().collect();
    let mut i = 0;
    while i < c.len() {
        match c[i] {
            '/' if c.get(i + 1) == Some(&'/') => {
                while i < c.len() && c[i] != '\n' {
                    i += 1;
                }
            }
            '/' if c.get(i + 1) == Some(&'*') => {
                i += 2;
                while i + 1 < c.len() && !(c[i] == '*' && c[i + 1] == '/') {
                    i += 1;
                }
                i += 2;
            }
            '"' => {
                let mut w = String::new();
                i += 1;
                while i < c.len() && c[i] != '"' {
                    if c[i] == '\\' {
                        i += 1;
                        w.push(match c.get(i) {
                            Some('n') => '\n',
                            Some('t') => '\t',
                            Some('r') => '\r',
                            Some(x) => *x,
                            None => ' ',
                        });
                    } else {
                        w.push(c[i]);
                    }
                    i += 1;
                }
                i += 1;
                for n in w.split(|x: char| !x.is_ascii_digit()).filter_map(|n| n.parse::<i64>().ok()) {
                    if n <= 1_000_000_000 {
                        d.nums.push(n);
                    }
                }
                add_word(d, &w);
            }
            '\'' => {
                // a character, or a lifetime
                if c.get(i + 1) == Some(&'\\') && c.get(i + 3) == Some(&'\'') {
                    i += 4;
                } else if c.get(i + 2) == Some(&'\'') {
                    add_word(d, &c[i + 1].to_string());
                    i += 3;
                } else {
                    i += 1;
                }
            }
            x if x.is_ascii_digit() => {
                let mut n = String::new();
                while i < c.len() && (c[i].is_ascii_digit() || c[i] == '_') {
                    if c[i] != '_' {
                        n.push(c[i]);
                    }
                    i += 1;
                }
                if let Ok(n) = n.parse::<i64>() {
                    if n <= 1_000_000_000 {
                        d.nums.push(n);
                    }
                }
            }
            x if x.is_alphabetic() || x == '_' => {
                while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
                    i += 1;
                }
            }
            _ => i += 1,
        }
    }
}
