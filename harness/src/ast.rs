//! Journals as data, and how they're written down.

use crate::date::{Date, FORMATS};
use crate::src::Src;

pub const UNIT: i128 = 100_000_000; // amounts are counted in units of 0.00000001
pub type Sym = Option<String>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Amt {
    pub u: i128,
    pub sym: Sym,
}

impl Amt {
    pub fn new(u: i128, sym: &Sym) -> Amt {
        Amt { u, sym: sym.clone() }
    }
    pub fn neg(&self) -> Amt {
        Amt { u: -self.u, sym: self.sym.clone() }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Freq {
    NoDate,
    Once(Date),
    Weekly(usize),
    Monthly(u32),
    OtherWeek(usize),
    OtherMonth(u32),
    Yearly,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fund {
    Unset,
    Manual,
    Aggressive,
    Conservative,
}

#[derive(Clone, Debug)]
pub struct EnvDef {
    pub goal: bool,
    pub name: String,
    pub freq: Freq,
    pub starting: Option<Date>,
    pub amount: Amt,
    pub fors: Vec<String>,
    pub fund: Fund,
}

#[derive(Clone, Debug)]
pub struct AcctDef {
    pub name: String,
    pub envs: Vec<EnvDef>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Cost {
    Total(Amt),
    Unit(Amt),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Post {
    Classic { acct: String, amt: Option<Amt>, cost: Option<Cost>, check: Option<Amt> },
    Env { acct: String, env: String, amt: Amt },
}

impl Post {
    pub fn plain(acct: &str, amt: Amt) -> Post {
        Post::Classic { acct: acct.into(), amt: Some(amt), cost: None, check: None }
    }
    pub fn blank(acct: &str) -> Post {
        Post::Classic { acct: acct.into(), amt: None, cost: None, check: None }
    }
    pub fn acct(&self) -> &str {
        match self {
            Post::Classic { acct, .. } => acct,
            Post::Env { acct, .. } => acct,
        }
    }
    pub fn is_env(&self) -> bool {
        matches!(self, Post::Env { .. })
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Entry {
    pub date: Date,
    pub status: char,
    pub desc: String,
    pub payee: Option<String>,
    pub posts: Vec<Post>,
}

#[derive(Clone, Debug)]
pub enum Item {
    Format(usize),
    Acct(AcctDef),
    Entry(Entry),
    Raw(String),
}

/// How things are written where there's a choice. Without a source of choices: the plain way.
pub struct Sty<'a> {
    pub s: Option<&'a mut Src>,
}

pub fn plain<'a>() -> Sty<'a> {
    Sty { s: None }
}

pub fn num(u: i128) -> String {
    let a = u.unsigned_abs();
    let (i, f) = (a / UNIT as u128, a % UNIT as u128);
    let mut s = format!("{}{}", if u < 0 { "-" } else { "" }, i);
    if f != 0 {
        s += format!(".{:08}", f).trim_end_matches('0');
    }
    s
}

fn thousands(i: &str) -> String {
    let mut out = String::new();
    for (n, c) in i.chars().enumerate() {
        if n > 0 && (i.len() - n) % 3 == 0 {
            out.push(',');
        }
        out.push(c);
    }
    out
}

impl Sty<'_> {
    pub fn pick(&mut self, n: usize) -> usize {
        match self.s.as_mut() {
            Some(s) => s.below(n),
            None => 0,
        }
    }
    pub fn chance(&mut self, a: usize, b: usize) -> bool {
        match self.s.as_mut() {
            Some(s) => s.chance(a, b),
            None => false,
        }
    }

    /// Any accepted notation of the amount.
    pub fn amount(&mut self, a: &Amt) -> String {
        let n = num(a.u.abs());
        let (mut int, mut frac) = match n.split_once('.') {
            Some((i, f)) => (i.to_string(), Some(f.to_string())),
            None => (n, None),
        };
        if self.chance(1, 4) {
            int = thousands(&int);
        } else if self.chance(1, 8) {
            int = format!("{}{}", "0".repeat(1 + self.pick(3)), int);
        }
        if self.chance(1, 6) {
            let mut f = frac.unwrap_or_default();
            f += &"0".repeat(self.pick(4));
            frac = Some(f);
        }
        if int == "0" && frac.as_ref().is_some_and(|f| !f.is_empty()) && self.chance(1, 6) {
            int = String::new();
        }
        let n = match frac {
            Some(f) => format!("{int}.{f}"),
            None => int,
        };
        let mut m = if a.u < 0 { "-" } else { "" };
        if self.chance(1, 25) {
            // two minus signs make none, and there may be a space after one
            m = match (a.u < 0, &a.sym) {
                (true, None) => "- ",
                (true, Some(s)) => return if self.chance(1, 2) { format!("{s}- {n}") } else { format!("- {s}{n}") },
                (false, _) => "--",
            };
        }
        match &a.sym {
            None => format!("{m}{n}"),
            Some(s) => match self.pick(7) {
                0 => format!("{m}{n} {s}"),
                1 => format!("{s}{m}{n}"),
                2 => format!("{m}{s}{n}"),
                3 => format!("{m}{n}{s}"),
                4 => format!("{s} {m}{n}"),
                5 => format!("{m}{s} {n}"),
                _ => format!("{m}{n} {s}"),
            },
        }
    }
    fn gap(&mut self) -> &'static str {
        ["    ", " ", "  ", "\t", " \t ", "            "][self.pick(6)]
    }
    pub fn date(&mut self, d: Date, f: usize) -> String {
        // fields without padding are fine where something separates them
        let fm = FORMATS[f];
        let pad = !(self.chance(1, 5) && !matches!(fm, "%Y%m%d" | "%j-%Y"));
        d.fmt_pad(fm, pad)
    }

    pub fn post(&mut self, p: &Post) -> String {
        match p {
            Post::Classic { acct, amt, cost, check } => {
                let mut s = acct.clone();
                if let Some(a) = amt {
                    s += self.gap();
                    s += &self.amount(a);
                }
                let c = cost.as_ref().map(|c| match c {
                    Cost::Total(a) => format!("= {}", self.amount(a)),
                    Cost::Unit(a) => format!("@ {}", self.amount(a)),
                });
                let k = check.as_ref().map(|a| format!("! {}", self.amount(a)));
                let mut parts: Vec<String> = c.into_iter().chain(k).collect();
                if parts.len() == 2 && self.chance(1, 3) {
                    parts.reverse();
                }
                for x in parts {
                    s += " ";
                    s += &x;
                }
                s
            }
            Post::Env { acct, env, amt } => {
                let (g, h) = (self.gap(), self.gap());
                format!("envelope {acct}{g}{env}{h}{}", self.amount(amt))
            }
        }
    }

    pub fn entry(&mut self, e: &Entry, f: usize) -> String {
        let mut s = format!("{} {}", self.date(e.date, f), e.status);
        if !e.desc.is_empty() {
            s += " ";
            s += &e.desc;
        }
        if let Some(p) = &e.payee {
            s += &format!(" [{p}]");
        }
        s += "\n";
        for p in &e.posts {
            s += &format!("    {}\n", self.post(p));
        }
        s
    }

    fn day(&mut self, d: u32) -> String {
        let suffix = match d {
            11..=13 => "th",
            _ => match d % 10 {
                1 => "st",
                2 => "nd",
                3 => "rd",
                _ => "th",
            },
        };
        if self.chance(1, 8) { format!("{d}") } else { format!("{d}{suffix}") }
    }

    pub fn envelope(&mut self, e: &EnvDef, f: usize) -> String {
        const SHORT: [&str; 7] = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"];
        const LONG: [&str; 7] = ["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday"];
        let wd = |s: &mut Self, w: usize| match s.pick(4) {
            0 => LONG[w].to_string(),
            1 => SHORT[w].to_string(),
            2 => LONG[w].to_lowercase(),
            _ => SHORT[w].to_lowercase(),
        };
        let due = ["due", "by", "due by"][self.pick(3)];
        let freq = match &e.freq {
            Freq::NoDate => "no date".to_string(),
            Freq::Once(d) => format!("{due} {}", self.date(*d, f)),
            Freq::Weekly(w) => format!("{due} every {}", wd(self, *w)),
            Freq::Monthly(d) => format!("{due} every {}", self.day(*d)),
            Freq::OtherWeek(w) => format!("{due} every other {}", wd(self, *w)),
            Freq::OtherMonth(d) => format!("{due} every other {}", self.day(*d)),
            Freq::Yearly => format!("{due} every year"),
        };
        let mut s = format!("    {} {} {}", if e.goal { "goal" } else { "expense" }, e.name, freq);
        if let Some(d) = e.starting {
            s += &format!(" starting {}", self.date(d, f));
        }
        s += "\n";
        let mut body = vec![format!("amount {}", self.amount(&e.amount))];
        for x in &e.fors {
            body.push(format!("for {x}"));
        }
        match e.fund {
            Fund::Unset => {}
            Fund::Manual => body.push("funding manual".into()),
            Fund::Aggressive => body.push("funding aggressive".into()),
            Fund::Conservative => body.push("funding conservative".into()),
        }
        if let Some(src) = self.s.as_mut() {
            src.shuffle(&mut body);
        }
        for b in body {
            s += &format!("        {b}\n");
        }
        s
    }

    pub fn account(&mut self, a: &AcctDef, f: usize) -> String {
        let mut s = format!("account {}\n", a.name);
        let parts = self.chance(1, 20);
        for e in &a.envs {
            if parts && self.chance(1, 2) {
                s += &format!("account {}\n", a.name);
            }
            s += &self.envelope(e, f);
        }
        s
    }

    /// The text of each item; the date format in effect may change on the way.
    pub fn chunks(&mut self, items: &[Item]) -> Vec<String> {
        let mut f = 0;
        items
            .iter()
            .map(|i| match i {
                Item::Format(n) => {
                    f = *n;
                    format!("date_format {}\n", FORMATS[f])
                }
                Item::Acct(a) => self.account(a, f),
                Item::Entry(e) => self.entry(e, f),
                Item::Raw(s) => s.clone(),
            })
            .collect()
    }
    pub fn journal(&mut self, items: &[Item]) -> String {
        self.chunks(items).concat()
    }
}

pub fn final_format(items: &[Item]) -> usize {
    let mut f = 0;
    for i in items {
        if let Item::Format(n) = i {
            f = *n;
        }
    }
    f
}

/// Adds comments, blank lines, other whitespace, without changing the meaning.
pub fn noisy(text: &str, s: &mut Src) -> String {
    const COMMENTS: &[&str] = &[
        "// note", "; note", "//", ";", "// account a b c", "; 2020/01/01 x", "// 5 [", "//;//", "; expense x due every 99th",
        "// envelope a b 5", "// ünïcödé ✓", ";; !", "// include nothing", "; -5 @ 3 = 2 ! 1", "///", "// \"quoted\" 'text'", "; http://example.com", ";//", ";;", "// ;", "////", "//\\", "; account zz", ";\t", "//*", "//%Y", ";-",
    ];
    let crlf = s.chance(1, 8);
    let nl = if crlf { "\r\n" } else { "\n" };
    let dense = *s.pick(&[1usize, 3, 6]);
    let mut out = String::new();
    let lines: Vec<&str> = text.lines().collect();
    for (i, l) in lines.iter().enumerate() {
        if s.chance(dense, 12) {
            let blank = s.chance(1, 3);
            for _ in 0..1 + s.weighted(&[12, 3, 2, 1, 1, 1]) {
                match if blank { 0 } else { s.below(6) } {
                    0 => out += "",
                    1 => out += "   ",
                    2 => out += s.pick(COMMENTS),
                    3 => out += &format!("    {}", s.pick(COMMENTS)),
                    4 => {
                        let w = s.word(|w| !w.contains(['\n', '\r']), "words");
                        out += &format!("{}{}{}", s.pick(&["", "    "]), s.pick(&["//", ";", "// ", "; "]), w);
                    }
                    _ => out += &format!("\t{}", s.pick(COMMENTS)),
                }
                out += nl;
            }
        }
        let t = l.trim_start();
        if t.len() < l.len() && s.chance(dense, 8) {
            out += s.pick(&["\t", " ", "  ", "\t\t", "          "]);
            out += t;
        } else {
            out += l;
        }
        if s.chance(dense, 8) && !t.is_empty() {
            out += s.pick(&[" ", "   ", "\t", ""]);
            out += s.pick(COMMENTS);
        }
        if s.chance(dense, 10) {
            out += s.pick(&[" ", "  \t", "\t"]);
        }
        if i + 1 == lines.len() && s.chance(1, 6) {
            // a long end
            for _ in 0..1 + s.below(6) {
                out += nl;
                out += s.pick(&["", "", " ", "\t"]);
            }
        }
        if i + 1 < lines.len() || !s.chance(1, 4) {
            out += nl;
        }
    }
    out
}
