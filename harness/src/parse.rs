//! Readers of silverfox's reports and of the entries it writes.

use crate::ast::*;
use crate::date::*;
use std::collections::BTreeMap;

/// "-12.5", "$-5", " 5 USD", "$ 5" -> amount.
pub fn amount(s: &str) -> Result<Amt, String> {
    let t = s.trim();
    let numeric = |c: char| c.is_ascii_digit() || c == '.' || c == '-';
    let n: String = t.chars().filter(|c| numeric(*c)).collect();
    let sym: String = t.chars().filter(|c| !numeric(*c)).collect();
    let sym = sym.trim();
    let err = || format!("can't read this amount: {s:?}");
    if t.is_empty() || t.split_whitespace().count() > 2 {
        return Err(err());
    }
    let (neg, d) = match n.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, &n[..]),
    };
    let (i, f) = d.split_once('.').unwrap_or((d, ""));
    if i.is_empty() || !i.chars().all(|c| c.is_ascii_digit()) || !f.chars().all(|c| c.is_ascii_digit()) || i.len() > 28 {
        return Err(err());
    }
    let mut u = i.parse::<i128>().map_err(|_| err())? * UNIT;
    if f.len() > 8 && f[8..].bytes().any(|b| b != b'0') {
        return Err(format!("more than eight decimal places: {s:?}"));
    }
    let f8 = format!("{f:0<8}");
    u += f8[..8].parse::<i128>().map_err(|_| err())?;
    Ok(Amt { u: if neg { -u } else { u }, sym: if sym.is_empty() { None } else { Some(sym.to_string()) } })
}

pub type Bal = BTreeMap<String, BTreeMap<Sym, i128>>;

pub fn balance(out: &str) -> Result<Bal, String> {
    let mut m = Bal::new();
    let mut cur: Option<String> = None;
    for l in out.lines() {
        if l.starts_with('\t') {
            let a = amount(l)?;
            let c = cur.as_ref().ok_or("an amount without an account")?;
            if m.get_mut(c).unwrap().insert(a.sym.clone(), a.u).is_some() {
                return Err(format!("{c} has two amounts of the same currency"));
            }
        } else {
            if l.trim().is_empty() {
                continue;
            }
            let name = l.split_whitespace().next().unwrap().to_string();
            let rest = l[name.len()..].trim();
            let mut p = BTreeMap::new();
            if !rest.is_empty() {
                let a = amount(rest)?;
                p.insert(a.sym.clone(), a.u);
            }
            if m.insert(name.clone(), p).is_some() {
                return Err(format!("{name} is listed twice"));
            }
            cur = Some(name);
        }
    }
    Ok(m)
}

#[derive(Clone, Debug)]
pub struct EnvRow {
    pub goal: bool,
    pub name: String,
    pub now: Amt,
    pub next: Amt,
    pub target: Amt,
    pub due: Option<String>,
    pub bars: [String; 2], // now, next: what's between the bars' ends
}

#[derive(Clone, Debug, Default)]
pub struct EnvAcct {
    pub available: BTreeMap<Sym, i128>,
    pub envs: Vec<EnvRow>,
}

/// The text between the last two `|`.
fn bar(s: &str) -> Result<String, String> {
    let mut it = s.trim_end().strip_suffix('|').ok_or(format!("no bar in {s:?}"))?.rsplit('|');
    let b = it.next().unwrap_or("").to_string();
    it.next().map(|_| b).ok_or(format!("no bar in {s:?}"))
}

fn progress(s: &str) -> Result<(Amt, Amt), String> {
    let t = s.split('|').next().unwrap();
    let (a, b) = t.split_once(" / ").ok_or(format!("no progress in {s:?}"))?;
    Ok((amount(a)?, amount(b)?))
}

pub fn envelopes(out: &str) -> Result<BTreeMap<String, EnvAcct>, String> {
    let mut m: BTreeMap<String, EnvAcct> = BTreeMap::new();
    let mut cur = String::new();
    let mut sec = "";
    let mut it = out.lines();
    while let Some(l) = it.next() {
        if l.trim().is_empty() {
            continue;
        }
        let ind = l.len() - l.trim_start().len();
        let t = l.trim();
        match ind {
            0 => {
                cur = t.to_string();
                sec = "";
                if m.insert(cur.clone(), EnvAcct::default()).is_some() {
                    return Err(format!("{cur} is listed twice"));
                }
            }
            2 => {
                sec = match t {
                    "available" => "available",
                    "expenses" => "expenses",
                    "goals" => "goals",
                    _ => return Err(format!("unexpected line {l:?}")),
                }
            }
            _ => {
                let acct = m.get_mut(&cur).ok_or(format!("unexpected line {l:?}"))?;
                match sec {
                    "available" => {
                        let a = amount(t)?;
                        if acct.available.insert(a.sym.clone(), a.u).is_some() {
                            return Err(format!("available money of {cur} has two amounts of the same currency"));
                        }
                    }
                    "expenses" | "goals" if ind == 4 => {
                        let now = it.next().unwrap_or("").trim().to_string();
                        let next = it.next().unwrap_or("").trim().to_string();
                        let bars = [bar(&now)?, bar(&next)?];
                        let (a, target) = progress(now.strip_prefix("now").ok_or(format!("unexpected line {now:?}"))?)?;
                        let rest = next.strip_prefix("next").ok_or(format!("unexpected line {next:?}"))?.trim();
                        let (due, rest) = match rest.strip_prefix("(on ") {
                            Some(r) => {
                                let (d, r) = r.split_once(')').ok_or("unclosed due date")?;
                                (Some(d.to_string()), r)
                            }
                            None => (None, rest),
                        };
                        let (b, target2) = progress(rest)?;
                        if target != target2 {
                            return Err(format!("two different targets in envelope {t}"));
                        }
                        acct.envs.push(EnvRow { goal: sec == "goals", name: t.to_string(), now: a, next: b, target, due, bars });
                    }
                    _ => return Err(format!("unexpected line {l:?}")),
                }
            }
        }
    }
    Ok(m)
}

#[derive(Clone, Debug)]
pub struct RegLine {
    pub date: String,
    pub status: char,
    pub desc: String,
    pub from: String,
    pub to: String,
    pub amounts: Vec<(Amt, Amt)>, // amount, running total
}

fn two_amounts(s: &str) -> Result<(Amt, Amt), String> {
    let v: Vec<&str> = s.split("  ").map(|x| x.trim()).filter(|x| !x.is_empty()).collect();
    if v.len() != 2 {
        return Err(format!("expected an amount and a running total in {s:?}"));
    }
    Ok((amount(v[0])?, amount(v[1])?))
}

pub fn register(out: &str) -> Result<Vec<RegLine>, String> {
    let mut rows: Vec<RegLine> = vec![];
    for l in out.lines() {
        if l.trim().is_empty() {
            continue;
        }
        if l.starts_with(' ') {
            let r = rows.last_mut().ok_or("a continuation line comes first")?;
            r.amounts.push(two_amounts(l)?);
            continue;
        }
        let date = l.split_whitespace().next().unwrap().to_string();
        let rest = l[date.len()..].trim_start();
        let status = rest.chars().next().ok_or(format!("no status in {l:?}"))?;
        let rest = &rest[status.len_utf8()..];
        let i = rest.rfind(" -> ").ok_or(format!("no account flow in {l:?}"))?;
        let left = rest[..i].trim();
        let right = rest[i + 4..].trim_start();
        let from = left.split_whitespace().last().ok_or(format!("no source account in {l:?}"))?.to_string();
        let desc = left[..left.len() - from.len()].trim().to_string();
        let to = right.split_whitespace().next().ok_or(format!("no target account in {l:?}"))?.to_string();
        let amounts = vec![two_amounts(&right[to.len()..])?];
        rows.push(RegLine { date, status, desc, from, to, amounts });
    }
    Ok(rows)
}

/// An entry as written to a journal, with its comment.
#[derive(Clone, Debug)]
pub struct Written {
    pub e: Entry,
    pub comment: Option<String>,
}

fn cut(l: &str) -> (&str, Option<&str>) {
    let i = match (l.find("//"), l.find(';')) {
        (Some(a), Some(b)) => Some(a.min(b)),
        (a, b) => a.or(b),
    };
    match i {
        Some(i) => {
            let c = if l[i..].starts_with("//") { &l[i + 2..] } else { &l[i + 1..] };
            (&l[..i], Some(c))
        }
        None => (l, None),
    }
}

fn posting(l: &str) -> Result<Post, String> {
    let t: Vec<&str> = l.split_whitespace().collect();
    if t[0] == "envelope" {
        if t.len() < 4 {
            return Err(format!("incomplete envelope posting {l:?}"));
        }
        return Ok(Post::Env { acct: t[1].into(), env: t[2].into(), amt: amount(&t[3..].join(" "))? });
    }
    let mut segs: Vec<(&str, Vec<&str>)> = vec![("", vec![])];
    for x in &t[1..] {
        if matches!(*x, "@" | "=" | "!" | "!!") {
            segs.push((x, vec![]));
        } else {
            segs.last_mut().unwrap().1.push(x);
        }
    }
    let (mut amt, mut cost, mut check) = (None, None, None);
    for (k, v) in segs {
        match k {
            "" if v.is_empty() => {}
            "" => amt = Some(amount(&v.join(" "))?),
            "@" => cost = Some(Cost::Unit(amount(&v.join(" "))?)),
            "=" => cost = Some(Cost::Total(amount(&v.join(" "))?)),
            _ => check = Some(amount(&v.join(" "))?),
        }
    }
    Ok(Post::Classic { acct: t[0].into(), amt, cost, check })
}

/// Reads entries (and nothing else), as documented in the README.
pub fn entries(text: &str, fmt: &str) -> Result<Vec<Written>, String> {
    let mut v: Vec<Written> = vec![];
    for l in text.lines() {
        let (body, comment) = cut(l);
        let body = body.trim_end();
        if body.is_empty() {
            continue;
        }
        if body.starts_with(char::is_whitespace) {
            v.last_mut().ok_or(format!("a posting without an entry: {l:?}"))?.e.posts.push(posting(body)?);
            continue;
        }
        let t: Vec<&str> = body.split_whitespace().collect();
        let date = Date::parse(t[0], fmt).ok_or(format!("can't read the date of {l:?}"))?;
        let status = match t.get(1) {
            Some(&"?") => '?',
            Some(&"~") => '~',
            Some(&"*") => '*',
            _ => return Err(format!("no status in {l:?}")),
        };
        let rest = t[2..].join(" ");
        let (desc, payee) = match (rest.find('['), rest.rfind(']')) {
            (Some(i), Some(j)) if i < j => (rest[..i].trim().to_string(), Some(rest[i + 1..j].trim().to_string())),
            (None, _) => (rest, None),
            _ => return Err(format!("unclosed bracket in {l:?}")),
        };
        v.push(Written { e: Entry { date, status, desc, payee, posts: vec![] }, comment: comment.map(|c| c.trim().to_string()) });
    }
    Ok(v)
}
