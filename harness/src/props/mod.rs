//! The properties, and the comparisons they share.

use crate::ast::*;
use crate::date::*;
use crate::engine::*;
use crate::model::*;
use crate::parse;
use crate::run::*;
use crate::src::Src;
use std::collections::{BTreeMap, BTreeSet};

pub mod cli;
pub mod core;
pub mod csv;
pub mod env;

pub const J: &str = "j.sfox";

pub fn all() -> Vec<Prop> {
    let mut v = core::props();
    v.extend(env::props());
    v.extend(csv::props());
    v.extend(cli::props());
    v.sort_by_key(|p| p.id);
    v
}

pub fn v<T>(msg: String) -> Result<T, Fail> {
    Err(Fail::Violation(msg))
}

fn show(s: &Sym) -> String {
    s.clone().unwrap_or_else(|| "no symbol".into())
}

/// Every currency of the pool has the reported value (currencies not mentioned are zero).
pub fn same_pool(what: &str, want: &Pool, got: &BTreeMap<Sym, i128>) -> Result<(), String> {
    let syms: BTreeSet<&Sym> = want.keys().chain(got.keys()).collect();
    for s in syms {
        let w = want.get(s).cloned().unwrap_or_default();
        let g = got.get(s).copied().unwrap_or(0);
        if !w.matches(g) {
            return Err(format!("{what} ({}): {} reported, should be {}", show(s), num(g), num(w.u)));
        }
    }
    Ok(())
}

pub fn check_balance(m: &Model, out: &str) -> Result<(), String> {
    let b = parse::balance(out)?;
    let want: Vec<&String> = m.bal.keys().collect();
    let got: Vec<&String> = b.keys().collect();
    if want != got {
        return Err(format!("balance lists the accounts {got:?}, should list {want:?}"));
    }
    for (a, p) in &m.bal {
        same_pool(&format!("balance of {a}"), p, &b[a])?;
    }
    Ok(())
}

pub struct What {
    pub amounts: bool,
    pub due: bool,
    pub available: bool,
}
pub const ALL: What = What { amounts: true, due: true, available: true };

pub fn check_envelopes(m: &Model, out: &str, w: &What) -> Result<(), String> {
    let r = parse::envelopes(out)?;
    let want: BTreeSet<String> = m.env_accounts();
    let got: BTreeSet<String> = r.keys().cloned().collect();
    if want != got {
        return Err(format!("envelopes are listed for {got:?}, should be for {want:?}"));
    }
    for (a, ra) in &r {
        let states: Vec<&EnvState> = m.envs.iter().filter(|s| s.acct == *a).collect();
        if states.len() != ra.envs.len() {
            return Err(format!("{a} has {} envelopes, should have {}", ra.envs.len(), states.len()));
        }
        for s in states {
            let d = &s.def;
            let rows: Vec<_> = ra.envs.iter().filter(|e| e.name == d.name).collect();
            if rows.len() != 1 {
                return Err(format!("envelope {} of {a} is listed {} times", d.name, rows.len()));
            }
            let row = rows[0];
            let n = format!("envelope {} of {a}", d.name);
            if row.goal != d.goal {
                return Err(format!("{n} is listed among the wrong kind"));
            }
            if w.due {
                let due = d.next_due(m.day).map(|d| d.iso());
                if due != row.due {
                    return Err(format!("{n} is next due on {:?}, should be {:?} (today is {})", row.due, due, m.day.iso()));
                }
            }
            if w.amounts {
                let (now, next) = s.shown();
                if row.target != d.amount || row.now.sym != d.amount.sym || row.next.sym != d.amount.sym {
                    return Err(format!("{n} shows {row:?}, its amount is {:?}", d.amount));
                }
                if !now.matches(row.now.u) {
                    return Err(format!("{n} has {} now, should be {}", num(row.now.u), num(now.u)));
                }
                if !next.matches(row.next.u) {
                    return Err(format!("{n} has {} for next, should be {}", num(row.next.u), num(next.u)));
                }
            }
        }
        if w.available {
            same_pool(&format!("available money of {a}"), &m.available(a), &ra.available)?;
        }
    }
    Ok(())
}

pub fn check_register(m: &Model, out: &str, fmt: &str) -> Result<(), String> {
    let got = parse::register(out)?;
    let want = m.register();
    for (i, (g, w)) in got.iter().zip(want.iter()).enumerate() {
        let date = w.date.fmt(fmt);
        let words = |s: &str| s.split_whitespace().collect::<Vec<_>>().join(" ");
        if (&g.date, g.status, words(&g.desc), &g.from, &g.to) != (&date, w.status, words(&w.desc), &w.from, &w.to) {
            return Err(format!("line {i} of the register is {g:?}, should be {date} {} {:?} {} -> {}", w.status, w.desc, w.from, w.to));
        }
        let mut amounts = BTreeMap::new();
        for (a, run) in &g.amounts {
            if amounts.insert(a.sym.clone(), a.u).is_some() {
                return Err(format!("line {i} of the register has two amounts of one currency"));
            }
            let r = w.running.get(&a.sym).cloned().unwrap_or_default();
            if run.sym != a.sym && !(run.u == 0 && r.u == 0) {
                return Err(format!("line {i} of the register: running total {run:?} next to {a:?}"));
            }
            if !r.matches(run.u) {
                return Err(format!("line {i} of the register: running total {} should be {}", num(run.u), num(r.u)));
            }
        }
        same_pool(&format!("line {i} of the register"), &w.amounts, &amounts)?;
    }
    if got.len() != want.len() {
        return Err(format!("the register has {} lines, should have {}", got.len(), want.len()));
    }
    Ok(())
}

/// What a run added to the journal.
pub fn appended(before: &str, after: &str) -> Result<String, String> {
    match after.strip_prefix(before) {
        Some(x) => Ok(x.to_string()),
        None => Err("the journal's previous contents aren't there anymore".into()),
    }
}

pub fn fmt_of(items: &[Item]) -> &'static str {
    FORMATS[final_format(items)]
}

/// One valid journal, written in any style, in one file.
pub fn put(c: &mut Ctx, s: &mut Src, items: &[Item]) -> String {
    let t = if s.chance(1, 2) {
        let mut st = Sty { s: Some(s) };
        let t = st.journal(items);
        if s.chance(1, 3) { noisy(&t, s) } else { t }
    } else {
        plain().journal(items)
    };
    c.write(J, &t);
    t
}

pub fn labels(c: &mut Ctx, m: &Model) {
    c.label_if(m.entries.len() > 3, "more than 3 entries");
    c.label_if(m.entries.len() > 50, "more than 50 entries");
    c.label_if(m.entries.iter().any(|e| e.posts.iter().any(|p| matches!(p, Post::Classic { amt: None, .. }))), "blank postings");
    c.label_if(m.entries.iter().any(|e| symbols(e).len() > 1), "mixed currencies");
    c.label_if(m.entries.iter().any(|e| e.posts.iter().any(|p| p.is_env())), "envelope postings");
    c.label_if(!m.envs.is_empty(), "envelopes");
    c.label_if(m.envs.iter().any(|s| s.now.u < 0), "overspent envelope");
    c.label_if(m.envs.iter().any(|s| s.now.u > 0), "money ready now");
    c.label_if(m.envs.iter().any(|s| s.next.u > 0), "money saved for next");
    c.label_if(m.bal.values().any(|p| p.len() > 1), "account with several currencies");
}

pub fn at(d: Date) -> Opts {
    Opts::at(d)
}
