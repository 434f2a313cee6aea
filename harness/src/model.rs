//! The reference model: what a journal means, in exact arithmetic.

use crate::ast::*;
use crate::date::*;
use std::collections::{BTreeMap, BTreeSet};

/// A sum, with what is needed to bound the floating point error of any way to compute it.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Sum {
    pub u: i128,
    pub abs: i128,
    pub n: i128,
}

impl Sum {
    pub fn add(&mut self, u: i128) {
        self.u += u;
        self.abs += u.abs();
        self.n += 1;
    }
    pub fn join(&mut self, o: &Sum, sign: i128) {
        self.u += sign * o.u;
        self.abs += o.abs;
        self.n += o.n;
    }
    /// What the reported value may differ by (0 unless the numbers exceed the precision of doubles).
    pub fn tol(&self) -> i128 {
        ((self.abs as f64) * (self.n as f64 + 8.0) * 2.3e-16 + 0.49) as i128
    }
    pub fn matches(&self, v: i128) -> bool {
        (self.u - v).abs() <= self.tol()
    }
}

pub type Pool = BTreeMap<Sym, Sum>;

#[derive(Clone, Debug)]
pub struct EnvState {
    pub acct: String,
    pub def: EnvDef,
    pub now: Sum,
    pub next: Sum,
    pub today: bool, // touched by an entry of today
}

#[derive(Clone, Debug)]
pub struct RegRow {
    pub date: Date,
    pub status: char,
    pub desc: String,
    pub from: String,
    pub to: String,
    pub amounts: Pool,  // focused, per currency
    pub running: Pool, // of all currencies
}

#[derive(Clone, Debug)]
pub struct Model {
    pub day: Date,
    pub bal: BTreeMap<String, Pool>,
    pub envs: Vec<EnvState>,
    pub entries: Vec<Entry>,
    pub accts: Vec<String>,
}

pub fn native(p: &Post) -> Option<i128> {
    if let Post::Classic { amt: Some(a), cost, .. } = p {
        if a.sym.is_none() {
            return Some(a.u);
        }
        match cost {
            Some(Cost::Total(c)) if c.sym.is_none() => Some(c.u),
            Some(Cost::Unit(c)) if c.sym.is_none() => Some(a.u * c.u / UNIT),
            _ => None,
        }
    } else {
        None
    }
}

pub fn symbols(e: &Entry) -> BTreeSet<Sym> {
    e.posts
        .iter()
        .filter_map(|p| match p {
            Post::Classic { amt: Some(a), .. } => Some(a.sym.clone()),
            _ => None,
        })
        .collect()
}

/// What the entry's blank posting is worth. None if that can't be told.
pub fn blank_amount(e: &Entry) -> Option<Amt> {
    let syms = symbols(e);
    let mut sum = 0;
    if syms.len() == 1 {
        for p in &e.posts {
            if let Post::Classic { amt: Some(a), .. } = p {
                sum -= a.u;
            }
        }
        Some(Amt { u: sum, sym: syms.into_iter().next().unwrap() })
    } else {
        if syms.is_empty() || syms.iter().filter(|s| s.is_some()).count() > 1 {
            return None;
        }
        for p in &e.posts {
            if let Post::Classic { amt: Some(_), .. } = p {
                sum -= native(p)?;
            }
        }
        Some(Amt { u: sum, sym: None })
    }
}

/// The entry with its blank posting written out.
pub fn explicit(e: &Entry) -> Entry {
    let mut e = e.clone();
    let b = blank_amount(&e);
    for p in e.posts.iter_mut() {
        if let Post::Classic { amt, .. } = p {
            if amt.is_none() {
                *amt = b.clone();
            }
        }
    }
    e
}

/// No value, but the rounding errors of summing up the entry.
pub fn volume(e: &Entry) -> Sum {
    let mut s = Sum::default();
    for p in &e.posts {
        if let Post::Classic { amt: Some(a), .. } = p {
            s.add(a.u);
            if a.sym.is_some() {
                s.add(native(p).unwrap_or(0));
            }
        }
    }
    Sum { u: 0, ..s }
}

pub fn on_schedule(f: &Freq, starting: Option<Date>, d: Date) -> bool {
    if starting.is_some_and(|s| d < s) {
        return false;
    }
    let clamp = |day: u32| d.d == day.min(month_len(d.y, d.m));
    match f {
        Freq::NoDate => false,
        Freq::Once(x) => d == *x,
        Freq::Weekly(w) => d.weekday() == *w,
        Freq::Monthly(day) => clamp(*day),
        Freq::OtherWeek(w) => {
            // counted from the first such weekday that's not before the starting date
            let s = starting.unwrap();
            let first = s.plus((*w as i64 - s.weekday() as i64).rem_euclid(7));
            (d.days() - first.days()) % 14 == 0
        }
        Freq::OtherMonth(day) => {
            let mut s = starting.unwrap();
            while s.d != (*day).min(month_len(s.y, s.m)) {
                s = s.plus(1);
            }
            ((d.y - s.y) * 12 + d.m as i32 - s.m as i32) % 2 == 0 && clamp(*day)
        }
        Freq::Yearly => {
            let s = starting.unwrap();
            d.m == s.m && clamp(s.d)
        }
    }
}

pub fn next_due(f: &Freq, starting: Option<Date>, today: Date) -> Option<Date> {
    match f {
        Freq::NoDate => None,
        Freq::Once(d) => Some(*d).filter(|d| *d > today),
        _ => {
            let mut d = today.plus(1).max(starting.unwrap_or(today));
            while !on_schedule(f, starting, d) {
                d = d.plus(1);
            }
            Some(d)
        }
    }
}

pub fn last_due(f: &Freq, starting: Option<Date>, today: Date) -> Option<Date> {
    match f {
        Freq::NoDate => None,
        Freq::Once(d) => Some(*d).filter(|d| *d <= today),
        _ => {
            let mut d = today;
            for _ in 0..800 {
                if on_schedule(f, starting, d) {
                    return Some(d);
                }
                d = d.plus(-1);
            }
            None
        }
    }
}

impl EnvDef {
    pub fn next_due(&self, today: Date) -> Option<Date> {
        next_due(&self.freq, self.starting, today)
    }
    pub fn last_due(&self, today: Date) -> Option<Date> {
        last_due(&self.freq, self.starting, today)
    }
}

impl EnvState {
    pub fn apply(&mut self, u: i128, date: Date, day: Date) {
        if u < 0 {
            self.now.add(u);
        } else if u > 0 {
            if self.def.last_due(day).is_some_and(|l| date < l) {
                self.now.add(u);
            } else {
                self.next.add(u);
            }
        }
        if date == day {
            self.today = true;
        }
    }
    /// `now` and `next` as shown: a shortfall reduces `next`.
    pub fn shown(&self) -> (Sum, Sum) {
        let (mut now, mut next) = (self.now.clone(), self.next.clone());
        next.abs += now.abs;
        next.n += now.n;
        if now.u < 0 {
            next.u += now.u;
            now.u = 0;
        }
        (now, next)
    }
    /// What an automatic fill should add if there's enough money.
    pub fn wants(&self, day: Date) -> i128 {
        let Some(due) = self.def.next_due(day) else { return 0 };
        if self.today {
            return 0;
        }
        let missing = (self.def.amount.u - self.next.u).max(0);
        match self.def.fund {
            Fund::Unset | Fund::Manual => 0,
            Fund::Aggressive => missing,
            Fund::Conservative => {
                let days = (due.days() - day.days()) as i128;
                let deficit = -(self.now.u + self.next.u);
                ((missing * 2 + days) / (2 * days)).max(deficit).min(missing)
            }
        }
    }
}

/// Does the envelope infer a movement from the entry? None: no. Some(None): it can't be told how
/// much. Some(Some(u)): u.
pub fn infers(acct: &str, def: &EnvDef, e: &Entry) -> Option<Option<i128>> {
    if e.posts.iter().any(|p| p.is_env()) {
        return None;
    }
    let e = explicit(e);
    if !e.posts.iter().any(|p| p.acct() == acct) || !e.posts.iter().any(|p| def.fors.iter().any(|f| f == p.acct() && f != acct)) {
        return None;
    }
    let (mut own, mut other) = (0, 0);
    for p in &e.posts {
        let Post::Classic { acct: pa, amt: Some(a), .. } = p else { return Some(None) };
        let v = if a.sym == def.amount.sym {
            a.u
        } else if def.amount.sym.is_some() {
            return Some(None);
        } else {
            match native(p) {
                Some(v) => v,
                None => return Some(None),
            }
        };
        if pa == acct {
            own += v;
        } else if def.fors.contains(pa) {
            other += v;
        }
    }
    let m = own.abs().min(other.abs());
    Some(Some(if own < 0 { -m } else { m }))
}

impl Model {
    pub fn of(items: &[Item], day: Date) -> Model {
        let mut m = Model { day, bal: BTreeMap::new(), envs: vec![], entries: vec![], accts: vec![] };
        for i in items {
            match i {
                Item::Acct(a) => {
                    if !m.accts.contains(&a.name) {
                        m.accts.push(a.name.clone());
                    }
                    for e in &a.envs {
                        m.envs.push(EnvState { acct: a.name.clone(), def: e.clone(), now: Sum::default(), next: Sum::default(), today: false });
                    }
                }
                Item::Entry(e) => m.entry(e),
                _ => {}
            }
        }
        m
    }
    pub fn entry(&mut self, e: &Entry) {
        let manual = e.posts.iter().any(|p| p.is_env());
        let err = volume(e);
        for (p, orig) in explicit(e).posts.iter().zip(&e.posts) {
            if let Post::Classic { acct, amt: Some(a), .. } = p {
                let s = self.bal.entry(acct.clone()).or_default().entry(a.sym.clone()).or_default();
                s.add(a.u);
                if matches!(orig, Post::Classic { amt: None, .. }) {
                    s.join(&err, 1);
                }
            }
        }
        for s in self.envs.iter_mut() {
            if manual {
                for p in &e.posts {
                    if let Post::Env { acct, env, amt } = p {
                        if *acct == s.acct && *env == s.def.name {
                            s.apply(amt.u, e.date, self.day);
                        }
                    }
                }
            } else if let Some(Some(u)) = infers(&s.acct, &s.def, e) {
                if u != 0 {
                    s.apply(u, e.date, self.day);
                }
                // (sums of possibly larger amounts)
                s.now.join(&err, 1);
                s.next.join(&err, 1);
            }
        }
        self.entries.push(e.clone());
    }
    pub fn available(&self, acct: &str) -> Pool {
        let mut p = self.bal.get(acct).cloned().unwrap_or_default();
        for s in self.envs.iter().filter(|s| s.acct == acct) {
            let q = p.entry(s.def.amount.sym.clone()).or_default();
            q.join(&s.now, -1);
            q.join(&s.next, -1);
        }
        p
    }
    pub fn env_accounts(&self) -> BTreeSet<String> {
        self.envs.iter().map(|s| s.acct.clone()).collect()
    }
    pub fn register(&self) -> Vec<RegRow> {
        let mut es: Vec<(Entry, Sum)> = self.entries.iter().map(|e| (explicit(e), volume(e))).collect();
        es.sort_by_key(|e| e.0.date);
        let mut running = Pool::new();
        let mut rows = vec![];
        for (e, err) in es {
            let (mut pos, mut neg) = (BTreeSet::new(), BTreeSet::new());
            let mut amounts = Pool::new();
            for p in &e.posts {
                if let Post::Classic { acct, amt: Some(a), .. } = p {
                    if a.u > 0 {
                        pos.insert(acct.clone());
                    } else if a.u < 0 {
                        neg.insert(acct.clone());
                    }
                    if acct.starts_with("asset") {
                        amounts.entry(a.sym.clone()).or_default().add(a.u);
                    }
                }
            }
            if amounts.values().all(|s| s.u == 0) {
                continue;
            }
            for v in amounts.values_mut() {
                v.join(&err, 1);
            }
            for (s, v) in &amounts {
                running.entry(s.clone()).or_default().join(v, 1);
            }
            let name = |s: &BTreeSet<String>| match s.len() {
                0 => "(none)".to_string(),
                1 => s.iter().next().unwrap().clone(),
                _ => "(multiple)".to_string(),
            };
            rows.push(RegRow { date: e.date, status: e.status, desc: e.desc.clone(), from: name(&neg), to: name(&pos), amounts, running: running.clone() });
        }
        rows
    }
}
