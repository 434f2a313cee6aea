//! Generators of journals.

use crate::ast::*;
use crate::date::*;
use crate::model::*;
use crate::src::Src;
use std::collections::BTreeSet;

pub const SYMS: &[&str] = &["", "$", "USD", "€", "EUR", "£", "BTC", "kr", "CA$", "¥", "hours", "₿", "R$", "AAPL_x", "Kč", "usd", "Kr", "US$", "Fr'", "eur", "a_currency_with_a_long_name", "&", "元"];
/// Symbols that are easily confused.
const ALIKE: &[&[&str]] = &[&["USD", "usd", "US$", "$", "Usd", "USDT", "U"], &["kr", "Kr", "KR", "krona", "k"], &["Fr", "Fr'", "fr", "F", "Frs"], &["", "X", "XX", "x", "Xx", "XXX"]];

#[derive(Clone)]
pub struct Cfg {
    pub envs: usize,       // at most, per account
    pub env_accts: usize,  // at most, with envelopes
    pub entries: usize,    // at most
    pub syms: usize,       // at most
    pub blanks: bool,
    pub mixed: bool,
    pub manual: bool,      // envelope postings
    pub single: bool,      // postings to one currency per entry only
    pub span: i64,         // days before today
    pub future: i64,       // days after today
    pub big: bool,         // amounts beyond a million
    pub funded: bool,      // envelopes are mostly funded automatically
    pub rich: bool,        // accounts with envelopes get income
    pub formats: bool,
    pub sorted: bool,
}

pub fn cfg() -> Cfg {
    Cfg {
        envs: 3, env_accts: 2, entries: 8, syms: 3, blanks: true, mixed: true, manual: true, single: false,
        span: 800, future: 40, big: true, funded: false, rich: false, formats: true, sorted: false,
    }
}

pub fn sym(s: &mut Src) -> Sym {
    let i = if s.chance(1, 2) { 0 } else { s.below(SYMS.len() + 1) };
    if i == SYMS.len() {
        return Some(s.word(|w| w.chars().all(|c| c.is_alphabetic()), "ETH"));
    }
    if i == 0 { None } else { Some(SYMS[i].to_string()) }
}

/// A size: mostly small, sometimes up to `max`, sometimes next to a number that the program mentions.
pub fn size(s: &mut Src, usual: usize, max: usize) -> usize {
    match s.weighted(&[40, 2, 1]) {
        0 => s.below(usual + 1),
        1 => s.below(max + 1),
        _ => s.number(max as i64) as usize,
    }
}

/// A positive amount.
pub fn units(s: &mut Src, big: bool) -> i128 {
    match s.weighted(&[30, 30, 12, 10, 6, 6, if big { 8 } else { 0 }, if big { 4 } else { 0 }]) {
        0 => s.range(1, 120) as i128 * UNIT,
        1 => s.range(1, 2_000_00) as i128 * UNIT / 100,
        2 => s.range(1, 99_999_999) as i128,
        3 => s.range(1, 9_999_999) as i128 * 1000 + s.range(0, 999) as i128,
        4 => s.range(1, 20) as i128,
        5 => {
            // next to a number that the program mentions
            let n = s.number(1_000_000) as i128;
            let by = [0, 1, -1, UNIT / 100, -UNIT / 100, UNIT / 2][s.below(6)];
            (n * [UNIT, UNIT / 100][s.below(2)] + by).max(1)
        }
        6 => s.range(1_000_000, 999_999_999) as i128 * UNIT / 100,
        _ => s.range(1, 999_999) as i128 * 1000 * UNIT,
    }
}

/// An amount with many digits before and up to four after the decimal point.
pub fn large(s: &mut Src) -> i128 {
    let u = s.range(1_000_000, 4_000_000_000) as i128 * UNIT + s.range(0, 9999) as i128 * UNIT / 10_000;
    u * [1, -1][s.below(2)]
}

/// Up to four decimals, so that products are exact.
pub fn units4(s: &mut Src) -> i128 {
    match s.weighted(&[6, 4, 2, 1]) {
        0 => s.range(1, 60) as i128 * UNIT,
        1 => s.range(1, 9999) as i128 * UNIT / 100,
        2 => s.range(1, 99_999) as i128 * UNIT / 10_000,
        _ => s.range(1, 99_999_999) as i128 * UNIT / 10_000,
    }
}

pub fn signed(s: &mut Src, big: bool) -> i128 {
    let u = units(s, big);
    match s.weighted(&[10, 10, 1]) {
        0 => u,
        1 => -u,
        _ => 0,
    }
}

pub fn any_day(s: &mut Src) -> Date {
    let y = match s.weighted(&[16, 1, 1, 2]) {
        0 => s.range(2000, 2034) as i32,
        1 => s.range(1974, 1999) as i32,
        2 => s.range(2035, 2410) as i32,
        _ => *s.pick(&[1996, 2096, 2100, 2101, 1999, 2400, 1980, 2072, 2069, 2099]),
    };
    match s.weighted(&[5, 3, 2, 2, 1]) {
        0 => Date::new(y, 1, 1).plus(s.range(0, 364)),
        1 => {
            // around the ends of months
            let m = s.range(1, 12) as u32;
            Date::new(y, m, month_len(y, m)).plus(s.range(-3, 2))
        }
        2 => Date::new(y, 2, month_len(y, 2)).plus(s.range(-2, 2)),
        3 => Date::new(y, 12, 31).plus(s.range(-1, 1)),
        _ => Date::new(y, 2, 28).plus(s.range(-1, 1)),
    }
}

/// A day in a year that two digits can tell.
pub fn short_day(s: &mut Src) -> Date {
    let d = any_day(s);
    if formats(d) == FORMATS.len() {
        return d;
    }
    let y = 2000 + d.y.rem_euclid(28);
    Date::new(y, d.m, d.d.min(month_len(y, d.m)))
}

const ASSETS: &[&str] = &[
    "assets:checking", "assets:savings", "assets:cash", "assets", "assets:checking2", "assets:bank:a-b_c.d/e",
    "assets:наличные", "asset", "assets:a_rather_long_account_name_that_goes_beyond:the_usual_columns_of_reports", "assets:check",
];
const OTHERS: &[&str] = &[
    "expenses:food", "expenses:rent", "income:salary", "expenses:food:dining", "liabilities:card", "equity", "expenses:fun",
    "expenses:foo", "income", "expenses:café", "x", "expenses:an_even_longer_account_name:with:many:levels:of:detail:and_more_text", "Assets:upper", "my:assets",
];
const ENVS: &[&str] = &["food", "rent", "fun", "foo", "car_repairs", "été", "savings", "f", "due", "every", "no", "year", "goal", "other", "5", "an_envelope_name_of_quite_some_length_indeed"];
const DESCS: &[&str] = &[
    "Groceries", "", "Rent for March", "a", "Überweisung -> Bank", "50% off * everything", "move to envelopes", "2020/01/01 ~ twice",
    "Lots of words in this description so that columns get wide", "x ] y", "~", "(multiple)", "envelope", "5 USD", "see http:", "c:", "a/b", "#5", "\"quoted\"", "{}", "x\\y",
];
const PAYEES: &[&str] = &["Shop", "", "The [old] shop", "Ferris & co", "ACME 24/7"];

pub const KEYWORDS: &[&str] = &["envelope", "expense", "goal", "due", "by", "every", "no", "date", "starting", "other", "account", "amount", "for", "funding", "include", "year"];

fn name_like(w: &str) -> bool {
    w.chars().all(|c| c.is_alphanumeric() || c == '_') && w.chars().any(|c| c.is_alphabetic()) && !KEYWORDS.contains(&w)
}
/// Text that means nothing else in a journal.
pub fn text_like(w: &str) -> bool {
    !w.contains(['[', ']', ';', '\n', '\r']) && !w.contains("//") && !w.ends_with('/') && !w.starts_with('/')
}

/// The name of an account (of a new one, mostly).
fn acct_name(s: &mut Src, pool: &[&str], asset: bool) -> String {
    let top = if asset { "assets" } else { "expenses" };
    match s.weighted(&[40, 20, 2, 1, 1]) {
        0 => pool[s.below(4)].to_string(),
        1 => pool[s.below(pool.len())].to_string(),
        2 => format!("{top}:{}", s.word(name_like, "other")),
        3 => {
            format!("{top}:{}", "n".repeat(1 + long(s)))
        }
        _ => format!("{top}:n{}", s.below(100)),
    }
}

/// A name that's easily confused with another one.
fn twin(s: &mut Src, names: &[String]) -> String {
    let n = s.pick(names).clone();
    let last = n.chars().last().unwrap();
    match s.below(10) {
        0 => n.to_uppercase(),
        1 => n.to_lowercase(),
        2 => n.chars().next().unwrap().to_uppercase().chain(n.chars().skip(1)).collect(),
        3 => n.chars().take(n.chars().count() - 1).chain(last.to_uppercase()).collect(),
        4 => format!("{n}{last}"),
        5 => format!("{n}:other"),
        6 => match n.rsplit_once(':') {
            Some((a, _)) => a.to_string(),
            None => format!("{n}:{n}"),
        },
        7 => match n.split_once(':') {
            Some((_, b)) => format!("assets:joint:{b}"),
            None => format!("liabilities:{n}"),
        },
        8 => format!("{n}_"),
        _ => n.replace(['a', 'e', 'o'], "_"),
    }
}

pub struct World {
    pub day: Date,
    pub accts: Vec<AcctDef>,
    pub syms: Vec<Sym>,
}

impl World {
    pub fn names(&self) -> Vec<String> {
        self.accts.iter().map(|a| a.name.clone()).collect()
    }
}

pub fn gen_freq(s: &mut Src, day: Date) -> (Freq, Option<Date>) {
    let near = |s: &mut Src| match s.weighted(&[8, 6, 4, 4, 2, 1]) {
        0 => day.plus(s.range(-40, 40)),
        1 => day.plus(s.range(-3, 3)),
        2 => day.plus(s.range(-900, 200)),
        3 => {
            let y = day.y + s.range(-2, 1) as i32;
            let m = s.range(1, 12) as u32;
            Date::new(y, m, month_len(y, m) - s.below(3) as u32)
        }
        5 => {
            // a long time ago, or in a long time
            let (from, to) = if formats(day) == crate::date::FORMATS.len() { (1970, 2068) } else { (day.y - 40, day.y + 40) };
            Date::new(s.range(from as i64, to as i64) as i32, s.range(1, 12) as u32, 1).plus(s.range(0, 30))
        }
        _ => {
            let mut y = day.y - day.y % 4 - if s.chance(1, 3) { 4 } else { 0 };
            if !leap(y) {
                y -= 4;
            }
            Date::new(y, 2, 29)
        }
    };
    match s.weighted(&[4, 4, 3, 3, 3, 3, 2]) {
        0 => {
            let d = match s.weighted(&[3, 2, 2]) {
                0 => s.range(1, 31) as u32,
                1 => s.range(28, 31) as u32,
                _ => day.plus(s.range(-1, 2)).d,
            };
            let st = if s.chance(1, 3) { Some(near(s)) } else { None };
            (Freq::Monthly(d), st)
        }
        1 => {
            let w = if s.chance(1, 3) { day.plus(s.range(-1, 1)).weekday() } else { s.below(7) };
            let st = if s.chance(1, 3) { Some(near(s)) } else { None };
            (Freq::Weekly(w), st)
        }
        2 => {
            let d = near(s);
            let st = if s.chance(1, 4) { Some(d.plus(-s.range(0, 300))) } else { None };
            (Freq::Once(d), st)
        }
        3 => other_week(s, near),
        4 => other_month(s, near),
        5 => (Freq::Yearly, Some(near(s))),
        _ => (Freq::NoDate, None),
    }
}

/// `every other` weekday, with a starting date that's one of those or any other day.
pub fn other_week(s: &mut Src, near: impl Fn(&mut Src) -> Date) -> (Freq, Option<Date>) {
    let st = near(s);
    (Freq::OtherWeek(if s.chance(1, 3) { s.below(7) } else { st.weekday() }), Some(st))
}
pub fn other_month(s: &mut Src, near: impl Fn(&mut Src) -> Date) -> (Freq, Option<Date>) {
    let st = near(s);
    let d = match s.weighted(&[4, 1, 1]) {
        0 => st.d,
        1 => s.range(1, 31) as u32,
        _ => s.range(28, 31) as u32,
    };
    (Freq::OtherMonth(d), Some(st))
}

pub fn gen_world(s: &mut Src, c: &Cfg) -> World {
    let day = any_day(s);
    let mut syms: Vec<Sym> = vec![sym(s)];
    let alike = if s.chance(1, 8) { Some(*s.pick(ALIKE)) } else { None };
    let many = if s.chance(1, 12) { 3 + s.below(5) } else { 0 };
    for _ in 0..many + s.below(c.syms) {
        let x = match alike {
            Some(a) => Some(s.pick(a).to_string()).filter(|x| !x.is_empty()),
            None if many > 0 => Some(s.pick(SYMS).to_string()).filter(|x| !x.is_empty()),
            None => sym(s),
        };
        if !syms.contains(&x) {
            syms.push(x);
        }
    }
    if !syms.contains(&None) && s.chance(1, 2) {
        syms.push(None);
    }
    let mut names: Vec<String> = vec![];
    let na = 1 + size(s, 3, 12);
    let no = 1 + size(s, 3, 20);
    for (n, pool) in [(na, ASSETS), (no, OTHERS)] {
        for _ in 0..n {
            let x = if !names.is_empty() && s.chance(1, 12) { twin(s, &names) } else { acct_name(s, pool, pool[0] == ASSETS[0]) };
            if !names.contains(&x) {
                names.push(x);
            }
        }
    }
    if names.len() < 2 {
        names.push("equity:opening".into());
    }
    let mut accts: Vec<AcctDef> = names.iter().map(|n| AcctDef { name: n.clone(), envs: vec![] }).collect();
    if c.envs > 0 {
        let mut left = 1 + s.below(c.env_accts);
        let total = accts.len();
        for i in 0..total {
            if left == 0 {
                break;
            }
            if !accts[i].name.starts_with("asset") && !s.chance(1, 6) {
                continue;
            }
            left -= 1;
            for _ in 0..1 + size(s, c.envs - 1, 4 * c.envs) {
                let name = match s.weighted(&[20, 18, 2, 1, 1]) {
                    0 => ENVS[s.below(4)].to_string(),
                    1 => ENVS[s.below(ENVS.len())].to_string(),
                    2 => s.word(name_like, "extra"),
                    3 => "e".repeat(1 + long(s)),
                    _ => format!("e{}", s.below(100)),
                };
                if accts[i].envs.iter().any(|e| e.name == name) {
                    continue;
                }
                let (freq, starting) = gen_freq(s, day);
                let esym = if s.chance(3, 4) { syms[0].clone() } else { s.pick(&syms).clone() };
                let mut fors: Vec<String> = vec![];
                for _ in 0..size(s, 3, 9) {
                    let f = if s.chance(9, 10) { s.pick(&names).clone() } else { "expenses:undefined".to_string() };
                    if f != accts[i].name && !fors.contains(&f) {
                        fors.push(f);
                    }
                }
                let fund = match s.weighted(if c.funded { &[4, 4, 1, 1] } else { &[3, 3, 2, 3] }) {
                    0 => Fund::Conservative,
                    1 => Fund::Aggressive,
                    2 => Fund::Manual,
                    _ => Fund::Unset,
                };
                let u = if s.chance(1, 30) { 0 } else { units(s, false) };
                accts[i].envs.push(EnvDef { goal: s.chance(1, 3), name, freq, starting, amount: Amt { u, sym: esym }, fors, fund });
            }
        }
    }
    World { day, accts, syms }
}

pub fn gen_date(s: &mut Src, w: &World, c: &Cfg) -> Date {
    match s.weighted(&[3, 3, 3, 3]) {
        0 => w.day.plus(s.range(-(c.span.min(40)), 0)),
        1 => w.day.plus(s.range(-c.span, c.future)),
        2 => w.day.plus(s.range(-2, if c.future > 0 { 2 } else { 0 })),
        _ => {
            // around a due date
            let envs: Vec<&EnvDef> = w.accts.iter().flat_map(|a| a.envs.iter()).collect();
            if envs.is_empty() {
                return w.day;
            }
            let e = envs[s.below(envs.len())];
            let d = e.last_due(w.day).or(e.next_due(w.day)).unwrap_or(w.day).plus(s.range(-2, 2));
            if d > w.day.plus(c.future) { w.day } else { d }
        }
    }
}

/// A length: a number that the code mentions, or any other.
fn long(s: &mut Src) -> usize {
    if s.chance(1, 2) {
        s.number(150) as usize
    } else if s.chance(1, 5) {
        s.range(200, 700) as usize
    } else {
        s.range(0, 200) as usize
    }
}

fn header(s: &mut Src, date: Date, posts: Vec<Post>) -> Entry {
    let desc = match s.weighted(&[40, 20, 3, 2]) {
        0 => DESCS[0].to_string(),
        1 => s.pick(DESCS).to_string(),
        2 => s.word(text_like, "words").trim().to_string(),
        _ => s.pick(&["d", "two words ", "Ünïcödé "]).repeat(long(s)).trim().to_string(),
    };
    let payee = match s.weighted(&[30, 8, 1]) {
        0 => None,
        1 => Some(s.pick(PAYEES).to_string()),
        _ => Some(s.word(text_like, "Shop").trim().to_string()),
    };
    Entry { date, status: *s.pick(&['*', '~', '?']), desc, payee, posts }
}

fn pick_acct(s: &mut Src, w: &World) -> String {
    // accounts that envelopes care about come up more often
    if s.chance(1, 2) {
        let mut hot: BTreeSet<String> = BTreeSet::new();
        for a in &w.accts {
            if !a.envs.is_empty() {
                hot.insert(a.name.clone());
            }
            for e in &a.envs {
                hot.extend(e.fors.iter().filter(|f| w.accts.iter().any(|x| x.name == **f)).cloned());
            }
        }
        let hot: Vec<String> = hot.into_iter().collect();
        if !hot.is_empty() {
            return hot[s.below(hot.len())].clone();
        }
    }
    w.accts[s.below(w.accts.len())].name.clone()
}

pub fn env_posting(s: &mut Src, w: &World, c: &Cfg) -> Option<Post> {
    let v: Vec<(String, EnvDef)> = w.accts.iter().flat_map(|a| a.envs.iter().map(|e| (a.name.clone(), e.clone()))).collect();
    if v.is_empty() {
        return None;
    }
    let (acct, e) = &v[s.below(v.len())];
    let u = if s.chance(1, 4) { e.amount.u * [1, -1][s.below(2)] } else { signed(s, c.big) };
    Some(Post::Env { acct: acct.clone(), env: e.name.clone(), amt: Amt { u, sym: e.amount.sym.clone() } })
}

/// To an envelope that doesn't exist (any more).
fn ghost_posting(s: &mut Src, w: &World, c: &Cfg) -> Option<Post> {
    let mut names: Vec<String> = w.accts.iter().flat_map(|a| a.envs.iter().map(|e| e.name.clone())).collect();
    names.push("camper".into());
    let env = if s.chance(1, 2) { s.pick(&names).clone() } else { twin(s, &names) };
    let a = s.pick(&w.accts);
    if a.envs.iter().any(|e| e.name == env) {
        return None;
    }
    Some(Post::Env { acct: a.name.clone(), env, amt: Amt::new(signed(s, c.big), s.pick(&w.syms)) })
}

/// A price in a foreign currency, which tells nothing about the native value.
fn foreign_cost(s: &mut Src, w: &World, u: i128) -> Cost {
    let sym = w.syms.iter().rfind(|x| x.is_some()).cloned().unwrap_or(Some("CHF".into()));
    let a = Amt { u: units4(s), sym };
    if u >= 0 && s.chance(1, 2) { Cost::Total(a) } else { Cost::Unit(a) }
}

/// A valid entry.
pub fn gen_entry(s: &mut Src, w: &World, c: &Cfg) -> Entry {
    let date = gen_date(s, w, c);
    let mut posts: Vec<Post> = vec![];
    let kind = s.weighted(&[20, if c.manual { 4 } else { 0 }, if c.mixed { 6 } else { 0 }, if c.mixed { 4 } else { 0 }]);
    match kind {
        0 => {
            let sy = if s.chance(2, 3) { w.syms[0].clone() } else { s.pick(&w.syms).clone() };
            let k = if s.chance(1, 20) { 2 + size(s, 14, 40) } else { 2 + s.weighted(&[6, 3, 2, 1, 1]) };
            let mut sum = 0;
            for _ in 0..k - 1 {
                let u = signed(s, c.big);
                sum += u;
                posts.push(Post::plain(&pick_acct(s, w), Amt::new(u, &sy)));
            }
            posts.push(Post::plain(&pick_acct(s, w), Amt::new(-sum, &sy)));
            if s.chance(1, 3) {
                s.shuffle(&mut posts);
            }
            // a cost doesn't matter in an entry of one currency
            if s.chance(1, 12) {
                let i = s.below(posts.len());
                if let Post::Classic { cost, amt: Some(a), .. } = &mut posts[i] {
                    if a.sym.is_some() && s.chance(1, 2) {
                        *cost = Some(foreign_cost(s, w, a.u));
                    } else if a.sym.is_some() && a.u >= 0 {
                        *cost = Some(Cost::Total(Amt { u: units4(s), sym: None }));
                        // keeps the native value meaningful for envelopes: see below
                    }
                }
            }
            if c.blanks && s.chance(1, 2) {
                let i = s.below(posts.len());
                if let Post::Classic { amt, cost, .. } = &mut posts[i] {
                    *amt = None;
                    *cost = None;
                }
            }
        }
        1 => {
            for _ in 0..1 + if s.chance(1, 20) { s.below(20) } else { s.below(3) } {
                posts.extend(env_posting(s, w, c));
            }
        }
        2 => {
            // a foreign currency next to the native one, with its cost
            let f = w.syms.iter().find(|x| x.is_some()).cloned().unwrap_or(Some("BTC".into()));
            let mut sum = 0;
            let most = if s.chance(1, 12) { 12 } else { 2 };
            for _ in 0..1 + s.below(most) {
                let u = if s.chance(1, 20) { 0 } else { units4(s) * [1, -1][s.below(2)] };
                let cost = if u >= 0 && s.chance(1, 2) {
                    Cost::Total(Amt { u: units4(s), sym: None })
                } else {
                    Cost::Unit(Amt { u: units4(s) * if s.chance(1, 20) { -1 } else { 1 }, sym: None })
                };
                let p = Post::Classic { acct: pick_acct(s, w), amt: Some(Amt::new(u, &f)), cost: Some(cost), check: None };
                sum += native(&p).unwrap();
                posts.push(p);
            }
            for _ in 0..1 + s.below(most) {
                let u = signed(s, false);
                sum += u;
                posts.push(Post::plain(&pick_acct(s, w), Amt { u, sym: None }));
            }
            posts.push(if c.blanks && s.chance(2, 3) { Post::blank(&pick_acct(s, w)) } else { Post::plain(&pick_acct(s, w), Amt { u: -sum, sym: None }) });
            s.shuffle(&mut posts);
        }
        _ => {
            // several currencies, all written out
            for _ in 0..2 + if s.chance(1, 12) { s.below(24) } else { s.below(4) } {
                let sy = s.pick(&w.syms).clone();
                let u = signed(s, c.big);
                let cost = if sy.is_some() && s.chance(1, 6) { Some(foreign_cost(s, w, u)) } else { None };
                posts.push(Post::Classic { acct: pick_acct(s, w), amt: Some(Amt::new(u, &sy)), cost, check: None });
            }
            let mut e = Entry { date, status: '*', desc: String::new(), payee: None, posts };
            if symbols(&e).len() < 2 {
                // (then it has to balance)
                let sum: i128 = e.posts.iter().map(|p| if let Post::Classic { amt: Some(a), .. } = p { a.u } else { 0 }).sum();
                let sy = symbols(&e).into_iter().next().unwrap();
                e.posts.push(Post::plain(&pick_acct(s, w), Amt::new(-sum, &sy)));
            }
            posts = e.posts;
        }
    }
    if c.manual && kind != 1 && s.chance(1, 5) {
        for _ in 0..1 + s.below(2) {
            let p = if s.chance(1, 12) { ghost_posting(s, w, c) } else { env_posting(s, w, c) };
            if let Some(p) = p {
                let i = s.below(posts.len() + 1);
                posts.insert(i, p);
            }
        }
    }
    let mut e = header(s, date, posts);
    settle(&mut e, w);
    e
}

/// If an envelope couldn't tell what to move, the user has to (`0` is enough).
pub fn settle(e: &mut Entry, w: &World) {
    for a in &w.accts {
        for d in &a.envs {
            if infers(&a.name, d, e) == Some(None) {
                e.posts.push(Post::Env { acct: a.name.clone(), env: d.name.clone(), amt: Amt { u: 0, sym: d.amount.sym.clone() } });
                return;
            }
        }
    }
}

/// A valid journal: every account is defined before its first use.
pub fn gen_items(s: &mut Src, w: &World, c: &Cfg) -> Vec<Item> {
    let mut items = vec![];
    if c.formats && s.chance(1, 3) {
        items.push(Item::Format(s.below(formats(w.day))));
    }
    let n = match s.weighted(&[1400, 40, 20, 1, 1]) {
        0 => s.below(c.entries + 1),
        1 => 60 + s.below(60),
        2 => s.number(130) as usize,
        3 => 200 + s.below(400),
        _ => s.number(1100) as usize,
    };
    let mut entries: Vec<Entry> = vec![];
    if c.rich {
        for a in w.accts.iter().filter(|a| !a.envs.is_empty()) {
            for sy in a.envs.iter().map(|e| e.amount.sym.clone()).collect::<BTreeSet<_>>() {
                if s.chance(1, 12) {
                    continue;
                }
                let total: i128 = a.envs.iter().filter(|e| e.amount.sym == sy).map(|e| e.amount.u).sum();
                let u = match s.weighted(&[4, 3, 2]) {
                    0 => total * 3 + units(s, false),
                    1 => total * s.range(1, 20) as i128 / 10,
                    _ => units(s, false),
                };
                let other = w.accts.iter().find(|x| x.name != a.name && x.envs.is_empty()).or(w.accts.iter().find(|x| x.name != a.name)).unwrap();
                let ago = s.range(1, 60);
                let mut e = header(s, w.day.plus(-ago), vec![Post::plain(&a.name, Amt::new(u, &sy)), Post::plain(&other.name, Amt::new(-u, &sy))]);
                if !s.chance(1, 6) {
                    // pure income: doesn't concern any envelope
                    e.posts.push(Post::Env { acct: a.name.clone(), env: a.envs[0].name.clone(), amt: Amt { u: 0, sym: a.envs[0].amount.sym.clone() } });
                }
                settle(&mut e, w);
                entries.push(e);
            }
        }
    }
    if c.rich && c.manual {
        // overspent or filled up by hand
        for a in &w.accts {
            for d in &a.envs {
                if s.chance(1, 7) {
                    let u = d.amount.u * s.range(-25, 15) as i128 / 10 / UNIT * UNIT;
                    let ago = s.range(1, 60);
                    entries.push(header(s, w.day.plus(-ago), vec![Post::Env { acct: a.name.clone(), env: d.name.clone(), amt: Amt { u, sym: d.amount.sym.clone() } }]));
                }
            }
        }
    }
    for _ in 0..n {
        // the same twice is two entries
        if !entries.is_empty() && s.chance(1, 16) {
            let mut e = if s.chance(2, 3) { entries.last().unwrap().clone() } else { s.pick(&entries).clone() };
            if s.chance(1, 3) {
                e.date = gen_date(s, w, c);
            }
            entries.push(e);
        } else {
            entries.push(gen_entry(s, w, c));
        }
    }
    if c.sorted {
        entries.sort_by_key(|e| e.date);
    }
    // definitions first, or some of them right before their first use
    let late = s.chance(1, 4);
    let mut defined: BTreeSet<String> = BTreeSet::new();
    if !late {
        for a in &w.accts {
            items.push(Item::Acct(a.clone()));
            defined.insert(a.name.clone());
        }
    }
    for e in entries {
        if late {
            for a in &w.accts {
                // an envelope has to be defined before anything that concerns it
                let needed = e.posts.iter().any(|p| p.acct() == a.name);
                if needed && !defined.contains(&a.name) {
                    items.push(Item::Acct(a.clone()));
                    defined.insert(a.name.clone());
                }
            }
        }
        if c.formats && s.chance(1, 40) {
            items.push(Item::Format(s.below(formats(w.day))));
        }
        items.push(Item::Entry(e));
        if s.chance(1, 60) && !defined.is_empty() {
            // defined once more, which adds nothing
            let again: Vec<&String> = defined.iter().collect();
            items.push(Item::Acct(AcctDef { name: s.pick(&again).to_string(), envs: vec![] }));
        }
    }
    for a in &w.accts {
        if !defined.contains(&a.name) {
            items.push(Item::Acct(a.clone()));
        }
    }
    items
}

pub fn entries_of(items: &[Item]) -> Vec<Entry> {
    items.iter().filter_map(|i| if let Item::Entry(e) = i { Some(e.clone()) } else { None }).collect()
}
