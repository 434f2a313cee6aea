//! Csv imports, and reading back what was written.

use super::env::{check_bounds, read_fill};
use super::*;
use crate::gen::*;
use std::collections::BTreeMap;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C08", level: "exploration", quick: 16000, thorough: 320000, run: c08,
            rule: "Half of the cases: a random journal (any date format, line ending, with or without a newline at its end) whose envelopes are filled by each reporting subcommand: its output equals that of a following --no-move run, and the reports equal the model's with the appended entry (read by an independent parser). Other half: a random csv import into a journal with envelopes: all reports afterwards are those the model gives for the expected entries, as are the reports about the same entries written by hand. Non-trivial: something was appended.",
            assumptions: &["imported text has no comment markers or square brackets (they mean something else in a journal; see C19)", "amounts below 1e7"] },
        Prop { id: "C18", level: "exploration", quick: 90000, thorough: 1800000, run: c18,
            rule: "Random rules files (templates, field orders, skips, date formats, decimal symbols, one to three postings, costs, two date columns, resets, included rules, up to 5 `if` blocks with several patterns that change or drop any rule) and csv files (quoting, unicode, percent signs, patterns in any case); the appended entries, read by an independent parser, are compared one by one with what the model of the rules gives (postings as a multiset). Non-trivial: at least one record is imported.",
            assumptions: &["`if` blocks come after the general rules", "no pattern spans two fields", "every field that's used is defined; imported text has no comment markers or brackets"] },
        Prop { id: "C19", level: "exploration", quick: 30000, thorough: 600000, run: c19,
            rule: "Imports of 1 to 6 records in which one is bad in a definite way (date, amount, status, account, number of fields, not UTF-8, an amount its envelope can't take, faulty rules): refused, files byte-identical. And imports whose fields contain arbitrary text (line breaks, comment markers, brackets, quotes, percent signs, control characters, entry-like text): refused without a trace, or the journal is readable and its balances and register have grown by exactly one entry per record. Non-trivial: always.",
            assumptions: &["the journal without the import is valid"] },
    ]
}

#[derive(Clone)]
enum Piece {
    Text(String),
    Field(&'static str),
    Percent,
}
type Tmpl = Vec<Piece>;

fn txt(x: &str) -> Piece {
    Piece::Text(x.to_string())
}

fn render(t: &Tmpl) -> String {
    t.iter()
        .map(|p| match p {
            Piece::Text(x) => x.clone(),
            Piece::Field(f) => format!("%{f}%"),
            Piece::Percent => "%%".into(),
        })
        .collect()
}
fn eval(t: &Tmpl, rec: &BTreeMap<&'static str, String>) -> String {
    t.iter()
        .map(|p| match p {
            Piece::Text(x) => x.clone(),
            Piece::Field(f) => rec[f].clone(),
            Piece::Percent => "%".into(),
        })
        .collect()
}

/// What a posting's amount is made of.
#[derive(Clone, PartialEq)]
enum AmtT {
    Blank,
    Record { neg: bool, cur: usize, cost: usize }, // cur: 0 none, 1 field after, 2 `$` before, 3 field before; cost: 0 none, 1 @, 2 =
    Lit(i128),
}

#[derive(Clone)]
struct Posting {
    idx: &'static str,
    acct: Option<&'static str>, // None: %account%
    amt: AmtT,
}

#[derive(Clone)]
struct R {
    desc: Tmpl,
    status: Tmpl,
    payee: Tmpl,
    comment: Tmpl,
    date: &'static str, // the field
    fmt: usize,
    decimal: char,
    posts: Vec<Posting>,
}

#[derive(Clone)]
enum Change {
    Desc(Tmpl),
    Status(Tmpl),
    Payee(Tmpl),
    Comment(Tmpl),
    Decimal(char),
    Format(usize),
    Acct(usize, &'static str),
    AddAcct2(&'static str),
    Date(&'static str),
    Amount(usize, AmtT),
    Drop(usize),
    DropAmount(usize),
    Reset(&'static str),
}

impl R {
    fn apply(&mut self, c: &Change) {
        match c {
            Change::Desc(t) => self.desc = t.clone(),
            Change::Status(t) => self.status = t.clone(),
            Change::Payee(t) => self.payee = t.clone(),
            Change::Comment(t) => self.comment = t.clone(),
            Change::Decimal(d) => self.decimal = *d,
            Change::Format(f) => self.fmt = *f,
            Change::Acct(i, a) => self.posts[*i].acct = Some(a),
            Change::AddAcct2(a) => self.posts.push(Posting { idx: "2", acct: Some(a), amt: AmtT::Blank }),
            Change::Date(f) => self.date = f,
            Change::Amount(i, a) => self.posts[*i].amt = a.clone(),
            Change::Drop(i) => {
                self.posts.remove(*i);
            }
            Change::DropAmount(i) => self.posts[*i].amt = AmtT::Blank,
            Change::Reset("date") => self.date = "date",
            Change::Reset("comment" | "note") => self.comment.clear(),
            Change::Reset("payee") => self.payee.clear(),
            Change::Reset("status") => self.status = vec![txt("~")],
            Change::Reset("date_format") => self.fmt = 0,
            Change::Reset("decimal_symbol" | "decimal") => self.decimal = '.',
            Change::Reset(_) => self.desc = vec![Piece::Field("description")],
        }
    }
    fn line(&self, c: &Change, s: &mut Src) -> String {
        match c {
            Change::Desc(t) => format!("description {}", render(t)),
            Change::Status(t) => format!("status {}", render(t)),
            Change::Payee(t) => format!("payee {}", render(t)),
            Change::Comment(t) => format!("{} {}", s.pick(&["comment", "note"]), render(t)),
            Change::Decimal(d) => format!("{} {d}", s.pick(&["decimal_symbol", "decimal"])),
            Change::Format(f) => format!("date_format {}", FORMATS[*f]),
            Change::Acct(i, a) => format!("account{} {a}", self.posts[*i].idx),
            Change::AddAcct2(a) => format!("account2 {a}"),
            Change::Date(f) => format!("date %{f}%"),
            Change::Amount(i, a) => format!("amount{} {}", self.posts[*i].idx, amt_tmpl(a)),
            Change::Drop(i) => format!("account{} -", self.posts[*i].idx),
            Change::DropAmount(i) => format!("amount{} -", self.posts[*i].idx),
            Change::Reset(x) => format!("{x} -"),
        }
    }
}

fn amt_tmpl(a: &AmtT) -> String {
    match a {
        AmtT::Blank => String::new(),
        AmtT::Lit(u) => num(*u),
        AmtT::Record { neg, cur, cost } => {
            let n = format!("{}%amount%", if *neg { "-" } else { "" });
            let n = match cur {
                0 => n,
                1 => format!("{n} %currency%"),
                2 => format!("${n}"),
                _ => format!("%currency%{n}"),
            };
            match cost {
                0 => n,
                1 => format!("{n} @ %price%"),
                _ => format!("{n} = %price%"),
            }
        }
    }
}

pub struct Import {
    pub files: Vec<(String, String)>,
    pub args: Vec<String>,
    pub want: Vec<(Entry, String)>, // entry, comment
    pub formats: usize, // how many of the formats can tell the dates
}

const ACCTS: &[&str] = &["assets:bank", "expenses:food", "income:job", "expenses:rent", "assets:cash", "assets:Spaß_и_ещё", "expenses:quite_a_number_of_levels_with_long_names_each:quite_a_number_of_levels_with_long_names_each:quite_a_number_of_levels_with_long_names_each:quite_a_number_of_levels_with_long_names_each:quite_a_number_of_levels_with_long_names_each"];
const WORDS: &[&str] = &[
    "Coffee Shop", "ACME, Inc.", "Überweisung an Oma", "say \"hi\"", "100% cotton", "%date% %amount%", "a-b_c.d", "salary", "RENT for May",
    "", "transfer -> savings", " spaces around ", "#1 pick", "# note", "'quoted'", "ÜBERWEISUNG", "tab\there", "Coffee salary rent", "a|b", "1,5", "x y  ", "ŻABKA", "Straße", "\\n", "-", "--", "x = y @ z ! w", "東京 store", "50%", "coffee", "Rent", "it's", "* ~ ?", "grocery  list", "%%", "two\nlines", "coffee\r\nfor\n\nall",
];
const PATTERNS: &[&str] = &["coffee", "RENT", "ÜBER", "Überweisung", "żabka", "STRASSE", "Żab", "straße", "coffee salary", "#1", "spaces", "pick", "salary", "über", "acme, inc", "東京", "store", "Shop", "zzz", "list", "transfer ->", "cotton",
    // (patterns are plain text)
    "a|b", "zzz|coffee", "coffee|rent", "co.fee", "coffee*", "rent coffee", "coffee,rent", "*coffee", "^coffee", "[a-z]", "50%", "it's", "%description%", "\"hi\"", "coffee shop$", "(coffee)", "!coffee", "coffee & rent", "\\n"];
/// Patterns that dates, amounts, accounts and such can contain.
const PATTERNS2: &[&str] = &["2020", "/0", "-1", "1", "00", "0.5", "7", "-", "assets:bank", "FOOD", "btc", "€", "*", "~", "1,", "-0"];

/// A field of a record.
fn value(s: &mut Src) -> String {
    match s.weighted(&[30, 2, 1]) {
        0 => s.pick(WORDS).to_string(),
        1 => s.word(text_like, "word"),
        _ => "v".repeat(s.number(200) as usize),
    }
}

fn literal(s: &mut Src) -> i128 {
    match s.below(8) {
        0 => s.range(0, 1) as i128 * UNIT,
        _ => s.range(1, 500) as i128 * UNIT / 100,
    }
}

fn text_tmpl(s: &mut Src, extra: &[&'static str]) -> Tmpl {
    let mut t = vec![];
    for _ in 0..1 + s.below(3) {
        t.push(match s.below(4) {
            0 => Piece::Field("description"),
            1 if s.chance(1, 8) => Piece::Text(s.word(|w| text_like(w) && !w.contains('%'), "word")),
            1 => txt(s.pick(&["paid to ", "x", " and ", "Größe: ", " & ", "a b c", "1.5", "#", "no. 7: "])),
            2 => Piece::Field(s.pick(extra)),
            _ => Piece::Percent,
        });
    }
    if s.chance(1, 12) {
        // not a field
        t.push(txt(s.pick(&["5% off", "%", " %nothing%", "% of it", "%Description%", "100 %"])));
    }
    if render(&t).trim() == "-" {
        // (discards a value)
        t.push(txt("x"));
    }
    t
}

fn quote(s: &mut Src, x: &str) -> String {
    if x.contains(['"', ',', '\n', '\r']) || x.starts_with(' ') || x.ends_with(' ') || s.chance(1, 5) {
        format!("\"{}\"", x.replace('"', "\"\""))
    } else {
        x.to_string()
    }
}

/// None: the case would be ambiguous.
pub fn gen_import(s: &mut Src, c: &mut Ctx) -> Option<Import> {
    // the columns of the csv file
    // two digits can't tell all years
    let nf = if s.chance(1, 6) { FORMATS.len() - 1 } else { FORMATS.len() };
    let mut cols: Vec<&'static str> = vec!["date", "description", "amount", "currency", "price", "account", "other", "status"];
    // another date, so that it matters which one is used
    let two_dates = s.chance(1, 4);
    if two_dates {
        cols.push("posted");
    }
    s.shuffle(&mut cols);
    // (the last column may have no name)
    let named = cols.len();
    if s.chance(1, 3) {
        cols.push("unused");
    }
    let shape = s.weighted(&[6, 6, 6, 6, 6, 6, 1]);
    let cur = s.below(4);
    let cost = if cur == 1 || cur == 3 { s.below(3) } else { 0 };
    let rec = AmtT::Record { neg: cost != 2 && s.chance(1, 3), cur, cost };
    let a1 = if s.chance(1, 5) { None } else { Some(*s.pick(ACCTS)) };
    let a2 = Some(*s.pick(ACCTS));
    let mut posts = vec![];
    let mut default_acct = false;
    match shape {
        0 => {
            let (idx, amt) = (*s.pick(&["", "1", "2", "01", "10", "0"]), rec.clone());
            posts.push(Posting { idx, acct: a1, amt });
            c.label("one posting");
        }
        1 => {
            let amt = if s.chance(1, 4) { AmtT::Record { neg: false, cur: 0, cost: 0 } } else { rec.clone() };
            let idx = *s.pick(&["1", "1", ""]);
            posts.push(Posting { idx, acct: a1, amt });
            posts.push(Posting { idx: if idx.is_empty() && s.chance(1, 2) { "1" } else { *s.pick(&["2", "2", "1x"]) }, acct: a2, amt: AmtT::Blank });
            c.label("second posting blank");
        }
        2 => {
            let AmtT::Record { neg, cur, .. } = rec else { unreachable!() };
            posts.push(Posting { idx: "", acct: a1, amt: AmtT::Record { neg, cur, cost: 0 } });
            posts.push(Posting { idx: "2", acct: a2, amt: AmtT::Record { neg: !neg, cur, cost: 0 } });
            c.label("both postings written out");
        }
        3 => {
            posts.push(Posting { idx: "1", acct: a1, amt: AmtT::Record { neg: s.chance(1, 2), cur: 0, cost: 0 } });
            posts.push(Posting { idx: "2", acct: a2, amt: AmtT::Lit(literal(s)) });
            posts.push(Posting { idx: "3", acct: Some("expenses:rent"), amt: AmtT::Blank });
            c.label("three postings");
        }
        4 => {
            posts.push(Posting { idx: "1", acct: a1, amt: AmtT::Record { neg: false, cur: 1, cost: 1 + s.below(2) } });
            posts.push(Posting { idx: "2", acct: a2, amt: AmtT::Lit(literal(s)) });
            posts.push(Posting { idx: "3", acct: Some("expenses:rent"), amt: AmtT::Blank });
            c.label("three postings, foreign amount");
        }
        6 => {
            posts.push(Posting { idx: "1", acct: a1, amt: AmtT::Record { neg: s.chance(1, 2), cur: 0, cost: 0 } });
            let more = ["2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12", "20", "100"];
            for idx in &more[..s.range(3, 13) as usize] {
                posts.push(Posting { idx, acct: Some(*s.pick(ACCTS)), amt: AmtT::Lit(literal(s)) });
            }
            posts.push(Posting { idx: "0", acct: Some("expenses:rent"), amt: AmtT::Blank });
            c.label("more than 4 postings");
        }
        _ => {
            default_acct = true;
            posts.push(Posting { idx: "", acct: None, amt: AmtT::Record { neg: false, cur: 0, cost: 0 } });
            c.label("default account and amount");
        }
    }
    let mut root = R {
        desc: vec![Piece::Field("description")],
        status: vec![txt("~")],
        payee: vec![],
        comment: vec![],
        date: "date",
        fmt: 0,
        decimal: '.',
        posts,
    };
    // general rules
    let mut changes: Vec<Change> = vec![];
    if s.chance(1, 2) {
        changes.push(Change::Desc(text_tmpl(s, &["other", "currency", "status"])));
    }
    let status = |s: &mut Src| match s.below(4) {
        0 => vec![Piece::Field("status")],
        1 => vec![txt("*")],
        2 => vec![txt("?")],
        _ => vec![txt("~")],
    };
    if s.chance(1, 3) {
        changes.push(Change::Status(status(s)));
    }
    if s.chance(1, 3) {
        changes.push(Change::Payee(text_tmpl(s, &["other", "currency"])));
    }
    if s.chance(1, 3) {
        changes.push(Change::Comment(text_tmpl(s, &["other", "date", "amount"])));
    }
    if s.chance(1, 3) {
        changes.push(Change::Decimal(','));
    }
    if s.chance(1, 2) {
        changes.push(Change::Format(s.below(nf)));
    }
    if two_dates && s.chance(1, 2) {
        changes.push(Change::Date(s.pick(&["posted", "date"])));
    }
    let mut skip = 1;
    let mut lines: Vec<String> = vec![format!("fields {}", cols[..named].join(*s.pick(&[", ", ",", " , "])))];
    for ch in &changes {
        lines.push(root.line(ch, s));
        root.apply(ch);
    }
    // (without any rule for amounts, it's `%amount%`)
    let plain = AmtT::Record { neg: false, cur: 0, cost: 0 };
    let default_amt = shape < 2 && root.posts.iter().all(|p| p.amt == AmtT::Blank || p.idx.is_empty() && p.amt == plain) && s.chance(1, 2);
    c.label_if(default_amt, "default amount");
    if !default_acct {
        for p in &root.posts {
            lines.push(format!("account{} {}", p.idx, p.acct.unwrap_or("%account%")));
            if p.amt != AmtT::Blank && !default_amt {
                lines.push(format!("amount{} {}", p.idx, amt_tmpl(&p.amt)));
            }
        }
    }
    if s.chance(1, 2) {
        skip = size(s, 3, 30);
        lines.push(format!("skip {skip}"));
    } else if s.chance(1, 6) {
        lines.push("skip -".into());
    }
    s.shuffle(&mut lines);
    if s.chance(1, 8) {
        // a value that is discarded again
        lines.insert(0, "comment never seen".into());
        lines.insert(1, "comment -".into());
    }
    if s.chance(1, 6) {
        // a rule that is reset and set again
        let i = s.below(lines.len());
        let key = lines[i].split(' ').next().unwrap().to_string();
        if !["fields", "include", "use", "comment", "note"].contains(&&key[..]) && lines.iter().filter(|l| l.split(' ').next() == Some(&key[..])).count() == 1 {
            c.label("a rule that is reset and set again");
            lines.insert(i, format!("{key} -"));
        }
    }
    let mut files = vec![];
    if s.chance(1, 5) {
        c.label("included rules");
        let k = 1 + s.below(lines.len());
        let inc: Vec<String> = lines.drain(..k).collect();
        files.push(("more.rules".to_string(), inc.join("\n") + "\n"));
        lines.insert(0, format!("{} more.rules", s.pick(&["include", "use"])));
    }
    // `if` blocks
    let general = lines.len();
    let mut blocks: Vec<(Vec<String>, R)> = vec![];
    let mut count = s.weighted(&[12, 12, 8, 4, 1, 1, 1]);
    let many = count == 6;
    if many {
        c.label("more than 5 `if` blocks");
        count = s.range(6, 40) as usize;
    }
    for b in 0..count {
        let mut r = root.clone();
        let mut pats: Vec<String> = if many && b + 2 < count {
            vec![format!("never seen {b}")]
        } else {
            vec![]
        };
        let more: Vec<String> = if !pats.is_empty() && s.chance(9, 10) {
            vec![]
        } else {
            (0..1 + size(s, 2, 12))
            .map(|_| match s.weighted(&[20, 2, 1]) {
                0 => s.pick(PATTERNS).to_string(),
                1 => s.pick(PATTERNS2).to_string(),
                _ => s.word(|w| w.chars().count() > 2 && w.chars().all(|c| c.is_alphabetic()), "word"),
            })
            .collect() };
        pats.extend(more);
        if !blocks.is_empty() && s.chance(1, 3) {
            // also something that an earlier block is about
            let b = s.below(blocks.len());
            pats.push(s.pick(&blocks[b].0).clone());
            c.label("blocks with the same pattern");
        }
        let mut block = vec![];
        let mut rest = &pats[..];
        if s.chance(1, 2) {
            block.push(format!("if{}{}", s.pick(&[" ", " ", " ", "  ", "\t", " \t "]), pats[0]));
            rest = &pats[1..];
        } else {
            block.push("if".to_string());
        }
        block.extend(rest.iter().map(|x| x.to_string()));
        for _ in 0..1 + s.below(3) {
            let ch = match s.below(13) {
                10 if two_dates => if s.chance(1, 2) { Change::Date(s.pick(&["posted", "date"])) } else { Change::Reset("date") },
                11 if shape == 2 && r.posts.len() == 2 => if s.chance(1, 2) { Change::Drop(s.below(2)) } else { Change::DropAmount(s.below(2)) },
                11 if shape == 1 && r.posts.len() == 2 => Change::Drop(1),
                12 if shape < 2 => {
                    let AmtT::Record { neg, cur, cost } = &r.posts[0].amt else { unreachable!() };
                    if *cost == 2 {
                        Change::Amount(0, AmtT::Record { neg: false, cur: *cur, cost: 1 })
                    } else if s.chance(1, 4) && *cost == 0 {
                        Change::Amount(0, AmtT::Record { neg: *neg, cur: if *cur == 0 { 2 } else { 0 }, cost: 0 })
                    } else {
                        Change::Amount(0, AmtT::Record { neg: !neg, cur: *cur, cost: *cost })
                    }
                }
                0 => Change::Comment(text_tmpl(s, &["other"])),
                1 => Change::Payee(text_tmpl(s, &["other"])),
                2 => Change::Desc(text_tmpl(s, &["other"])),
                3 => Change::Status(status(s)),
                4 => Change::Decimal(*s.pick(&[',', '.'])),
                5 => Change::Format(s.below(nf)),
                6 if !default_acct => Change::Acct(s.below(r.posts.len()), s.pick(ACCTS)),
                7 if !default_acct && root.posts.len() == 1 && r.posts.len() == 1 && r.posts[0].idx != "2" => {
                    c.label("posting added by `if`");
                    Change::AddAcct2(s.pick(ACCTS))
                }
                8 => Change::Reset(s.pick(&["comment", "payee", "status", "date_format", "decimal_symbol", "description", "note", "decimal"])),
                _ => Change::Comment(vec![txt("a note")]),
            };
            let line = r.line(&ch, s);
            if s.chance(1, 12) {
                block.push(format!("    {} -", line.split(' ').next().unwrap()));
            }
            block.push(format!("{}{line}", s.pick(&["    ", "\t", " "])));
            r.apply(&ch);
            if shape == 2 && matches!(ch, Change::Drop(_) | Change::DropAmount(_)) {
                break;
            }
        }
        if s.chance(1, 12) {
            c.label("rules of a block in a file of their own");
            let k = block.iter().position(|l| l.starts_with([' ', '\t'])).unwrap();
            let k = k + s.below(block.len() - k);
            let inc: Vec<String> = block.drain(k..).collect();
            files.push((format!("block{}.rules", blocks.len()), inc.join("\n") + "\n"));
            block.push(format!("    {} block{}.rules", s.pick(&["include", "use"]), blocks.len()));
        }
        lines.extend(block);
        blocks.push((pats, r));
    }
    if lines.len() > general && s.chance(1, 12) {
        c.label("`if` blocks in an included file");
        let inc: Vec<String> = lines.drain(general..).collect();
        files.push(("ifs.rules".into(), inc.join("\n") + "\n"));
        lines.push("include ifs.rules".into());
    }
    let mut rules = String::new();
    for l in &lines {
        if s.chance(1, 12) {
            rules += s.pick(&["\n", "; a comment\n", "// skip 9\n", "   \n"]);
        }
        rules += l;
        rules += s.pick(&["\n", "\n", "\n", "  \n", " ; note\n", "\r\n"]);
    }
    // records
    let mut csv = String::new();
    let nl = *s.pick(&["\n", "\n", "\r\n"]);
    for _ in 0..skip {
        let h: Vec<String> = cols.iter().map(|x| x.to_string()).collect();
        csv += &(h.join(",") + nl);
    }
    let mut want = vec![];
    let nrec = if s.chance(1, 40) { size(s, 40, 300) } else { s.weighted(&[1, 4, 4, 3, 2, 1]) };
    for _ in 0..nrec {
        let date = if nf == FORMATS.len() { short_day(s) } else { any_day(s) };
        let amt = if cost != 0 || shape == 4 { units4(s) } else if shape != 3 && s.chance(1, 15) { large(s) } else { signed(s, false) };
        let price = units4(s);
        let cursym = if cost != 0 || shape == 4 { s.pick(&["BTC", "EUR", "€"]).to_string() } else { s.pick(&["", "BTC", "€", "kr"]).to_string() };
        let mut m: BTreeMap<&'static str, String> = BTreeMap::new();
        m.insert("description", value(s));
        m.insert("other", value(s));
        m.insert("currency", cursym.clone());
        let x = value(s);
        if cols.contains(&"unused") {
            m.insert("unused", x);
        }
        m.insert("account", s.pick(ACCTS).to_string());
        m.insert("status", s.pick(&["*", "~", "?"]).to_string());
        let seps = (s.chance(1, 2), s.chance(1, 2));
        let other_date = if two_dates && s.chance(1, 3) { Err(s.pick(&["", "n/a", "99", "2021/99/99"]).to_string()) } else { Ok(if two_dates { s.range(-20, 20) } else { 0 }) };
        // which rules apply? they tell how dates and amounts have to be written, and these might contain a
        // pattern themselves; so look for rules that apply to the record that is written for them
        let hit = |m: &BTreeMap<&'static str, String>, cols: &[&'static str]| {
            let joined: String = cols.iter().map(|x| m.get(x).cloned().unwrap_or_default()).collect::<String>().to_lowercase();
            let by_join = blocks.iter().position(|(p, _)| p.iter().any(|p| joined.contains(&p.to_lowercase())));
            let by_field = blocks.iter().position(|(p, _)| p.iter().any(|p| m.values().any(|v| v.to_lowercase().contains(&p.to_lowercase()))));
            (by_join, by_field)
        };
        let mut fits = None;
        let without = hit(&m, &cols).1;
        for h in (0..blocks.len()).map(Some).chain([None]) {
            let r = h.map(|i: usize| &blocks[i].1).unwrap_or(&root);
            let text = |u: i128, sep: bool| {
                let mut n = num(u);
                if r.decimal == ',' {
                    n = n.replace('.', ",");
                } else if u.abs() >= 1000 * UNIT && sep {
                    // thousands separators
                    let (i, f) = n.split_once('.').map(|(i, f)| (i.to_string(), format!(".{f}"))).unwrap_or((n.clone(), String::new()));
                    let k = i.len() - 3;
                    n = format!("{},{}{f}", &i[..k], &i[k..]);
                }
                n
            };
            let mut m = m.clone();
            if two_dates {
                let other = if r.date == "date" { "posted" } else { "date" };
                let x = match &other_date {
                    Err(x) => x.clone(),
                    Ok(d) => date.plus(*d).fmt(FORMATS[r.fmt]),
                };
                m.insert(other, x);
            }
            m.insert(r.date, date.fmt(FORMATS[r.fmt]));
            m.insert("amount", text(amt, seps.0));
            m.insert("price", text(price, seps.1));
            if hit(&m, &cols) == (h, h) {
                fits = Some((h, m));
                break;
            }
        }
        let (h, m) = fits?;
        let r = h.map(|i| &blocks[i].1).unwrap_or(&root);
        c.label_if(h.is_some(), "an `if` block applies");
        c.label_if(h.is_some_and(|i| i > 0), "a later `if` block applies");
        c.label_if(h != without, "an `if` block applies because of a date or an amount");
        let row: Vec<String> = cols.iter().map(|x| quote(s, &m[x])).collect();
        csv += &(row.join(",") + nl);
        if s.chance(1, 12) {
            csv += nl;
        }
        // the entry
        let native = |u: i128| Amt { u, sym: None };
        let mut posts: Vec<Post> = r
            .posts
            .iter()
            .map(|p| {
                let acct = p.acct.map(|a| a.to_string()).unwrap_or(m["account"].clone());
                match &p.amt {
                    AmtT::Blank => Post::blank(&acct),
                    AmtT::Lit(u) => Post::plain(&acct, native(if r.decimal == ',' && u % UNIT != 0 {
                        // (1.25 is read as 125 with a decimal comma)
                        num(*u).replace('.', "").parse::<i128>().unwrap() * UNIT
                    } else {
                        *u
                    })),
                    AmtT::Record { neg, cur, cost } => {
                        let sym = match cur {
                            0 => None,
                            2 => Some("$".to_string()),
                            _ => Some(cursym.clone()).filter(|x| !x.is_empty()),
                        };
                        let cost = match cost {
                            0 => None,
                            1 => Some(Cost::Unit(native(price))),
                            _ => Some(Cost::Total(native(price))),
                        };
                        Post::Classic { acct, amt: Some(Amt { u: if *neg { -amt } else { amt }, sym }), cost, check: None }
                    }
                }
            })
            .collect();
        if posts.len() == 1 {
            if let Post::Classic { amt: Some(a), .. } = &posts[0] {
                let other = if a.u < 0 { "expenses:unknown" } else if a.u > 0 { "income:unknown" } else { "unknown" };
                posts.push(Post::blank(other));
            }
        }
        // (an entry's header is a single line)
        let eval = |t: &Tmpl, m: &BTreeMap<&'static str, String>| eval(t, m).replace(['\n', '\r'], " ");
        let payee = eval(&r.payee, &m);
        let e = Entry {
            date,
            status: eval(&r.status, &m).chars().next().unwrap_or('~'),
            desc: eval(&r.desc, &m),
            payee: Some(payee).filter(|p| !p.trim().is_empty()),
            posts,
        };
        want.push((e, eval(&r.comment, &m)));
        if s.chance(1, 12) {
            // the same again
            c.label("equal records");
            csv += &(row.join(",") + nl);
            want.push(want.last().unwrap().clone());
        }
    }
    files.push(("in.csv".into(), csv));
    let mut args: Vec<String> = vec![s.pick(&["i", "import"]).to_string(), "-f".into(), J.into(), s.pick(&["--csv", "--csv-file"]).to_string(), "in.csv".into()];
    if s.chance(1, 2) {
        files.push(("in.csv.rules".into(), rules));
    } else {
        files.push(("bank.rules".into(), rules));
        args.extend([s.pick(&["--rules", "--rules-file"]).to_string(), "bank.rules".into()]);
    }
    Some(Import { files, args, want, formats: nf })
}

fn words(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}

fn post_key(p: &Post) -> String {
    match p {
        Post::Classic { acct, amt, cost, .. } => {
            let a = amt.as_ref().map(|a| (a.u, a.sym.clone()));
            let c = cost.as_ref().map(|c| match c {
                Cost::Unit(a) => ("@", a.u, a.sym.clone()),
                Cost::Total(a) => ("=", a.u, a.sym.clone()),
            });
            format!("{acct} {a:?} {c:?}")
        }
        Post::Env { .. } => format!("{p:?}"),
    }
}

pub fn same_entry(i: usize, got: &parse::Written, want: &(Entry, String)) -> Result<(), String> {
    let (g, w) = (&got.e, &want.0);
    let payee = |p: &Option<String>| words(p.as_deref().unwrap_or(""));
    let mut gp: Vec<String> = explicit(g).posts.iter().map(post_key).collect();
    let mut wp: Vec<String> = explicit(w).posts.iter().map(post_key).collect();
    gp.sort();
    wp.sort();
    let gc = words(got.comment.as_deref().unwrap_or(""));
    for (what, a, b) in [
        ("date", g.date.iso(), w.date.iso()),
        ("status", g.status.to_string(), w.status.to_string()),
        ("description", words(&g.desc), words(&w.desc)),
        ("payee", payee(&g.payee), payee(&w.payee)),
        ("comment", gc, words(&want.1)),
        ("postings", gp.join("; "), wp.join("; ")),
    ] {
        if a != b {
            return Err(format!("record {i} was imported with the {what} {a:?}, should be {b:?}"));
        }
    }
    Ok(())
}

pub fn import_accounts(s: &mut Src, day: Date, envs: bool, nf: usize) -> Vec<Item> {
    let mut items = vec![];
    if s.chance(1, 2) {
        items.push(Item::Format(s.below(nf.min(formats(day)))));
    }
    for a in ACCTS.iter().chain(&["expenses:unknown", "income:unknown", "unknown"]) {
        let mut d = AcctDef { name: a.to_string(), envs: vec![] };
        if envs && (*a == "assets:bank" || (*a == "assets:cash" && s.chance(1, 3))) {
            for n in ["food", "rent"].iter().take(1 + s.below(2)) {
                let (freq, starting) = gen_freq(s, day);
                let mut fors: Vec<String> = vec![s.pick(&["expenses:food", "expenses:unknown", "income:unknown"]).to_string()];
                if s.chance(1, 2) {
                    fors.push("expenses:rent".into());
                }
                let fund = *s.pick(&[Fund::Conservative, Fund::Aggressive, Fund::Unset]);
                d.envs.push(EnvDef { goal: s.chance(1, 3), name: n.to_string(), freq, starting, amount: Amt { u: units(s, false), sym: None }, fors, fund });
            }
        }
        items.push(Item::Acct(d));
    }
    for _ in 0..s.below(3) {
        let u = units(s, false);
        let date = day.plus(-s.range(1, 90));
        items.push(Item::Entry(Entry { date, status: '*', desc: "before".into(), payee: None,
            posts: vec![Post::plain("assets:bank", Amt { u, sym: None }), Post::blank("income:job")] }));
    }
    items
}

fn c18(s: &mut Src, c: &mut Ctx) -> Res {
    let day = any_day(s);
    let Some(imp) = gen_import(s, c) else { return Ok(()) };
    let items = import_accounts(s, day, false, imp.formats);
    c.nontrivial = !imp.want.is_empty();
    c.label_if(imp.want.len() > 2, "more than 2 records");
    for (p, t) in &imp.files {
        c.write(p, t);
    }
    let mut t = plain().journal(&items);
    if s.chance(1, 3) {
        t.pop();
    }
    c.write(J, &t);
    let args: Vec<&str> = imp.args.iter().map(|x| x.as_str()).collect();
    let out = c.run(&args, &at(day))?;
    if !out.ok() {
        return v(format!("the import failed: {:?}", out.stderr));
    }
    let added = appended(&t, &c.read(J))?;
    let fmt = fmt_of(&items);
    let same = |added: &str| -> Res {
        let got = parse::entries(added, fmt).map_err(|e| format!("the import added {added:?}: {e}"))?;
        if got.len() != imp.want.len() {
            return v(format!("{} entries were imported, should be {}", got.len(), imp.want.len()));
        }
        for (i, (g, w)) in got.iter().zip(&imp.want).enumerate() {
            same_entry(i, g, w)?;
        }
        Ok(())
    };
    same(&added)?;
    if s.chance(1, 12) {
        c.label("imported again");
        let t = c.read(J);
        let out = c.run(&args, &at(day))?;
        if !out.ok() {
            return v(format!("the second import failed: {:?}", out.stderr));
        }
        same(&appended(&t, &c.read(J))?)?;
    }
    if let (Some(c0), false) = (added.chars().next(), t.ends_with('\n')) {
        if c0 != '\n' {
            return v("the import continued the journal's last line".into());
        }
    }
    Ok(())
}

fn c08(s: &mut Src, c: &mut Ctx) -> Res {
    if s.chance(1, 2) {
        return c08_import(s, c);
    }
    let mut cf = cfg();
    cf.big = false;
    cf.funded = true;
    cf.rich = true;
    let w = gen_world(s, &cf);
    let items = gen_items(s, &w, &cf);
    let m = Model::of(&items, w.day);
    labels(c, &m);
    let t = put(c, s, &items);
    c.label_if(!t.ends_with('\n'), "no newline at the end");
    let o = at(w.day);
    let cmd = *s.pick(&["e", "b", "r"]);
    let first = c.report(&[cmd, "-f", J], &o)?;
    let after = c.read(J);
    let added = appended(&t, &after)?;
    let fmt = fmt_of(&items);
    let (f, e) = read_fill(&m, &added, fmt)?;
    c.nontrivial = e.is_some();
    c.label_if(e.is_some(), "filled");
    let second = c.report(&[cmd, "-n", "-f", J], &o)?;
    if first != second {
        return v(format!("the {cmd} report of the run that filled envelopes isn't what the next run reports"));
    }
    check_bounds(&m, &f)?;
    let mut m2 = m.clone();
    if let Some(e) = &e {
        m2.entry(e);
    }
    let reps = super::core::reports(c, &o)?;
    check_balance(&m2, &reps[0]).map_err(|e| format!("after a fill: {e}"))?;
    check_envelopes(&m2, &reps[1], &ALL).map_err(|e| format!("after a fill: {e}"))?;
    check_register(&m2, &reps[2], fmt).map_err(|e| format!("after a fill: {e}"))?;
    Ok(())
}

fn c08_import(s: &mut Src, c: &mut Ctx) -> Res {
    c.label("import");
    let day = any_day(s);
    let Some(imp) = gen_import(s, c) else { return Ok(()) };
    let items = import_accounts(s, day, true, imp.formats);
    c.nontrivial = !imp.want.is_empty();
    for (p, t) in &imp.files {
        c.write(p, t);
    }
    let mut t = plain().journal(&items);
    if s.chance(1, 3) {
        t.pop();
        c.label("no newline at the end");
    }
    if s.chance(1, 4) {
        t = noisy(&t, s);
    }
    c.write(J, &t);
    let o = at(day);
    let mut args: Vec<&str> = imp.args.iter().map(|x| x.as_str()).collect();
    let fmt = fmt_of(&items);
    // with envelopes to fill, it's as if they were filled before
    let mut fill = None;
    let m0 = Model::of(&items, day);
    let both = s.chance(1, 3);
    if both {
        c.report(&["b", "-f", J], &o)?;
        fill = read_fill(&m0, &appended(&t, &c.read(J))?, fmt)?.1;
        c.label_if(fill.is_some(), "fill and import in one run");
        c.write(J, &t);
    } else {
        args.push("-n");
    }
    // an envelope may not be able to tell what to move
    let defs: Vec<(String, EnvDef)> = items.iter().filter_map(|i| if let Item::Acct(a) = i { Some(a) } else { None })
        .flat_map(|a| a.envs.iter().map(|e| (a.name.clone(), e.clone()))).collect();
    let bad = imp.want.iter().any(|(e, _)| defs.iter().any(|(a, d)| infers(a, d, e) == Some(None)));
    let out = c.run(&args, &o)?;
    if bad {
        c.label("refused by an envelope");
        if !out.refused() || (!both && c.read(J) != t) {
            return v("an import that an envelope can't take wasn't refused".into());
        }
        return Ok(());
    }
    if !out.ok() {
        return v(format!("the import failed: {:?}", out.stderr));
    }
    let added = appended(&t, &c.read(J))?;
    let got = parse::entries(&added, fmt).map_err(|e| format!("the import added {added:?}: {e}"))?;
    if got.len() != imp.want.len() + fill.iter().len() {
        return v(format!("{} entries were added, should be {} and {} to fill envelopes", got.len(), imp.want.len(), fill.iter().len()));
    }
    let mut m = m0;
    let mut t = t;
    if let Some(e) = &fill {
        m.entry(e);
        if !t.ends_with('\n') {
            t += "\n";
        }
        t += &plain().entry(e, final_format(&items));
    }
    for (e, _) in &imp.want {
        m.entry(e);
    }
    let r = super::core::reports(c, &o)?;
    check_balance(&m, &r[0]).map_err(|e| format!("after an import: {e}"))?;
    check_envelopes(&m, &r[1], &ALL).map_err(|e| format!("after an import: {e}"))?;
    check_register(&m, &r[2], fmt).map_err(|e| format!("after an import: {e}"))?;
    // the same by hand
    let mut by_hand = if t.ends_with('\n') { t.clone() } else { format!("{t}\n") };
    let f = final_format(&items);
    for (e, _) in &imp.want {
        by_hand += &plain().entry(e, f);
    }
    c.write(J, &by_hand);
    let r = super::core::reports(c, &o)?;
    check_envelopes(&m, &r[1], &ALL).map_err(|e| format!("the import written by hand: {e}"))?;
    check_register(&m, &r[2], fmt).map_err(|e| format!("the import written by hand: {e}"))?;
    Ok(())
}

/// Text that a csv file might contain.
fn wild(s: &mut Src) -> String {
    const PARTS: &[&str] = &[
        "a", "\n", "\r\n", "\r", "//", ";", "[", "]", "\"", "'", ",", "%", "%date%", "    assets:bank 5", "2020/01/01 * x", "\n2020/01/01 * x\n    assets:bank 5\n    income:job\n",
        "envelope assets:bank food 5", "account evil", "include evil", "-", "--", "5", "!", "@", "=", "\t", " ", "\u{0}", "\u{1b}[31m", "\u{85}", "\u{2028}", "é", "💰",
        "\n    assets:bank 1000", "*", "~", "?", "date_format %d", "\u{b}", "\u{feff}", "\u{a0}", "word", "Coffee", "(multiple)", "\\", "\n\n", "\n// ", "\n\t", "] [", "[]",
    ];
    let mut t = String::new();
    for _ in 0..s.weighted(&[1, 4, 4, 3, 2, 1, 1]) {
        t += s.pick(PARTS);
    }
    t
}

fn c19(s: &mut Src, c: &mut Ctx) -> Res {
    c.nontrivial = true;
    let day = any_day(s);
    let mut items = import_accounts(s, day, true, FORMATS.len());
    if s.chance(1, 2) {
        // (envelopes of another currency are more difficult)
        for i in items.iter_mut() {
            if let Item::Acct(a) = i {
                for e in a.envs.iter_mut() {
                    if s.chance(1, 3) {
                        e.amount.sym = Some("USD".into());
                        e.fors.clear();
                    }
                }
            }
        }
    }
    let mut t = plain().journal(&items);
    if s.chance(1, 3) {
        t.pop();
    }
    let fmt = FORMATS[s.below(5)];
    let n = 1 + size(s, 5, 40);
    let o = at(day);
    let definite = s.chance(1, 2);
    // (date, description, amount, payee, account, status, comment)
    let mut rows: Vec<Vec<String>> = vec![];
    for i in 0..n {
        let date = day.plus(-s.range(0, 500)).fmt(fmt);
        rows.push(vec![date, "Shop".into(), format!("{}", 1i64 << i), "Ferris".into(), "income:job".into(), "*".into(), "note".into()]);
    }
    let k = s.below(n);
    for r in rows.iter_mut() {
        if s.chance(1, 8) {
            for f in [1, 3, 6] {
                r[f] = s.pick(&["long ", "x", "Straße ", "a"]).repeat(size(s, 30, 120)).trim().to_string();
            }
        }
    }
    let mut rules = format!("fields date, description, amount, payee, account, status, comment\nskip 1\ndate_format {fmt}\naccount1 assets:cash\namount1 %amount%\naccount2 %account%\ndescription %description%\npayee %payee%\nstatus %status%\ncomment %comment%\n");
    let mut csv_bytes: Option<Vec<u8>> = None;
    let mut with_rules = true;
    let mut kind = "arbitrary text";
    // the account that takes the money has no envelopes, so that only the first posting matters
    for i in items.iter_mut() {
        if let Item::Acct(a) = i {
            if a.name == "assets:cash" {
                a.envs.clear();
            }
        }
    }
    t = if t.ends_with('\n') { plain().journal(&items) } else { plain().journal(&items).trim_end().to_string() };
    if definite {
        kind = *s.pick(&["bad date", "bad amount", "bad status", "undefined account", "number of fields", "not UTF-8", "envelope can't take it", "faulty rules", "no rules", "unbalanced", "unknown missing", "no such csv file", "wrong decimal symbol", "empty record"]);
        match kind {
            "bad date" if s.chance(1, 3) => {
                // a date, but written another way
                let others: Vec<&str> = FORMATS[..6].iter().filter(|f| **f != fmt).copied().collect();
                rows[k][0] = day.plus(-s.range(0, 500)).fmt(s.pick(&others));
            }
            "bad date" => rows[k][0] = s.pick(&["", "yesterday", "2020/13/01", "32.01.2020", "2020-02-30", "1", "2020/01/01x"]).to_string(),
            "empty record" => rows[k] = vec![s.pick(&["", "", " ", "-", "0"]).to_string(); 7],
            "bad amount" => rows[k][2] = s.pick(&["", "much", "-", "1.2.3", "5 5 5 5", "."]).to_string(),
            "bad status" => rows[k][5] = s.pick(&["", "x", "**", "cleared", "!"]).to_string(),
            "undefined account" => rows[k][4] = s.pick(&["expenses:nothing", "assets", "income:job2", "Income:job", "assets:bank:x"]).to_string(),
            "number of fields" => {
                if s.chance(1, 2) {
                    rows[k].pop();
                } else {
                    rows[k].push("more".into());
                }
            }
            "envelope can't take it" => {
                for i in items.iter_mut() {
                    if let Item::Acct(a) = i {
                        if a.name == "assets:cash" {
                            let sym = if s.chance(1, 2) { None } else { Some("EUR".to_string()) };
                            a.envs.push(EnvDef { goal: false, name: "e".into(), freq: Freq::NoDate, starting: None, amount: Amt { u: UNIT, sym }, fors: vec!["expenses:food".into()], fund: Fund::Unset });
                        }
                    }
                }
                t = plain().journal(&items);
                rows[k][4] = "expenses:food".into();
                rows[k][2] = "5 USD".into();
            }
            "faulty rules" => {
                let bad = *s.pick(&["nonsense 5\n", "amount1\n", "skip x\n", "decimal ..\n", "fields -\n", "include missing.rules\n", "if coffee\n    if tea\n", "fields date\n", "status\n"]);
                if bad != "fields date\n" && s.chance(1, 2) { rules += bad } else { rules = bad.to_string() + &rules };
            }
            "no rules" => with_rules = false,
            "unbalanced" => rules += "amount2 3.5\n",
            "unknown missing" => {
                rules = rules.replace("account2 %account%\n", "");
                items.retain(|i| !matches!(i, Item::Acct(a) if a.name == "income:unknown"));
                t = plain().journal(&items);
            }
            "wrong decimal symbol" => {
                rules += "decimal ,\n";
                rows[k][2] = "1,234,56".into();
            }
            _ => {}
        }
    } else {
        for _ in 0..1 + s.below(3) {
            let r = s.below(n);
            let f = *s.pick(&[1usize, 3, 6, 1, 3, 6, 4, 5, 0]);
            let x = wild(s);
            rows[r][f] = if s.chance(1, 2) { x } else { format!("{}{x}", rows[r][f]) };
        }
        if s.chance(1, 4) {
            rules += &format!("if {}\nzzz\n    description {}\n    comment -\n", s.pick(&["coffee", "a", "word"]), s.pick(&["%payee%", "%comment% %description%", "plain"]));
        }
    }
    if with_rules && kind != "faulty rules" && kind != "unknown missing" && kind != "envelope can't take it" && s.chance(1, 3) {
        // further postings, which add up to nothing
        let (x, y) = (s.range(1, 900), s.range(1, 900));
        c.label("more than 2 postings");
        if s.chance(1, 2) {
            rules += &format!("account3 expenses:rent\namount3 {x}\naccount4 expenses:unknown\namount4 -{x}\n");
        } else {
            rules += &format!("account3 expenses:rent\namount3 {x}\naccount4 expenses:food\namount4 {y}\naccount5 expenses:unknown\namount5 -{}\n", x + y);
        }
    }
    c.label(kind);
    let mut csv = String::from("date,description,amount,payee,account,status,comment\n");
    for r in &rows {
        let q: Vec<String> = r.iter().map(|x| quote(s, x)).collect();
        csv += &(q.join(",") + "\n");
    }
    if kind == "not UTF-8" {
        let mut b = csv.clone().into_bytes();
        let i = b.len() - 3 - s.below(b.len() / 2);
        b[i] = 0xff;
        csv_bytes = Some(b);
    }
    match csv_bytes {
        Some(b) => c.write_bytes("in.csv", &b),
        None if kind == "no such csv file" => {}
        None => c.write("in.csv", &csv),
    }
    if with_rules {
        c.write("in.csv.rules", &rules);
    }
    c.write(J, &t);
    let b0 = c.report(&["b", "-n", "-f", J], &o)?;
    let reg0 = c.report(&["r", "-n", "-f", J], &o)?;
    let before = snapshot(&c.r.dir);
    let out = c.run(&["i", "-n", "-f", J, "--csv", "in.csv"], &o)?;
    if definite {
        if !out.refused() {
            return v(format!("the import should have been refused ({kind}), but: {:?}, stdout {:?}, stderr {:?}", out.end, out.stdout, out.stderr));
        }
        if snapshot(&c.r.dir) != before {
            return v(format!("a refused import ({kind}) changed a file"));
        }
        return Ok(());
    }
    let after = snapshot(&c.r.dir);
    if !out.ok() {
        c.label("refused");
        if !out.refused() {
            return v(format!("the import ended with {:?}, stdout {:?}, stderr {:?}", out.end, out.stdout, out.stderr));
        }
        if after != before {
            return v("a refused import changed a file".into());
        }
        return Ok(());
    }
    c.label("accepted");
    let added = appended(&t, &c.read(J))?;
    let heads = added.split('\n').filter(|l| l.starts_with(|c: char| !c.is_whitespace())).count();
    if heads != n {
        return v(format!("the import of {n} records added {heads} entries: {added:?}"));
    }
    let b1 = c.report(&["b", "-n", "-f", J], &o)?;
    let (b0, b1) = (parse::balance(&b0)?, parse::balance(&b1)?);
    let get = |b: &parse::Bal| b.get("assets:cash").and_then(|p| p.get(&None)).copied().unwrap_or(0);
    let d = get(&b1) - get(&b0);
    // every record moves another power of two (unless its amount or account isn't its own anymore)
    let other_accounts = rows.iter().any(|r| r[4] != "income:job");
    let want = ((1i128 << n) - 1) * UNIT;
    if !other_accounts && d != want {
        return v(format!("the import of {n} records moved {}, should be {}", num(d), num(want)));
    }
    let reg1 = c.report(&["r", "-n", "-f", J], &o)?;
    let lines = |t: &str| t.split('\n').filter(|l| l.starts_with(|c: char| c.is_ascii_digit())).count();
    if !other_accounts && lines(&reg1) != lines(&reg0) + n {
        return v(format!("the register has {} lines after the import of {n} records, before it was {}", lines(&reg1), lines(&reg0)));
    }
    if s.chance(1, 8) {
        c.label("imported again");
        let t = c.read(J);
        let out = c.run(&["i", "-n", "-f", J, "--csv", "in.csv"], &o)?;
        if !out.ok() {
            return v(format!("the second import failed: {:?}", out.stderr));
        }
        let added = appended(&t, &c.read(J))?;
        let heads = added.split('\n').filter(|l| l.starts_with(|c: char| !c.is_whitespace())).count();
        if heads != n {
            return v(format!("the second import of {n} records added {heads} entries: {added:?}"));
        }
        c.report(&["b", "-n", "-f", J], &o)?;
    }
    Ok(())
}
