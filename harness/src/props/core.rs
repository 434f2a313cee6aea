//! Journals, amounts, entries and reports.

use super::*;
use crate::gen::*;
use std::fs;
use std::path::PathBuf;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C01", level: "exploration", quick: 60000, thorough: 1200000, run: c01,
            rule: "A random valid journal (accounts, envelopes, entries with several postings, currencies, costs, blanks, envelope postings, date formats, includes, notations) is reported by `balance` with and without --no-move and compared with the exact sums of the reference model. Non-trivial: at least 2 entries and an account with 2 or more postings.",
            assumptions: &["each account is declared once, before its use", "amounts of at most 17 significant digits; the tolerance is the rounding error bound of summing doubles"] },
        Prop { id: "C02", level: "exploration", quick: 80000, thorough: 1600000, run: c02,
            rule: "A random journal of single-currency entries; half of the cases get one entry put out of balance by changing, dropping or adding a posting, and one in 40 consists of very large amounts (up to 420 digits) that can't add up to zero. Balanced ones have to be accepted with totals of zero, others refused. Non-trivial: an unbalanced entry, or at least 2 balanced ones.",
            assumptions: &["imbalances below max(0.00000002, 1e-11 of the entry's volume) aren't generated: silverfox uses doubles"] },
        Prop { id: "C03", level: "exploration", quick: 22000, thorough: 440000, run: c03,
            rule: "A random journal with at least one blank posting is reported (balance, envelopes, register) as written and with the blank written out (computed by the model); also entries whose blank can't be inferred. Non-trivial: the inferred amount isn't zero, or a refusal is expected.",
            assumptions: &["`= total` is used with positive amounts only (its sign isn't documented for negative ones)"] },
        Prop { id: "C04", level: "exploration", quick: 45000, thorough: 900000, run: c04,
            rule: "A random valid journal, with one fault: an item of a listed kind of faults inserted at a random place, or one of its own entries or accounts broken (also in included files, up to 5 levels deep, with or without a newline at the end); every subcommand with and without --no-move. Non-trivial: always (the journal without the fault is accepted).",
            assumptions: &[] },
        Prop { id: "C05", level: "exploration", quick: 45000, thorough: 900000, run: c05,
            rule: "One random value (up to 8 decimals, up to 1e15) and several symbols, each in all notations, in postings, costs, assertions, envelope amounts and envelope postings; every report has to show the exact value. Non-trivial: always.",
            assumptions: &["symbols don't contain digits, dots, commas, minus signs, whitespace or comment markers", "values have at most 15 significant digits"] },
        Prop { id: "C06", level: "exploration", quick: 15000, thorough: 300000, run: c06,
            rule: "A random valid journal is reported as it is and with random comments, blank lines, whitespace, indentation and line endings added; the reports must be byte-identical. Non-trivial: the texts differ and there's at least one entry.",
            assumptions: &[] },
        Prop { id: "C07", level: "exploration", quick: 15000, thorough: 300000, run: c07,
            rule: "A random valid journal is reported with its entries permuted (equal balances and envelopes, sorted register), and with parts moved into nested included files (up to 12 levels) in several directories, or one part included several times (byte-identical reports). Non-trivial: a permutation that differs or at least one include.",
            assumptions: &["permuted journals have no balance assertions", "doubles: sums in another order may differ by their rounding error"] },
        Prop { id: "C20", level: "exploration", quick: 70000, thorough: 1400000, run: c20,
            rule: "A random valid journal in random date order; every line of the register is compared with the reference model. Non-trivial: at least 2 lines.",
            assumptions: &["stdout is a terminal (simulated)", "amounts below 1e7, so that rounding errors stay below 0.000000005"] },
        Prop { id: "C25", level: "exploration", quick: 17000, thorough: 340000, run: c25,
            rule: "A random journal in date order with balance assertions on random postings: all true (accepted, same reports as without them), or one of them off (refused by every subcommand). Non-trivial: at least one assertion.",
            assumptions: &["assertions are off by at least max(0.000002, 2e-9 of the balance)"] },
    ]
}

fn has_two_postings(m: &Model) -> bool {
    let n = |a: &str| m.entries.iter().map(|e| e.posts.iter().filter(|p| !p.is_env() && p.acct() == a).count()).sum::<usize>();
    m.entries.len() > 1 && m.bal.keys().any(|a| n(a) > 1)
}

fn c01(s: &mut Src, c: &mut Ctx) -> Res {
    let cf = cfg();
    let w = gen_world(s, &cf);
    let mut items = gen_items(s, &w, &cf);
    let twice = s.chance(1, 16);
    let files = if twice {
        c.label("a file that's included several times");
        let (all, _, split, part) = included_twice(s, &w, &cf, &items);
        items = all;
        vec![(J.to_string(), split), ("d/part.sfox".to_string(), part)]
    } else {
        vec![]
    };
    let m = Model::of(&items, w.day);
    labels(c, &m);
    c.nontrivial = has_two_postings(&m);
    let files = if twice {
        files
    } else if s.chance(1, 4) {
        c.label("includes");
        layout(s, &items)
    } else {
        put(c, s, &items);
        vec![]
    };
    for (p, t) in &files {
        c.write(p, t);
    }
    let out = c.report(&["b", "-n", "-f", J], &at(w.day))?;
    check_balance(&m, &out)?;
    if s.chance(1, 2) {
        // automatic fills don't change balances
        let out = c.report(&["balance", "--file", J], &at(w.day))?;
        check_balance(&m, &out)?;
    }
    Ok(())
}

/// The journal split up into files: parts move to included files, recursively.
pub fn layout(s: &mut Src, items: &[Item]) -> Vec<(String, String)> {
    fn go(s: &mut Src, chunks: &[String], path: &str, depth: usize, n: &mut usize, files: &mut Vec<(String, String)>) {
        let mut text = String::new();
        let mut i = 0;
        while i < chunks.len() {
            if (depth < 4 || depth < 12 && s.chance(1, 2)) && s.chance(1, 4) {
                let k = 1 + s.below((chunks.len() - i).min(6));
                *n += 1;
                let dir = path.rsplit_once('/').map(|x| x.0).unwrap_or("");
                let rel = match s.weighted(&[8, 8, 8, 8, 1, 1]) {
                    0 => format!("f{n}.sfox"),
                    1 => format!("d{}/f{n}.sfox", s.below(3)),
                    4 => format!("{}/f{n}", s.pick(&["~", "$HOME", "%d", "d0.sfox", "ünï", ".d", "account", "*", "http:", "a=b", "-n", "include", "[x]"])),
                    5 => format!("{}{n}", s.pick(&["f", "F.", ".f", "~", "-", "f.csv.", "é", "2020-"])),
                    2 => format!("d{}/e/f{n}.sfox", s.below(3)),
                    _ if !dir.is_empty() => format!("../f{n}.sfox"),
                    _ => format!("./f{n}.sfox"),
                };
                let mut parts: Vec<&str> = if dir.is_empty() { vec![] } else { dir.split('/').collect() };
                for x in rel.split('/') {
                    match x {
                        "." => {}
                        ".." => {
                            parts.pop();
                        }
                        x => parts.push(x),
                    }
                }
                let full = parts.join("/");
                text += &format!("include {rel}\n");
                go(s, &chunks[i..i + k], &full, depth + 1, n, files);
                i += k;
            } else {
                text += &chunks[i];
                i += 1;
            }
        }
        match s.weighted(&[12, 1, 1]) {
            0 => {}
            1 => text.truncate(text.trim_end().len()),
            _ => text = text.replace('\n', "\r\n"),
        }
        files.push((path.to_string(), text));
    }
    let chunks = plain().chunks(items);
    let mut files = vec![];
    go(s, &chunks, J, 0, &mut 0, &mut files);
    if s.chance(1, 20) {
        // a long chain of files
        let k = 1 + size(s, 20, 100);
        let main = files.iter().position(|f| f.0 == J).unwrap();
        let text = std::mem::take(&mut files[main].1);
        files[main].1 = "include c1.sfox\n".into();
        for i in 1..k {
            files.push((format!("c{i}.sfox"), format!("include c{}.sfox\n", i + 1)));
        }
        files.push((format!("c{k}.sfox"), text));
    }
    files
}

/// Some of the files of a layout are included by their absolute paths.
fn absolute(s: &mut Src, c: &mut Ctx, files: Vec<(String, String)>) -> Vec<(String, String)> {
    if !s.chance(1, 6) {
        return files;
    }
    let root = c.r.dir.clone();
    files
        .into_iter()
        .map(|(p, t)| {
            let dir = root.join(&p).parent().unwrap().to_path_buf();
            let mut out = String::new();
            for l in t.split_inclusive('\n') {
                match l.strip_prefix("include ") {
                    Some(x) if s.chance(1, 2) => {
                        c.label("an absolute path of an included file");
                        out += &format!("include {}/{x}", dir.display());
                    }
                    _ => out += l,
                }
            }
            (p, out)
        })
        .collect()
}

fn c02(s: &mut Src, c: &mut Ctx) -> Res {
    if s.chance(1, 40) {
        return c02_huge(s, c);
    }
    let mut cf = cfg();
    cf.mixed = false;
    cf.formats = s.chance(1, 4);
    let w = gen_world(s, &cf);
    let mut items = gen_items(s, &w, &cf);
    let break_it = s.chance(1, 2);
    if !break_it {
        let m = Model::of(&items, w.day);
        labels(c, &m);
        c.label("balanced");
        c.nontrivial = m.entries.len() > 1;
        put(c, s, &items);
        let out = c.report(&["b", "-n", "-f", J], &at(w.day))?;
        let b = parse::balance(&out)?;
        let mut want: Pool = Pool::new();
        let mut total: BTreeMap<Sym, i128> = BTreeMap::new();
        for p in m.bal.values() {
            for (y, q) in p {
                want.entry(y.clone()).or_default().join(q, 1);
            }
        }
        for (y, q) in want.iter_mut() {
            assert_eq!(q.u, 0, "model: {y:?}");
            // each reported number is rounded by itself
            q.n += m.bal.len() as i128;
        }
        for p in b.values() {
            for (y, u) in p {
                *total.entry(y.clone()).or_default() += u;
            }
        }
        same_pool("total of all accounts", &want, &total)?;
        return Ok(());
    }
    // an unbalanced entry, at any place
    let mut e = gen_entry(s, &w, &cf);
    if !e.posts.iter().any(|p| !p.is_env()) {
        e = Entry { posts: vec![Post::plain(&w.accts[0].name, Amt::new(0, &w.syms[0]))], ..e };
    }
    e = explicit(&e);
    let idx: Vec<usize> = (0..e.posts.len()).filter(|i| !e.posts[*i].is_env()).collect();
    let volume: i128 = e.posts.iter().map(|p| if let Post::Classic { amt: Some(a), .. } = p { a.u.abs() } else { 0 }).sum();
    let sy = symbols(&e).into_iter().next().unwrap();
    let least = (2i128).max(volume * 3 / 100_000_000_000);
    let delta = match s.below(5) {
        0 => least,
        1 => least * s.range(1, 100) as i128,
        2 => units(s, true).max(least),
        3 => UNIT.max(least),
        _ => (UNIT / 100).max(least),
    } * [1, -1][s.below(2)];
    match s.weighted(&[4, 2, 2]) {
        0 => {
            c.label("posting changed");
            let i = *s.pick(&idx);
            if let Post::Classic { amt: Some(a), .. } = &mut e.posts[i] {
                a.u += delta;
            }
        }
        1 => {
            c.label("posting added");
            let i = s.below(e.posts.len() + 1);
            e.posts.insert(i, Post::plain(&w.accts[s.below(w.accts.len())].name, Amt::new(delta, &sy)));
        }
        _ => {
            c.label("envelope posting makes up for it");
            let i = *s.pick(&idx);
            if let Post::Classic { amt: Some(a), .. } = &mut e.posts[i] {
                a.u += delta;
            }
            let env = w.accts.iter().find_map(|a| a.envs.iter().find(|x| x.amount.sym == sy).map(|x| (a.name.clone(), x.name.clone())));
            if let Some((acct, env)) = env {
                e.posts.push(Post::Env { acct, env, amt: Amt::new(-delta, &sy) });
            }
        }
    }
    let new_volume: i128 = e.posts.iter().map(|p| if let Post::Classic { amt: Some(a), .. } = p { a.u.abs() } else { 0 }).sum();
    if delta.abs() * 90_000_000_000 < new_volume {
        return Ok(());
    }
    c.nontrivial = true;
    c.label_if(delta.abs() < 100, "tiny imbalance");
    c.label_if(new_volume > 1_000_000 * UNIT, "large volume");
    c.label_if(idx.len() > 3, "more than 3 postings");
    let first = items.iter().rposition(|i| matches!(i, Item::Acct(_))).unwrap_or(0) + 1;
    let pos = first + s.below(items.len() + 1 - first);
    if s.chance(1, 4) {
        // what the accounts' balances would be isn't an excuse
        c.label("balance assertions");
        let m = Model::of(&items[..pos], w.day);
        let mut bal: BTreeMap<(String, Sym), i128> = BTreeMap::new();
        let all = s.chance(1, 2);
        for p in e.posts.iter_mut() {
            if let Post::Classic { acct, amt: Some(a), check, .. } = p {
                let u = bal.entry((acct.clone(), a.sym.clone())).or_insert(m.bal.get(acct).and_then(|p| p.get(&a.sym)).map(|q| q.u).unwrap_or(0));
                *u += a.u;
                if all || s.chance(1, 2) {
                    *check = Some(Amt { u: *u, sym: a.sym.clone() });
                }
            }
        }
    }
    items.insert(pos, Item::Entry(e));
    put(c, s, &items);
    let cmd = *s.pick(&["b", "e", "r"]);
    c.refusal(&[cmd, "-n", "-f", J], &at(w.day), "an entry isn't balanced")
}

/// An entry of very large amounts, one of which exceeds all of the others together.
fn c02_huge(s: &mut Src, c: &mut Ctx) -> Res {
    c.nontrivial = true;
    c.label("very large amounts");
    let most = s.range(2, 420) as usize;
    let number = |s: &mut Src, first: &str, n: usize| -> String {
        let mut t = first.to_string();
        while t.len() < n {
            t.push(*s.pick(&['0', '0', '9', '5', '1']));
        }
        t
    };
    let others = s.range(0, 3) as usize;
    let mut lines = vec![format!("a {}{}", s.pick(&["", "-"]), number(s, "9", most))];
    for i in 0..others {
        let n = (most - 1 - s.below((most - 1).min(8))).max(1);
        lines.push(format!("b{i} {}{}", s.pick(&["", "-"]), number(s, "1", n)));
    }
    let sym = *s.pick(&["", " USD", " €"]);
    s.shuffle(&mut lines);
    let mut text = "account a\naccount b0\naccount b1\naccount b2\n\n2020/03/04 * x\n".to_string();
    for l in lines {
        text.push_str(&format!("    {l}{sym}\n"));
    }
    c.write(J, &text);
    let cmd = *s.pick(&["b", "e", "r"]);
    c.refusal(&[cmd, "-n", "-f", J], &at(Date::new(2020, 5, 6)), "an entry isn't balanced")
}

pub fn reports(c: &mut Ctx, o: &Opts) -> Result<[String; 3], Fail> {
    Ok([c.report(&["b", "-n", "-f", J], o)?, c.report(&["e", "-n", "-f", J], o)?, c.report(&["r", "-n", "-f", J], o)?])
}

fn check_all(m: &Model, r: &[String; 3], fmt: &str) -> Result<(), String> {
    check_balance(m, &r[0])?;
    check_envelopes(m, &r[1], &ALL)?;
    check_register(m, &r[2], fmt)
}

fn c03(s: &mut Src, c: &mut Ctx) -> Res {
    let mut cf = cfg();
    cf.entries = 4;
    cf.big = false;
    let w = gen_world(s, &cf);
    let mut items = gen_items(s, &w, &cf);
    let accts = w.names();
    let acct = |s: &mut Src| s.pick(&accts).clone();
    // an account that's used once
    const ONLY: &str = "zz:only_once";
    items.insert(0, Item::Acct(AcctDef { name: ONLY.into(), envs: vec![] }));
    let first = items.iter().rposition(|i| matches!(i, Item::Acct(_))).unwrap_or(0) + 1;
    let pos = first + s.below(items.len() + 1 - first);
    let date = gen_date(s, &w, &cf);
    if s.chance(1, 3) {
        // a blank that can't be inferred
        let f1 = Some("BTC".to_string());
        let f2 = Some("ETH".to_string());
        let kind = s.below(6);
        let mut posts = match kind {
            0 => {
                c.label("two blanks");
                let mut v = vec![Post::blank(&acct(s)), Post::blank(&acct(s))];
                if s.chance(1, 3) {
                    // an assertion doesn't make up for an amount
                    v[0] = Post::Classic { acct: ONLY.into(), amt: None, cost: None, check: Some(Amt::new(0, s.pick(&[None, w.syms[0].clone()]))) };
                }
                let mut sum = 0;
                for _ in 0..s.below(3) {
                    let u = signed(s, false);
                    sum += u;
                    v.push(Post::plain(&acct(s), Amt::new(u, &w.syms[0])));
                }
                if s.chance(1, 2) {
                    v.push(Post::plain(&acct(s), Amt::new(-sum, &w.syms[0])));
                }
                for _ in 0..s.weighted(&[8, 1, 1]) {
                    v.push(Post::blank(&acct(s)));
                }
                s.shuffle(&mut v);
                v
            }
            1 => {
                c.label("nothing but a blank");
                let mut v = vec![Post::blank(&acct(s))];
                if s.chance(1, 2) {
                    v.extend(env_posting(s, &w, &cf));
                }
                v
            }
            2 => {
                c.label("no cost stated");
                let mut v = vec![Post::blank(&acct(s)), Post::plain(&acct(s), Amt::new(units(s, false), &f1)), Post::plain(&acct(s), Amt::new(signed(s, false), &None))];
                s.shuffle(&mut v);
                v
            }
            3 => {
                c.label("cost isn't native");
                let cost = Cost::Unit(Amt::new(units4(s), &f2));
                let mut v = vec![
                    Post::blank(&acct(s)),
                    Post::Classic { acct: acct(s), amt: Some(Amt::new(units4(s), &f1)), cost: Some(cost), check: None },
                    Post::plain(&acct(s), Amt::new(signed(s, false), &None)),
                ];
                s.shuffle(&mut v);
                v
            }
            4 => {
                c.label("two foreign currencies without costs");
                let mut v = vec![Post::blank(&acct(s)), Post::plain(&acct(s), Amt::new(units(s, false), &f1)), Post::plain(&acct(s), Amt::new(signed(s, false), &f2))];
                s.shuffle(&mut v);
                v
            }
            _ => {
                c.label("one of two costs isn't stated");
                let cost = Cost::Unit(Amt::new(units4(s), &None));
                let mut v = vec![
                    Post::blank(&acct(s)),
                    Post::Classic { acct: acct(s), amt: Some(Amt::new(units4(s), &f1)), cost: Some(cost), check: None },
                    Post::plain(&acct(s), Amt::new(units4(s), &f1)),
                    Post::plain(&acct(s), Amt::new(signed(s, false), &None)),
                ];
                s.shuffle(&mut v);
                v
            }
        };
        if kind > 1 && s.chance(1, 8) {
            c.label("more than 3 other postings");
            for _ in 0..s.range(4, 20) {
                posts.push(Post::plain(&acct(s), Amt::new(signed(s, false), &None)));
            }
            s.shuffle(&mut posts);
        }
        items.insert(pos, Item::Entry(Entry { date, status: '*', desc: "x".into(), payee: None, posts }));
        c.nontrivial = true;
        put(c, s, &items);
        let cmd = *s.pick(&["b", "e", "r"]);
        return c.refusal(&[cmd, "-n", "-f", J], &at(w.day), "a blank posting can't be inferred");
    }
    let mut e = gen_entry(s, &w, &cf);
    if blank_amount(&e).is_none() {
        e.posts.push(Post::plain(&acct(s), Amt::new(0, &None)));
        e.posts.retain(|p| p.is_env() || matches!(p, Post::Classic { amt: Some(a), .. } if a.sym.is_none()));
        e.posts.push(Post::blank(&acct(s)));
        settle(&mut e, &w);
    }
    if !e.posts.iter().any(|p| matches!(p, Post::Classic { amt: None, .. })) {
        // drop one amount: the entry stays the same if that one balances it
        let idx: Vec<usize> = (0..e.posts.len())
            .filter(|i| {
                let mut x = e.clone();
                if let Post::Classic { amt, cost, .. } = &mut x.posts[*i] {
                    *amt = None;
                    *cost = None;
                } else {
                    return false;
                }
                explicit(&x).posts.get(*i).is_some_and(|p| match (p, &e.posts[*i]) {
                    (Post::Classic { amt: Some(a), .. }, Post::Classic { amt: Some(b), cost: None, .. }) => a == b,
                    _ => false,
                })
            })
            .collect();
        if idx.is_empty() {
            e.posts = vec![Post::plain(&acct(s), Amt::new(signed(s, false), &w.syms[0])), Post::blank(&acct(s))];
        } else {
            let i = idx[s.below(idx.len())];
            if let Post::Classic { amt, .. } = &mut e.posts[i] {
                *amt = None;
            }
        }
        settle(&mut e, &w);
    }
    if s.chance(1, 3) {
        // a cost and an assertion next to each other
        c.label("cost and assertion");
        let f = Some("BTC".to_string());
        let u = units4(s) * [1, -1][s.below(2)];
        let cost = if u > 0 && s.chance(1, 2) { Cost::Total(Amt { u: units4(s), sym: None }) } else { Cost::Unit(Amt { u: units4(s), sym: None }) };
        let check = Some(Amt::new(u, s.pick(&[f.clone(), None])));
        let mut posts = vec![Post::Classic { acct: ONLY.into(), amt: Some(Amt::new(u, &f)), cost: Some(cost), check }, Post::plain(&acct(s), Amt::new(signed(s, false), &None)), Post::blank(&acct(s))];
        s.shuffle(&mut posts);
        let mut x = Entry { date, status: '*', desc: "both".into(), payee: None, posts };
        settle(&mut x, &w);
        items.insert(pos, Item::Entry(x));
    }
    let b = blank_amount(&e);
    c.nontrivial = b.as_ref().is_some_and(|b| b.u != 0);
    c.label_if(symbols(&e).len() > 1, "blank in mixed currencies");
    c.label_if(e.posts.iter().any(|p| p.is_env()), "blank next to envelope postings");
    c.label_if(matches!(e.posts[0], Post::Classic { amt: None, .. }), "first posting is blank");
    items.insert(pos, Item::Entry(e));
    let m = Model::of(&items, w.day);
    let fmt = fmt_of(&items);
    put(c, s, &items);
    let r1 = reports(c, &at(w.day))?;
    let full: Vec<Item> = items.iter().map(|i| if let Item::Entry(e) = i { Item::Entry(explicit(e)) } else { i.clone() }).collect();
    c.write(J, &plain().journal(&full));
    let r2 = reports(c, &at(w.day))?;
    check_all(&m, &r2, fmt).map_err(|e| format!("written out: {e}"))?;
    check_all(&m, &r1, fmt).map_err(|e| format!("with blanks: {e}"))?;
    Ok(())
}

/// A word of the program's own, or a valid one with a slip, that isn't one of the valid ones.
fn wrong_word(s: &mut Src, valid: &[&str], usual: &[&str]) -> String {
    let fits = |w: &str| !w.is_empty() && !w.contains(|c: char| c.is_whitespace() || c.is_ascii_digit()) && text_like(w) && !valid.contains(&w);
    let x = match s.weighted(&[4, 3, 3]) {
        0 => return s.pick(usual).to_string(),
        1 => s.word(fits, usual[0]),
        _ => {
            let w = *s.pick(valid);
            match s.below(6) {
                0 => format!("{w}s"),
                1 => w.to_uppercase(),
                2 => w.chars().skip(1).collect(),
                3 => w.chars().take(w.chars().count() - 1).collect(),
                4 => format!("{w}{w}"),
                _ => format!("x{w}"),
            }
        }
    };
    if fits(&x) { x } else { usual[0].to_string() }
}

/// A date in another format that isn't one in this format.
fn other_format(s: &mut Src, fmt: &str) -> String {
    let f = FORMATS[s.below(FORMATS.len())];
    let x = Date::new(2021, 12, 28).fmt(f);
    let slashes = ["%Y/%m/%d", "%d/%m/%y", "%m/%d/%Y"];
    if Date::parse(&x, fmt).is_some() || slashes.contains(&fmt) && slashes.contains(&f) || fmt.contains("%Y%m") || f.contains("%Y%m") || fmt.contains("%j") || f.contains("%j") || fmt.contains('.') && f.contains('.') {
        "?".to_string()
    } else {
        x
    }
}

/// One faulty piece of journal, and what's wrong with it.
pub fn gen_fault(s: &mut Src, w: &World, items: &[Item], pos: usize) -> (&'static str, Vec<u8>) {
    let fmt = FORMATS[final_format(&items[..pos])];
    let a = w.accts[s.below(w.accts.len())].name.clone();
    let b = w.accts[s.below(w.accts.len())].name.clone();
    let d = w.day.plus(-s.range(0, 400)).fmt(fmt);
    let envs: Vec<(String, EnvDef)> = w.accts.iter().flat_map(|a| a.envs.iter().map(|e| (a.name.clone(), e.clone()))).collect();
    let n = s.range(1, 500);
    let undefined = || -> String {
        // close to a defined one, but not the same
        let mut x = a.clone();
        for _ in 0..5 {
            x.push('_');
            if !w.accts.iter().any(|y| y.name == x) {
                break;
            }
        }
        x
    };
    let undefined = match s.below(4) {
        0 => undefined(),
        1 if a.to_uppercase() != a => a.to_uppercase(),
        2 => format!("x:{a}"),
        _ => "expenses:nowhere".to_string(),
    };
    let undefined = if w.accts.iter().any(|y| y.name == undefined) { "expenses:nowhere".to_string() } else { undefined };
    let mid = s.chance(1, 2); // a second entry follows
    let tail = if mid { format!("{d} * after\n    {a} 1\n    {b} -1\n") } else { String::new() };
    let acc = format!("account zz:new\n");
    let t = |k: &'static str, text: String| (k, (text + &tail).into_bytes());
    match s.below(28) {
        0 => {
            let posts = match s.below(6) {
                0 => format!("    {a} {n}\n    {undefined} -{n}\n"),
                1 => format!("    {undefined} {n}\n    {a} -{n}\n"),
                2 => format!("    {a} {n}\n    {undefined} 0\n    {b} -{n}\n"),
                3 => format!("    {undefined} 3 BTC @ 2\n    {a} 4\n    {b} -10\n"),
                4 => format!("    {a} {n} BTC\n    {undefined} -{n} BTC ! -{n}\n"),
                _ => format!("    {a} {n}\n    {b} -{n}\n    {a} {n}\n    {b} -{n}\n    {undefined} 0.00\n"),
            };
            t("undefined account", format!("{d} * x\n{posts}"))
        }
        1 => t("undefined account of a blank posting", format!("{d} * x\n    {undefined}\n    {a} -{n}\n")),
        2 => t("no status", format!("{d} Groceries today\n    {a} {n}\n    {b} -{n}\n")),
        3 => t("nothing but a date", format!("{d}\n    {a} {n}\n    {b} -{n}\n")),
        4 => {
            let st = wrong_word(s, &["*", "~", "?"], &["!", "x", "**", "*x", "?~", "cleared", "-", "[", "#"]);
            t("unknown status", format!("{d} {st} Groceries\n    {a} {n}\n    {b} -{n}\n"))
        }
        5 => {
            let bad = match s.below(5) {
                0 => Date::new(2021, 12, 28).fmt(fmt).replace("2021", "twenty").replace("21", "tt"),
                1 => format!("{d}x"),
                2 => "today".to_string(),
                3 if fmt == "%Y/%m/%d" => s.pick(&["2021/02/29", "2021/13/01", "2021/00/10", "2021/4/31", "2021/1/32", "2021-01-05", "2021/1"]).to_string(),
                _ => other_format(s, fmt),
            };
            t("bad date", format!("{bad} * x\n    {a} {n}\n    {b} -{n}\n"))
        }
        6 => {
            let bad = *s.pick(&["abc", "USD", "1.2.3", "5 5 5", "1-2", "-", ".", "$", "12 a b"]);
            t("bad amount", format!("{d} * x\n    {a} {bad}\n    {b}\n"))
        }
        7 => {
            let op = *s.pick(&["@", "=", "!"]);
            let bad = *s.pick(&["abc", "", "1.2.3", "5 5 5", "-"]);
            t("bad cost or assertion", format!("{d} * x\n    {a} {n} BTC {op} {bad}\n    {b} -{n} BTC\n"))
        }
        8 => t("unclosed bracket", format!("{d} * Groceries {}\n    {a} {n}\n    {b} -{n}\n", s.pick(&["[Shop", "[", "x] [Shop", "a [b c"]))),
        9 => t("blank account definition", "account\n".to_string()),
        10 => t("account name with spaces", "account assets my bank\n".to_string()),
        11 => t("unknown envelope type", format!("{acc}    {} rent due every 5th\n        amount 5\n", wrong_word(s, &["expense", "goal"], &["bill", "expenses", "goals", "Expense", "saving"]))),
        12 => t("no due date", format!("{acc}    expense rent {}\n        amount 5\n", s.pick(&["", "every 5th", "due", "monthly", "due:every 5th", "by"]))),
        13 if s.chance(1, 2) => {
            const DAYS: &[&str] = &["monday", "tuesday", "wednesday", "thursday", "friday", "saturday", "sunday", "mon", "tue", "wed", "thu", "fri", "sat", "sun", "year", "other"];
            let mut x = wrong_word(s, DAYS, &["day", "moon", "mont", "months", "years"]);
            if DAYS.contains(&x.to_lowercase().as_str()) {
                x = "moon".into();
            }
            let st = if s.chance(1, 2) { format!(" starting {d}") } else { String::new() };
            t("bad frequency", format!("{acc}    expense rent due every {}{x}{st}\n        amount 5\n", s.pick(&["", "other "])))
        }
        13 if s.chance(1, 3) => {
            let x = other_format(s, fmt);
            t("bad frequency", format!("{acc}    goal trip {} {x}\n        amount 5\n", s.pick(&["by", "due", "due by"])))
        }
        13 => t("bad frequency", format!("{acc}    expense rent due {}\n        amount 5\n", s.pick(&["every", "every day", "every moon", "sometimes", "every other day starting 2020/01/01", "5th"]))),
        14 => t("every other without starting", format!("{acc}    expense rent due every other {}\n        amount 5\n", s.pick(&["Monday", "15th"]))),
        15 => t("every year without starting", format!("{acc}    goal rent by every year\n        amount 5\n")),
        16 => {
            let freq = match s.below(7) {
                0 => "due every 5th".to_string(),
                1 => "no date".to_string(),
                2 => "by every monday".to_string(),
                3 => "due every other friday".to_string(),
                4 => "due by every other 3rd".to_string(),
                5 => "due every year".to_string(),
                _ => format!("by {d}"),
            };
            let bad = match s.below(8) {
                0 => "soon".to_string(),
                6 | 7 => other_format(s, fmt),
                1 => "tomorrow".to_string(),
                2 => "x".to_string(),
                3 => "99".to_string(),
                4 => format!("{d}x"),
                _ => format!("the {d}"),
            };
            t("bad starting date", format!("{acc}    {} rent {freq} starting {bad}\n        amount 5\n", s.pick(&["expense", "goal"])))
        }
        17 if s.chance(1, 2) => t("unknown envelope property", format!("{acc}    expense rent due every 5th\n        {} 5\n", wrong_word(s, &["amount", "for", "funding"], &["price", "starting"]))),
        17 => t("unknown envelope property", format!("{acc}    expense rent due every 5th\n        {}\n", s.pick(&["price 5", "amounts 5", "fund aggressive", "note hello", "For x"]))),
        18 => t("envelope property without value", format!("{acc}    expense rent due every 5th\n        {}\n", s.pick(&["amount", "for", "funding"]))),
        19 => t("bad envelope amount", format!("{acc}    expense rent due every 5th\n        amount {}\n", s.pick(&["lots", "1.2.3", "5 5 5", "USD"]))),
        20 => t("bad funding", format!("{acc}    expense rent due every 5th\n        amount 5\n        funding {}\n", wrong_word(s, &["manual", "aggressive", "conservative"], &["fast", "Aggressive", "aggressive now", "conservativ", "none", "auto", "off"]))),
        21 => t("`for` with spaces", format!("{acc}    expense rent due every 5th\n        amount 5\n        for a b\n")),
        22 => {
            let (k, l) = (*s.pick(&["expense", "goal"]), *s.pick(&["expense", "goal"]));
            t("duplicate envelope", format!("{acc}    {k} rent due every 5th\n        amount 5\n    expense other no date\n        amount 1\n    {l} rent due every 6th\n        amount 7\n"))
        }
        23 => t("directive without value", format!("{}\n", s.pick(&["include", "date_format", "currency"]))),
        24 => t("missing include", format!("include {}\n", s.pick(&["missing.sfox", "nodir/missing.sfox", "../missing.sfox", "."]))),
        25 => t("includes itself", format!("include {J}\n")),
        26 => {
            if envs.is_empty() {
                return t("envelope posting without envelope", format!("{d} * x\n    envelope {a}\n"));
            }
            let (ea, e) = envs[s.below(envs.len())].clone();
            match s.below(6) {
                0 => t("envelope posting to an undefined account", format!("{d} * x\n    envelope {undefined} {} {n}\n", e.name)),
                1 => t("envelope posting without envelope", format!("{d} * x\n    envelope {ea}\n")),
                2 => t("envelope posting without amount", format!("{d} * x\n    envelope {ea} {}\n", e.name)),
                3 => t("envelope posting with bad amount", format!("{d} * x\n    envelope {ea} {} much\n", e.name)),
                4 => t("envelope posting without account", format!("{d} * x\n    envelope\n")),
                _ => {
                    let other = if e.amount.sym.is_none() { "XYZ" } else { "" };
                    t("envelope posting in another currency", format!("{d} * x\n    envelope {ea} {} {n} {other}\n", e.name))
                }
            }
        }
        _ => {
            let mut x = format!("{d} * caf").into_bytes();
            x.extend([0xe9, b'\n']);
            x.extend(format!("    {a} {n}\n    {b} -{n}\n{tail}").into_bytes());
            ("not UTF-8", x)
        }
    }
}

/// An entry or account of the journal itself, with something broken in it.
fn break_item(s: &mut Src, w: &World, items: &[Item], pos: usize) -> Option<(&'static str, String)> {
    let f = final_format(&items[..pos]);
    const GONE: &str = "expenses:nowhere_at_all";
    match &items[pos] {
        Item::Entry(e) => {
            let mut e = e.clone();
            if e.posts.is_empty() {
                return None;
            }
            let i = s.below(e.posts.len());
            let bare = s.chance(1, 4); // a header is all there is
            let text = |e: &Entry| plain().entry(e, f);
            // (its lines: the header, then one per posting)
            let with_line = |e: &Entry, n: usize, g: &dyn Fn(&str) -> String| -> String {
                text(e).lines().enumerate().filter(|(k, _)| !bare || n > 0 || *k == 0).map(|(k, l)| if k == n { g(l) } else { l.to_string() } + "\n").collect()
            };
            match s.below(8) {
                0 | 1 => {
                    let gone = if s.chance(1, 2) { GONE.to_string() } else { format!("{}{}", e.posts[i].acct(), s.pick(&["_", "2", ":x", "é", "."])) };
                    if w.accts.iter().any(|a| a.name == gone) {
                        return None;
                    }
                    match &mut e.posts[i] {
                        Post::Classic { acct, .. } => *acct = gone,
                        Post::Env { acct, .. } => *acct = gone,
                    }
                    Some(("a posting of an entry goes to an undefined account", text(&e)))
                }
                2 => {
                    let bad = s.pick(&["x", "$", "1.2.3", "--", "-", "."]).to_string();
                    match &e.posts[i] {
                        Post::Classic { acct, .. } => {
                            let line = format!("    {acct} {bad}");
                            Some(("a posting's amount can't be parsed", with_line(&e, i + 1, &|_| line.clone())))
                        }
                        Post::Env { acct, env, .. } => {
                            let line = format!("    envelope {acct} {env} {bad}");
                            Some(("an envelope posting's amount can't be parsed", with_line(&e, i + 1, &|_| line.clone())))
                        }
                    }
                }
                3 => {
                    let d = e.date.fmt(FORMATS[f]);
                    Some(("an entry's status is missing", with_line(&e, 0, &|l| format!("{d} x{}", l[d.len() + 2..].trim_start()))))
                }
                4 => {
                    let st = wrong_word(s, &["*", "~", "?"], &["!", "x", "**", "*x"]);
                    let d = e.date.fmt(FORMATS[f]);
                    Some(("an entry's status is unknown", with_line(&e, 0, &|l| format!("{d} {st}{}", &l[d.len() + 2..]))))
                }
                5 => {
                    e.payee = None;
                    if e.desc.contains(['[', ']']) {
                        return None;
                    }
                    let more = s.pick(&[" [Shop", " [", "[x", " [a b c", " [[x", " ] [y"]).to_string();
                    Some(("a payee's bracket isn't closed", with_line(&e, 0, &|l| format!("{l}{more}"))))
                }
                6 => {
                    let d = e.date.fmt(FORMATS[f]);
                    let bad = match s.below(3) {
                        0 => d.replace(|c: char| c.is_ascii_digit(), "z"),
                        1 => format!("{d}-"),
                        _ => format!("{}{d}", s.pick(&["z", "/", "*"])),
                    };
                    if bad == d || bad.starts_with("//") || bad.contains(";") {
                        return None;
                    }
                    Some(("an entry's date can't be parsed", with_line(&e, 0, &|l| format!("{bad}{}", &l[d.len()..]))))
                }
                _ => {
                    // a second blank posting
                    e.posts.retain(|p| !matches!(p, Post::Classic { amt: None, .. }));
                    for _ in 0..2 {
                        let i = s.below(e.posts.len() + 1);
                        e.posts.insert(i, Post::blank(&w.accts[s.below(w.accts.len())].name));
                    }
                    Some(("an entry has two blank postings", text(&e)))
                }
            }
        }
        Item::Acct(a) if !a.envs.is_empty() => {
            let mut a = a.clone();
            let i = s.below(a.envs.len());
            let text = plain().account(&a, f);
            let lines: Vec<&str> = text.lines().collect();
            match s.below(5) {
                0 | 1 => {
                    let mut e = a.envs[i].clone();
                    e.goal = s.chance(1, 2);
                    if s.chance(1, 2) {
                        (e.freq, e.starting) = gen_freq(s, w.day);
                    }
                    if s.chance(1, 3) {
                        let again = AcctDef { name: a.name.clone(), envs: vec![e] };
                        return Some(("an account is defined again with the same envelope", text + &plain().account(&again, f)));
                    }
                    let at = s.below(a.envs.len() + 1);
                    a.envs.insert(at, e);
                    Some(("an account has two envelopes of the same name", plain().account(&a, f)))
                }
                2 => {
                    // a word too much or too little somewhere in a property
                    let k: Vec<usize> = (1..lines.len()).filter(|k| lines[*k].starts_with("        ")).collect();
                    let k = *s.pick(&k);
                    let key = lines[k].split_whitespace().next().unwrap();
                    let bad = match s.below(3) {
                        0 => format!("        {key}"),
                        1 => format!("        {key} a b c"),
                        _ => format!("        {} 5", wrong_word(s, &["amount", "for", "funding"], &["price", "starting"])),
                    };
                    let t = lines.iter().enumerate().map(|(n, l)| if n == k { &bad[..] } else { l }).collect::<Vec<_>>().join("\n") + "\n";
                    Some(("an envelope's property can't be read", t))
                }
                3 => {
                    let k: Vec<usize> = (1..lines.len()).filter(|k| !lines[*k].starts_with("        ")).collect();
                    let k = *s.pick(&k);
                    let words: Vec<&str> = lines[k].split_whitespace().collect();
                    let bad = match s.below(4) {
                        0 => format!("    {} {}", words[0], words[1]),
                        1 => format!("    {}", words[0]),
                        2 => format!("    {} {} due every other 15th", words[0], words[1]),
                        _ => format!("    {} {} due whenever", words[0], words[1]),
                    };
                    let t = lines.iter().enumerate().map(|(n, l)| if n == k { &bad[..] } else { l }).collect::<Vec<_>>().join("\n") + "\n";
                    Some(("an envelope's due date can't be read", t))
                }
                _ => Some(("an account's name has spaces", text.replacen("account ", "account x ", 1))),
            }
        }
        Item::Acct(a) => Some(match s.below(2) {
            0 => ("an account has no name", "account\n".to_string()),
            _ => ("an account's name has spaces", format!("account {} x\n", a.name)),
        }),
        Item::Format(_) => Some(("date_format without a value", "date_format\n".to_string())),
        Item::Raw(_) => None,
    }
}

fn c04(s: &mut Src, c: &mut Ctx) -> Res {
    let mut cf = cfg();
    cf.entries = 4;
    cf.funded = true;
    cf.rich = s.chance(1, 2);
    let w = gen_world(s, &cf);
    let items = gen_items(s, &w, &cf);
    let first = items.iter().rposition(|i| matches!(i, Item::Acct(_))).unwrap_or(0) + 1;
    let good = plain().chunks(&items);
    // (where it begins, where what follows begins)
    let (kind, mut bad, pos, rest) = if s.chance(1, 3) {
        let pos = s.below(items.len());
        match break_item(s, &w, &items, pos) {
            Some((kind, t)) => (kind, t.into_bytes(), pos, pos + 1),
            None => return Ok(()),
        }
    } else {
        let pos = if s.chance(1, 8) { s.below(items.len() + 1) } else { first + s.below(items.len() + 1 - first) };
        let (kind, bad) = gen_fault(s, &w, &items, pos);
        (kind, bad, pos, pos)
    };
    c.label(kind);
    c.nontrivial = true;
    let mut text: Vec<u8> = good[..pos].concat().into_bytes();
    if s.chance(1, 4) {
        c.label("in an included file");
        let depth = 1 + s.weighted(&[6, 3, 2, 1, 1]);
        c.label_if(depth > 1, "in a file that an included file includes");
        if kind == "includes itself" {
            bad = format!("include {}j.sfox\n", "../".repeat(depth)).into_bytes();
        }
        // what's in the included files besides
        let (mut from, mut to) = (pos, rest);
        let mut path = "sub/".repeat(depth) + "inc.sfox";
        for level in (1..=depth).rev() {
            let (f, t) = (from - s.below((from + 1).min(3)), to + s.below((good.len() - to + 1).min(3)));
            let mut x: Vec<u8> = good[f..from].concat().into_bytes();
            x.extend(&bad);
            x.extend(good[to..t].concat().into_bytes());
            (from, to) = (f, t);
            if s.chance(1, 3) {
                while x.last() == Some(&b'\n') {
                    x.pop();
                }
            }
            c.write_bytes(&path, &x);
            bad = b"include sub/inc.sfox\n".to_vec();
            path = "sub/".repeat(level - 1) + "inc.sfox";
        }
        text = good[..from].concat().into_bytes();
        text.extend(bad);
        text.extend(good[to..].concat().into_bytes());
    } else {
        text.extend(bad);
        text.extend(good[rest..].concat().into_bytes());
    }
    if s.chance(1, 8) {
        while text.last() == Some(&b'\n') {
            text.pop();
        }
    }
    c.write_bytes(J, &text);
    let acct = &w.accts[0].name;
    c.write("c.csv", "date,description,amount\n2020/01/02,Shop,5\n");
    c.write("c.csv.rules", &format!("fields date, description, amount\naccount1 {acct}\naccount2 {acct}\namount1 %amount%\n"));
    let o = at(w.day);
    let before = snapshot(&c.r.dir);
    let cmds: [&[&str]; 10] = [&["b"], &["e"], &["r"], &["b", "-n"], &["e", "-n"], &["r", "-n"], &["i", "--csv", "c.csv"], &["i", "--csv", "c.csv", "-n"], &["n"], &["s"]];
    let k = s.below(cmds.len());
    for cmd in [cmds[k], cmds[(k + 1 + s.below(8)) % 10]] {
        let mut a = cmd.to_vec();
        a.extend(["-f", J]);
        c.refusal(&a, &o, kind)?;
        if snapshot(&c.r.dir) != before {
            return v(format!("a file changed although the journal is invalid ({kind})"));
        }
    }
    Ok(())
}

fn c05(s: &mut Src, c: &mut Ctx) -> Res {
    c.nontrivial = true;
    let day = any_day(s);
    let y = sym(s);
    // up to 15 significant digits
    let u = match s.below(6) {
        0 => s.range(1, 999) as i128 * UNIT,
        1 => s.range(1, 99_999_999) as i128,
        2 => s.range(1, 999_999_999_999_999) as i128,
        3 => s.range(1, 999_999) as i128 * UNIT / 100,
        4 => s.range(1, 999_999_999_999) as i128 * 1000 * UNIT,
        _ => s.range(1000, 999_999_999) as i128 * UNIT / 10,
    };
    let u = if s.chance(1, 2) { -u } else { u };
    let a = Amt::new(u, &y);
    c.label_if(u % 1000 != 0, "more than 5 decimals");
    c.label_if(u.abs() > 1_000_000 * UNIT, "more than a million");
    let mut i = 1 + s.below(SYMS.len() - 1);
    if y.as_deref() == Some(SYMS[i]) {
        i = if i + 1 < SYMS.len() { i + 1 } else { 1 };
    }
    let other: Sym = Some(SYMS[i].to_string());
    let k = 6;
    let mut text = String::from("account x\n");
    let mut names = vec![];
    {
        let mut st = Sty { s: Some(s) };
        let pos = a.u.abs();
        let t = Amt::new(pos, &y);
        let shown = st.amount(&t);
        text += &format!("account assets:e\n    expense ev no date\n        amount {shown}\n    goal gl due every 1st\n        amount {}\n", st.amount(&t));
        for i in 0..k {
            text += &format!("account n{i}\n");
            names.push(format!("n{i}"));
        }
        for n in ["cost", "ass", "mix", "zero"] {
            text += &format!("account {n}\n");
        }
        for n in &names {
            text += &format!("2020/01/01 * x\n    {n}    {}\n    x\n", st.amount(&a));
        }
        // in costs: one foreign unit costs the amount. (only native costs matter)
        if y.is_none() {
            text += &format!("2020/01/01 * x\n    x  1 {} @ {}\n    x  0\n    cost\n", other.clone().unwrap(), st.amount(&a));
            if u > 0 {
                text += &format!("2020/01/01 * x\n    x  3 {} = {}\n    x  0\n    cost\n", other.clone().unwrap(), st.amount(&a));
            }
        }
        // in assertions
        text += &format!("2020/01/01 * x\n    ass {} ! {}\n    x\n", st.amount(&a), st.amount(&a));
        // never mixed with another symbol
        let o = Amt::new(UNIT, &other);
        text += &format!("2020/01/01 * x\n    mix {}\n    mix {}\n    mix {}\n    x {}\n", st.amount(&a), st.amount(&o), st.amount(&a), st.amount(&o));
        // twice the same in different notations cancels out
        text += &format!("2020/01/01 * x\n    zero {}\n    zero {}\n", st.amount(&a), st.amount(&a.neg()));
        // in envelope postings
        text += &format!("2020/01/01 * x\n    envelope assets:e ev {}\n", st.amount(&a));
    }
    c.write(J, &text);
    let o = at(day);
    let out = c.report(&["b", "-n", "-f", J], &o)?;
    let b = parse::balance(&out)?;
    let get = |acct: &str, y: &Sym| b.get(acct).and_then(|p| p.get(y)).copied().unwrap_or(0);
    let close = |g: i128, w: i128| (g - w).abs() as f64 <= (w.abs() as f64) * 4e-16 + 0.49;
    for n in &names {
        if !close(get(n, &y), u) || b.get(n).is_some_and(|p| p.len() != 1) {
            return v(format!("{n} is {:?}, should be {} {}", b.get(n), num(u), show(&y)));
        }
    }
    if y.is_none() {
        let want = if u > 0 { -2 * u } else { -u };
        if !close(get("cost", &y), want) {
            return v(format!("a cost of {} counts as {}", num(want), num(get("cost", &y))));
        }
    }
    if !close(get("ass", &y), u) || !close(get("mix", &y), 2 * u) || get("mix", &other) != UNIT || b.get("mix").is_some_and(|p| p.len() != 2) || get("zero", &y) != 0 {
        return v(format!("amounts of {} {}: {:?} {:?} {:?}", num(u), show(&y), b.get("ass"), b.get("mix"), b.get("zero")));
    }
    let out = c.report(&["e", "-n", "-f", J], &o)?;
    let e = parse::envelopes(&out)?;
    let Some(acct) = e.get("assets:e") else { return v("no envelopes are shown".into()) };
    for r in &acct.envs {
        if r.target.sym != y || !close(r.target.u, u.abs()) {
            return v(format!("envelope {} has the amount {:?}, should be {} {}", r.name, r.target, num(u.abs()), show(&y)));
        }
        if r.name == "ev" && (r.next.sym != y || !close(r.next.u, u)) {
            return v(format!("an envelope posting of {} {} moved {:?}", num(u), show(&y), r.next));
        }
    }
    let want: Pool = [(y.clone(), Sum { u: -u, abs: u.abs(), n: 1 })].into_iter().collect();
    same_pool("available money", &want, &acct.available)?;
    Ok(())
}

fn c06(s: &mut Src, c: &mut Ctx) -> Res {
    let cf = cfg();
    let w = gen_world(s, &cf);
    let items = gen_items(s, &w, &cf);
    let m = Model::of(&items, w.day);
    labels(c, &m);
    let files = if s.chance(1, 4) {
        c.label("includes");
        layout(s, &items)
    } else {
        vec![(J.to_string(), plain().journal(&items))]
    };
    for (p, t) in &files {
        c.write(p, t);
    }
    let r1 = reports(c, &at(w.day))?;
    for (p, t1) in &files {
        let t2 = noisy(t1, s);
        c.nontrivial |= *t1 != t2 && !m.entries.is_empty();
        c.label_if(t2.contains("\r\n"), "windows line endings");
        c.write(p, &t2);
    }
    let r2 = reports(c, &at(w.day))?;
    for i in 0..3 {
        if r1[i] != r2[i] {
            return v(format!("comments or whitespace changed the {} report", ["balance", "envelopes", "register"][i]));
        }
    }
    Ok(())
}

/// The items with the same two entries in several places (and the same date format throughout), as one file
/// and with the two entries in a file `d/part.sfox` that is included in these places.
fn included_twice(s: &mut Src, w: &World, cf: &Cfg, items: &[Item]) -> (Vec<Item>, String, String, String) {
    let mut items = items.to_vec();
    items.retain(|i| !matches!(i, Item::Format(_)));
    let first = items.iter().rposition(|i| matches!(i, Item::Acct(_))).unwrap_or(0) + 1;
    let part = vec![Item::Entry(gen_entry(s, w, cf)), Item::Entry(gen_entry(s, w, cf))];
    let chunks = |items: &[Item]| plain().chunks(items).concat();
    let mut main = chunks(&items[..first]);
    let mut all = items[..first].to_vec();
    let mut split = main.clone();
    for i in first..items.len() + 2 {
        if i >= items.len() || s.chance(1, 3) {
            all.extend(part.clone());
            main += &chunks(&part);
            split += "include d/part.sfox\n";
        }
        if let Some(x) = items.get(i) {
            all.push(x.clone());
            let t = chunks(std::slice::from_ref(x));
            main += &t;
            split += &t;
        }
    }
    (all, main, split, chunks(&part))
}

fn c07(s: &mut Src, c: &mut Ctx) -> Res {
    let mut cf = cfg();
    cf.big = false;
    let w = gen_world(s, &cf);
    let items = gen_items(s, &w, &cf);
    let twice = s.chance(1, 16);
    if twice {
        let (all, main, split, part) = included_twice(s, &w, &cf, &items);
        c.label("a file that's included several times");
        c.nontrivial = true;
        let m = Model::of(&all, w.day);
        labels(c, &m);
        c.write(J, &main);
        let r1 = reports(c, &at(w.day))?;
        c.write(J, &split);
        c.write("d/part.sfox", &part);
        let r2 = reports(c, &at(w.day))?;
        check_balance(&m, &r2[0])?;
        if r1 != r2 {
            return v("moving equal parts of the journal to one file that's included several times changed a report".to_string());
        }
        return Ok(());
    }
    let m = Model::of(&items, w.day);
    labels(c, &m);
    c.write(J, &plain().journal(&items));
    let r1 = reports(c, &at(w.day))?;
    if s.chance(1, 2) {
        c.label("includes");
        let files = layout(s, &items);
        let files = absolute(s, c, files);
        c.nontrivial = files.len() > 1;
        c.label_if(files.len() > 3, "more than 2 included files");
        for (p, t) in &files {
            c.write(p, t);
        }
        let r2 = reports(c, &at(w.day))?;
        for i in 0..3 {
            if r1[i] != r2[i] {
                return v(format!("moving parts of the journal to included files changed the {} report", ["balance", "envelopes", "register"][i]));
            }
        }
        return Ok(());
    }
    c.label("permuted");
    let mut perm: Vec<Item> = items.iter().filter(|i| matches!(i, Item::Format(_))).take(1).cloned().collect();
    perm.extend(items.iter().filter(|i| matches!(i, Item::Acct(_))).cloned());
    let mut es = entries_of(&items);
    let orig = es.clone();
    match s.below(3) {
        0 => s.shuffle(&mut es),
        1 => es.reverse(),
        _ => es.sort_by_key(|e| e.date),
    }
    c.nontrivial = es != orig;
    perm.extend(es.into_iter().map(Item::Entry));
    let m2 = Model::of(&perm, w.day);
    c.write(J, &plain().journal(&perm));
    let r2 = reports(c, &at(w.day))?;
    // the model's balances and envelopes don't depend on the order
    check_balance(&m, &r1[0])?;
    check_balance(&m, &r2[0]).map_err(|e| format!("in another order: {e}"))?;
    check_envelopes(&m, &r1[1], &ALL)?;
    check_envelopes(&m, &r2[1], &ALL).map_err(|e| format!("in another order: {e}"))?;
    let fmt = fmt_of(&perm);
    check_register(&m2, &r2[2], fmt).map_err(|e| format!("in another order: {e}"))?;
    Ok(())
}

fn c20(s: &mut Src, c: &mut Ctx) -> Res {
    let mut cf = cfg();
    cf.big = false;
    cf.entries = 12;
    let w = gen_world(s, &cf);
    let items = gen_items(s, &w, &cf);
    let m = Model::of(&items, w.day);
    labels(c, &m);
    let rows = m.register();
    c.nontrivial = rows.len() > 1;
    c.label_if(rows.iter().any(|r| r.amounts.len() > 1), "line with several currencies");
    c.label_if(rows.len() < m.entries.len(), "entries that don't appear");
    c.label_if(m.entries.windows(2).any(|x| x[0].date > x[1].date), "unsorted");
    put(c, s, &items);
    let mut o = at(w.day);
    o.env.push(("SFX_TTY".into(), s.pick(&["120", "80", "40", "10", "300"]).to_string()));
    let out = c.report(&["r", "-n", "-f", J], &o)?;
    check_register(&m, &out, fmt_of(&items))?;
    Ok(())
}

fn c25(s: &mut Src, c: &mut Ctx) -> Res {
    let mut cf = cfg();
    cf.sorted = true;
    cf.formats = s.chance(1, 4);
    let w = gen_world(s, &cf);
    let mut items = gen_items(s, &w, &cf);
    let m = Model::of(&items, w.day);
    labels(c, &m);
    // put true assertions everywhere, keep some
    let mut bal: BTreeMap<(String, Sym), i128> = BTreeMap::new();
    let mut all: BTreeMap<(String, Sym), i128> = BTreeMap::new();
    let mut places = vec![];
    let dense = *s.pick(&[1usize, 3, 8]);
    for (i, it) in items.iter_mut().enumerate() {
        if let Item::Entry(e) = it {
            let full = explicit(e);
            for (j, p) in e.posts.iter_mut().enumerate() {
                let Post::Classic { acct, amt: Some(a), .. } = &full.posts[j] else { continue };
                *bal.entry((acct.clone(), a.sym.clone())).or_default() += a.u;
                *all.entry((acct.clone(), a.sym.clone())).or_default() += a.u.abs();
                if !s.chance(dense, 10) {
                    continue;
                }
                if let Post::Classic { check, .. } = p {
                    // the assertion's own currency, or none: then it's the posting's
                    let y = if s.chance(1, 3) {
                        None
                    } else if s.chance(1, 4) {
                        s.pick(&w.syms).clone()
                    } else {
                        a.sym.clone()
                    };
                    let looked_at = if y.is_none() { a.sym.clone() } else { y.clone() };
                    let u = bal.get(&(acct.clone(), looked_at.clone())).copied().unwrap_or(0);
                    let vol = all.get(&(acct.clone(), looked_at)).copied().unwrap_or(0);
                    if vol > 1_000_000_000 * UNIT {
                        continue;
                    }
                    *check = Some(Amt { u, sym: y });
                    places.push((i, j));
                }
            }
        }
    }
    c.nontrivial = !places.is_empty();
    let o = at(w.day);
    if places.is_empty() || s.chance(1, 2) {
        c.label("true assertions");
        put(c, s, &items);
        let r1 = reports(c, &o)?;
        let mut bare = items.clone();
        for it in bare.iter_mut() {
            if let Item::Entry(e) = it {
                for p in e.posts.iter_mut() {
                    if let Post::Classic { check, .. } = p {
                        *check = None;
                    }
                }
            }
        }
        c.write(J, &plain().journal(&bare));
        let r2 = reports(c, &o)?;
        if r1 != r2 {
            return v("true balance assertions changed a report".into());
        }
        return Ok(());
    }
    c.label("false assertion");
    // (a blank posting's assertion as often as any other)
    let blank: Vec<(usize, usize)> = places.iter().copied().filter(|(i, j)| matches!(&items[*i], Item::Entry(e) if matches!(e.posts[*j], Post::Classic { amt: None, .. }))).collect();
    let (i, j) = if !blank.is_empty() && s.chance(1, 2) { *s.pick(&blank) } else { *s.pick(&places) };
    if let Item::Entry(e) = &mut items[i] {
        if let Post::Classic { check: Some(a), .. } = &mut e.posts[j] {
            let least = 200.max(a.u.abs() / 400_000_000);
            let zero = a.u.abs() >= least && s.chance(1, 6);
            let d = match s.below(4) {
                0 => least,
                1 => UNIT / 100 * s.range(1, 200) as i128,
                2 => a.u.abs() * 2,
                _ => units(s, false),
            }
            .max(least);
            let d = d * [1, -1][s.below(2)];
            a.u = if zero { 0 } else { a.u + d };
        }
    }
    put(c, s, &items);
    let before = snapshot(&c.r.dir);
    for cmd in [["b", "-n"], ["e", "-n"], ["r", "-n"]] {
        c.refusal(&[cmd[0], cmd[1], "-f", J], &o, "a balance assertion is false")?;
    }
    c.refusal(&[*s.pick(&["b", "e", "r"]), "-f", J], &o, "a balance assertion is false")?;
    if snapshot(&c.r.dir) != before {
        return v("a file changed although a balance assertion is false".into());
    }
    Ok(())
}
