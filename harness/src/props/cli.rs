//! The command line, files and faults.

use super::csv::{gen_import, import_accounts, same_entry};
use super::env::read_fill;
use super::*;
use crate::gen::*;
use std::fs;
use std::os::unix::fs::PermissionsExt;
use std::path::PathBuf;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C09", level: "fault_enumeration", quick: 5500, thorough: 110000, run: c09,
            rule: "A random journal (with included files) and a random command that writes to it (fill, import, both); after a dry run that records every write-like system call, the command is repeated from the same state with a fault at each of them: killed before, killed after, a torn write (several lengths) and a kill, no space left, a short write and then no space left. After each: the old contents are the beginning of the journal, all other files are byte-identical, none appeared or vanished, and an incomplete write was reported. Also, at each of them, something else is appended to the journal as by another process: both must be there in the end. Non-trivial: the command wrote something.",
            assumptions: &["faults are injected at the libc calls (open, write, truncate, rename, unlink, ...) of the process; the file system itself keeps what was written before a kill"] },
        Prop { id: "C21", level: "exploration", quick: 60000, thorough: 1200000, run: c21,
            rule: "Journals, csv files and rules files made of token soup, of random bytes, and of valid ones with mutations (bytes, tokens, lines: deleted, duplicated, swapped; dates and numbers replaced by extreme ones), random command lines, dates and terminals, all subcommands. A run must not panic, abort, end by a signal or use 10 s of CPU time. Non-trivial: always.",
            assumptions: &["arguments and paths are valid Unicode", "files up to some 20 kB; includes nested up to 60 deep"] },
        Prop { id: "C22", level: "exploration", quick: 80000, thorough: 1600000, run: c22,
            rule: "Several journals with distinguishable accounts in several directories, random combinations of -f/--file, $SILVERFOX_FILE, $LEDGER_FILE, working directory, absolute and relative paths, subcommand names; reports must be about the right one and fills and imports must go to it and nowhere else. And faulty command lines, missing files and variables: an error, nothing changed. Non-trivial: always.",
            assumptions: &["paths are valid Unicode", "each flag is given at most once"] },
        Prop { id: "C27", level: "exploration", quick: 22000, thorough: 440000, run: c27,
            rule: "A random journal (with included files) is copied to three or four places; the same subcommand is run on each copy on the same day, but at another time of day, from another directory, with another form of path, file name, terminal width, locale and other environment variables. All outputs have to be byte-identical, accounts in alphabetical order, and what was appended has to be the same up to the order of an entry's postings. Non-trivial: a report of at least 3 lines.",
            assumptions: &["each account is declared once, before its use"] },
        Prop { id: "C24", level: "exploration", quick: 30000, thorough: 600000, run: c24,
            rule: "Random journals with envelopes to fill; reports with -n/--no-move anywhere on the command line, with all files writable and with none (every open for writing fails): files and directories stay byte-identical and the reports are those of the model. Imports with it append the imported entries and nothing else. Non-trivial: without the flag, the run would have filled an envelope.",
            assumptions: &["amounts below 1e7"] },
    ]
}

fn restore(dir: &std::path::Path, snap: &BTreeMap<PathBuf, Option<Vec<u8>>>) {
    for p in snapshot(dir).keys() {
        if !snap.contains_key(p) {
            let _ = fs::remove_file(p);
        }
    }
    for (p, b) in snap {
        if let Some(b) = b {
            if fs::read(p).ok().as_ref() != Some(b) {
                fs::write(p, b).expect("restore");
            }
        }
    }
}

fn c09(s: &mut Src, c: &mut Ctx) -> Res {
    let import = s.chance(1, 2);
    let day;
    let cmd: Vec<String>;
    if import {
        day = any_day(s);
        let Some(imp) = gen_import(s, c) else { return Ok(()) };
        c.labels.clear();
        let items = import_accounts(s, day, true, imp.formats);
        for (p, t) in &imp.files {
            c.write(p, t);
        }
        let mut text = plain().journal(&items);
        match s.below(4) {
            0 => {
                text.pop();
            }
            1 => text += s.pick(&["\n\n\n", "\n", "   ", "\r\n\r\n", "; the end", "\n\t\n", "\n\n\n\n\n\n"]),
            _ => {}
        }
        c.write(J, &text);
        let mut a = imp.args.clone();
        if s.chance(1, 3) {
            a.push("-n".into());
        }
        cmd = a;
        c.label("import");
    } else {
        let mut cf = cfg();
        cf.big = false;
        cf.funded = true;
        cf.rich = true;
        cf.entries = 4;
        let w = gen_world(s, &cf);
        day = w.day;
        let items = gen_items(s, &w, &cf);
        if s.chance(1, 2) {
            for (p, t) in super::core::layout(s, &items) {
                c.write(&p, &t);
            }
        } else {
            let t = put(c, s, &items);
            if s.chance(1, 4) {
                let end = *s.pick(&["\n\n\n", "\n", "\n   ", "\r\n\r\n", "\n; the end", "\n\t\n", "\n\n\n\n\n\n"]);
                c.write(J, &(t + end));
            }
        }
        cmd = vec![s.pick(&["e", "b", "r", "n"]).to_string(), "-f".into(), J.into()];
    }
    let args: Vec<&str> = cmd.iter().map(|x| x.as_str()).collect();
    let dir = c.r.dir.clone();
    let before = snapshot(&dir);
    let j = c.path(J);
    let old = before[&j].clone().unwrap();
    let mode = *s.pick(&[0o600, 0o644, 0o640, 0o664, 0o660]);
    for (p, b) in &before {
        if b.is_some() {
            fs::set_permissions(p, fs::Permissions::from_mode(mode)).expect("mode");
        }
    }
    // how many operations are there?
    let trace = PathBuf::from(format!("{}.trace", dir.display()));
    let _ = fs::remove_file(&trace);
    let mut o = at(day);
    o.trace = Some(trace.clone());
    let out = c.run(&args, &o)?;
    if out.crashed() {
        return v(format!("the run crashed: {:?}", out.stderr));
    }
    let events = fs::read_to_string(&trace).unwrap_or_default().lines().count();
    let _ = fs::remove_file(&trace);
    let full = fs::read(&j).unwrap_or_default().len();
    let check = |what: &str| -> Result<(), String> {
        let after = snapshot(&dir);
        for p in after.keys() {
            if !before.contains_key(p) {
                return Err(format!("{what}: {} was created", p.file_name().unwrap().to_string_lossy()));
            }
        }
        for (p, b) in &before {
            let name = p.file_name().unwrap().to_string_lossy().to_string();
            let Some(a) = after.get(p) else { return Err(format!("{what}: {name} is gone")) };
            if b.is_some() && fs::metadata(p).map(|m| m.permissions().mode() & 0o7777).ok() != Some(mode) {
                return Err(format!("{what}: {name} doesn't have the permissions anymore that it had"));
            }
            if *p == j {
                if !a.as_ref().is_some_and(|x| x.starts_with(&old)) {
                    return Err(format!("{what}: the journal's previous contents aren't there anymore"));
                }
            } else if a != b {
                return Err(format!("{what}: {name} was changed"));
            }
        }
        Ok(())
    };
    check("without any fault")?;
    if full == old.len() {
        return Ok(());
    }
    c.nontrivial = true;
    c.label_if(events > 2, "more than 2 operations");
    if events == 0 {
        return Err(Fail::Inconclusive("the journal was written, but no operation was traced".into()));
    }
    let added = full - old.len();
    for n in 0..events.min(40) {
        let mut faults: Vec<String> = vec![format!("kill:{n}:0"), format!("killafter:{n}:0"), format!("enospc:{n}:0")];
        for k in [0, 1, s.below(added + 1), added.saturating_sub(1)] {
            faults.push(format!("tear:{n}:{k}"));
        }
        for k in [1, s.below(added + 1)] {
            faults.push(format!("short:{n}:{k}"));
        }
        for f in faults {
            restore(&dir, &before);
            let mut o = at(day);
            o.fault = Some(f.clone());
            let out = c.run(&args, &o)?;
            check(&format!("fault {f}"))?;
            let killed = out.end == End::Signal(9);
            if !killed {
                if out.crashed() {
                    return v(format!("fault {f}: the run crashed: {:?}", out.stderr));
                }
                let len = fs::read(&j).unwrap_or_default().len();
                if len != full && out.stderr.trim().is_empty() {
                    return v(format!("fault {f}: only {} of {added} bytes were written, but nothing was reported", len - old.len()));
                }
                c.label_if(len != full, "incomplete write");
            } else {
                c.label("killed");
            }
        }
    }
    // something else is appended to the journal by another process
    for n in 0..events.min(40) {
        restore(&dir, &before);
        let mut o = at(day);
        o.fault = Some(format!("meanwhile:{n}:0"));
        o.env.push(("SFX_OTHER".into(), j.display().to_string()));
        o.trace = Some(trace.clone());
        c.run(&args, &o)?;
        // (the number of operations may depend on the order of an entry's postings)
        let happened = fs::read_to_string(&trace).unwrap_or_default().lines().count() > n;
        let _ = fs::remove_file(&trace);
        check("something else is appended during the run")?;
        if !happened {
            continue;
        }
        let after = fs::read(&j).unwrap_or_default();
        let t = b"\n; meanwhile\n";
        // (a newline more or less doesn't matter)
        if after.len() + 2 < full + t.len() || !after[old.len()..].windows(t.len()).any(|w| w == t) {
            return v(format!("what another process appends to the journal before operation {n} of the run is lost, or the run's own entries are"));
        }
    }
    // all files can't be written
    restore(&dir, &before);
    let mut o = at(day);
    o.rofs = *s.pick(UNWRITABLE);
    let out = c.run(&args, &o)?;
    check("nothing can be written")?;
    if out.stderr.trim().is_empty() || out.crashed() {
        return v("the journal couldn't be written, but nothing was reported".into());
    }
    Ok(())
}

const TOKENS: &[&str] = &[
    "account", "include", "date_format", "currency", "envelope", "expense", "goal", "amount", "for", "funding", "starting", "due", "by", "every", "other",
    "year", "no", "date", "manual", "aggressive", "conservative", "monday", "Tue", "1st", "31st", "0th", "99th", "-1st", "2020/01/01", "2020/02/30", "9999/12/31", "0000/01/01",
    "262142/12/31", "-5/1/1", "2019/2/29", "*", "~", "?", "!", "@", "=", "[", "]", "[x]", "][", "-", "--", "$", "$5", "5", "-5", "5 USD", "USD", "1,000.00", ".", ",", "1e400", "NaN",
    "inf", "99999999999999999999999999999999999999999999999999", "0.00000000001", "-0", "//", ";", "assets:a", "assets", "expenses:f", "food", "é", "💰", "\u{0}", "\u{feff}", "\u{2028}", "\u{85}",
    "x", "", "%Y", "%Y/%m/%d", "%d", "%", "%%", "%Q", "%y%m", "j.sfox", "every other", "due every", "due every other", "no date", "due by", "d", "1nd", "12345678901st", "mañana", "ſ", "K",
];
const RULES: &[&str] = &[
    "fields", "date", "description", "amount", "amount1", "account", "account1", "account2", "skip", "status", "comment", "payee", "date_format", "decimal", "decimal_symbol", "if", "include", "use",
    "-", "skip -1", "skip -2147483648", "skip 99999999999", "date_format %Q", "date %description%", "if\n", "%date%", "%amount%", "%description%", "%", "%%", "%x%", "0", "-1", "2147483648", "1", "assets:a", "expenses:f", ",", ".", "é", "%Y/%m/%d", "%Q", "a.rules", "~", "x", "income:unknown", "💰", "İ",
];

/// The ends of the calendar, and beyond.
const DATES: &[&str] = &[
    "+262142/12/31", "+262142/12/30", "+262142/12/01", "+262142/11/30", "+262142/10/31", "+262143/01/01", "-262143/01/01", "-262143/01/31", "-262144/01/01", "-262143/02/28", "0000/01/01", "-0001/12/31", "0/1/1",
    "9999/12/31", "+10000/01/01", "+9999/12/31", "1969/12/31", "1970/01/01", "2038/01/20", "1600/02/29", "2000/02/29", "2100/02/29", "2020/13/01", "2020/00/10", "2020/01/00", "99999999999/01/01",
];
const NUMBERS: &[&str] = &[
    "0", "00", "1e308", "1.7976931348623157e308", "1e400", "1e-400", "9007199254740993", "18446744073709551616", "4294967296", "2147483648", "2147483647", "99999999999999999999999999999999999999", "0.000000004", "0.000000005",
    "0.000000001", "999999999999999.99999999", "0x10", "1_000", "٣", "1..2", "1,,0", ".5", "5.", "NaN", "inf", "infinity", "1e", "29", "30", "31", "32", "255", "256",
];

/// One of the tokens, or a word of the program's own.
fn token(s: &mut Src, toks: &[&str]) -> String {
    match s.weighted(&[16, 3, 1, 1, 1]) {
        0 => s.pick(toks).to_string(),
        1 => s.word(|_| true, "x"),
        2 => "aé💰".repeat(1 + s.below(40)),
        3 => {
            let n = s.number(300) as usize;
            format!("{}{}", "a".repeat(n), s.pick(&["é", "💰", "", "-", "5"]))
        }
        _ => s.number(1_000_000_000).to_string(),
    }
}

fn soup(s: &mut Src, toks: &[&str]) -> String {
    let mut t = String::new();
    for _ in 0..1 + s.below(14) {
        if s.chance(1, 2) {
            t += s.pick(&["    ", "\t", " ", "        "]);
        }
        for _ in 0..s.below(7) {
            t += &token(s, toks);
            t += s.pick(&[" ", " ", " ", "", "\t", "  "]);
        }
        t += s.pick(&["\n", "\n", "\n", "\n", "\r\n", "", "\r"]);
    }
    t
}

fn mutate(s: &mut Src, text: &str, toks: &[&str]) -> Vec<u8> {
    let mut t = text.to_string();
    for _ in 0..1 + s.weighted(&[5, 3, 2, 1]) {
        let lines: Vec<&str> = t.split('\n').collect();
        let i = s.below(lines.len());
        match s.weighted(&[2, 2, 2, 2, 2, 2, 2, 2, 2, 3]) {
            9 => {
                // a date or a number becomes an extreme one
                let at: Vec<(usize, usize)> = (0..lines.len())
                    .flat_map(|i| lines[i].split(' ').enumerate().filter(|(_, w)| w.chars().any(|c| c.is_ascii_digit())).map(move |(k, _)| (i, k)).collect::<Vec<_>>())
                    .collect();
                if at.is_empty() {
                    continue;
                }
                let (i, k) = *s.pick(&at);
                let mut w: Vec<String> = lines[i].split(' ').map(|x| x.to_string()).collect();
                let is_date = w[k].chars().filter(|c| c.is_ascii_digit()).count() >= 6 && !w[k].starts_with(|c: char| !c.is_ascii_digit());
                w[k] = if is_date && !s.chance(1, 8) {
                    let sep = w[k].chars().find(|c| !c.is_ascii_digit()).unwrap_or('/');
                    s.pick(DATES).replace('/', &sep.to_string())
                } else if s.chance(1, 3) {
                    s.pick(NUMBERS).to_string()
                } else {
                    // keep what's around the digits
                    let n = *s.pick(NUMBERS);
                    let a = w[k].find(|c: char| c.is_ascii_digit()).unwrap();
                    let b = w[k].rfind(|c: char| c.is_ascii_digit()).unwrap();
                    format!("{}{}{}", &w[k][..a], n, &w[k][b + 1..])
                };
                let l = w.join(" ");
                let mut ls = lines.clone();
                ls[i] = &l;
                t = ls.join("\n");
            }
            0 => {
                // replace a token
                let l = lines[i];
                let words: Vec<&str> = l.split(' ').collect();
                let k = s.below(words.len());
                let mut w: Vec<String> = words.iter().map(|x| x.to_string()).collect();
                w[k] = token(s, toks);
                let mut ls: Vec<String> = lines.iter().map(|x| x.to_string()).collect();
                ls[i] = w.join(" ");
                t = ls.join("\n");
            }
            1 => {
                // delete a token
                let mut w: Vec<&str> = lines[i].split(' ').collect();
                let k = s.below(w.len());
                w.remove(k);
                let l = w.join(" ");
                let mut ls = lines.clone();
                ls[i] = &l;
                t = ls.join("\n");
            }
            2 => {
                let mut ls = lines.clone();
                ls.remove(i);
                t = ls.join("\n");
            }
            3 => {
                let mut ls = lines.clone();
                let j = s.below(lines.len());
                ls.insert(j, lines[i]);
                t = ls.join("\n");
            }
            4 => {
                let mut ls = lines.clone();
                let j = s.below(lines.len());
                ls.swap(i, j);
                t = ls.join("\n");
            }
            5 => {
                // indentation
                let l = if lines[i].starts_with(' ') { lines[i].trim_start().to_string() } else { format!("    {}", lines[i]) };
                let mut ls = lines.clone();
                ls[i] = &l;
                t = ls.join("\n");
            }
            6 => {
                // insert a token anywhere
                let mut chars: Vec<char> = t.chars().collect();
                let k = s.below(chars.len() + 1);
                for (n, x) in token(s, toks).chars().enumerate() {
                    chars.insert(k + n, x);
                }
                t = chars.into_iter().collect();
            }
            7 => {
                // delete or change characters
                let mut chars: Vec<char> = t.chars().collect();
                if !chars.is_empty() {
                    let k = s.below(chars.len());
                    if s.chance(1, 2) {
                        let n = 1 + s.below((chars.len() - k).min(12));
                        chars.drain(k..k + n);
                    } else {
                        chars[k] = *s.pick(&['x', ' ', '\n', '9', '-', '[', ']', '/', 'é', '\t', '%', '.', '0', '\u{0}', '"', ',']);
                    }
                }
                t = chars.into_iter().collect();
            }
            _ => {
                // cut off
                let chars: Vec<char> = t.chars().collect();
                let k = s.below(chars.len() + 1);
                t = chars[..k].iter().collect();
            }
        }
    }
    let mut b = t.into_bytes();
    if s.chance(1, 30) && !b.is_empty() {
        let k = s.below(b.len());
        b[k] = s.below(256) as u8;
    }
    b
}

fn c21(s: &mut Src, c: &mut Ctx) -> Res {
    c.nontrivial = true;
    let mode = s.weighted(&[8, 3, 5, 2, 1, 2]);
    let mut cmds: Vec<Vec<String>> = vec![];
    let day = match s.below(8) {
        0 => Date::new(1970, 1, 2),
        1 => Date::new(2400, 2, 29),
        2 => Date::new(9999, 12, 31),
        3 => Date::new(2000, 2, 29),
        _ => any_day(s),
    };
    let mut o = at(day);
    match s.below(6) {
        0 => o.tty = false,
        1 => o.env.push(("SFX_TTY".into(), s.pick(&["1", "2", "20", "65535"]).to_string())),
        _ => {}
    }
    let strs = |v: &[&str]| v.iter().map(|x| x.to_string()).collect::<Vec<String>>();
    let reports = |s: &mut Src| -> Vec<Vec<String>> {
        let k = s.below(3);
        let mut v = vec![strs(&[["b", "e", "r"][k], "-n", "-f", J]), strs(&[["b", "e", "r"][(k + 1) % 3], "-f", J])];
        if s.chance(1, 3) {
            v.push(strs(&[["b", "e", "r"][(k + 2) % 3], "-f", J]));
        }
        v
    };
    match mode {
        0 => {
            c.label("mutated journal");
            let mut cf = cfg();
            cf.funded = s.chance(1, 2);
            cf.rich = s.chance(1, 2);
            cf.entries = 4;
            let mut w = gen_world(s, &cf);
            if s.chance(3, 4) {
                o.now = w.day.epoch_noon();
            } else {
                w.day = day;
            }
            let items = gen_items(s, &w, &cf);
            let t = plain().journal(&items);
            let b = mutate(s, &t, TOKENS);
            c.write_bytes(J, &b);
            cmds = reports(s);
        }
        1 => {
            c.label("token soup");
            let mut t = String::new();
            if s.chance(1, 2) {
                t += "account assets:a\n    expense food due every 1st\n        amount 5\n        for expenses:f\n        funding aggressive\naccount expenses:f\n";
            }
            match s.weighted(&[3, 3, 3, 4]) {
                0 => t += &soup(s, TOKENS),
                3 => {
                    // several currencies, costs, blanks, brackets, formats
                    if !t.is_empty() && s.chance(1, 4) {
                        t += &format!("date_format {}\n", s.pick(&["%", "%Q", "%Y%m", "%d", "%H", "%-", "%Y-%m-%d %Z", "%3f", "%:z", "%e", "%s", "%+", "%D", "\u{0}", "%Y %m", "%y/%m/%d", "%E", "%O", "é%Y"]));
                    } else if t.is_empty() {
                        t += "account assets:a\naccount expenses:f\n";
                    }
                    for _ in 0..1 + s.below(3) {
                        let d = s.pick(&["2020/01/01", "2021/12/31", "%", "é2020", "20-1-1"]).to_string();
                        let d = if t.contains("date_format") { d } else { "2020/01/01".to_string() };
                        t += &format!("{d} {} {}{}\n", s.pick(&["*", "~", "?"]), s.pick(&["", "x", "é", "a b"]), s.pick(&["", " [x]", " []", "[", "]", " ][", " [[]]", "[é]", " [ ]", "[x", "[]]", " [a] [b]"]));
                        for _ in 0..s.below(5) {
                            let a = match s.below(6) {
                                0 => "assets:a".to_string() + &"é💰".repeat(s.below(12)),
                                1 | 2 => "assets:a".to_string(),
                                _ => "expenses:f".to_string(),
                            };
                            let n = s.pick(&["5", "-5", "0", "1 BTC", "-2 BTC", "3 EUR", "$4", "", "", "5 BTC @ 2", "5 BTC = 9", "-5 BTC @ 3 EUR", "1 @ 1", "5 BTC @", "! 5", "! 0", "1 BTC ! 1", "5 !! 5", "= 3", "@ 3", "5 BTC @ 0", "5 BTC = 0", "0 BTC = 5", "0 BTC @ 5"]);
                            t += &format!("    {a}  {n}\n");
                        }
                    }
                }
                1 => {
                    // an envelope
                    t += "account assets:b\n";
                    t += &format!("    {} {}\n", s.pick(&["expense e", "goal g", "expense", "goal"]), (0..s.below(6)).map(|_| token(s, TOKENS)).collect::<Vec<_>>().join(" "));
                    for _ in 0..s.below(4) {
                        t += &format!("        {} {} {}\n", s.pick(&["amount", "for", "funding", "due", "every"]), token(s, TOKENS), token(s, TOKENS));
                    }
                }
                _ => {
                    // an entry
                    t += &format!("{} {} {}\n", s.pick(&["2020/01/01", "2020/02/30", "9999/12/31", "262142/12/31"]), s.pick(&["*", "~", "?", ""]), (0..s.below(5)).map(|_| token(s, TOKENS)).collect::<Vec<_>>().join(" "));
                    for _ in 0..s.below(4) {
                        t += &format!("    {} {}\n", s.pick(&["assets:a", "expenses:f", "envelope", "envelope assets:a", "envelope assets:a food"]), (0..s.below(6)).map(|_| token(s, TOKENS)).collect::<Vec<_>>().join(" "));
                    }
                }
            }
            c.write(J, &t);
            cmds = reports(s);
        }
        2 | 3 => {
            c.label("csv import");
            let Some(imp) = gen_import(s, c) else { return Ok(()) };
            let items = import_accounts(s, day.min(Date::new(2035, 1, 1)), true, imp.formats);
            c.labels.retain(|l| *l == "csv import");
            c.write(J, &plain().journal(&items));
            let hit = s.below(3);
            for (p, t) in &imp.files {
                let rules = p.ends_with(".rules");
                if mode == 3 && rules && s.chance(1, 2) {
                    let t = format!("fields date, description, amount, x\n{}", soup(s, RULES));
                    c.write(p, &t);
                } else if (rules && hit != 0) || (!rules && hit != 1) {
                    let toks: &[&str] = if rules { RULES } else { TOKENS };
                    let b = mutate(s, t, toks);
                    c.write_bytes(p, &b);
                } else {
                    c.write(p, t);
                }
            }
            cmds.push(imp.args.clone());
            cmds.push(strs(&["r", "-f", J]));
        }
        4 => {
            c.label("random bytes");
            let n = s.below(200);
            let b: Vec<u8> = (0..n).map(|_| if s.chance(1, 3) { s.below(256) as u8 } else { *s.pick(b"\n\n  \t/;*~0123[]account@=!$%") }).collect();
            c.write_bytes(J, &b);
            cmds = reports(s);
        }
        _ => {
            c.label("command line");
            c.write(J, "account a\n    expense e due every 1st\n        amount 5\n2020/01/01 * x\n    a 5\n    a -5\n");
            c.write("d/x.csv", "a,b\n1,2\n");
            const ARGS: &[&str] = &["b", "e", "r", "i", "n", "s", "x", "", "-f", "--file", "-n", "--no-move", "--csv", "--rules", "--csv-file", "--rules-file", "j.sfox", "d", "d/x.csv", "missing", "-", "--", "é", "💰", "--help", "\n", "/", ".", "balance", "-f=j.sfox", "e\u{301}"];
            let mut a = vec![];
            for _ in 0..s.below(7) {
                a.push(s.pick(ARGS).to_string());
            }
            if s.chance(1, 2) {
                o.env.push((s.pick(&["SILVERFOX_FILE", "LEDGER_FILE"]).to_string(), s.pick(&["j.sfox", "", "missing", "d", "/"]).to_string()));
            }
            cmds.push(a);
        }
    }
    if s.chance(1, 40) {
        // deeply nested includes
        c.label("nested includes");
        let n = 2 + s.below(58);
        let t = c.read(J);
        for i in 0..n {
            let text = if i + 1 < n { format!("include inc{}.sfox\n", i + 1) } else { t.clone() };
            c.write(&format!("inc{i}.sfox"), &text);
        }
        c.write(J, "include inc0.sfox\n");
    }
    for a in &cmds {
        let args: Vec<&str> = a.iter().map(|x| x.as_str()).collect();
        let out = c.run(&args, &o)?;
        if out.crashed() {
            let first = out.stderr.lines().find(|l| !l.trim().is_empty()).unwrap_or("").to_string();
            return v(format!("`silverfox {}` crashed ({:?}): {first}", args.join(" "), out.end));
        }
        c.label_if(out.refused(), "an error was reported");
        c.label_if(out.ok(), "accepted");
    }
    Ok(())
}

fn c27(s: &mut Src, c: &mut Ctx) -> Res {
    let mut cf = cfg();
    cf.formats = s.chance(1, 3);
    cf.funded = s.chance(1, 2);
    cf.rich = cf.funded;
    let w = gen_world(s, &cf);
    let items = gen_items(s, &w, &cf);
    let m = Model::of(&items, w.day);
    labels(c, &m);
    let files = if s.chance(1, 3) { super::core::layout(s, &items) } else { vec![(J.to_string(), plain().journal(&items))] };
    let fmt = fmt_of(&items);
    let sub = *s.pick(&["b", "e", "r"]);
    let n = s.chance(1, 2);
    c.label(match sub {
        "b" => "balance",
        "e" => "envelopes",
        _ => "register",
    });
    let _ = fs::create_dir_all(c.path("empty"));
    // a journal that's refused is refused everywhere
    let mut files = files;
    let broken = s.chance(1, 10);
    if broken {
        c.label("refused");
        c.nontrivial = true;
        let line = *s.pick(&["# x", "#", "* x", "% x", "| x", "P 2020/01/01 EUR 5", "alias a=b", "comment", "assets:checking", "!include x", "~ monthly", "= expr", "D 5 EUR", "account", "2020/01/01", "month 5"]);
        for (p, t) in files.iter_mut().filter(|f| f.0 == J) {
            let _ = p;
            t.insert_str(0, &format!("{line}\n"));
        }
    }
    let mut first: Option<(String, Vec<String>)> = None;
    for k in 0..3 + s.below(2) {
        let dir = ["a", "b/b b", "ç", "d/d/d"][k];
        let name = *s.pick(&[J, "main.journal", "x", "büdget 2020.txt", "main.ledger", "j.hledger", "2020.dat", "j.csv", ".j"]);
        let own = |p: &str| format!("{dir}/{}", if p == J { name } else { p });
        for (p, t) in &files {
            c.write(&own(p), t);
        }
        let journal = own(J);
        let mut o = at(w.day);
        if k > 0 {
            o.now += match s.below(4) {
                0 => 0,
                1 => -43200,
                2 => 43199,
                _ => s.range(-43200, 43199),
            };
            for _ in 0..s.below(4) {
                let (a, b) = *s.pick(&[("LANG", "de_DE.UTF-8"), ("LC_ALL", "C"), ("LC_ALL", "tr_TR"), ("LC_NUMERIC", "de_DE.UTF-8"), ("LC_NUMERIC", "fr_FR"), ("LC_TIME", "en_US.UTF-8"), ("LC_MONETARY", "ja_JP"), ("LC_CTYPE", "C"), ("LANGUAGE", "de"), ("HOME", "/nonexistent"), ("COLUMNS", "20"), ("NO_COLOR", "1"), ("TERM", "dumb"), ("USER", "nobody"), ("LEDGER_FILE", "/nonexistent"), ("SILVERFOX_FILE", "x"), ("EDITOR", "vi"), ("DEBUG", "1")]);
                o.env.push((a.into(), b.into()));
            }
            if s.chance(1, 4) {
                // (a variable that the program mentions)
                let name = s.word(|w| w.len() > 2 && w != "LD_PRELOAD" && !w.starts_with("SFX") && w.chars().all(|c| c.is_ascii_uppercase() || c == '_'), "USER");
                o.env.push((name, s.pick(&["", "0", "1", "x", "30", "de"]).to_string()));
            }
            if s.chance(1, 3) {
                o.env.push(("SFX_TTY".into(), s.pick(&["20", "79", "80", "81", "200", "1000"]).to_string()));
            }
        }
        let cwd = *s.pick(&["", dir, "empty"]);
        o.cwd = Some(c.path(cwd));
        let path = match s.below(2) {
            0 => c.path(&journal).display().to_string(),
            _ if cwd == dir => name.to_string(),
            _ if cwd == "empty" => format!("../{journal}"),
            _ => journal.clone(),
        };
        let mut args = vec![sub, "-f", &path];
        if n {
            args.insert(1, "-n");
        }
        let before = c.read(&journal);
        if broken {
            c.refusal(&args, &o, "it has an unknown line")?;
            continue;
        }
        let out = c.report(&args, &o)?;
        let added = appended(&before, &c.read(&journal))?;
        let mut es: Vec<String> = vec![];
        for mut e in parse::entries(&added, fmt)? {
            e.e.posts.sort_by_key(|p| format!("{p:?}"));
            es.push(format!("{:?}", e.e));
        }
        c.label_if(!es.is_empty(), "envelopes were filled");
        match &first {
            None => {
                c.nontrivial = out.lines().count() > 2;
                if sub == "b" {
                    let b = parse::balance(&out)?;
                    let names: Vec<&str> = out.lines().filter(|l| !l.starts_with(char::is_whitespace)).filter_map(|l| l.split_whitespace().next()).filter(|n| b.contains_key(*n)).collect();
                    if !names.is_sorted() {
                        return v(format!("the accounts aren't in alphabetical order: {names:?}"));
                    }
                }
                first = Some((out, es));
            }
            Some((x, y)) => {
                if *x != out {
                    return v(format!("the same journal gave two different reports on the same day:\n{x}\n{out}"));
                }
                if *y != es {
                    return v(format!("the same journal's envelopes were filled in two ways on the same day: {y:?}, {es:?}"));
                }
            }
        }
    }
    Ok(())
}

fn c22(s: &mut Src, c: &mut Ctx) -> Res {
    c.nontrivial = true;
    let day = any_day(s);
    // journals that can be told apart
    const PATHS: &[&str] = &["home/money.sfox", "home/sub/j.sfox", "other dir/ jürnal ", "-top.sfox"];
    const CWDS: &[&str] = &["", "home", "home/sub", "other dir", "empty/deep"];
    for d in ["home/sub", "other dir", "empty/deep"] {
        let _ = fs::create_dir_all(c.path(d));
    }
    let includes = s.chance(1, 2);
    for (i, p) in PATHS.iter().enumerate() {
        let funded = "        funding aggressive\n";
        let mut t = String::new();
        let acct = format!("account assets:m{i}\n    goal g due every {}\n        amount {}\n{funded}account income:unknown\naccount equity\n", ["1st", "monday", "15th", "sun"][i], 10 + i);
        if includes {
            // everything else is in an included file
            let dir = p.rsplit_once('/').map(|x| x.0.to_string() + "/").unwrap_or_default();
            c.write(&format!("{dir}inc/part{i}.sfox"), &acct);
            t += &format!("include inc/part{i}.sfox\n");
        } else {
            t += &acct;
        }
        t += &format!("2000/01/0{} * x\n    assets:m{i}  {}\n    equity\n", i + 1, 100 + i);
        c.write(p, &t);
    }
    c.label_if(includes, "includes");
    let linked = s.chance(1, 4);
    if linked {
        let _ = fs::create_dir_all(c.path("links"));
        for (i, p) in PATHS.iter().enumerate() {
            let _ = std::os::unix::fs::symlink(c.path(p), c.path(&format!("links/l{i}")));
        }
        let _ = std::os::unix::fs::symlink("../home", c.path("links/home"));
        c.label("symbolic links");
    }
    let cwd = *s.pick(CWDS);
    let abs = |c: &Ctx, p: &str| c.path(p).display().to_string();
    // a path to a file, as seen from the working directory
    let path = |s: &mut Src, c: &Ctx, p: &str| -> String {
        if let Some(i) = PATHS.iter().position(|x| *x == p).filter(|_| linked && s.chance(1, 2)) {
            // (what's included from a linked file is found from where the link is, or isn't)
            if !includes {
                return abs(c, &format!("links/l{i}"));
            }
            if let Some(rest) = p.strip_prefix("home/") {
                return abs(c, &format!("links/home/{rest}"));
            }
        }
        match s.below(3) {
            0 => {
                let up = if cwd.is_empty() { 0 } else { cwd.split('/').count() };
                if up > 0 && p.starts_with(&format!("{cwd}/")) && s.chance(1, 2) {
                    p[cwd.len() + 1..].to_string()
                } else {
                    "../".repeat(up) + p
                }
            }
            1 => abs(c, p),
            _ => {
                let up = if cwd.is_empty() { 0 } else { cwd.split('/').count() };
                format!("./{}home/../{p}", "../".repeat(up))
            }
        }
    };
    let mut o = at(day);
    o.cwd = Some(c.path(cwd));
    c.label(match cwd {
        "" => "started at the top",
        _ => "started in another directory",
    });
    let mut pick: Vec<usize> = (0..PATHS.len()).collect();
    s.shuffle(&mut pick);
    let (mut by_flag, mut by_sf, by_lf) = (s.chance(1, 2), s.chance(1, 2), s.chance(1, 2));
    // a file that isn't there: it's an error if it's the one that counts
    let gone = if s.chance(1, 6) { s.range(1, 2) } else { 0 };
    let mut absent = false;
    if gone == 1 {
        (by_flag, by_sf) = (false, true);
    }
    let names: &[&[&str]] = &[&["b", "balance"], &["e", "envelopes"], &["r", "register"], &["i", "import"]];
    let k = s.below(4);
    let sub = s.pick(names[k]).to_string();
    let mut args: Vec<String> = vec![];
    let mut target = None;
    if by_flag {
        args.extend([s.pick(&["-f", "--file"]).to_string(), path(s, c, PATHS[pick[0]])]);
        target = Some(pick[0]);
    }
    if by_sf {
        let p = if gone == 1 { *s.pick(&["missing.sfox", "home/none", "nowhere/j.sfox"]) } else { PATHS[pick[1]] };
        absent = target.is_none() && gone == 1;
        o.env.push(("SILVERFOX_FILE".into(), path(s, c, p)));
        target = target.or(Some(pick[1]));
    }
    if by_lf {
        let p = if gone == 2 { *s.pick(&["missing.sfox", "home/none", "nowhere/j.sfox"]) } else { PATHS[pick[2]] };
        absent |= target.is_none() && gone == 2;
        o.env.push(("LEDGER_FILE".into(), path(s, c, p)));
        target = target.or(Some(pick[2]));
    }
    if k == 3 {
        let dirs = ["home", "home/sub", "other dir", "empty/deep", "."];
        let d = *s.pick(&dirs);
        let csv = format!("{d}/{}", s.pick(&["bank stmt.csv", "export", "a.b.c", "Müller.CSV", "stmt.csv.old", "x.txt", ".hidden", "-n", "export_of_all_the_transactions_of_our_shared_account_from_2019_to_2023.csv", "a..csv", "x.rules"])).trim_start_matches("./").to_string();
        c.write(&csv, "date,description,amount\n2010/05/06,Shop,7\n");
        let rules = if s.chance(1, 2) { format!("{csv}.rules") } else { format!("{}/my.rules", s.pick(&dirs)).trim_start_matches("./").to_string() };
        let acct = target.map(|i| format!("assets:m{i}")).unwrap_or("assets:m0".into());
        c.write(&rules, &format!("fields date, description, amount\naccount {acct}\namount %amount%\n"));
        args.extend([s.pick(&["--csv", "--csv-file"]).to_string(), path(s, c, &csv)]);
        if !rules.starts_with(&csv) {
            args.extend([s.pick(&["--rules", "--rules-file"]).to_string(), path(s, c, &rules)]);
        }
        c.label("import");
    }
    // flags may come in any order
    let mut pairs: Vec<Vec<String>> = args.chunks(2).map(|x| x.to_vec()).collect();
    s.shuffle(&mut pairs);
    // of a flag that's given again, the last value counts
    if !pairs.is_empty() && s.chance(1, 6) {
        let i = s.below(pairs.len());
        let flag = match pairs[i][0].as_str() {
            "-f" | "--file" => *s.pick(&["-f", "--file"]),
            "--csv" | "--csv-file" => *s.pick(&["--csv", "--csv-file"]),
            _ => *s.pick(&["--rules", "--rules-file"]),
        };
        let value = match s.below(3) {
            0 => "missing".to_string(),
            1 => pairs[i][1].clone(),
            _ => path(s, c, PATHS[pick[3]]),
        };
        let at = s.below(i + 1);
        pairs.insert(at, vec![flag.into(), value]);
        c.label("flag given twice");
    }
    let mut args: Vec<String> = vec![sub.clone()];
    args.extend(pairs.concat());
    // something may be wrong
    let wrong = s.weighted(&[12, 1, 1, 1, 1, 1, 1, 2]);
    let mut why = "no file";
    match wrong {
        1 => {
            why = "unknown subcommand";
            args[0] = s.pick(&["x", "", "-f", "Balance", "help", "ä", "--no-move", "ledger"]).to_string();
        }
        2 => {
            why = "unknown flag";
            let at = 1 + 2 * s.below((args.len() - 1) / 2 + 1);
            args.insert(at, s.pick(&["--verbose", "-x", "--files", "file", "-F", "--csvfile", "--file=-top.sfox", "-f=", "--csv=", "-", "--", "-nn", "--no-move=true"]).to_string());
            if s.chance(1, 2) {
                args.insert(at + 1, "value".into());
            }
        }
        3 => {
            why = "flag without value";
            args.push(s.pick(&["--rules", "--csv"]).to_string());
        }
        4 if by_flag => {
            why = "missing file";
            let i = args.iter().rposition(|a| a == "-f" || a == "--file").unwrap();
            let missing = format!("{}{}", ["missing.sfox", "home", "home/sub/none/j.sfox", "home/money.sfox2"][s.below(4)], "");
            args[i + 1] = path(s, c, &missing);
        }
        5 if k == 3 => {
            why = "import without csv file";
            while let Some(i) = args.iter().position(|a| a == "--csv" || a == "--csv-file") {
                args.drain(i..i + 2);
            }
            // (envelopes are filled before)
            args.push("-n".into());
        }
        7 if k == 3 || by_flag => {
            // a file that's not where it should be, but in all the other places
            let all = ["home", "home/sub", "other dir", "empty/deep", "home/inc", "other dir/inc", "."];
            let flags: &[&str] = match s.below(3) {
                0 if by_flag => &["-f", "--file"],
                1 if k == 3 => &["--csv", "--csv-file"],
                _ if k == 3 => &["--rules", "--rules-file"],
                _ => &["-f", "--file"],
            };
            let i = args.iter().rposition(|a| flags.contains(&a.as_str()));
            // (the default rules are next to the csv file)
            let (from, by_default) = match i {
                Some(i) => (args[i + 1].clone(), false),
                None => (args[args.iter().rposition(|a| a == "--csv" || a == "--csv-file").unwrap() + 1].clone() + ".rules", true),
            };
            let old = c.path(cwd).join(&from);
            let text = fs::read_to_string(&old).unwrap_or_default();
            let base = old.file_name().unwrap().to_string_lossy().to_string();
            for d in all {
                let _ = fs::create_dir_all(c.path(d));
                if d != cwd && !(d == "." && cwd.is_empty()) {
                    let _ = fs::write(c.path(d).join(&base), &text);
                }
            }
            if by_default {
                let stem = base.trim_end_matches(".rules");
                let dir = old.parent().unwrap().to_path_buf();
                for n in [stem.rsplit_once('.').map(|x| x.0.to_string() + ".rules").unwrap_or("rules".into()), "rules".into(), ".rules".into(), "default.rules".into()] {
                    let _ = fs::write(dir.join(n), &text);
                }
                if let Some(d) = target.and_then(|t| PATHS[t].rsplit_once('/')) {
                    let _ = fs::write(c.path(d.0).join("x.rules"), &text);
                }
                let _ = fs::remove_file(&old);
                why = "no default rules";
            } else {
                let _ = fs::remove_file(c.path(cwd).join(&base));
                args[i.unwrap() + 1] = format!("{}{base}", s.pick(&["", "./"]));
                why = "missing file";
            }
            // (envelopes are filled before)
            args.push("-n".into());
        }
        6 => {
            why = "not supported";
            args[0] = s.pick(&["n", "new", "s", "summary"]).to_string();
            args.push("--no-move".into());
        }
        _ => {}
    }
    if absent && why == "no file" {
        why = "the file isn't there";
    }
    let bad = target.is_none() || why != "no file";
    let before = snapshot(&c.r.dir);
    let a: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
    let out = c.run(&a, &o)?;
    let after = snapshot(&c.r.dir);
    if bad {
        c.label(why);
        if !out.refused() {
            return v(format!("an error should be reported ({why}), but: {:?}, stdout {:?}, stderr {:?}", out.end, out.stdout, out.stderr));
        }
        if before != after {
            return v(format!("something was changed in spite of an error ({why})"));
        }
        return Ok(());
    }
    let t = target.unwrap();
    c.label(if by_flag { "by flag" } else if by_sf { "by SILVERFOX_FILE" } else { "by LEDGER_FILE" });
    if !out.ok() {
        return v(format!("an error was reported: {:?}", out.stderr));
    }
    let main = c.path(PATHS[t]);
    for (p, b) in &after {
        if *p == main {
            continue;
        }
        if before.get(p) != Some(b) {
            return v(format!("{} was changed or created instead of {}", p.display(), PATHS[t]));
        }
    }
    if after.len() != before.len() {
        return v("a file is gone".into());
    }
    let old = String::from_utf8_lossy(before[&main].as_ref().unwrap()).to_string();
    let new = String::from_utf8_lossy(after[&main].as_ref().unwrap()).to_string();
    let added = appended(&old, &new)?;
    let es = parse::entries(&added, "%Y/%m/%d").map_err(|e| format!("{added:?} was added: {e}"))?;
    let acct = format!("assets:m{t}");
    if es.is_empty() || !matches!(&es[0].e.posts[..], [Post::Env { acct: a, amt, .. }] if *a == acct && amt.u == (10 + t as i128) * UNIT) {
        return v(format!("{added:?} was added to {} instead of a fill", PATHS[t]));
    }
    match k {
        0 => {
            let b = parse::balance(&out.stdout)?;
            if b.get(&acct).and_then(|p| p.get(&None)) != Some(&((100 + t as i128) * UNIT)) {
                return v(format!("the balance report isn't about {}", PATHS[t]));
            }
        }
        1 => {
            let e = parse::envelopes(&out.stdout)?;
            if e.keys().collect::<Vec<_>>() != [&acct] {
                return v(format!("the envelopes report isn't about {}", PATHS[t]));
            }
        }
        2 => {
            let r = parse::register(&out.stdout)?;
            if r.len() != 1 || r[0].to != acct {
                return v(format!("the register isn't about {}", PATHS[t]));
            }
        }
        _ => {
            if !out.stdout.trim().is_empty() || es.len() != 2 || !es[1].e.posts.iter().any(|p| p.acct() == acct) {
                return v(format!("the import added {added:?} to {}", PATHS[t]));
            }
        }
    }
    Ok(())
}

/// EROFS, EACCES, EPERM
const UNWRITABLE: &[i32] = &[30, 13, 1];

fn c24(s: &mut Src, c: &mut Ctx) -> Res {
    let flag = *s.pick(&["-n", "--no-move"]);
    if s.chance(1, 4) {
        // an import adds the imported entries only
        c.label("import");
        let day = any_day(s);
        let Some(imp) = gen_import(s, c) else { return Ok(()) };
        let items = import_accounts(s, day, true, imp.formats);
        let m = Model::of(&items, day);
        for (p, t) in &imp.files {
            c.write(p, t);
        }
        let t = plain().journal(&items);
        c.write(J, &t);
        let defs: Vec<(String, EnvDef)> = m.envs.iter().map(|e| (e.acct.clone(), e.def.clone())).collect();
        if imp.want.iter().any(|(e, _)| defs.iter().any(|(a, d)| infers(a, d, e) == Some(None))) {
            return Ok(());
        }
        c.nontrivial = m.envs.iter().any(|e| e.wants(day) > 0 && m.available(&e.acct).values().any(|x| x.u > 0));
        c.label_if(c.nontrivial, "envelopes could be filled");
        let mut args: Vec<&str> = imp.args.iter().map(|x| x.as_str()).collect();
        args.insert(1 + 2 * s.below((args.len() - 1) / 2 + 1), flag);
        let out = c.run(&args, &at(day))?;
        if !out.ok() {
            return v(format!("the import failed: {:?}", out.stderr));
        }
        let added = appended(&t, &c.read(J))?;
        let got = parse::entries(&added, fmt_of(&items)).map_err(|e| format!("the import added {added:?}: {e}"))?;
        if got.len() != imp.want.len() {
            return v(format!("{} entries were added, {} were imported", got.len(), imp.want.len()));
        }
        for (i, (g, w)) in got.iter().zip(&imp.want).enumerate() {
            same_entry(i, g, w)?;
        }
        return Ok(());
    }
    let mut cf = cfg();
    cf.big = false;
    cf.funded = true;
    cf.rich = true;
    let w = gen_world(s, &cf);
    let items = gen_items(s, &w, &cf);
    let m = Model::of(&items, w.day);
    labels(c, &m);
    if s.chance(1, 3) {
        for (p, t) in super::core::layout(s, &items) {
            c.write(&p, &t);
        }
    } else {
        put(c, s, &items);
    }
    let before = snapshot(&c.r.dir);
    let fmt = fmt_of(&items);
    let mut o = at(w.day);
    for _ in 0..2 {
        let k = s.below(3);
        let sub = [["b", "balance"], ["e", "envelopes"], ["r", "register"]][k][s.below(2)];
        let mut args = vec![sub, s.pick(&["-f", "--file"]), J];
        let i = *s.pick(&[1, 3]);
        args.insert(i, flag);
        if s.chance(1, 6) {
            args.push(*s.pick(&["-n", "--no-move"]));
        }
        // flags of the other subcommands change nothing
        if s.chance(1, 6) {
            let at = *s.pick(&[1, args.len()]);
            args.splice(at..at, [*s.pick(&["--csv", "--csv-file", "--rules", "--rules-file"]), *s.pick(&["x.csv", "none", J])]);
        }
        o.rofs = if s.chance(1, 2) { *s.pick(UNWRITABLE) } else { 0 };
        c.label_if(o.rofs != 0, "nothing can be written");
        let out = c.report(&args, &o)?;
        match k {
            0 => check_balance(&m, &out)?,
            1 => check_envelopes(&m, &out, &ALL)?,
            _ => check_register(&m, &out, fmt)?,
        }
        if snapshot(&c.r.dir) != before {
            return v(format!("`silverfox {}` changed a file", args.join(" ")));
        }
    }
    // would it have filled anything without the flag?
    o.rofs = 0;
    let old = c.read(J);
    c.report(&["b", "-f", J], &o)?;
    let (f, _) = read_fill(&m, &appended(&old, &c.read(J))?, fmt)?;
    c.nontrivial = !f.is_empty();
    c.label_if(!f.is_empty(), "envelopes could be filled");
    Ok(())
}
