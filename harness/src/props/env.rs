//! Envelopes: schedules, what they hold, automatic funding.

use super::*;
use crate::gen::*;

pub fn props() -> Vec<Prop> {
    const ONCE: &str = "each account is declared once, before its use";
    vec![
        Prop { id: "C10", level: "exploration", quick: 18000, thorough: 360000, run: c10,
            rule: "Histories of 1 to 8 days (0 to 40 days apart) with random user entries in between (also overspending, also dated today), each day running random subcommands; every automatic fill that is appended is compared with the bounds the model computes from the journal before it. Non-trivial: at least one fill was appended.",
            assumptions: &[ONCE, "amounts below 1e7"] },
        Prop { id: "C11", level: "exploration", quick: 80000, thorough: 1600000, run: c11,
            rule: "A random journal with funded envelopes, plenty, scarce or no money; one run; the appended entry is compared with the model's amounts (per account and currency, independent of the order in which envelopes are served when money is scarce). Non-trivial: an envelope wants money.",
            assumptions: &[ONCE, "amounts below 1e7", "which envelope comes first when money is scarce isn't specified"] },
        Prop { id: "C12", level: "exploration", quick: 9000, thorough: 180000, run: c12,
            rule: "Histories of days, on each of which silverfox runs several times with random subcommands; from the second run of a day on, all files stay byte-identical. Also: after the user added entries on that day, envelopes that were funded get no more. Non-trivial: a fill was appended and silverfox ran again on that day.",
            assumptions: &[ONCE, "amounts below 1e7"] },
        Prop { id: "C13", level: "exploration", quick: 3200, thorough: 64000, run: c13,
            rule: "One conservative envelope (any schedule, period up to 62 days) in an account with plenty of money; silverfox runs on every day (or skips some, but not the last one before a due date) of one to three periods. Daily amounts are equal (+-5 units of 1e-8), and on the due date exactly the amount is ready. Non-trivial: at least one due date is reached after 2 or more fills.",
            assumptions: &["the envelope isn't overspent"] },
        Prop { id: "C14", level: "exploration", quick: 80000, thorough: 1600000, run: c14,
            rule: "6 to 20 envelopes with random schedules around today (month ends, leap days, starting dates before, on and after today, on and off the schedule) are listed; every next due date is compared with a day-by-day search of the calendar. Non-trivial: always.",
            assumptions: &["a single date isn't before its starting date"] },
        Prop { id: "C15", level: "exploration", quick: 80000, thorough: 1600000, run: c15,
            rule: "Envelopes with manual postings (in and out) on, before and after their due dates, in any order; `now` and `next` are compared with the model. Non-trivial: an envelope has two or more movements.",
            assumptions: &[ONCE, "amounts below 1e7"] },
        Prop { id: "C16", level: "exploration", quick: 80000, thorough: 1600000, run: c16,
            rule: "Entries that combine an envelope's own account, its `for` accounts and others (repeated, several currencies with costs, blanks, refunds, with and without envelope postings), compared with the model's movements. Non-trivial: an entry moves an envelope's money by inference.",
            assumptions: &[ONCE, "amounts below 1e7", "entries in which a foreign amount can't be converted are only generated with an envelope posting"] },
        Prop { id: "C17", level: "exploration", quick: 11000, thorough: 220000, run: c17,
            rule: "For random journals: available money plus all of an account's envelopes, as printed by `envelopes`, equals its line in `balance`, per currency, before a fill, after it, and on a later day; and `balance` is the same before and after. Non-trivial: an account with envelopes has a balance and an envelope isn't empty.",
            assumptions: &[ONCE, "amounts below 1e7"] },
        Prop { id: "C26", level: "exploration", quick: 60000, thorough: 1200000, run: c26,
            rule: "Random journals whose accounts have any number of expenses and goals, empty, partly filled, full, overfull and overspent (also by amounts of whole fortieths of the target and just below): the report is read line by line and compared with the model, order, due dates, amounts, available money and bars included. Non-trivial: at least two envelopes, one of which isn't empty.",
            assumptions: &[ONCE, "amounts below 1e7", "a share that's a whole number of columns up to the rounding error of doubles may be shown as one column less or more"] },
        Prop { id: "C23", level: "exploration", quick: 18000, thorough: 360000, run: c23,
            rule: "Random time zones (fixed offsets of -12 to +14 hours, minutes, and with summer time) and times around local midnight: the due dates and envelope amounts are those of the local date, a fill bears that date, isn't repeated at the last second of the day, and comes again at the first second of the next day. Non-trivial: the local date differs from the UTC date, or it's within an hour of midnight.",
            assumptions: &[ONCE, "time zones given as POSIX TZ strings"] },
    ]
}

pub type Fills = Vec<(String, String, i128)>;

/// Reads what a run without --no-move appended on `m.day`. Checks everything that always holds.
pub fn read_fill(m: &Model, added: &str, fmt: &str) -> Result<(Fills, Option<Entry>), String> {
    if added.is_empty() {
        return Ok((vec![], None));
    }
    let es = parse::entries(added, fmt).map_err(|e| format!("silverfox added {added:?}: {e}"))?;
    if es.len() != 1 {
        return Err(format!("silverfox added {} entries instead of one: {added:?}", es.len()));
    }
    let e = &es[0].e;
    if e.date != m.day {
        return Err(format!("the automatic entry is of {}, today is {}", e.date.iso(), m.day.iso()));
    }
    if e.status != '~' {
        return Err(format!("the automatic entry isn't cleared: {added:?}"));
    }
    let mut fills = vec![];
    for p in &e.posts {
        let Post::Env { acct, env, amt } = p else { return Err(format!("the automatic entry moves more than envelopes: {added:?}")) };
        let Some(s) = m.envs.iter().find(|s| s.acct == *acct && s.def.name == *env) else {
            return Err(format!("the automatic entry is about an unknown envelope: {added:?}"));
        };
        if amt.sym != s.def.amount.sym {
            return Err(format!("the automatic entry uses another currency than its envelope: {added:?}"));
        }
        if fills.iter().any(|(a, n, _)| a == acct && n == env) {
            return Err(format!("the automatic entry fills an envelope twice: {added:?}"));
        }
        fills.push((acct.clone(), env.clone(), amt.u));
    }
    if fills.is_empty() {
        return Err(format!("silverfox added an entry without movements: {added:?}"));
    }
    Ok((fills, Some(e.clone())))
}

fn fill_of(f: &Fills, s: &EnvState) -> i128 {
    f.iter().find(|(a, n, _)| *a == s.acct && *n == s.def.name).map(|x| x.2).unwrap_or(0)
}

/// Never negative, never more than there is, never more than fits.
pub fn check_bounds(m: &Model, f: &Fills) -> Result<(), String> {
    for s in &m.envs {
        let u = fill_of(f, s);
        if f.iter().any(|x| x.0 == s.acct && x.1 == s.def.name) && u <= 0 {
            return Err(format!("the automatic entry moves {} to {} of {}", num(u), s.def.name, s.acct));
        }
        let left = s.def.amount.u - s.next.u;
        if u > 0 && u > left + s.next.tol() {
            return Err(format!("{} of {} receives {}, but has only room for {}", s.def.name, s.acct, num(u), num(left)));
        }
    }
    for a in m.env_accounts() {
        for (y, avail) in m.available(&a) {
            let sum: i128 = m.envs.iter().filter(|s| s.acct == a && s.def.amount.sym == y).map(|s| fill_of(f, s)).sum();
            if sum > avail.u.max(0) + avail.tol() {
                return Err(format!("{} ({}) is moved to the envelopes of {a}, but only {} is available", num(sum), show(&y), num(avail.u)));
            }
        }
    }
    Ok(())
}

/// Exactly what the funding methods say.
pub fn check_amounts(m: &Model, f: &Fills) -> Result<(), String> {
    check_bounds(m, f)?;
    for a in m.env_accounts() {
        for (y, avail) in m.available(&a) {
            let envs: Vec<&EnvState> = m.envs.iter().filter(|s| s.acct == a && s.def.amount.sym == y).collect();
            let n = envs.len() as i128;
            let wanted: i128 = envs.iter().map(|s| s.wants(m.day)).sum();
            let got: i128 = envs.iter().map(|s| fill_of(f, s)).sum();
            let tol = n + avail.tol();
            for s in &envs {
                let (w, g) = (s.wants(m.day), fill_of(f, s));
                let name = format!("{} of {}", s.def.name, s.acct);
                if w == 0 && g != 0 && s.next.tol() == 0 {
                    return Err(format!("{name} receives {}, but should receive nothing", num(g)));
                }
                if g > w + 1 + s.next.tol() {
                    return Err(format!("{name} receives {}, should be {}", num(g), num(w)));
                }
                if avail.u >= wanted + tol && g < w - 1 - s.next.tol() {
                    return Err(format!("{name} receives {}, should be {} ({} is available)", num(g), num(w), num(avail.u)));
                }
            }
            let want = wanted.min(avail.u.max(0));
            if (got - want).abs() > tol {
                return Err(format!("{} ({}) is moved to the envelopes of {a}, should be {} ({} wanted, {} available)", num(got), show(&y), num(want), num(wanted), num(avail.u)));
            }
        }
    }
    Ok(())
}

fn random_cmd(s: &mut Src) -> &'static str {
    *s.pick(&["e", "b", "r", "balance", "envelopes", "register", "n", "s"])
}

/// A run that may fill. (`new` and `summary` end with an error, after filling.)
fn run_filling(c: &mut Ctx, cmd: &str, o: &Opts) -> Result<String, Fail> {
    if cmd == "n" || cmd == "s" {
        c.refusal(&[cmd, "-f", J], o, "not supported yet")?;
        return Ok(String::new());
    }
    c.report(&[cmd, "-f", J], o)
}

fn small() -> Cfg {
    let mut cf = cfg();
    cf.big = false;
    cf.funded = true;
    cf.rich = true;
    cf
}

/// Adds an entry to the journal by hand, as a user would.
fn by_hand(c: &mut Ctx, items: &mut Vec<Item>, e: Entry) {
    let f = final_format(items);
    let mut t = c.read(J);
    if !t.ends_with('\n') {
        t.push('\n');
    }
    t += &plain().entry(&e, f);
    c.write(J, &t);
    items.push(Item::Entry(e));
}

/// A day in the life of a user: new entries, dated up to today.
fn user_entries(s: &mut Src, c: &mut Ctx, w: &World, items: &mut Vec<Item>, cf: &Cfg, today_only: bool) {
    for _ in 0..s.weighted(&[3, 3, 2]) {
        let mut e = if s.chance(1, 2) {
            gen_entry(s, w, cf)
        } else {
            // income
            let a = w.accts.iter().filter(|a| !a.envs.is_empty()).nth(s.below(2)).or(w.accts.iter().find(|a| !a.envs.is_empty()));
            let (Some(a), Some(b)) = (a, w.accts.iter().rev().find(|b| b.envs.is_empty())) else { return };
            let y = a.envs[0].amount.sym.clone();
            let u = units(s, false) * *s.pick(&[1, 10, -1]);
            Entry { date: w.day, status: '*', desc: "Income".into(), payee: None, posts: vec![Post::plain(&a.name, Amt::new(u, &y)), Post::plain(&b.name, Amt::new(-u, &y))] }
        };
        if today_only || s.chance(1, 2) {
            e.date = w.day;
        }
        settle(&mut e, w);
        by_hand(c, items, e);
    }
}

fn wants_any(m: &Model) -> bool {
    m.envs.iter().any(|s| s.wants(m.day) > 0)
}

fn c10(s: &mut Src, c: &mut Ctx) -> Res {
    let mut cf = small();
    cf.entries = 5;
    let mut w = gen_world(s, &cf);
    let mut items = gen_items(s, &w, &cf);
    put(c, s, &items);
    let days = 1 + s.below(8);
    for d in 0..days {
        if d > 0 {
            let gap = match s.weighted(&[4, 3, 1, 2]) {
                0 => 1,
                1 => s.range(2, 9),
                2 => 0,
                _ => s.range(10, 40),
            };
            w.day = w.day.plus(gap);
            user_entries(s, c, &w, &mut items, &cf, false);
        }
        let m = Model::of(&items, w.day);
        labels(c, &m);
        let before = c.read(J);
        run_filling(c, random_cmd(s), &at(w.day))?;
        let added = appended(&before, &c.read(J))?;
        let (f, e) = read_fill(&m, &added, fmt_of(&items))?;
        check_bounds(&m, &f)?;
        c.label_if(m.env_accounts().iter().any(|a| m.available(a).values().any(|x| x.u < 0)), "nothing available");
        if let Some(e) = e {
            c.nontrivial = true;
            c.label_if(m.envs.iter().any(|x| x.now.u < 0 && fill_of(&f, x) > 0), "overspent envelope filled");
            c.label_if(d > 0, "filled on a later day");
            items.push(Item::Entry(e));
        }
    }
    Ok(())
}

fn c11(s: &mut Src, c: &mut Ctx) -> Res {
    let mut cf = small();
    cf.entries = *s.pick(&[0, 3, 8]);
    cf.envs = *s.pick(&[3, 1, 6]);
    cf.rich = s.chance(9, 10);
    let w = gen_world(s, &cf);
    let mut items = gen_items(s, &w, &cf);
    // some envelopes are partly filled
    for _ in 0..s.below(3) {
        if let Some(p) = env_posting(s, &w, &cf) {
            let date = w.day.plus(-s.range(0, 30));
            items.push(Item::Entry(Entry { date, status: '*', desc: "moved".into(), payee: None, posts: vec![p] }));
        }
    }
    let m = Model::of(&items, w.day);
    labels(c, &m);
    c.nontrivial = wants_any(&m);
    put(c, s, &items);
    let before = c.read(J);
    run_filling(c, random_cmd(s), &at(w.day))?;
    let added = appended(&before, &c.read(J))?;
    let (f, e) = read_fill(&m, &added, fmt_of(&items))?;
    check_amounts(&m, &f)?;
    c.label_if(e.is_some(), "filled");
    c.label_if(f.len() > 1, "several envelopes filled");
    for x in &m.envs {
        let g = fill_of(&f, x);
        c.label_if(x.today, "touched today");
        c.label_if(g > 0 && x.def.fund == Fund::Conservative, "conservative filled");
        c.label_if(g > 0 && x.def.fund == Fund::Aggressive, "aggressive filled");
        c.label_if(g > 0 && g + 1 < x.wants(w.day), "money is scarce");
        c.label_if(g > 0 && x.next.u > 0, "filled up further");
    }
    Ok(())
}

fn c12(s: &mut Src, c: &mut Ctx) -> Res {
    let mut cf = small();
    cf.entries = 5;
    let mut w = gen_world(s, &cf);
    let mut items = gen_items(s, &w, &cf);
    put(c, s, &items);
    for d in 0..1 + s.below(4) {
        if d > 0 {
            w.day = w.day.plus(if s.chance(1, 2) { 1 } else { s.range(2, 35) });
            user_entries(s, c, &w, &mut items, &cf, false);
        }
        let o = at(w.day);
        let m = Model::of(&items, w.day);
        let before = c.read(J);
        run_filling(c, random_cmd(s), &o)?;
        let after = c.read(J);
        let (mut f, e) = read_fill(&m, &appended(&before, &after)?, fmt_of(&items))?;
        items.extend(e.map(Item::Entry));
        c.label_if(!f.is_empty(), "filled");
        c.nontrivial |= !f.is_empty();
        let snap = snapshot(&c.r.dir);
        for _ in 0..1 + s.below(3) {
            // another time on the same day
            let mut o = o.clone();
            o.now += s.range(-43200, 43199);
            run_filling(c, random_cmd(s), &o)?;
            if snapshot(&c.r.dir) != snap {
                return v(format!("running again on {} changed the journal: {:?} was added", w.day.iso(), appended(&after, &c.read(J)).unwrap_or_default()));
            }
        }
        if s.chance(1, 2) {
            user_entries(s, c, &w, &mut items, &cf, true);
            if s.chance(1, 2) {
                // and something that is dated earlier, or later
                let mut e = gen_entry(s, &w, &cf);
                e.date = w.day.plus(s.range(1, 40) * [-1, 1][s.below(2)]);
                by_hand(c, &mut items, e);
            }
            for _ in 0..2 {
                let m = Model::of(&items, w.day);
                let before = c.read(J);
                run_filling(c, random_cmd(s), &o)?;
                let (g, e) = read_fill(&m, &appended(&before, &c.read(J))?, fmt_of(&items))?;
                items.extend(e.map(Item::Entry));
                for (a, n, u) in &g {
                    if f.iter().any(|x| x.0 == *a && x.1 == *n) {
                        return v(format!("{n} of {a} was funded twice on {} (another {})", w.day.iso(), num(*u)));
                    }
                }
                c.label_if(!f.is_empty(), "user entries after a fill");
                c.label_if(!g.is_empty(), "others filled later that day");
                f.extend(g);
            }
        }
    }
    Ok(())
}

fn c13(s: &mut Src, c: &mut Ctx) -> Res {
    let start = any_day(s);
    let mut day = start;
    let y = sym(s);
    // due in a long time, so that it isn't run on all days
    let far = s.chance(1, 8);
    c.label_if(far, "due in more than 62 days");
    let (freq, starting, periods) = match s.below(6) {
        k if far => match k {
            0 | 1 => (Freq::Yearly, Some(day.plus(s.range(63, 800))), 1),
            _ => (Freq::Once(day.plus(s.range(63, 2000))), None, 1),
        },
        0 => (Freq::Weekly(s.below(7)), None, 3),
        1 => (Freq::Monthly(s.range(1, 31) as u32), None, 2),
        2 => {
            let (f, st) = other_week(s, |s| day.plus(s.range(-60, 20)));
            (f, st, 2)
        }
        3 => {
            let (f, st) = other_month(s, |s| day.plus(s.range(-100, 40)));
            (f, st, 1)
        }
        4 => (Freq::Yearly, Some(day.plus(-365 * s.range(0, 3) + s.range(2, 60))), 1),
        _ => (Freq::Once(day.plus(s.range(2, 60))), None, 1),
    };
    let amount = units(s, false);
    let def = EnvDef { goal: s.chance(1, 3), name: "rent".into(), freq, starting, amount: Amt::new(amount, &y), fors: vec!["expenses:rent".into()], fund: Fund::Conservative };
    let accts = vec![
        AcctDef { name: "assets:bank".into(), envs: vec![def.clone()] },
        AcctDef { name: "expenses:rent".into(), envs: vec![] },
        AcctDef { name: "income:job".into(), envs: vec![] },
    ];
    let mut items: Vec<Item> = accts.iter().cloned().map(Item::Acct).collect();
    let plenty = amount * 10;
    items.push(Item::Entry(Entry { date: day.plus(-400), status: '*', desc: "Income".into(), payee: None,
        posts: vec![Post::plain("assets:bank", Amt::new(plenty, &y)), Post::plain("income:job", Amt::new(-plenty, &y))] }));
    let mut partly = false;
    if s.chance(1, 4) && def.last_due(day) != Some(day) {
        // something is in there already
        let date = day.plus(-s.range(1, 5)).max(def.last_due(day).unwrap_or(day.plus(-9)));
        let u = (amount * s.range(1, 9) as i128 / 10).max(1);
        items.push(Item::Entry(Entry { date, status: '*', desc: "by hand".into(), payee: None,
            posts: vec![Post::Env { acct: "assets:bank".into(), env: "rent".into(), amt: Amt::new(u, &y) }] }));
        c.label("partly filled before");
        partly = true;
    }
    c.write(J, &plain().journal(&items));
    let skip = s.chance(1, 3);
    c.label_if(skip, "skipped days");
    for _ in 0..periods {
        let Some(due) = def.next_due(day) else { break };
        let total = due.days() - day.days();
        if total > 62 && !far {
            break;
        }
        let begin = day;
        let mut first: Option<i128> = None;
        let mut fills = 0;
        while day < due {
            if skip && !far && due.days() - day.days() > 1 && s.chance(1, 3) {
                day = day.plus(1);
                continue;
            }
            if far && day.days() - begin.days() > 3 && due.days() - day.days() > 1 {
                let left = due.days() - day.days();
                day = day.plus(s.range(0, (left / 3).clamp(1, left - 1)));
            }
            let m = Model::of(&items, day);
            let before = c.read(J);
            run_filling(c, s.pick(&["e", "b"]), &at(day))?;
            let (f, e) = read_fill(&m, &appended(&before, &c.read(J))?, "%Y/%m/%d")?;
            let u: i128 = f.iter().map(|x| x.2).sum();
            fills += e.is_some() as i32;
            items.extend(e.map(Item::Entry));
            let f0 = *first.get_or_insert(u);
            if (!skip && !far || far && day.days() - begin.days() <= 3) && (u - f0).abs() > 5 {
                return v(format!("on {} the envelope receives {}, on the first day it was {}", day.iso(), num(u), num(f0)));
            }
            day = day.plus(1);
        }
        // it's due today
        let out = c.report(&["e", "-n", "-f", J], &at(day))?;
        let r = parse::envelopes(&out)?;
        let Some(row) = r.get("assets:bank").and_then(|a| a.envs.first()) else { return v("the envelope isn't listed".into()) };
        if row.now.u != amount || row.next.u != 0 {
            return v(format!("on the due date {}, {} is ready and {} is saved, should be {} and 0", day.iso(), num(row.now.u), num(row.next.u), num(amount)));
        }
        if far {
            let f0 = first.unwrap_or(0);
            if (f0 * total as i128 - amount).abs() > total as i128 && !partly {
                return v(format!("{} days before the due date {}, the envelope receives {}, which isn't the {total}th part of {}", total, due.iso(), num(f0), num(amount)));
            }
        }
        c.nontrivial |= fills > 1;
        c.label_if(fills > 20, "more than 20 fills in a period");
        // it's spent, and saving starts again
        let e = Entry { date: day, status: '*', desc: "Rent".into(), payee: None,
            posts: vec![Post::plain("expenses:rent", Amt::new(amount, &y)), Post::blank("assets:bank")] };
        // (the automatic fill doesn't touch the envelope on a day on which it was used)
        if def.next_due(day).is_none() {
            break;
        }
        if s.chance(1, 2) {
            let m = Model::of(&items, day);
            let before = c.read(J);
            run_filling(c, "e", &at(day))?;
            let (f, fe) = read_fill(&m, &appended(&before, &c.read(J))?, "%Y/%m/%d")?;
            check_amounts(&m, &f)?;
            items.extend(fe.map(Item::Entry));
        }
        by_hand(c, &mut items, e);
        day = day.plus(1);
        if def.next_due(day).is_some_and(|n| n.days() - day.days() < 2) {
            break;
        }
        c.label("another period");
    }
    Ok(())
}

fn c14(s: &mut Src, c: &mut Ctx) -> Res {
    c.nontrivial = true;
    let day = any_day(s);
    let n = 6 + s.below(15);
    let mut envs = vec![];
    for i in 0..n {
        let (freq, starting) = gen_freq(s, day);
        envs.push(EnvDef { goal: s.chance(1, 3), name: format!("e{i}"), freq, starting, amount: Amt { u: UNIT, sym: None }, fors: vec![], fund: Fund::Unset });
    }
    for e in &envs {
        match e.freq {
            Freq::Yearly => c.label("every year"),
            Freq::OtherWeek(_) => c.label("every other week"),
            Freq::OtherMonth(_) => c.label("every other month"),
            Freq::Once(d) => {
                c.label("once");
                c.label_if(d <= day, "once, over");
            }
            Freq::Monthly(d) => {
                c.label_if(d > 28, "day after the 28th");
                c.label_if(d == day.d, "due today");
            }
            Freq::Weekly(x) => c.label_if(x == day.weekday(), "due today"),
            Freq::NoDate => c.label("no date"),
        }
        c.label_if(e.starting.is_some_and(|d| d > day), "starts later");
        c.label_if(e.starting.is_some_and(|d| d == day), "starts today");
        c.label_if(e.starting.is_some_and(|d| d.m == 2 && d.d == 29), "starts on a leap day");
    }
    let mut items = vec![];
    if s.chance(1, 3) {
        items.push(Item::Format(s.below(formats(day))));
    }
    items.push(Item::Acct(AcctDef { name: "assets:bank".into(), envs }));
    let m = Model::of(&items, day);
    put(c, s, &items);
    let out = c.report(&["e", "-n", "-f", J], &at(day))?;
    check_envelopes(&m, &out, &What { amounts: false, due: true, available: false })?;
    Ok(())
}

fn c15(s: &mut Src, c: &mut Ctx) -> Res {
    let mut cf = cfg();
    cf.big = false;
    cf.entries = 0;
    let w = gen_world(s, &cf);
    let mut items = gen_items(s, &w, &cf);
    let mut moves: BTreeMap<(String, String), i32> = BTreeMap::new();
    for _ in 0..2 + s.below(10) {
        let Some(p) = env_posting(s, &w, &cf) else { continue };
        let Post::Env { acct, env, .. } = &p else { continue };
        *moves.entry((acct.clone(), env.clone())).or_default() += 1;
        let def = w.accts.iter().find(|a| a.name == *acct).unwrap().envs.iter().find(|e| e.name == *env).unwrap();
        let date = match s.weighted(&[3, 3, 1, 1]) {
            0 => def.last_due(w.day).unwrap_or(w.day).plus(s.range(-2, 2)),
            1 => w.day.plus(s.range(-100, 0)),
            2 => w.day.plus(s.range(-1, 3)),
            _ => {
                let l = def.last_due(w.day).unwrap_or(w.day);
                def.last_due(l.plus(-1)).unwrap_or(l).plus(s.range(-1, 1))
            }
        };
        let l = def.last_due(w.day);
        c.label_if(l == Some(date), "on the due date");
        c.label_if(l == Some(date.plus(1)), "on the day before the due date");
        c.label_if(date > w.day, "in the future");
        c.label_if(l.is_none(), "before the first due date");
        let mut posts = vec![p];
        if s.chance(1, 5) {
            posts.extend(env_posting(s, &w, &cf));
        }
        if s.chance(1, 5) {
            let (a, b) = (w.accts[0].name.clone(), w.accts[w.accts.len() - 1].name.clone());
            let u = units(s, false);
            posts.push(Post::plain(&a, Amt { u, sym: None }));
            posts.push(Post::plain(&b, Amt { u: -u, sym: None }));
        }
        items.push(Item::Entry(Entry { date, status: *s.pick(&['*', '~', '?']), desc: "move".into(), payee: None, posts }));
    }
    let m = Model::of(&items, w.day);
    labels(c, &m);
    c.nontrivial = moves.values().any(|n| *n > 1);
    put(c, s, &items);
    let out = c.report(&["e", "-n", "-f", J], &at(w.day))?;
    check_envelopes(&m, &out, &What { amounts: true, due: false, available: false })?;
    Ok(())
}

/// Envelopes that hold some share of their targets: the whole report.
fn c26(s: &mut Src, c: &mut Ctx) -> Res {
    let mut cf = cfg();
    cf.big = false;
    cf.entries = size(s, 6, 30);
    let w = gen_world(s, &cf);
    let mut items = gen_items(s, &w, &cf);
    for a in &w.accts {
        for e in &a.envs {
            for _ in 0..s.below(3) {
                let t = e.amount.u;
                let u = match s.weighted(&[4, 2, 2, 1]) {
                    0 => t * s.range(-10, 50) as i128 / 40,
                    1 => t * s.range(1, 40) as i128 / 40 - 1 - s.below(3) as i128,
                    2 => t * s.range(0, 1200) as i128 / 1000,
                    _ => t * s.range(-3, 30) as i128,
                };
                if u == 0 {
                    continue;
                }
                let l = e.last_due(w.day).unwrap_or(w.day);
                let date = if s.chance(1, 2) { l.plus(s.range(-3, 3)) } else { w.day.plus(s.range(-100, 0)) };
                items.push(Item::Entry(Entry { date, status: '*', desc: "move".into(), payee: None,
                    posts: vec![Post::Env { acct: a.name.clone(), env: e.name.clone(), amt: Amt { u, sym: e.amount.sym.clone() } }] }));
            }
        }
    }
    let m = Model::of(&items, w.day);
    labels(c, &m);
    c.nontrivial = m.envs.len() > 1 && m.envs.iter().any(|e| e.now.u != 0 || e.next.u != 0);
    put(c, s, &items);
    let out = c.report(&["e", "-n", "-f", J], &at(w.day))?;
    check_envelopes(&m, &out, &What { amounts: true, due: true, available: true })?;
    let accts: Vec<&str> = out.lines().filter(|l| !l.starts_with(' ') && !l.is_empty()).collect();
    let want: Vec<String> = m.env_accounts().into_iter().collect();
    if accts != want {
        return v(format!("the accounts are listed in the order {accts:?}, should be {want:?}"));
    }
    for (a, r) in parse::envelopes(&out)? {
        let of: Vec<&EnvState> = m.envs.iter().filter(|e| e.acct == a).collect();
        let order: Vec<&str> = of.iter().filter(|e| !e.def.goal).chain(of.iter().filter(|e| e.def.goal)).map(|e| e.def.name.as_str()).collect();
        let got: Vec<&str> = r.envs.iter().map(|e| e.name.as_str()).collect();
        if got != order {
            return v(format!("the envelopes of {a} are listed in the order {got:?}, should be {order:?}"));
        }
        for row in &r.envs {
            let e = of.iter().find(|e| e.def.name == row.name).unwrap();
            let (now, next) = e.shown();
            for (i, sum) in [now, next].iter().enumerate() {
                let b = &row.bars[i];
                let n = b.chars().take_while(|x| *x != ' ').count();
                if b.chars().count() != 40 || b.chars().skip(n).any(|x| x != ' ') {
                    return v(format!("envelope {} of {a} has the bar {b:?}", row.name));
                }
                let t = e.def.amount.u;
                if t == 0 {
                    continue; // what its share is isn't defined
                }
                let share = |u: i128| (u * 40).div_euclid(t).clamp(0, 40) as usize;
                // (a whole number of columns may come out slightly below it, or above)
                let slack = sum.tol() + (sum.abs as f64 * 1e-14) as i128 + if (sum.u * 40) % t == 0 { 1 } else { 0 };
                c.label_if(n > 0 && n < 40, "partly filled bar");
                c.label_if(n == 40, "full bar");
                c.label_if(sum.u < 0, "overspent");
                if n < share(sum.u - slack) || n > share(sum.u + slack) {
                    return v(format!("the bar of envelope {} of {a} has {n} of 40 columns filled; it holds {} of {}", row.name, num(sum.u), num(t)));
                }
            }
        }
    }
    Ok(())
}

fn c16(s: &mut Src, c: &mut Ctx) -> Res {
    let mut cf = cfg();
    cf.big = false;
    cf.entries = 0;
    cf.syms = *s.pick(&[1, 3]);
    let mut w = gen_world(s, &cf);
    // every envelope has `for` accounts
    let names = w.names();
    for a in w.accts.iter_mut() {
        let own = a.name.clone();
        for e in a.envs.iter_mut() {
            if e.fors.is_empty() {
                let others: Vec<&String> = names.iter().filter(|n| **n != own).collect();
                let f = s.pick(&others).to_string();
                e.fors.push(f);
            }
        }
    }
    let mut items = gen_items(s, &w, &cf);
    let mut inferred = 0;
    for _ in 0..1 + s.below(6) {
        let mut e = if s.chance(2, 3) {
            let v: Vec<(String, EnvDef)> = w.accts.iter().flat_map(|a| a.envs.iter().map(|e| (a.name.clone(), e.clone()))).collect();
            if v.is_empty() {
                continue;
            }
            let (own, def) = s.pick(&v).clone();
            let fors: Vec<&String> = def.fors.iter().filter(|f| names.contains(f)).collect();
            if fors.is_empty() {
                continue;
            }
            let y = def.amount.sym.clone();
            let mut posts = vec![];
            let mut sum = 0;
            let mut add = |posts: &mut Vec<Post>, acct: &str, u: i128| {
                sum += u;
                posts.push(Post::plain(acct, Amt::new(u, &y)));
            };
            let sign = if s.chance(1, 4) { -1 } else { 1 };
            for _ in 0..1 + s.weighted(&[3, 2, 1]) {
                let u = units(s, false) * if s.chance(1, 8) { -sign } else { sign };
                add(&mut posts, s.pick(&fors), u);
            }
            for _ in 0..s.weighted(&[3, 2, 1]) {
                let u = signed(s, false);
                add(&mut posts, s.pick(&names), u);
            }
            if s.chance(1, 3) {
                let u = signed(s, false);
                add(&mut posts, &own, u);
            }
            // a foreign amount
            if y.is_none() && s.chance(1, 4) {
                let f = Some("BTC".to_string());
                let u = units4(s) * [1, -1][s.below(2)];
                let cost = if u > 0 && s.chance(1, 2) { Cost::Total(Amt { u: units4(s), sym: None }) } else { Cost::Unit(Amt { u: units4(s), sym: None }) };
                let acct = match s.below(3) {
                    0 => s.pick(&fors).to_string(),
                    1 => own.clone(),
                    _ => s.pick(&names).clone(),
                };
                let p = Post::Classic { acct, amt: Some(Amt::new(u, &f)), cost: Some(cost), check: None };
                sum += native(&p).unwrap();
                posts.push(p);
                c.label("foreign amount with cost");
            }
            let last = if s.chance(5, 6) { own.clone() } else { s.pick(&names).clone() };
            posts.push(if s.chance(1, 2) { Post::blank(&last) } else { Post::plain(&last, Amt::new(-sum, &y)) });
            s.shuffle(&mut posts);
            let date = gen_date(s, &w, &cf);
            Entry { date, status: '*', desc: "spent".into(), payee: None, posts }
        } else {
            gen_entry(s, &w, &cf)
        };
        if s.chance(1, 8) {
            e.posts.extend(env_posting(s, &w, &cf));
        }
        settle(&mut e, &w);
        for a in &w.accts {
            for d in &a.envs {
                if let Some(Some(u)) = infers(&a.name, d, &e) {
                    inferred += (u != 0) as i32;
                    c.label_if(u > 0, "refund");
                    c.label_if(u < 0, "spent");
                }
            }
        }
        items.push(Item::Entry(e));
    }
    let m = Model::of(&items, w.day);
    labels(c, &m);
    c.nontrivial = inferred > 0;
    c.label_if(inferred > 2, "more than 2 movements");
    put(c, s, &items);
    let out = c.report(&["e", "-n", "-f", J], &at(w.day))?;
    check_envelopes(&m, &out, &What { amounts: true, due: false, available: false })?;
    Ok(())
}

fn adds_up(m: &Model, e: &str, b: &str) -> Result<bool, String> {
    let (env, bal) = (parse::envelopes(e)?, parse::balance(b)?);
    let mut interesting = false;
    for (a, r) in &env {
        let mut sums = r.available.clone();
        for x in &r.envs {
            if x.now.sym != x.target.sym || x.next.sym != x.target.sym {
                return Err(format!("envelope {} of {a} mixes currencies", x.name));
            }
            *sums.entry(x.now.sym.clone()).or_default() += x.now.u + x.next.u;
            interesting |= x.now.u != 0 || x.next.u != 0;
        }
        let none = BTreeMap::new();
        let real = bal.get(a).unwrap_or(&none);
        let syms: BTreeSet<&Sym> = sums.keys().chain(real.keys()).collect();
        for y in syms {
            let (x, z) = (sums.get(y).copied().unwrap_or(0), real.get(y).copied().unwrap_or(0));
            let tol = m.available(a).get(y).map(|s| s.tol()).unwrap_or(0);
            if (x - z).abs() > tol {
                return Err(format!("available money and envelopes of {a} ({}) add up to {}, but its balance is {}", show(y), num(x), num(z)));
            }
        }
    }
    Ok(interesting)
}

fn c17(s: &mut Src, c: &mut Ctx) -> Res {
    let mut cf = small();
    cf.rich = s.chance(3, 4);
    let mut w = gen_world(s, &cf);
    let mut items = gen_items(s, &w, &cf);
    put(c, s, &items);
    for d in 0..1 + s.below(3) {
        if d > 0 {
            w.day = w.day.plus(s.range(1, 40));
            user_entries(s, c, &w, &mut items, &cf, false);
        }
        let o = at(w.day);
        let m = Model::of(&items, w.day);
        labels(c, &m);
        let b1 = c.report(&["b", "-n", "-f", J], &o)?;
        let e1 = c.report(&["e", "-n", "-f", J], &o)?;
        let before = c.read(J);
        let (b2, e2) = if s.chance(1, 2) {
            let b = c.report(&["b", "-f", J], &o)?;
            (b, c.report(&["e", "-n", "-f", J], &o)?)
        } else {
            let e = c.report(&["e", "-f", J], &o)?;
            (c.report(&["b", "-n", "-f", J], &o)?, e)
        };
        let (f, e) = read_fill(&m, &appended(&before, &c.read(J))?, fmt_of(&items))?;
        c.label_if(!f.is_empty(), "filled");
        items.extend(e.map(Item::Entry));
        let m2 = Model::of(&items, w.day);
        let i1 = adds_up(&m, &e1, &b1).map_err(|e| format!("before the fill: {e}"))?;
        let i2 = adds_up(&m2, &e2, &b2).map_err(|e| format!("after the fill: {e}"))?;
        c.nontrivial |= i1 || i2;
        if b1 != b2 {
            return v("filling envelopes changed a balance".into());
        }
    }
    Ok(())
}

struct Zone {
    tz: String,
    std: i64, // seconds east of UTC
    rule: usize, // 0: no summer time, 1: Europe, 2: North America
}

fn nth_sunday(y: i32, m: u32, n: u32) -> Date {
    // n = 5: the last one
    if n == 5 {
        let mut d = Date::new(y, m, month_len(y, m));
        while d.weekday() != 6 {
            d = d.plus(-1);
        }
        return d;
    }
    let mut d = Date::new(y, m, 1);
    while d.weekday() != 6 {
        d = d.plus(1);
    }
    d.plus(7 * (n as i64 - 1))
}

impl Zone {
    fn offset(&self, epoch: i64) -> i64 {
        let y = Date::from_days((epoch + self.std).div_euclid(86400)).y;
        let (from, to) = match self.rule {
            0 => return self.std,
            // at 2:00 standard time / 3:00 summer time
            1 => (nth_sunday(y, 3, 5).days() * 86400 + 7200 - self.std, nth_sunday(y, 10, 5).days() * 86400 + 7200 - self.std),
            // at 2:00 standard time / 2:00 summer time
            _ => (nth_sunday(y, 3, 2).days() * 86400 + 7200 - self.std, nth_sunday(y, 11, 1).days() * 86400 + 3600 - self.std),
        };
        if epoch >= from && epoch < to { self.std + 3600 } else { self.std }
    }
    fn day(&self, epoch: i64) -> Date {
        Date::from_days((epoch + self.offset(epoch)).div_euclid(86400))
    }
}

fn c23(s: &mut Src, c: &mut Ctx) -> Res {
    let zone = match s.below(4) {
        0 => {
            let h = s.range(-12, 14);
            Zone { tz: format!("XXX{}", -h), std: h * 3600, rule: 0 }
        }
        1 => {
            let q = s.range(-47, 55);
            let a = q.abs();
            Zone { tz: format!("XXX{}{}:{:02}", if q > 0 { "-" } else { "" }, a / 4, a % 4 * 15), std: q * 900, rule: 0 }
        }
        2 => Zone { tz: "CET-1CEST,M3.5.0,M10.5.0/3".into(), std: 3600, rule: 1 },
        _ => Zone { tz: "EST5EDT,M3.2.0,M11.1.0".into(), std: -5 * 3600, rule: 2 },
    };
    let mut cf = small();
    cf.entries = 4;
    let mut w = gen_world(s, &cf);
    if zone.rule > 0 && s.chance(1, 2) {
        // the days on which the clocks change
        let y = w.day.y;
        w.day = match (zone.rule, s.below(2)) {
            (1, 0) => nth_sunday(y, 3, 5),
            (1, _) => nth_sunday(y, 10, 5),
            (_, 0) => nth_sunday(y, 3, 2),
            _ => nth_sunday(y, 11, 1),
        };
        c.label("the clocks change today");
    }
    let items = gen_items(s, &w, &cf);
    // the first and last second of the local day
    let noon = w.day.epoch_noon() - zone.std;
    let mut first = noon - 43200 - 7200;
    while zone.day(first) < w.day {
        first += 1800;
    }
    let mut next = noon + 43200 - 7200;
    while zone.day(next) <= w.day {
        next += 1800;
    }
    let times = [first, first + s.range(0, 3600), next - 1, next - 1 - s.range(0, 3600), first + s.range(0, next - first - 1)];
    let t = *s.pick(&times);
    let utc = Date::from_days(t.div_euclid(86400));
    c.label_if(utc != w.day, "another date in UTC");
    c.label_if(t - first < 3600 || next - t <= 3600, "within an hour of midnight");
    c.nontrivial = utc != w.day || t - first < 3600 || next - t <= 3600;
    let mut m = Model::of(&items, w.day);
    put(c, s, &items);
    let opts = |t: i64| {
        let mut o = Opts::epoch(t);
        o.tz = zone.tz.clone();
        o
    };
    let out = c.report(&["e", "-n", "-f", J], &opts(t))?;
    check_envelopes(&m, &out, &ALL)?;
    let before = c.read(J);
    c.report(&["b", "-f", J], &opts(t))?;
    let (f, e) = read_fill(&m, &appended(&before, &c.read(J))?, fmt_of(&items))?;
    check_amounts(&m, &f)?;
    c.label_if(!f.is_empty(), "filled");
    if let Some(e) = &e {
        m.entry(e);
    }
    // still the same day
    let after = c.read(J);
    for t2 in [next - 1, first] {
        let out = c.report(&["e", "-f", J], &opts(t2))?;
        if c.read(J) != after {
            return v(format!("{:?} was added on the same day", appended(&after, &c.read(J)).unwrap_or_default()));
        }
        check_envelopes(&m, &out, &ALL)?;
    }
    // the next day
    let mut all = items.clone();
    all.extend(e.map(Item::Entry));
    let m2 = Model::of(&all, w.day.plus(1));
    c.report(&["e", "-f", J], &opts(next))?;
    let (f, e) = read_fill(&m2, &appended(&after, &c.read(J))?, fmt_of(&items))?;
    check_amounts(&m2, &f)?;
    c.label_if(e.is_some(), "filled on the next day");
    Ok(())
}
