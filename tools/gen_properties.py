#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The one place where the properties' texts live."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}),
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=None)))

L="src/ledger/mod.rs"; EN="src/entry.rs"; AC="src/account.rs"; EV="src/envelope.rs"; PO="src/posting.rs"; AM="src/amount.rs"; IM="src/importer.rs"; FL="src/flags.rs"; RG="src/ledger/register.rs"; UT="src/utils.rs"

p("C01","The balance report is the exact sum of what was posted",
 "For every journal silverfox accepts, `balance` lists exactly the accounts that have postings and, for each account and currency, exactly the sum of the amounts posted to it (with blank postings counted at their inferred amount), over all entries and all included files. Envelope movements, costs (`=`, `@`) and balance assertions never change a balance.",
 ["inputs"],"every valid journal: any number of accounts, entries, postings, currencies, magnitudes, dates, includes",
 "Nothing tests src/ledger at all; the existing tests parse one entry. A sum over all postings can be wrong for one shape of entry or history only (first posting blank, second currency, the n-th entry).",
 [L,EN,AM,PO],[("Ledger::get_totals / display_flat_balance",L),("AmountPool addition per currency",AM),("Entry::get_blank_amount",EN)],["stdout of `silverfox b -n -f FILE`"])
p("C02","Entries must balance, so money is never created or lost",
 "An entry without blank postings whose amounts are all in one currency and don't add up to zero is rejected, however many postings it has, however large the amounts are and however small the difference is (as long as it exceeds 0.00000001 and the precision of the numbers). In every journal of single-currency entries that is accepted, the reported balances of all accounts together add up to zero in each currency.",
 ["inputs"],"every journal of single-currency entries, balanced or off by any amount in any posting",
 "No test contains an unbalanced entry, and none looks at totals.",
 [EN,L],[("Entry::validate",EN),("Entry::parse",EN),("Ledger::get_totals",L)],["stdout/stderr of `silverfox b -n`"])
p("C03","A blank posting takes exactly the amount that balances its entry",
 "Leaving out the amount of one posting of an entry gives the same balances, envelopes and register as writing out the negated sum of its other postings' amounts, where in an entry of mixed currencies the postings in a foreign currency count with their stated cost (`= total` or `@ unit price`) in the native currency. An entry with more than one blank posting, or with a blank posting and foreign amounts whose native cost isn't stated next to other currencies, or with nothing but a blank posting, is rejected.",
 ["inputs"],"every entry with a blank posting at any position, any currencies, costs, signs, with or without envelope postings",
 "The only tests with a blank posting never ask for its value.",
 [EN,PO,L,AC],[("Entry::get_blank_amount",EN),("Entry::has_mixed_currencies",EN),("ClassicPosting::get_original_native_value",PO),("Entry::validate",EN)],["stdout of `silverfox b|e|r -n`"])
p("C04","Invalid journals are rejected as a whole and without side effects",
 "A journal with a fault anywhere in it or in a file it includes (a posting to an undefined account, a missing or unknown entry status, a date or amount that can't be parsed, an unclosed payee bracket, a malformed account or envelope definition, a duplicate envelope name, a directive without its value, a missing include) makes every command end with an error message and without any report. No file is changed by it.",
 ["inputs"],"every valid journal x every listed kind of fault x every position x every subcommand, with and without --no-move",
 "Two tests reject a bad account header; no test covers rejected entries, envelopes, directives or the absence of effects.",
 [L,EN,PO,AC,EV,FL],[("Ledger::parse_chunk",L),("ClassicPosting::validate, EnvelopePosting::parse",PO),("EntryStatus::from_str, Entry::parse_header",EN),("Envelope::parse",EV),("Account::add_envelope",AC)],["stdout, stderr, directory contents after any subcommand"])
p("C05","An amount means the same in every accepted notation",
 "The value of an amount doesn't depend on how it's written: minus sign before or after a leading symbol, with or without a space behind it (two of them in a row make none), symbol before or after the number with or without a space, commas as thousands separators, leading or trailing zeros. Every digit down to the eighth decimal place counts, and amounts with different symbols (or none) are never mixed.",
 ["inputs"],"every magnitude with up to 8 decimals, every symbol, every notation, in postings, costs, assertions, envelope amounts and envelope postings",
 "Tests read six amounts, in one notation, from csv.",
 [AM,PO,EV],[("Amount::parse",AM),("Amount Display / rounded_mag",AM),("EnvelopePosting::parse",PO)],["stdout of `silverfox b|e -n`"])
p("C06","Comments, blank lines and spacing never change a journal's meaning",
 "Adding `//` or `;` comments (at the end of any line, or on lines of their own, indented or not), blank lines, trailing whitespace, other indentation or Windows line endings to a journal never changes any report about it.",
 ["inputs"],"every valid journal x every placement of comments, blank lines, trailing spaces and indentation",
 "No test input contains a comment in a journal.",
 [UT,L,EN,AC,EV,PO],[("utils::remove_comments",UT),("Ledger::add_from_str chunking",L),("Envelope::from_header/add_body",EV)],["stdout of `silverfox b|e|r -n` with and without the noise"])
p("C07","The order of entries and the layout of files don't change results",
 "Writing the same entries in another order leaves all balances and envelope amounts the same, and the register stays sorted by date. Moving any consecutive part of a journal into an included file, at any depth and in any directory (`include` paths being relative to the including file), leaves all reports the same.",
 ["inputs","configurations"],"every valid journal x every permutation of its entries x every split into (nested) includes in directories",
 "No test reads a file, lets alone an include or two orders of the same entries.",
 [L,AC,EV],[("Ledger::include/add_from_file",L),("Ledger::add_entry",L),("Envelope::apply_amount",EV)],["stdout of `silverfox b|e|r -n`"])
p("C08","What silverfox writes, it reads back unchanged",
 "Every entry that silverfox appends (automatic fills and csv imports) is read by the next run with the same date, status, description, payee (texts without brackets and comment markers), accounts, envelopes, costs and currencies, and with the same amounts to eight decimal places, whatever the journal's date format and whether or not the file ended in a newline. So the reports that follow equal the reports of the run that wrote the entries, also when one run both fills envelopes and imports.",
 ["inputs","histories"],"every fill and import, any date format, currency symbol, amount, name length, end of file",
 "No test writes anything; none parses what as_parsable produced.",
 [EN,PO,AM,L,IM],[("Entry::as_parsable",EN),("Posting Display",PO),("Amount Display",AM),("Ledger::append_entries",L)],["bytes appended to the journal; stdout of the writing and the next run"])
p("C09","The journal only ever grows; what it contains survives any failure",
 "Whatever command is run, and however it ends (success, error, a full disk, a kill at any point of its file operations), the previous contents of the journal and of its included files remain, byte for byte, as the beginning of the file (included files unchanged), and no other file is created, changed or removed; files keep their permissions. What another process appends to the journal in the meantime remains, too. If writing fails, the failure is reported.",
 ["crash_points","fault_sequences","inputs"],"every journal x every write-like system call of the run x kill before/within/after it, ENOSPC, short writes, something else appended before it",
 "No test writes a file; none injects a fault.",
 [L],[("Ledger::append_entries: OpenOptions::append",L)],["file contents after an interrupted run"])
p("C10","Automatic funding never overdraws an account or overfills an envelope",
 "An automatic fill only ever adds money to envelopes: never a negative amount, never more to an account's envelopes than the account has available in that currency (nothing if that is zero or less), and never so much that what an envelope has saved for its next due date exceeds its amount.",
 ["inputs","histories"],"every journal, day and history of days, with scarce, negative or ample money and any mix of envelopes and currencies",
 "get_filling_amount has no test.",
 [EV,AC,L],[("Envelope::get_filling_amount",EV),("Account::get_filling_postings",AC)],["envelope postings appended by a run without --no-move"])
p("C11","Automatic funding moves exactly what its method says",
 "With enough money available, an `aggressive` envelope with an upcoming due date that hasn't been touched by an entry of today receives all that is missing (its amount minus what was put in for its next due date), a `conservative` one what is missing divided by the days left until it is due (or, if more money was taken out than it holds, at least what brings it back to zero, as far as it's missing), and one with `funding manual`, without `funding` or without an upcoming due date nothing. With too little money, all that is available is moved (as far as it is wanted). The movements are written as a single cleared entry of today, or not at all if there are none.",
 ["inputs"],"every journal with envelopes of any frequency, amounts saved before, any day",
 "get_filling_amount, fill_envelopes have no test, and depend on the clock.",
 [EV,AC,L],[("Envelope::get_filling_amount",EV),("Account::get_filling_postings",AC),("Ledger::fill_envelopes",L)],["envelope postings appended by a run without --no-move"])
p("C12","Envelopes are funded at most once a day",
 "Running silverfox again on the same day, any number of times and with any subcommand, never moves any more money into envelopes and changes nothing in the journal, after any history of days.",
 ["histories"],"every journal, every history of runs over days",
 "Needs a history of runs on disk and a controlled clock.",
 [EV,L],[("Envelope::last_transaction_date",EV),("Envelope::get_filling_amount",EV)],["journal bytes before and after the second run"],
 [("last_transaction_date","the last date an entry touched the envelope",EV)])
p("C13","Conservative funding is complete right on time",
 "If silverfox runs every day and the account always has enough money, a conservative envelope receives (about) the same amount every day and is ready in full, no more and no less, on its due date; then saving for the following due date starts again. Skipped days are made up for, as long as it runs on the day before the due date.",
 ["histories"],"every amount, frequency, starting point and subset of days on which silverfox runs",
 "A property of a whole sequence of runs; no test runs even one.",
 [EV,L],[("Envelope::get_filling_amount",EV),("Frequency::get_next_due_date",EV),("Envelope::apply_amount",EV)],["envelope report on each day of a simulated history"])
p("C14","Next due dates follow the envelope's schedule",
 "The next due date shown for an envelope is the first date after today that is on its schedule and not before its starting date: a weekday, a day of the month (the last day in shorter months), every other such weekday or every other month's such day counted from the first one that isn't before the starting date, each anniversary of the starting date (February 28th for the 29th), or a single date. There's none for `no date` and for a single date that has come.",
 ["inputs"],"every day x every frequency x every starting date, including month ends and leap years",
 "One test subtracts three months from two dates; no test computes a next due date.",
 [EV],[("Frequency::get_next_due_date, next_date_by_day_of_month",EV),("Envelope::get_next_due_date",EV)],["`next (on DATE)` in stdout of `silverfox e -n`"])
p("C15","Envelopes separate what's ready now from what's saved for next time",
 "Money put into an envelope before its most recent due date is ready (`now`), and money put in on or after it is saved for the next one (`next`); before the first due date everything is `next`. Money taken out always comes from what's ready, and a shortfall is shown as a reduction of `next`; nothing else changes an envelope.",
 ["inputs","histories"],"every history of manual movements on any dates relative to any schedule and today",
 "No test applies an entry to an envelope.",
 [EV],[("Envelope::apply_amount",EV),("Frequency::get_last_due_date",EV),("Envelope Display",EV)],["`now` and `next` in stdout of `silverfox e -n`"])
p("C16","Spending on an envelope's accounts moves its money automatically",
 "An entry without envelope postings that posts to an envelope's own account and to any of its `for` accounts moves the smaller of the two (absolute) sums out of the envelope if the own account's sum is negative, and back in if it's positive, with foreign amounts counted at their native cost. An entry with envelope postings moves exactly what those say, only in the named account's envelope, and other entries move nothing.",
 ["inputs"],"every entry over any accounts, with several postings per account, refunds, blanks, currencies, envelope postings; several envelopes and accounts",
 "No test applies an entry to an envelope.",
 [EV,AC,EN],[("Envelope::infer",EV),("Envelope::process_manual_postings",EV),("Entry::has_envelope_posting",EN)],["`now` and `next` in stdout of `silverfox e -n`"])
p("C17","Available money and envelopes always add up to the account's balance",
 "For every account with envelopes and every currency, the available money plus everything in its envelopes (`now` and `next`) equals the account's reported balance, before and after every automatic fill. Filling envelopes never changes any account's balance.",
 ["inputs","histories"],"every journal and every history of fills",
 "Relates two reports that no test produces.",
 [AC,L,EV],[("Account::get_available_value",AC),("Account::process_entry (real_value)",AC),("Ledger::get_totals",L)],["stdout of `silverfox e` and `silverfox b`"])
p("C18","Csv imports follow the rules file for every record",
 "An import appends exactly one entry per csv record after the skipped ones, in order, whose date, status, description, payee, comment, accounts and amounts are the rules' templates with each `%field%` replaced by that record's value (and `%%` by `%`), read with the rules' date format and decimal symbol. The first `if` block one of whose patterns occurs in the record (ignoring case) applies its changes to that record only; a single posting is completed by one to `expenses:unknown`, `income:unknown` or `unknown` by its sign.",
 ["inputs"],"every csv file x every rules file (fields, templates, numbered accounts, if blocks, resets) over the supported rules",
 "One csv with five records and one rules file is tested.",
 [IM,L],[("Rules::add_from_str/add_from_line",IM),("Rules::get_entry_from_record, inject_variables",IM),("Subrules::applies_to",IM),("Ledger::import_csv",L)],["entries appended to the journal by `silverfox import`"])
p("C19","Imports are all or nothing and never leave an unreadable journal",
 "If any record of a csv file can't be turned into a valid entry (bad date, amount or status, undefined account, wrong number of fields, an unclosed bracket in the description, an amount no envelope can take), the import reports an error and adds none of the records. After every import, whatever text the csv fields contain, the journal can be read again and has gained exactly one entry per record or nothing at all (text after a comment marker in a field just becomes a comment).",
 ["inputs","fault_sequences"],"every csv file with bad records at any positions, and arbitrary field contents (line breaks, brackets, comment markers, directives, percent signs, quotes)",
 "Tests never import into a ledger and have no bad record.",
 [L,IM,EN],[("Ledger::import_csv, append_entries",L),("Entry::as_parsable",EN)],["journal bytes after `silverfox import`; the next run"])
p("C20","The register lists asset movements by date with correct running totals",
 "The register shows, sorted by date (entries of the same day in journal order), exactly the entries whose postings to accounts starting with `asset` don't cancel out, each with its date, status and description, the account the money came from and went to (or `(multiple)`/`(none)`), the sum over its asset postings per currency, and the running total of that currency up to and including it. Envelope movements don't appear in it.",
 ["inputs"],"every journal: any order of dates, currencies, number of postings",
 "The register needs a terminal and has no test.",
 [RG,EN,L],[("Register::display, print_lines",RG),("Entry::as_register_data",EN),("Ledger::add_entry sorting",L)],["stdout of `silverfox r -n` on a terminal"])
p("C21","No input makes silverfox crash",
 "Whatever a journal, csv file, rules file or (valid Unicode) command line contains, and on whatever day (since 1970), every run ends by itself with a report or an error message, never with a panic, an abort or a signal.",
 ["inputs"],"arbitrary bytes and near-valid mutations of journals, rules, csv and arguments; any date",
 "Tests feed eight well-formed inputs.",
 [L,EN,PO,AC,EV,AM,IM,FL,RG,UT,"src/errors.rs"],[("error returns instead of unwrap/index",EV),("SilverfoxError","src/errors.rs")],["exit status and stderr of any run"])
p("C22","The requested journal is the one that's read and written",
 "The journal is the file given by `-f`/`--file`, else by $SILVERFOX_FILE, else by $LEDGER_FILE, with relative paths (also of `--csv` and `--rules`) taken from the directory silverfox was started in, and the rules default to the path of the csv file with `.rules` added; reports are about it and new entries are appended to it, wherever it lies, also behind a symbolic link, and whatever it includes. Without any of these, with a missing file, an unknown subcommand or flag, or a flag without its value, silverfox reports an error and changes nothing; a subcommand may be shortened to its first letter, and of a flag that's given more than once, the last value counts.",
 ["configurations"],"every combination of flags, environment variables, working directory and path form",
 "Nothing tests src/flags.rs or file access.",
 [FL,L,IM],[("CommandFlags::parse_from_env, execute, get_file_from_env",FL),("Ledger::from_file/add_from_file",L),("CsvImporter::get_sibling_rules_path",IM)],["stdout, and which file changed"])
p("C23","Today is the user's local calendar day",
 "Due dates, the split between `now` and `next`, the once-a-day rule and the date of automatic fills all go by the calendar date in the user's time zone at the time of the run, in any time zone and at any time of day.",
 ["inputs","configurations"],"every instant x every time zone offset, especially around midnight, month and year ends",
 "No test controls the clock or time zone.",
 [EV,L],[("chrono::Local::now().date_naive()",EV),("Ledger::fill_envelopes",L)],["appended entry's date, due dates in `silverfox e`"])
p("C24","--no-move makes every report read-only",
 "With `--no-move` or `-n`, at any position after the subcommand, `balance`, `envelopes` and `register` never change, create or remove any file, even if envelopes are due to be filled, and work for a journal that can't be written; an import with it appends the imported entries only.",
 ["inputs","configurations"],"every journal (with fills due), every subcommand and argument order",
 "Nothing tests src/flags.rs.",
 [FL,L],[("CommandFlags::execute: no_move",FL)],["directory contents before and after"])
p("C25","Balance assertions are checked",
 "A journal in date order in which a posting's balance assertion (`! amount`) isn't the balance of its account, in the assertion's currency (or else the posting's), right after that posting is rejected with an error message; if all assertions are true, the reports are the same as without them.",
 ["inputs"],"every journal in date order x assertions on any postings, true or off by any amount",
 "No test contains an assertion.",
 [AC,PO],[("Account::process_entry",AC),("ClassicPosting::parse_balance_assertion_amount",PO)],["stdout/stderr of `silverfox b|e|r -n`"])
p("C26","The envelopes report shows every envelope once, and shows it completely",
 "`envelopes` lists exactly the accounts that have envelopes, sorted by name, each with its available money per currency and every one of its envelopes exactly once: expenses before goals, each in the order of their definition, with target amount, ready (`now`) and saved (`next`) amounts, next due date (if there is one), and for each of the two amounts a bar of 40 columns of which the amount's share of the target (rounded down; none if it's negative, all if it exceeds the target) is filled.",
 ["inputs"],"every journal: any number of accounts and envelopes, goals and expenses in any order, amounts of any size and sign, schedules, dates",
 "No test displays an envelope.",
 [L,AC,EV],[("Ledger::display_envelopes",L),("Account::display_envelopes",AC),("Envelope Display",EV)],["stdout of `silverfox e -n`"])
p("C27","A report depends only on the journal, the day and the options",
 "Two runs on the same journal (and included files) with the same options on the same day print byte for byte the same report, whatever the time of day, working directory, form of the path, name of the journal, terminal width and locale, and however often it's repeated; the balance report lists accounts in alphabetical order. The automatic fills of two such runs are the same up to the order of their postings.",
 ["inputs","configurations"],"every journal x every environment that shouldn't matter x repeated runs",
 "Tests run each function once, in one environment.",
 [L,AC,FL],[("Ledger::display_flat_balance, display_envelopes",L),("Ledger::fill_envelopes",L),("CommandFlags::execute",FL)],["stdout of repeated runs; entries appended by them"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
