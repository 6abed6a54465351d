//! Monitors I01..I03: the CGD reader.

use harness::core::*;
use harness::faults::Hostile;
use harness::{ensure, fail};
use num_rational::Ratio;
use rust_systre::io::parse_cgd_line::{parse_cgd_line, Field};
#[cfg(systre_hooks_blocks)]
use rust_systre::io::parse_cgd_blocks::{parse_blocks, parse_lines, Block, Entry, EntryType, Note};
#[cfg(systre_hooks_blocks)]
use std::io::ErrorKind;

// --------------------------------------------------- independent tokenizer

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Quoted(String),
    Plain(String),
}

/// Whitespace separated tokens of a line without its comment, if the whole
/// line is cleanly made of such tokens.
fn tokens(line: &str) -> Option<Vec<Tok>> {
    let cs: Vec<char> = line.chars().collect();
    let blank = |c: char| c == ' ' || c == '\t';
    let mut i = 0;
    let mut out = vec![];
    let mut gap = true;
    while i < cs.len() {
        if blank(cs[i]) {
            i += 1;
            gap = true;
        } else if cs[i] == '#' {
            return Some(out);
        } else if !gap {
            return None;
        } else if cs[i] == '"' {
            let j = (i + 1..cs.len()).find(|j| cs[*j] == '"')?;
            out.push(Tok::Quoted(cs[i + 1..j].iter().collect()));
            i = j + 1;
            gap = false;
        } else {
            let j = (i..cs.len()).find(|j| blank(cs[*j]) || cs[*j] == '#' || cs[*j] == '"').unwrap_or(cs.len());
            out.push(Tok::Plain(cs[i..j].iter().collect()));
            i = j;
            gap = false;
        }
    }
    Some(out)
}

fn numeral(s: &str) -> Option<i64> {
    if !s.is_empty() && s.len() <= 9 && s.bytes().all(|b| b.is_ascii_digit()) { s.parse().ok() } else { None }
}

/// What one token means.
fn meaning(t: &Tok, first: bool) -> Field {
    let s = match t {
        Tok::Quoted(s) => return Field::Name(s.clone()),
        Tok::Plain(s) => s,
    };
    if first && s.as_bytes()[0].is_ascii_alphabetic() {
        return Field::Key(s.clone());
    }
    if let Some((n, d)) = s.split_once('/') {
        let (neg, n) = match n.strip_prefix('-') {
            Some(n) => (true, n),
            None => (false, n),
        };
        if let (Some(n), Some(d)) = (numeral(n), numeral(d)) {
            if d != 0 {
                return Field::Fraction(Ratio::new(if neg { -n } else { n } as i32, d as i32));
            }
        }
    }
    if s.bytes().any(|b| b.is_ascii_digit()) && s.bytes().all(|b| b.is_ascii_digit() || b"+-.eE".contains(&b)) {
        if let Ok(f) = s.parse::<f64>() {
            if f.is_finite() {
                return if f.fract() == 0.0 && f >= i32::MIN as f64 && f <= i32::MAX as f64 {
                    Field::Int(f as i32)
                } else {
                    Field::Double(f)
                };
            }
        }
    }
    Field::Name(s.clone())
}

/// A token that no reader should have trouble with.
fn clean(t: &Tok, first: bool) -> bool {
    match t {
        Tok::Quoted(s) => !s.is_empty(),
        Tok::Plain(s) => match meaning(t, first) {
            Field::Name(_) => !s.starts_with(|c: char| c.is_ascii_digit() || "+-.".contains(c)),
            Field::Fraction(_) | Field::Key(_) => true,
            _ => true,
        },
    }
}

/// The fields of a line, if it leaves no room for doubt.
fn clean_line(line: &str) -> Option<Vec<Field>> {
    let ts = tokens(line)?;
    if !ts.iter().enumerate().all(|(i, t)| clean(t, i == 0)) {
        return None;
    }
    Some(ts.iter().enumerate().map(|(i, t)| meaning(t, i == 0)).collect())
}

// ------------------------------------------------------------- generators

const NAMES: [&str; 22] = ["Si1", "P-1", "x", "nano", "inf", "NaN", "infinity", "e5", "E", "a/b", "\u{e9}t\u{e9}", "\u{03b1}", "*", "_", "(1,2)",
    "Fd-3m:2", "=", "\u{4e2d}", "a'b", "END", "i", "x,y,z"];

fn random_number(cx: &mut Ctx) -> String {
    match cx.rng.usize(10) {
        0 => cx.rng.range(-20, 20).to_string(),
        1 => cx.rng.pick(&["2147483647", "-2147483648", "2147483648", "-2147483649", "0", "-0", "007", "999999999", "1000000000", "4294967296",
            "1e5", "1E-3", "2.50", "3.", ".5", "-.25", "+7", "+27.25E-3", "1e22", "9007199254740993", "123456789012345678901234567890", "1e400", "-1e999",
            "0.1", "1e-400", "4.9e-324", "2.2250738585072011e-308", "1.7976931348623157e308", "0e0", "-1e0", "12.0", "1e9", "1e10"]).to_string(),
        2 | 3 => {
            let m = *cx.rng.pick(&[9, 100, 999_999_999]);
            format!("{}/{}", cx.rng.range(-m, m), cx.rng.range(1, m))
        }
        4 => format!("{}{}/{}", cx.rng.pick(&["", "-"]), "000000001", "000000002"),
        5 => f64::from_bits(cx.rng.next()).to_string(),
        6 => format!("{:e}", (cx.rng.range(-1_000_000_000, 1_000_000_000) as f64) / 7.0),
        7 => format!("{}.{}", cx.rng.range(-1000, 1000), cx.rng.below(1_000_000)),
        8 => {
            let n = 1 + cx.rng.usize(25);
            let mut s: String = (0..n).map(|_| (b'0' + cx.rng.below(10) as u8) as char).collect();
            let k = cx.rng.usize(n + 1);
            s.insert(k, '.');
            if cx.rng.bool() {
                s.push_str(&format!("e{}", cx.rng.range(-30, 30)));
            }
            s
        }
        _ => cx.rng.range(i32::MIN as i64, i32::MAX as i64).to_string(),
    }
}

fn random_token(cx: &mut Ctx) -> String {
    match cx.rng.usize(8) {
        0 | 1 | 2 | 3 => random_number(cx),
        4 => {
            let inner: String = (0..1 + cx.rng.usize(8)).map(|_| *cx.rng.pick(&['a', 'Z', ' ', '#', '1', '.', '\t', '/', '\u{e9}', '\'', '\\', '\u{1f600}'])).collect();
            format!("\"{}\"", inner)
        }
        5 => {
            let c: Vec<char> = "abcXYZ_*(),:;/-+.019\u{e9}\u{df}".chars().collect();
            (0..1 + cx.rng.usize(8)).map(|_| *cx.rng.pick(&c)).collect()
        }
        _ => cx.rng.pick(&NAMES).to_string(),
    }
}

fn gap(cx: &mut Ctx) -> &'static str {
    *cx.rng.pick(&[" ", " ", " ", "  ", "\t", " \t ", "      "])
}

fn margin(cx: &mut Ctx) -> &'static str {
    *cx.rng.pick(&["", "", "", " ", "    ", "\t"])
}

fn random_line(cx: &mut Ctx, keyed: Option<&str>) -> String {
    let mut s = margin(cx).to_string();
    if let Some(k) = keyed {
        s.push_str(k);
    }
    let n = if keyed.is_some() { cx.rng.usize(6) } else { 1 + cx.rng.usize(6) };
    for i in 0..n {
        if i > 0 || keyed.is_some() {
            s.push_str(gap(cx));
        }
        s.push_str(&random_token(cx));
    }
    s.push_str(margin(cx));
    if cx.rng.chance(1, 5) {
        s.push_str(cx.rng.pick(&["#", "# a comment", "#\"x\" 1", "##"]));
    }
    s
}

fn same(a: &Field, b: &Field) -> bool {
    match (a, b) {
        (Field::Double(x), Field::Double(y)) => x.to_bits() == y.to_bits(),
        _ => a == b,
    }
}

fn same_all(a: &[Field], b: &[Field]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y))
}

// ------------------------------------------------------------------- I01

/// Judge what the library makes of one line; returns its reading.
fn check_line(cx: &mut Ctx, line: &str) -> Result<Option<(String, Vec<Field>)>, Violation> {
    let got = parse_cgd_line(line);
    let sure = clean_line(line);
    let (rest, fields) = match got {
        Err(e) => {
            if sure.is_some() {
                fail!("the line {:?} is rejected: {}", line, e);
            }
            cx.count("lines rejected");
            return Ok(None);
        }
        Ok(r) => r,
    };
    if let Some(want) = &sure {
        ensure!(rest.is_empty(), "reading {:?} leaves {:?}", line, rest);
        ensure!(same_all(&fields, want), "the line {:?} is read as {:?}, it means {:?}", line, fields, want);
        for f in want {
            cx.count(match f {
                Field::Int(_) => "integers", Field::Fraction(_) => "fractions", Field::Double(_) => "decimals",
                Field::Key(_) => "keys", Field::Name(_) => "names",
            });
        }
        cx.count("unambiguous lines");
    } else {
        // whatever was read is the beginning of the line, token by token,
        // and the rest is handed back untouched
        ensure!(line.ends_with(rest), "reading {:?} leaves {:?}", line, rest);
        let used = &line[..line.len() - rest.len()];
        match tokens(used) {
            None => fail!("in {:?} the part {:?} is taken for {:?}", line, used, fields),
            Some(ts) => {
                let want: Vec<Field> = ts.iter().enumerate().map(|(i, t)| meaning(t, i == 0)).collect();
                ensure!(same_all(&fields, &want), "in {:?} the part {:?} is read as {:?}, it means {:?}", line, used, fields, want);
            }
        }
        if rest.is_empty() { cx.count("odd lines accepted") } else { cx.count("lines with a rest") }
    }
    Ok(Some((rest.to_string(), fields)))
}

fn mangle(cx: &mut Ctx, line: &str) -> String {
    let mut s: Vec<char> = line.chars().collect();
    let bits = ["\"", "#", " ", "\t", "/", "e", "E", "-", "+", ".", "0", "9", "\u{e9}", "\u{a0}", "\u{2003}", "\0", "\r", "1/0", "\"\"", "5e", "inf", "nan", "-nan",
        "0x10", "1_000", "1e", "1e+", "--", "1/2/3", "1/-2", "99999999999/3", "-inf", "+Infinity", "\u{1f600}", "\u{301}"];
    for _ in 0..1 + cx.rng.usize(4) {
        let n = s.len();
        match cx.rng.usize(6) {
            0 if n > 0 => { let i = cx.rng.usize(n); s.remove(i); }
            1 if n > 1 => { let (i, j) = (cx.rng.usize(n), cx.rng.usize(n)); s.swap(i, j); }
            2 if n > 0 => { let i = cx.rng.usize(n); s.truncate(i); }
            _ => {
                let i = cx.rng.usize(n + 1);
                let c: Vec<char> = cx.rng.pick(&bits).chars().collect();
                s.splice(i..i, c);
            }
        }
    }
    s.into_iter().collect()
}

fn shortened(s: &str) -> String {
    if s.len() > 3000 { format!("{}... ({} bytes)", s.chars().take(1000).collect::<String>(), s.len()) } else { s.to_string() }
}

fn i01(cx: &mut Ctx) -> Res {
    let key = match cx.rng.usize(5) {
        0 | 1 => None,
        2 => Some("ATOM"),
        3 => Some("edge_center"),
        _ => Some("e5"),
    };
    let mut line = random_line(cx, key);
    if cx.rng.chance(2, 5) {
        line = mangle(cx, &line);
    } else if cx.rng.chance(1, 30) {
        let c: Vec<char> = "\"# \t/eE-+.09ax\u{e9}\r\0".chars().collect();
        line = (0..cx.rng.usize(40)).map(|_| *cx.rng.pick(&c)).collect();
    }
    if cx.rng.chance(1, 2000) && !cfg!(miri) {
        // very many fields, or very long ones
        let n = *cx.rng.pick(&[300, 5000, 70_000]);
        if cx.rng.bool() {
            let k = cx.rng.usize(5);
            let some: Vec<String> = (0..1 + k).map(|_| random_token(cx)).collect();
            for i in 0..n {
                line.push_str([" ", "\t", "  "][i % 3]);
                line.push_str(&some[i % some.len()]);
            }
        } else {
            let part = *cx.rng.pick(&["a", "7", "ab9", "\u{e9}", "0"]);
            let long = part.repeat(n);
            line.push_str(&match cx.rng.usize(5) {
                0 => format!(" {} 1", long),
                1 => format!(" \"{}\" 2", long),
                2 => format!(" x{} 3/4", long),
                3 => format!(" 0.{} 5", long),
                _ => format!(" 6 # {}", long),
            });
        }
        cx.count("huge lines");
    }
    cx.describe(format!("{:?}", shortened(&line)));
    if let Some((_, f)) = check_line(cx, &line)? {
        if !f.is_empty() {
            cx.nontrivial();
        }
    }
    Ok(())
}

// ------------------------------------------------------------------- I02

#[cfg(systre_hooks_blocks)]
#[derive(Clone, Debug, PartialEq)]
struct Shown {
    kind: &'static str,
    key: Option<String>,
    fields: Vec<Field>,
    errors: usize,
    warnings: usize,
    line: usize,
    content: Option<String>,
}

#[cfg(systre_hooks_blocks)]
fn show(e: &Entry) -> Shown {
    let (t, k, f, n, l, c) = e.hook_parts();
    Shown {
        kind: match t {
            EntryType::Begin => "begin", EntryType::End => "end", EntryType::Data => "data",
            EntryType::Empty => "empty", EntryType::Error => "error",
        },
        key: k.clone(),
        fields: f.to_vec(),
        errors: n.iter().filter(|n| matches!(n, Note::Error(_))).count(),
        warnings: n.iter().filter(|n| matches!(n, Note::Warning(_))).count(),
        line: l,
        content: c.clone(),
    }
}

#[cfg(systre_hooks_blocks)]
fn alike(a: &Shown, b: &Shown) -> bool {
    a.kind == b.kind && a.key == b.key && same_all(&a.fields, &b.fields) && a.errors == b.errors
        && a.warnings == b.warnings && a.line == b.line && a.content == b.content
}

#[cfg(systre_hooks_blocks)]
#[derive(Clone, Debug)]
struct RefBlock {
    kind: String,
    start: usize,
    end: usize,
    entries: Vec<Shown>,
}

/// The lines of an input, decoded, with their ends removed.
#[cfg(systre_hooks_blocks)]
fn split_lines(data: &[u8]) -> Vec<Option<String>> {
    let mut parts: Vec<&[u8]> = data.split(|b| *b == b'\n').collect();
    if parts.last().map_or(false, |p| p.is_empty()) {
        parts.pop();
    }
    parts.into_iter().map(|p| {
        let p = p.strip_suffix(b"\r").unwrap_or(p);
        std::str::from_utf8(p).ok().map(|s| s.to_string())
    }).collect()
}

/// Entries the lines should give; single lines are judged by I01's rules.
#[cfg(systre_hooks_blocks)]
fn expected_lines(cx: &mut Ctx, lines: &[Option<String>]) -> Result<Vec<Shown>, Violation> {
    let mut out = vec![];
    for (i, l) in lines.iter().enumerate() {
        let mut e = Shown { kind: "data", key: None, fields: vec![], errors: 0, warnings: 0, line: i, content: l.clone() };
        match l {
            None => {
                e.kind = "error";
                e.errors = 1;
                cx.count("undecodable lines");
            }
            Some(s) => match check_line(cx, s)? {
                None => {
                    e.kind = "error";
                    e.errors = 1;
                }
                Some((rest, fields)) => {
                    if !rest.is_empty() {
                        e.errors = 1;
                    }
                    match fields.first() {
                        None => e.kind = "empty",
                        Some(Field::Key(k)) => {
                            e.key = Some(k.to_lowercase());
                            e.fields = fields[1..].to_vec();
                        }
                        _ => e.fields = fields,
                    }
                }
            },
        }
        out.push(e);
    }
    Ok(out)
}

/// How entries are grouped.
#[cfg(systre_hooks_blocks)]
fn expected_blocks(lines: &[Shown]) -> Vec<RefBlock> {
    let fresh = || RefBlock { kind: String::new(), start: 0, end: 0, entries: vec![] };
    let mut out = vec![];
    let mut cur = fresh();
    let mut open = false;
    let mut key: Option<String> = None;
    for e in lines {
        let mut e = e.clone();
        if e.kind == "empty" && e.errors == 0 {
            continue;
        }
        if e.kind != "data" {
            cur.entries.push(e);
            continue;
        }
        match e.key.clone() {
            Some(k) if k == "end" => {
                e.kind = "end";
                cur.end = e.line;
                if !open {
                    e.errors += 1;
                    cur.kind = "--void--".into();
                    cur.start = e.line;
                }
                e.warnings += !e.fields.is_empty() as usize;
                cur.entries.push(e);
                out.push(cur);
                cur = fresh();
                open = false;
                key = None;
            }
            Some(k) if !open => {
                e.kind = "begin";
                cur.start = e.line;
                cur.kind = k;
                open = true;
                key = None;
                e.warnings += !e.fields.is_empty() as usize;
                cur.entries.push(e);
            }
            Some(k) => {
                key = Some(k);
                cur.entries.push(e);
            }
            None => {
                e.key = key.clone();
                e.errors += !open as usize;
                cur.entries.push(e);
            }
        }
    }
    if let Some(n) = cur.entries.len().checked_sub(1) {
        cur.entries[n].errors += 1;
        cur.end = cur.entries[n].line;
        if !open {
            cur.kind = "--void--".into();
            cur.start = cur.entries[0].line;
        }
        out.push(cur);
    }
    out
}

#[cfg(systre_hooks_blocks)]
fn compare_blocks(cx: &mut Ctx, got: &[Block], want: &[RefBlock]) -> Res {
    // conservation first: every entry exactly once, in order
    let g: Vec<Shown> = got.iter().flat_map(|b| b.hook_parts().3.iter().map(show)).collect();
    let w: Vec<&Shown> = want.iter().flat_map(|b| b.entries.iter()).collect();
    let (gl, wl): (Vec<usize>, Vec<usize>) = (g.iter().map(|e| e.line).collect(), w.iter().map(|e| e.line).collect());
    ensure!(gl == wl, "the blocks hold the lines {:?}, the input has {:?}", gl, wl);
    ensure!(got.len() == want.len(), "{} blocks instead of {}", got.len(), want.len());
    for (i, (b, r)) in got.iter().zip(want).enumerate() {
        let (kind, start, end, entries) = b.hook_parts();
        ensure!(kind == r.kind, "block {} is of type {:?} instead of {:?}", i, kind, r.kind);
        ensure!(start == r.start && end == r.end, "block {} is said to span lines {} to {}, it spans {} to {}", i, start, end, r.start, r.end);
        ensure!(entries.len() == r.entries.len(), "block {} has {} entries instead of {}", i, entries.len(), r.entries.len());
        for (e, x) in entries.iter().zip(&r.entries) {
            let s = show(e);
            ensure!(alike(&s, x), "in block {} there is {:?} instead of {:?}", i, s, x);
            cx.add("notes compared", (x.errors + x.warnings) as u64);
            if x.key.is_some() && x.kind == "data" && x.content.as_ref().map_or(false, |c| !c.trim_start().starts_with(|c: char| c.is_ascii_alphabetic())) {
                cx.count("inherited keys");
            }
        }
        cx.add("entries compared", r.entries.len() as u64);
        cx.count("blocks compared");
    }
    Ok(())
}

/// A document: mostly sensible blocks with all kinds of accidents.
#[cfg(systre_hooks_blocks)]
fn random_document(cx: &mut Ctx, accidents: u64) -> Vec<u8> {
    let mut out: Vec<u8> = vec![];
    let nl: &[u8] = if cx.rng.chance(1, 4) { b"\r\n" } else { b"\n" };
    let n = cx.rng.usize(5);
    let push = |out: &mut Vec<u8>, s: &str| {
        out.extend_from_slice(s.as_bytes());
        out.extend_from_slice(nl);
    };
    for _ in 0..n {
        let filler = |cx: &mut Ctx, out: &mut Vec<u8>| {
            while cx.rng.chance(1, 4) {
                let s = *cx.rng.pick(&["", "  ", "# comment", "   # END", "\t"]);
                push(out, s);
            }
        };
        filler(cx, &mut out);
        if cx.rng.chance(accidents, 20) {
            let s = random_line(cx, None);
            push(&mut out, &s);
        }
        if !cx.rng.chance(accidents, 20) {
            let s = match cx.rng.usize(7) {
                0 if cx.rng.chance(accidents, 4) => format!("{}{}1", margin(cx), "NET "),
                1 => "  Crystal # the type".into(),
                2 => "PERIODIC_GRAPH".into(),
                3 => "\u{212a}ey".into(),
                5 => "R\u{c9}SEAU".into(),
                _ => "crystal".into(),
            };
            push(&mut out, &s);
        }
        for _ in 0..cx.rng.usize(7) {
            filler(cx, &mut out);
            let s = match cx.rng.usize(7) {
                6 => random_line(cx, Some("Ma\u{df}E_\u{414}\u{c4}")),
                0 | 1 => random_line(cx, None),
                2 => random_line(cx, Some("NODE")),
                3 => random_line(cx, Some("Edge")),
                4 => random_line(cx, Some("endpoint")),
                _ => random_line(cx, Some("group")),
            };
            let s = if cx.rng.chance(accidents, 12) { mangle(cx, &s).replace('\n', " ") } else { s };
            push(&mut out, &s);
            if cx.rng.chance(accidents, 25) {
                out.extend_from_slice(*cx.rng.pick(&[&b"caf\xe9 1 2"[..], b"\xff", b"x \xc3", b"\xed\xa0\x80", b"\x80 1"]));
                out.extend_from_slice(nl);
            }
        }
        if !cx.rng.chance(accidents, 15) {
            let s = *cx.rng.pick(&["END", "END", "end", "  End", "END # done", "eNd\t"]);
            push(&mut out, s);
            if cx.rng.chance(accidents, 20) {
                push(&mut out, *cx.rng.pick(&["END", "END 1", "end now"]));
            }
        }
    }
    if cx.rng.chance(1, 4) && out.ends_with(nl) {
        out.truncate(out.len() - nl.len());
    }
    out
}

/// Many documents in one, or one block with very many lines.
#[cfg(systre_hooks_blocks)]
fn make_huge(cx: &mut Ctx, doc: &mut Vec<u8>, accidents: u64) {
    let size = *cx.rng.pick(&[20_000, 200_000, 1_500_000]);
    let mut pool = vec![];
    while pool.len() < 8 {
        let mut d = if cx.rng.bool() { random_document(cx, accidents) } else { random_line(cx, None).into_bytes() };
        if !d.ends_with(b"\n") { d.push(b'\n') }
        pool.push(d);
    }
    while doc.len() < size {
        if !doc.is_empty() && !doc.ends_with(b"\n") { doc.push(b'\n') }
        doc.extend_from_slice(cx.rng.pick(&pool));
    }
    cx.count("huge documents");
}

#[cfg(systre_hooks_blocks)]
fn i02(cx: &mut Ctx) -> Res {
    let accidents = *cx.rng.pick(&[0, 1, 3, 8]);
    let mut doc = random_document(cx, accidents);
    if cx.rng.chance(1, 5000) && !cfg!(miri) {
        make_huge(cx, &mut doc, accidents);
    }
    cx.describe(format!("{:?}", shortened(&String::from_utf8_lossy(&doc))));
    let lines = split_lines(&doc);
    let want = expected_lines(cx, &lines)?;
    let got = parse_lines(&doc[..]);
    ensure!(got.len() == want.len(), "{} entries for {} lines", got.len(), want.len());
    for (e, x) in got.iter().zip(&want) {
        let s = show(e);
        ensure!(alike(&s, x), "line {} gives {:?} instead of {:?}", x.line, s, x);
    }
    cx.add("lines compared", want.len() as u64);
    let blocks = parse_blocks(&doc[..]);
    let exp = expected_blocks(&want);
    compare_blocks(cx, &blocks, &exp)?;
    if exp.iter().any(|b| b.kind == "--void--") { cx.count("documents with stray parts") }
    if exp.len() > 1 {
        cx.nontrivial();
    }
    Ok(())
}

#[cfg(not(systre_hooks_blocks))]
fn i02(_cx: &mut Ctx) -> Res {
    panic!("inconclusive: built without the hooks that let entries be read");
}

// ------------------------------------------------------------------- I03

#[cfg(systre_hooks_blocks)]
fn i03(cx: &mut Ctx) -> Res {
    let mut doc = random_document(cx, 3);
    match cx.rng.usize(4) {
        0 => {
            for _ in 0..1 + cx.rng.usize(6) {
                let i = cx.rng.usize(doc.len() + 1);
                doc.insert(i, cx.rng.below(256) as u8);
            }
        }
        1 => {
            let bits: &[&[u8]] = &[b"END\n", b"\n", b"\"", b"#", b" 1/2 ", b"A\n", b"\r", b"\0", b"\xc3\xa9", b"\xff", b"5e ", b"-", b"\t", b"end", b"9999999999"];
            doc = (0..cx.rng.usize(60)).flat_map(|_| cx.rng.pick(bits).to_vec()).collect();
        }
        2 => {
            // one very long line
            let n = 1 + cx.rng.usize(3000);
            let t = random_token(cx);
            doc.extend((0..n).flat_map(|_| format!("{} ", t).into_bytes()));
        }
        _ => {}
    }
    if cx.rng.chance(1, 3000) && !cfg!(miri) {
        make_huge(cx, &mut doc, 3);
    }
    // a carriage return at the very end belongs to no line end
    while doc.ends_with(b"\r") {
        doc.pop();
    }
    let text = |d: &[u8]| -> String {
        let s = String::from_utf8_lossy(d).to_string();
        if s.len() > 3000 { format!("{}...", s.chars().take(1000).collect::<String>()) } else { s }
    };
    let fails = cx.rng.chance(1, 2);
    let mut input = Hostile::new(&doc, &mut cx.rng);
    let mut at = doc.len();
    if fails {
        at = cx.rng.usize(doc.len() + 1);
        let kind = *cx.rng.pick(&[ErrorKind::UnexpectedEof, ErrorKind::BrokenPipe, ErrorKind::Other, ErrorKind::WouldBlock,
            ErrorKind::InvalidData, ErrorKind::TimedOut, ErrorKind::PermissionDenied]);
        let lasting = cx.rng.bool();
        input = input.failing(at, kind, lasting);
    }
    cx.describe(format!("{:?}, {}", text(&doc), input.style()));
    let whole = cx.rng.bool();

    // what was delivered before the failure, complete lines only
    let seen = if fails {
        match doc[..at].iter().rposition(|b| *b == b'\n') {
            Some(k) => &doc[..k + 1],
            None => &doc[..0],
        }
    } else {
        &doc[..]
    };
    let lines = split_lines(seen);
    let mut want = expected_lines(cx, &lines)?;
    if fails {
        want.push(Shown { kind: "error", key: None, fields: vec![], errors: 1, warnings: 0, line: lines.len(), content: None });
    }
    if whole {
        let got = parse_blocks(&mut input);
        let exp = expected_blocks(&want);
        compare_blocks(cx, &got, &exp)?;
    } else {
        let got = parse_lines(&mut input);
        ensure!(got.len() == want.len(), "{} entries for {} lines{}", got.len(), lines.len(), if fails { " and a failure" } else { "" });
        for (e, x) in got.iter().zip(&want) {
            let s = show(e);
            ensure!(alike(&s, x), "line {} gives {:?} instead of {:?}", x.line, s, x);
        }
    }
    cx.add("reads delivered", input.reads);
    cx.count(if fails { "failures injected" } else { "inputs read to the end" });
    if !want.is_empty() {
        cx.nontrivial();
    }
    Ok(())
}

#[cfg(not(systre_hooks_blocks))]
fn i03(_cx: &mut Ctx) -> Res {
    panic!("inconclusive: built without the hooks that let entries be read");
}

fn main() {
    main_with(&[
        Prop {
            id: "I01",
            rule: "random lines of keys, integers at the limits of 32 bits, fractions, decimals in many notations (subnormal, huge, 25 digits, overflowing), quoted and plain names with non-ASCII text, comments and white space, mangled or random lines, and a few of up to 70000 fields or characters per field; oracle: an independent tokenizer with the standard library's number conversion; non-trivial: at least one field was read",
            quick: 600000, thorough: 20000000, run: i01,
            need: &[("integers", 5000), ("fractions", 5000), ("decimals", 5000), ("keys", 5000), ("names", 5000), ("lines with a rest", 1000), ("huge lines", 100)],
            assumptions: &["which text an odd line may leave over is free, but what is left over must be handed back"],
        },
        Prop {
            id: "I02",
            rule: "random documents of blocks with comments, blank lines, CRLF, continuation lines, and accidents (missing, doubled and misplaced ENDs, data outside of blocks, text after type and END, mangled lines, undecodable bytes), a few of up to 1.5 MB; every entry and block compared with an independent grouping; non-trivial: more than one block",
            quick: 200000, thorough: 6000000, run: i02,
            need: &[("entries compared", 30000), ("inherited keys", 3000), ("notes compared", 3000), ("documents with stray parts", 500), ("undecodable lines", 200), ("huge documents", 10)],
            assumptions: &["entries are read through guarded accessors; of a note only whether it is an error or a warning is compared"],
        },
        Prop {
            id: "I03",
            rule: "documents (a few of 1.5 MB), arbitrary bytes and very long lines delivered in chunks of 1 byte to everything with interrupted reads and, in half of the cases, a failure of any kind at a random byte, once or for good; oracle: complete lines before the failure are all there, one error entry follows, nothing else; non-trivial: at least one entry",
            quick: 100000, thorough: 5000000, run: i03,
            need: &[("failures injected", 3000), ("inputs read to the end", 3000), ("undecodable lines", 500), ("huge documents", 8)],
            assumptions: &["entries are read through guarded accessors", "a reader that fails for good and is still called more than 16 times per byte counts as not terminating"],
        },
    ]);
}
