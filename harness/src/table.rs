//! Reference reading of operator strings and space group tables, and affine
//! maps over the rationals; written without the crate under test.

use crate::exact::*;
use num_bigint::BigInt;
use num_traits::{One, Zero};
use std::collections::BTreeMap;

pub type Op = (QM, Vec<Q>);

pub fn compose(a: &Op, b: &Op) -> Op {
    let m = mul(&a.0, &b.0);
    let t = apply(&a.0, &b.1);
    (m, t.iter().zip(&a.1).map(|(x, y)| x + y).collect())
}

pub fn op_identity(d: usize) -> Op {
    (identity(d), vec![Q::zero(); d])
}

pub fn op_inverse(a: &Op) -> Option<Op> {
    let m = inverse(&a.0)?;
    let t = apply(&m, &a.1).iter().map(|x| -x).collect();
    Some((m, t))
}

pub fn op_mod(a: &Op) -> Op {
    (a.0.clone(), frac_vec(&a.1))
}

pub fn op_text(a: &Op) -> String {
    format!("{}+{}", qs(&a.0), vs(&a.1))
}

pub fn translation(t: &[Q]) -> Op {
    (identity(t.len()), t.to_vec())
}

// ------------------------------------------------------- operator strings

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Num(BigInt),
    Axis(usize),
    Sym(char),
}

/// Liberal reading: any whitespace between tokens, numbers of any size.
/// Some(op) means: if the text is an operator at all, it is this one.
/// None means: not an operator.
pub fn read_operator(s: &str) -> Option<Op> {
    let cs: Vec<char> = s.chars().collect();
    let mut toks = vec![];
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i];
        if c.is_whitespace() {
            i += 1;
        } else if c.is_ascii_digit() {
            let mut n = BigInt::zero();
            while i < cs.len() && cs[i].is_ascii_digit() {
                n = n * BigInt::from(10) + BigInt::from(cs[i].to_digit(10).unwrap());
                i += 1;
            }
            toks.push(Tok::Num(n));
        } else if let Some(k) = "xyz".find(c) {
            toks.push(Tok::Axis(k));
            i += 1;
        } else if "+-*/,".contains(c) {
            toks.push(Tok::Sym(c));
            i += 1;
        } else {
            return None;
        }
    }
    let mut rows: Vec<(Vec<Q>, Q)> = vec![];
    for part in toks.split(|t| *t == Tok::Sym(',')) {
        let mut row = vec![Q::zero(); 3];
        let mut shift = Q::zero();
        let mut k = 0;
        if part.is_empty() {
            return None;
        }
        let mut first = true;
        while k < part.len() {
            let mut sign = Q::one();
            match &part[k] {
                Tok::Sym('+') => k += 1,
                Tok::Sym('-') => {
                    sign = -sign;
                    k += 1;
                }
                _ if first => {}
                _ => return None,
            }
            first = false;
            match part.get(k)? {
                Tok::Axis(a) => {
                    row[*a] += sign;
                    k += 1;
                }
                Tok::Num(n) => {
                    let mut v = Q::from(n.clone());
                    k += 1;
                    if part.get(k) == Some(&Tok::Sym('/')) {
                        let Some(Tok::Num(d)) = part.get(k + 1) else { return None };
                        if d.is_zero() {
                            return None;
                        }
                        v /= Q::from(d.clone());
                        k += 2;
                    }
                    let star = part.get(k) == Some(&Tok::Sym('*'));
                    if star {
                        k += 1;
                    }
                    if let Some(Tok::Axis(a)) = part.get(k) {
                        row[*a] += sign * v;
                        k += 1;
                    } else if star {
                        return None;
                    } else {
                        shift += sign * v;
                    }
                }
                _ => return None,
            }
        }
        rows.push((row, shift));
    }
    let n = rows.len();
    if n == 0 || n > 3 || rows.iter().any(|(r, _)| r[n..].iter().any(|x| !x.is_zero())) {
        return None;
    }
    Some((
        rows.iter().map(|(r, _)| r[..n].to_vec()).collect(),
        rows.iter().map(|(_, s)| s.clone()).collect(),
    ))
}

// ------------------------------------------------------------------ tables

#[derive(Clone, Debug, Default, PartialEq)]
pub struct RefTable {
    /// name -> (canonical name, transform, operators)
    pub settings: BTreeMap<String, (String, Op, Vec<Op>)>,
    pub alias: BTreeMap<String, String>,
    /// (name, system, centering, transform)
    pub lookup: Vec<(String, String, String, Op)>,
}

#[derive(Debug)]
pub enum Reading {
    Table(RefTable),
    Malformed(String),
    /// a reader may take it either way
    Unclear(String),
}

pub const SYSTEMS: [&str; 10] = ["square", "rectangular", "oblique", "cubic", "orthorhombic",
    "hexagonal", "tetragonal", "trigonal", "monoclinic", "triclinic"];
pub const CENTERINGS: [&str; 9] = ["p", "c", "P", "F", "I", "R", "A", "B", "C"];

pub fn read_table(text: &str) -> Reading {
    let mut t = RefTable::default();
    let mut canonical = String::new();
    let mut current: Option<String> = None;
    for (no, line) in text.split('\n').enumerate() {
        let bad = |what: &str| Reading::Malformed(format!("line {}: {}", no + 1, what));
        let content = line.trim();
        if content.is_empty() || content.starts_with('#') {
            continue;
        }
        if line.starts_with(' ') {
            let Some(op) = read_operator(content) else { return bad("not an operator") };
            let Some(c) = &current else { return bad("operator without a setting") };
            t.settings.get_mut(c).unwrap().2.push(op);
            continue;
        }
        if line.chars().next().map_or(false, |c| c.is_whitespace()) {
            return Reading::Unclear(format!("line {} starts with odd white space", no + 1));
        }
        let f: Vec<&str> = content.split_whitespace().collect();
        match f[0].to_lowercase().as_str() {
            "alias" => {
                if f.len() < 3 {
                    return bad("incomplete alias");
                }
                t.alias.insert(f[1].into(), f[2].into());
            }
            "lookup" => {
                if f.len() < 5 {
                    return bad("incomplete lookup");
                }
                let sys = f[2].to_lowercase();
                if !SYSTEMS.contains(&sys.as_str()) {
                    return bad("unknown crystal system");
                }
                if !CENTERINGS.contains(&f[3]) {
                    return bad("unknown centering");
                }
                let Some(op) = read_operator(&f[4..].join(" ")) else { return bad("not an operator") };
                if op_inverse(&op).is_none() {
                    return bad("singular transformation");
                }
                t.lookup.push((f[1].into(), sys, f[3].into(), op));
            }
            _ => {
                let Some(op) = read_operator(&f[1..].join(" ")) else { return bad("not an operator") };
                if op_inverse(&op).is_none() {
                    return bad("singular transformation");
                }
                if op == op_identity(op.1.len()) {
                    canonical = f[0].into();
                }
                current = Some(f[0].into());
                t.settings.insert(f[0].into(), (canonical.clone(), op, vec![]));
            }
        }
    }
    Reading::Table(t)
}
