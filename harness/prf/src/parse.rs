//! Reads proof text into one JSON record per rule. Variables become numbers: `xN` is N, `pvN` is
//! 1000+N, `y_zN` is 2000+N, the copies in orders are 3000+/4000+/5000+.
use serde_json::{json, Value};

pub fn var(s: &str) -> Option<i64> {
    let num = |p: &str, off: i64| {
        s.strip_prefix(p)
            .and_then(|r| {
                if r.starts_with(['+', '-']) {
                    None
                } else {
                    r.parse::<i64>().ok()
                }
            })
            .map(|n| n + off)
    };
    num("x", 0)
        .or_else(|| num("pv", 1000))
        .or_else(|| num("y_z", 2000))
        .or_else(|| num("u_x", 3000))
        .or_else(|| num("v_x", 4000))
        .or_else(|| num("w_x", 5000))
}
fn lit(s: &str) -> Option<i64> {
    match s.strip_prefix('~') {
        Some(r) => var(r).map(|v| -v),
        None => var(s),
    }
}
fn int(s: &str) -> Option<i64> {
    s.parse().ok()
}
fn pos(s: &str) -> Option<i64> {
    int(s).filter(|n| *n > 0)
}
fn id(s: &str) -> Option<i64> {
    int(s).filter(|n| *n != 0)
}
fn ids(t: &[&str]) -> Option<Vec<i64>> {
    if t.is_empty() {
        return None;
    }
    t.iter().map(|s| id(s)).collect()
}
/// `2 x1 -3 ~x2 >= 4`; also the number of tokens read
fn constr(t: &[&str]) -> Option<(Value, usize)> {
    let (mut i, mut terms) = (0, vec![]);
    loop {
        if *t.get(i)? == ">=" {
            let b = int(t.get(i + 1)?)?;
            return Some((json!({"t": terms, "b": b}), i + 2));
        }
        terms.push(json!([int(t[i])?, lit(t.get(i + 1)?)?]));
        i += 2;
    }
}
fn obj(t: &[&str]) -> Option<Value> {
    let (mut i, mut terms, mut c) = (0, vec![], 0);
    while i < t.len() {
        let n = int(t[i])?;
        if i + 1 == t.len() {
            c = n;
            break;
        }
        terms.push(json!([n, lit(t[i + 1])?]));
        i += 2;
    }
    Some(json!({"t": terms, "b": c}))
}
fn pol(t: &[&str]) -> Option<Vec<Value>> {
    let (mut i, mut out) = (0, vec![]);
    while i < t.len() {
        match (t[i], t.get(i + 1).copied()) {
            ("+", _) | ("s", _) | ("w", _) => out.push(json!([t[i], 0])),
            (n, Some("*")) => {
                out.push(json!(["*", pos(n)?]));
                i += 1;
            }
            (n, Some("d")) => {
                out.push(json!(["d", pos(n)?]));
                i += 1;
            }
            (n, _) => match id(n) {
                Some(k) => out.push(json!(["id", k])),
                None => out.push(json!(["ax", lit(n)?])),
            },
        }
        i += 1;
    }
    if out.is_empty() {
        return None;
    }
    Some(out)
}
fn subst(t: &[&str]) -> Option<Vec<Value>> {
    if t.len() % 3 != 0 {
        return None;
    }
    t.chunks(3)
        .map(|c| {
            let v = var(c[0])?;
            if c[1] != "->" {
                return None;
            }
            Some(match c[2] {
                "1" => json!([v, "t", 0]),
                "0" => json!([v, "f", 0]),
                l => json!([v, "l", lit(l)?]),
            })
        })
        .collect()
}
fn lits(t: &[&str]) -> Option<Vec<i64>> {
    t.iter().map(|s| lit(s)).collect()
}
fn derivation(l: &str) -> Option<Value> {
    let t: Vec<&str> = l.split_whitespace().collect();
    match *t.first()? {
        "pol" | "p" => Some(json!({"d": "pol", "ops": pol(&t[1..])?, "c": json!({"t":[],"b":0}), "h": []})),
        "rup" | "u" => {
            let (c, n) = constr(&t[1..])?;
            if *t.get(1 + n)? != ";" {
                return None;
            }
            let h = if t.len() > 2 + n { ids(&t[2 + n..])? } else { vec![] };
            Some(json!({"d": "rup", "c": c, "h": h, "ops": []}))
        }
        _ => None,
    }
}
/// Goals and derivations up to `stop`
fn subproof<'a>(it: &mut impl Iterator<Item = &'a str>, stop: &str) -> Option<Vec<Value>> {
    let mut out = vec![];
    loop {
        let l = it.next()?.trim();
        if l == stop {
            return Some(out);
        }
        if let Some(g) = l.strip_prefix("proofgoal ") {
            let (kind, n) = match g.strip_prefix('#') {
                Some(n) => ("#", pos(n)?),
                None => ("id", id(g)?),
            };
            let mut ders = vec![];
            loop {
                let l = it.next()?.trim();
                if l == "qed -1" {
                    break;
                }
                ders.push(derivation(l)?);
            }
            out.push(json!({"g": kind, "n": n, "ders": ders}));
        } else {
            out.push(json!({"g": "-", "n": 0, "ders": [derivation(l)?]}));
        }
    }
}
fn order<'a>(name: &str, it: &mut impl Iterator<Item = &'a str>) -> Option<Value> {
    let mut want = |s: &str| (it.next()?.trim() == s).then_some(());
    want("vars")?;
    let mut list = |s: &str| -> Option<Vec<i64>> {
        let mut v: Vec<i64> = it
            .next()?
            .trim()
            .strip_prefix(s)?
            .split_whitespace()
            .map(var)
            .collect::<Option<_>>()?;
        v.sort_unstable();
        Some(v)
    };
    let left = list("left")?;
    let right = list("right")?;
    list("aux")?;
    let mut want = |s: &str| (it.next()?.trim() == s).then_some(());
    want("end")?;
    want("def")?;
    let mut def = vec![];
    loop {
        let l = it.next()?.trim();
        if l == "end" {
            break;
        }
        let t: Vec<&str> = l.split_whitespace().collect();
        let (c, n) = constr(&t)?;
        if t[n..] != [";"] {
            return None;
        }
        def.push(c);
    }
    let mut want = |s: &str| (it.next()?.trim() == s).then_some(());
    want("transitivity")?;
    want("vars")?;
    let mut v: Vec<i64> = it
        .next()?
        .trim()
        .strip_prefix("fresh_right")?
        .split_whitespace()
        .map(var)
        .collect::<Option<_>>()?;
    v.sort_unstable();
    let mut want = |s: &str| (it.next()?.trim() == s).then_some(());
    want("end")?;
    want("proof")?;
    let trans = subproof(it, "qed")?;
    (it.next()?.trim() == "end").then_some(())?;
    let mut refl = vec![];
    let mut hasrefl = 0;
    let l = it.next()?.trim();
    if l == "reflexivity" {
        (it.next()?.trim() == "proof").then_some(())?;
        refl = subproof(it, "qed")?;
        hasrefl = 1;
        (it.next()?.trim() == "end").then_some(())?;
        (it.next()?.trim() == "end").then_some(())?;
    } else if l != "end" {
        return None;
    }
    Some(
        json!({"r": "order", "name": name, "left": left, "right": right, "fresh": v, "def": def,
        "trans": trans, "refl": refl, "hasrefl": hasrefl}),
    )
}

fn rule<'a>(l: &str, it: &mut impl Iterator<Item = &'a str>) -> Option<Value> {
    let t: Vec<&str> = l.split_whitespace().collect();
    let withid = |r: &str| -> Option<Value> {
        let (c, n) = constr(&t[1..])?;
        if *t.get(1 + n)? != ";" {
            return None;
        }
        let i = match t.get(2 + n) {
            None => 0,
            Some(s) => id(s)?,
        };
        (t.len() <= 3 + n).then_some(())?;
        Some(json!({"r": r, "c": c, "id": i}))
    };
    let sub = |rest: &[&str], it: &mut dyn Iterator<Item = &'a str>| -> Option<(Vec<Value>, i64)> {
        match rest {
            [] => Some((vec![], 0)),
            [";", "begin"] => Some((subproof(&mut { it }, "end")?, 1)),
            _ => None,
        }
    };
    match t[0] {
        "pseudo-Boolean" => (l == "pseudo-Boolean proof version 2.0").then(|| json!({"r": "hdr"})),
        "f" => (t.len() == 2).then_some(json!({"r": "f", "n": int(t.get(1)?)?})),
        "pol" | "p" => Some(json!({"r": "pol", "ops": pol(&t[1..])?})),
        "rup" | "u" => {
            let mut d = derivation(l)?;
            d["r"] = json!("rup");
            Some(d)
        }
        "red" | "dom" => {
            let (c, n) = constr(&t[1..])?;
            if *t.get(1 + n)? != ";" {
                return None;
            }
            let rest = &t[2 + n..];
            let m = rest.iter().position(|s| *s == ";").unwrap_or(rest.len());
            let w = subst(&rest[..m])?;
            let (s, b) = sub(&rest[m..], it)?;
            Some(json!({"r": t[0], "c": c, "w": w, "sub": s, "begin": b}))
        }
        "e" | "ea" | "i" | "ia" => withid(t[0]),
        "del" => match *t.get(1)? {
            "id" => {
                let rest = &t[2..];
                let m = rest.iter().position(|s| *s == ";")?;
                let (s, b) = sub(&rest[m + 1..], it)?;
                Some(json!({"r": "del", "ids": ids(&rest[..m])?, "sub": s, "begin": b}))
            }
            "range" => (t.len() == 4).then_some(json!({"r": "delr", "a": id(t.get(2)?)?, "b": id(t.get(3)?)?})),
            "spec" => {
                let (c, n) = constr(&t[2..])?;
                (t[2 + n..] == [";"]).then_some(json!({"r": "delspec", "c": c}))
            }
            _ => None,
        },
        "delc" | "deld" => Some(json!({"r": t[0], "ids": ids(&t[1..])?})),
        "core" => match *t.get(1)? {
            "id" => Some(json!({"r": "core", "ids": ids(&t[2..])?})),
            "range" => (t.len() == 4).then_some(json!({"r": "corer", "a": id(t.get(2)?)?, "b": id(t.get(3)?)?})),
            _ => None,
        },
        "sol" | "solx" | "soli" => Some(json!({"r": t[0], "lits": lits(&t[1..])?})),
        "obju" => {
            let m = t.iter().position(|s| *s == ";")?;
            let o = obj(&t[2..m])?;
            match (t[1], &t[m + 1..]) {
                ("diff", []) => Some(json!({"r": "obju", "k": "diff", "o": o, "sub": [], "begin": 0})),
                ("new", []) => Some(json!({"r": "obju", "k": "new", "o": o, "sub": [], "begin": 0})),
                ("new", ["begin"]) => {
                    Some(json!({"r": "obju", "k": "new", "o": o, "sub": subproof(it, "end")?, "begin": 1}))
                }
                _ => None,
            }
        }
        "eobj" => {
            let m = t.iter().position(|s| *s == ";")?;
            (m + 1 == t.len()).then_some(json!({"r": "eobj", "o": obj(&t[1..m])?}))
        }
        "#" => (t.len() == 2).then_some(json!({"r": "lvl", "n": int(t.get(1)?)?})),
        "w" => (t.len() == 2).then_some(json!({"r": "wipe", "n": int(t.get(1)?)?})),
        "strengthening_to_core" => Some(json!({"r": "s2c", "v": *t.get(1)?})),
        "def_order" => order(t.get(1)?, it),
        "load_order" => Some(
            json!({"r": "load", "name": *t.get(1)?, "vars": t[2..].iter().map(|s| var(s)).collect::<Option<Vec<_>>>()?}),
        ),
        "output" => Some(json!({"r": "output", "v": t[1..].join(" ")})),
        "conclusion" => {
            let mut e = json!({"r": "concl", "k": *t.get(1)?, "id": 0, "lits": [], "lb": 0, "ub": 0});
            match (t[1], &t[2..]) {
                ("NONE" | "SAT" | "UNSAT", []) => (),
                ("UNSAT", [":", i]) => e["id"] = json!(id(i)?),
                ("SAT", [":", s @ ..]) => e["lits"] = json!(lits(s)?),
                ("BOUNDS", [lb, rest @ ..]) => {
                    e["lb"] = json!(int(lb)?);
                    let rest = match rest {
                        [":", i, rest @ ..] => {
                            e["id"] = json!(id(i)?);
                            rest
                        }
                        _ => rest,
                    };
                    e["ub"] = json!(int(rest.first()?)?);
                    match &rest[1..] {
                        [] => (),
                        [":", s @ ..] => e["lits"] = json!(lits(s)?),
                        _ => return None,
                    }
                }
                _ => return None,
            }
            Some(e)
        }
        "end" => (l == "end pseudo-Boolean proof").then(|| json!({"r": "end"})),
        _ => None,
    }
}

/// All rules of a piece of proof text; text that is no rule becomes a record `bad`
pub fn rules(text: &str) -> Vec<Value> {
    let mut it = text.lines();
    let mut out = vec![];
    while let Some(l) = it.next() {
        if l.trim().is_empty() || l.starts_with('*') {
            continue;
        }
        out.push(rule(l, &mut it).unwrap_or_else(|| {
            let mut s: String = l
                .chars()
                .filter(|c| c.is_ascii_graphic() || *c == ' ')
                .filter(|c| *c != '"' && *c != '\\')
                .collect();
            s.truncate(120);
            json!({"r": "bad", "text": s})
        }));
    }
    out
}
