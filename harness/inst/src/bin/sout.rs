//! Assignments, solver output, external solvers, integer encodings of variables and literals
use rustsat::instances::fio::{parse_sat_solver_output, SolverOutput};
use rustsat::solvers::external::{InputVia, OutputVia};
use rustsat::solvers::{ExternalSolver, Solve, SolverResult, StateError};
use rustsat::types::{Assignment, Clause, Lit, TernaryVal, Var};
use serde_json::{json, Value};
use std::io::Write;
use vtcore::*;

fn tvs(t: TernaryVal) -> &'static str {
    match t {
        TernaryVal::True => "1",
        TernaryVal::False => "0",
        TernaryVal::DontCare => "_",
    }
}
fn tv(s: &Value) -> TernaryVal {
    match s.as_str().unwrap() {
        "1" => TernaryVal::True,
        "0" => TernaryVal::False,
        _ => TernaryVal::DontCare,
    }
}
fn seq(a: &Assignment) -> Vec<&'static str> {
    (0..a.len()).map(|i| tvs(a[Var::new(i as u32)])).collect()
}
fn chars(s: &str) -> Vec<String> {
    s.chars().map(|c| c.to_string()).collect()
}
fn output(sc: &Value, tr: &mut Tracer) {
    let text: Vec<u8> = sc["bytes"].as_array().unwrap().iter().map(|b| us(b) as u8).collect();
    let dir = scratch(sc);
    let path = dir.join("out.log");
    std::fs::write(&path, &text).expect("harness: write");
    let r = guard(|| {
        let o = parse_sat_solver_output(std::io::BufReader::new(&text[..]));
        let (k, a) = match &o {
            Ok(SolverOutput::Sat(a)) => ("SAT", seq(a)),
            Ok(SolverOutput::Unsat) => ("UNSAT", vec![]),
            Ok(SolverOutput::Unknown) => ("UNKNOWN", vec![]),
            Err(e) => {
                let _ = e.to_string();
                ("err", vec![])
            }
        };
        let p = Assignment::from_solver_output_path(&path);
        let (pk, pa) = match &p {
            Ok(a) => ("SAT", seq(a)),
            Err(rustsat::types::AssignmentFromSolverOutputError::NotSat) => ("NotSat", vec![]),
            Err(e) => {
                let _ = e.to_string();
                ("err", vec![])
            }
        };
        json!({"e":"out","lines":sc["lines"],"k":k,"a":a,"path":pk,"pa":pa})
    });
    std::fs::remove_dir_all(&dir).expect("harness: remove");
    match r {
        Ok(e) if sc["raw"] != true => tr.ev(e),
        Ok(_) => (),
        Err(m) => tr.ev(json!({"e":"panic","op":"solver output","msg":m})),
    }
}
fn asg(sc: &Value, tr: &mut Tracer) {
    let mut a = Assignment::default();
    for op in sc["ops"].as_array().unwrap() {
        let v = || Var::new(us(&op["v"]) as u32 - 1);
        let r = guard(|| {
            let mut ok = true;
            let mut n = a.clone();
            match op["op"].as_str().unwrap() {
                "assign_var" => n.assign_var(v(), tv(&op["x"])),
                "assign_lit" => n.assign_lit(mklit(op["l"].as_i64().unwrap())),
                "truncate" => n = n.truncate(v()),
                "replace" => n.replace_dont_care(op["x"] == "1"),
                "set" => {
                    if v().idx() < n.len() {
                        n[v()] = tv(&op["x"]);
                    }
                }
                "from_lits" => n = lits(&op["ls"]).into_iter().collect(),
                "from_vals" => {
                    let xs: Vec<TernaryVal> = op["xs"].as_array().unwrap().iter().map(tv).collect();
                    n = match op["how"].as_str().unwrap() {
                        "vec" => Assignment::from(xs),
                        "iter" => xs.into_iter().collect(),
                        _ => xs.into_iter().map(|x| x.to_bool_with_def(true)).collect(),
                    }
                }
                "vline" => {
                    let t = op["text"].as_str().unwrap();
                    if n.is_empty() && op["new"] == true {
                        match Assignment::from_vline(t) {
                            Ok(x) => n = x,
                            Err(e) => {
                                let _ = e.to_string();
                                ok = false;
                            }
                        }
                    } else if let Err(e) = n.extend_from_vline(t) {
                        let _ = e.to_string();
                        ok = false;
                    }
                }
                _ => (),
            }
            let nv = us(&sc["nv"]);
            let mut e = op.clone();
            e["e"] = json!("asg");
            e["ok"] = json!(ok);
            e["a"] = json!(seq(&n));
            e["len"] = json!(n.len());
            e["empty"] = json!(n.is_empty());
            e["max"] = json!(n.max_var().map_or(0, |v| v.idx() + 1));
            e["disp"] = json!(chars(&format!("{n}")));
            e["dbg"] = json!(chars(&format!("{n:?}")));
            let vs: Vec<Var> = (0..nv as u32 + 2).map(Var::new).collect();
            e["vals"] = json!(vs.iter().map(|v| tvs(n.var_value(*v))).collect::<Vec<_>>());
            e["pos"] = json!(vs.iter().map(|v| tvs(n.lit_value(v.pos_lit()))).collect::<Vec<_>>());
            e["neg"] = json!(vs.iter().map(|v| tvs(n.lit_value(v.neg_lit()))).collect::<Vec<_>>());
            let it: Vec<Vec<i64>> = vec![
                n.iter().map(ilit).collect(),
                (&n).into_iter().map(ilit).collect(),
                n.clone().into_iter().map(ilit).collect(),
            ];
            e["iters"] = json!(it);
            (n, e)
        });
        match r {
            Ok((n, e)) => {
                a = n;
                tr.ev(e);
            }
            Err(m) => {
                tr.ev(json!({"e":"panic","op":op["op"],"msg":m}));
                return;
            }
        }
    }
    for x in ["1", "0", "_"] {
        let t = tv(&json!(x));
        let back = match t {
            TernaryVal::DontCare => t,
            t => TernaryVal::from(t == TernaryVal::True),
        };
        tr.ev(json!({"e":"tv","x":x,"not":tvs(!t),"neg":tvs(-t),"disp":format!("{t}"),"dbg":format!("{t:?}"),
            "dt":t.to_bool_with_def(true),"df":t.to_bool_with_def(false),"back":tvs(back)}));
    }
}
fn conv(sc: &Value, tr: &mut Tracer) {
    for c in sc["convs"].as_array().unwrap() {
        let i = us(&c["ival"]) as u32;
        let n = us(&c["nval"]) as u32;
        let neg = c["neg"] == true;
        let how = c["how"].as_str().unwrap();
        // operands of arithmetic are always valid
        let r: Result<Option<Lit>, String> = guard(|| {
            Some(match how {
                "Var::new" => Var::new(i).lit(neg),
                "Var::new_with_error" => Var::new_with_error(i).ok()?.lit(neg),
                "Lit::new" => Lit::new(i, neg),
                "Lit::new_with_error" => Lit::new_with_error(i, neg).ok()?,
                "Lit::positive" => if neg { Lit::negative(i) } else { Lit::positive(i) },
                "Lit::positive_with_error" => if neg { Lit::negative_with_error(i).ok()? } else { Lit::positive_with_error(i).ok()? },
                "pos_lit" => if neg { Var::new_with_error(i).ok()?.neg_lit() } else { Var::new_with_error(i).ok()?.pos_lit() },
                "!Var" => if neg { !Var::new_with_error(i).ok()? } else { !-Var::new_with_error(i).ok()? },
                "from_ipasir" => Lit::from_ipasir(c["ip"].as_i64().unwrap() as i32).ok()?,
                "Var+" => (Var::new_with_error(i).expect("harness") + n).lit(neg),
                "Var+=" => {
                    let mut v = Var::new_with_error(i).expect("harness");
                    v += n;
                    v.lit(neg)
                }
                "Var-" => (Var::new_with_error(i).expect("harness") - n).lit(neg),
                "Var-=" => {
                    let mut v = Var::new_with_error(i).expect("harness");
                    v -= n;
                    v.lit(neg)
                }
                "Lit+" => Lit::new_with_error(i, neg).expect("harness") + n,
                "Lit+=" => {
                    let mut l = Lit::new_with_error(i, neg).expect("harness");
                    l += n;
                    l
                }
                "Lit-" => Lit::new_with_error(i, neg).expect("harness") - n,
                "Lit-=" => {
                    let mut l = Lit::new_with_error(i, neg).expect("harness");
                    l -= n;
                    l
                }
                "!Lit" => !Lit::new_with_error(i, neg).expect("harness"),
                "-Lit" => -Lit::new_with_error(i, neg).expect("harness"),
                "Lit::var" => {
                    let l = Lit::new_with_error(i, neg).expect("harness");
                    if l.is_neg() { l.var().neg_lit() } else { l.var().pos_lit() }
                }
                "lidx" => unsafe { Lit::from_lidx(Lit::new_with_error(i, neg).expect("harness").lidx32()) },
                "unchecked" => unsafe { if i % 2 == 0 { Lit::new_unchecked(i, neg) } else { Var::new_unchecked(i).lit(neg) } },
                "unchecked2" => unsafe { if neg { Lit::negative_unchecked(i) } else { Lit::positive_unchecked(i) } },
                "bincode" => {
                    let l = Lit::new_with_error(i, neg).expect("harness");
                    bincode::deserialize(&bincode::serialize(&l).expect("harness")).expect("bincode")
                }
                "json Var" => serde_json::from_value::<Var>(json!({"idx":i})).ok()?.lit(neg),
                _ => panic!("harness: {how}"),
            })
        });
        let mut e = c.clone();
        e["e"] = json!("conv");
        match r {
            // explicit errors and panics with a message
            Err(m) if m.contains("harness") => panic!("{m}"),
            Err(_) | Ok(None) => e["ok"] = json!(false),
            Ok(Some(l)) => {
                let q = guard(|| {
                    assert_eq!(l.vidx(), l.var().idx());
                    assert_eq!(l.vidx32() as usize, l.vidx());
                    assert_eq!(l.var().idx32() as usize, l.vidx());
                    assert_eq!(l.is_pos(), !l.is_neg());
                    assert_eq!(l.lidx(), l.lidx32() as usize);
                    let ip = l.to_ipasir_with_error().ok();
                    assert_eq!(ip.map(i32::abs), l.var().to_ipasir_with_error().ok());
                    if let Some(ip) = ip {
                        assert_eq!(ip, l.to_ipasir());
                        assert_eq!(ip.abs(), l.var().to_ipasir());
                        assert_eq!(Lit::from_ipasir(ip).unwrap(), l);
                    }
                    ip
                });
                match q {
                    Err(m) => {
                        tr.ev(json!({"e":"panic","op":how,"msg":m}));
                        continue;
                    }
                    Ok(ip) => {
                        e["ok"] = json!(true);
                        e["ri"] = bn(l.vidx());
                        e["rneg"] = json!(l.is_neg());
                        e["lidx"] = bn(l.lidx());
                        e["ipok"] = json!(ip.is_some());
                        e["ip"] = bn(ip.unwrap_or(0).unsigned_abs() as usize);
                        e["ipneg"] = json!(ip.unwrap_or(0) < 0);
                        e["disp"] = json!([format!("{l}"), format!("{}", l.var())]);
                        let w = format!("x{}", l.vidx());
                        e["want"] = json!([format!("{}{w}", if l.is_neg() { "~" } else { "" }), w]);
                    }
                }
            }
        }
        tr.ev(e);
    }
}
fn scratch(sc: &Value) -> std::path::PathBuf {
    let d = std::env::temp_dir().join(format!("vt-sout-{}-{}", std::process::id(), sc["id"]));
    std::fs::create_dir_all(d.join("tmp")).expect("harness: mkdir");
    d
}
/// The name of the state in a state error
fn state(e: &anyhow::Error, req: &str) -> String {
    match e.downcast_ref::<StateError>() {
        Some(s) if format!("{:?}", s.required_state) == req => format!("{:?}", s.actual_state),
        Some(s) => format!("requires {:?}", s.required_state),
        None => "other".into(),
    }
}
fn ext(sc: &Value, tr: &mut Tracer) {
    let dir = scratch(sc);
    // temporary files of the library
    std::env::set_var("TMPDIR", dir.join("tmp"));
    let nv = us(&sc["nv"]) as u32;
    let mut cmd = std::process::Command::new(std::env::current_exe().expect("harness"));
    cmd.current_dir(&dir).env("VT_FAKE", sc["fake"].to_string()).env("VT_DIR", &dir).env_remove("TMPDIR");
    cmd.args(["-x", "--flag=1"]);
    let file = dir.join(sc["file"].as_str().unwrap());
    let input = match sc["fake"]["input"].as_str().unwrap() {
        "file_first" => InputVia::file_first(&file),
        "file_last" => InputVia::file_last(&file),
        "temp_first" => InputVia::tempfile_first(),
        "temp_last" => InputVia::tempfile_last(),
        "default" => InputVia::default(),
        _ => InputVia::pipe(),
    };
    let out = match sc["out"].as_str().unwrap() {
        "file" => OutputVia::file(dir.join("output")),
        "default" => OutputVia::default(),
        _ => OutputVia::pipe(),
    };
    let mut s = if sc["out"] == "default" && sc["fake"]["input"] == "default" {
        ExternalSolver::new_default(cmd, "fake")
    } else {
        ExternalSolver::new(cmd, input, out, "fake")
    };
    for op in sc["ops"].as_array().unwrap() {
        let mut e = op.clone();
        e["e"] = json!("ext");
        let r = guard(|| match op["op"].as_str().unwrap() {
            "add" => {
                let c: Clause = lits(&op["c"]).into_iter().collect();
                let mut r = Ok(());
                for _ in 0..us(&op["n"]) {
                    r = match op["how"].as_str().unwrap() {
                        "ref" => s.add_clause_ref(&c),
                        "cl" => match c.len() {
                            1 => s.add_unit(c[0]),
                            2 => s.add_binary(c[0], c[1]),
                            3 => s.add_ternary(c[0], c[1], c[2]),
                            _ => s.add_clause(c.clone()),
                        },
                        "cnf" => s.add_cnf([c.clone()].into_iter().collect()),
                        _ => s.add_clause(c.clone()),
                    };
                }
                e["r"] = json!(r.map_or_else(|x| state(&x, "Input"), |()| "ok".into()));
            }
            "solve" => {
                e["mode"] = sc["fake"]["mode"].clone();
                e["r"] = json!(match s.solve() {
                    Ok(SolverResult::Sat) => "sat".into(),
                    Ok(SolverResult::Unsat) => "unsat".into(),
                    Ok(SolverResult::Interrupted) => "interrupted".into(),
                    Err(x) if x.downcast_ref::<StateError>().is_some() => state(&x, "Input"),
                    Err(_) => "err".to_string(),
                });
            }
            "sol" => {
                e["a"] = json!([]);
                e["full"] = json!([]);
                e["r"] = json!(match s.solution(Var::new(us(&op["high"]) as u32 - 1)) {
                    Ok(a) => {
                        e["a"] = json!(seq(&a));
                        e["full"] = json!((0..nv)
                            .map(|v| {
                                let l = Var::new(v).pos_lit();
                                let (p, n) = (s.lit_val(l).unwrap(), s.lit_val(!l).unwrap());
                                assert!(p == !n && s.var_val(Var::new(v)).unwrap() == p);
                                tvs(p)
                            })
                            .collect::<Vec<_>>());
                        "ok".into()
                    }
                    Err(x) => state(&x, "Sat"),
                });
            }
            _ => e["r"] = json!(s.lit_val(mklit(op["l"].as_i64().unwrap())).map_or_else(|x| state(&x, "Sat"), |_| "ok".into())),
        });
        match r {
            Ok(()) => tr.ev(e),
            Err(m) => {
                tr.ev(json!({"e":"panic","op":"external","msg":m}));
                break;
            }
        }
    }
    if std::fs::read_dir(dir.join("tmp")).expect("harness").count() > 0 {
        tr.ev(json!({"e":"external solver: temporary files are left behind"}));
    }
    drop(s);
    std::fs::remove_dir_all(&dir).expect("harness: remove");
}
/// The external solver
fn fake(cfg: &str) -> i32 {
    let cfg: Value = serde_json::from_str(cfg).expect("config");
    let args: Vec<String> = std::env::args().collect();
    let mut args = args[1..].to_vec();
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    let noise = |out: &mut dyn Write, n: usize| {
        for _ in 0..n {
            writeln!(out, "c noise").unwrap();
        }
        out.flush().unwrap();
    };
    noise(&mut out, us(&cfg["pre"]));
    let dir = std::env::var("VT_DIR").expect("dir");
    assert_eq!(std::env::current_dir().expect("cwd"), std::path::Path::new(&dir).canonicalize().expect("dir"));
    assert!(std::env::var("TMPDIR").is_err());
    let mut text = String::new();
    let input = cfg["input"].as_str().unwrap();
    if input == "pipe" {
        std::io::Read::read_to_string(&mut std::io::stdin(), &mut text).expect("stdin");
    } else {
        let path = if input.ends_with("_first") { args.remove(0) } else { args.pop().unwrap() };
        let mut rd = rustsat::instances::fio::open_compressed_uncompressed_read(path).expect("instance");
        std::io::Read::read_to_string(&mut rd, &mut text).expect("instance");
    }
    assert_eq!(args, ["-x", "--flag=1"]);
    // a strict reader
    let mut nv = 0i64;
    let mut cls: Vec<Vec<i64>> = vec![];
    let mut left = 0usize;
    for (i, line) in text.lines().filter(|l| !l.starts_with('c')).enumerate() {
        let ts: Vec<&str> = line.split_whitespace().collect();
        if i == 0 {
            assert_eq!(&ts[..2], ["p", "cnf"]);
            nv = ts[2].parse().unwrap();
            left = ts[3].parse().unwrap();
            continue;
        }
        let c: Vec<i64> = ts.iter().map(|t| t.parse().unwrap()).collect();
        assert!(c.last() == Some(&0) && c[..c.len() - 1].iter().all(|l| *l != 0 && l.abs() <= nv));
        left -= 1;
        cls.push(c[..c.len() - 1].to_vec());
    }
    assert_eq!(left, 0);
    cls.sort();
    cls.dedup();
    let model = (0..1u32 << nv).find(|m| {
        cls.iter().all(|c| c.iter().any(|l| (m >> (l.abs() - 1) & 1 == 1) == (*l > 0)))
    });
    let mode = cfg["mode"].as_str().unwrap();
    let st = match (mode, model) {
        ("unknown", _) => "s UNKNOWN",
        ("silent", _) => "c nothing",
        (_, Some(_)) => "s SATISFIABLE",
        _ => "s UNSATISFIABLE",
    };
    let mut vl: Vec<String> = vec![];
    if let Some(m) = model {
        let ls: Vec<i64> = (1..=nv).map(|v| if m >> (v - 1) & 1 == 1 { v } else { -v }).collect();
        let join = |ls: &[i64], f: &dyn Fn(i64) -> String| ls.iter().map(|l| f(*l)).collect::<Vec<_>>().join(" ");
        let dim = |l: i64| l.to_string();
        match cfg["style"].as_str().unwrap() {
            "flow" => vl.push(format!("v {} 0", join(&ls, &dim))),
            "wrap" => {
                vl = ls.chunks(2).map(|c| format!("v {}", join(c, &dim))).collect();
                vl.push("v 0".into());
            }
            "single" => {
                vl = ls.iter().map(|l| format!("v {l}")).collect();
                vl.push("v 0".into());
            }
            "mse" if nv > 1 => vl.push(format!("v {}", ls.iter().map(|l| if *l > 0 { '1' } else { '0' }).collect::<String>())),
            "pb" => vl.push(format!("v {}", join(&ls, &|l| if l > 0 { format!("x{l}") } else { format!("-x{}", -l) }))),
            _ => vl.push(format!("v {} 0", join(&ls, &dim))),
        }
        if mode == "contradict" {
            vl = vec!["v 1 -1 0".into()];
        }
        if mode == "novals" {
            vl.clear();
        }
    }
    if matches!(mode, "unknown" | "silent") {
        vl.clear();
    }
    if cfg["vfirst"] == true {
        vl.push(st.into());
    } else {
        vl.insert(0, st.into());
    }
    for l in vl {
        writeln!(out, "{l}").unwrap();
    }
    noise(&mut out, us(&cfg["post"]));
    drop(out);
    match mode {
        "code" => 3,
        "signal" => std::process::abort(),
        _ if cfg["zero"] == true => 0,
        "unknown" | "silent" => 0,
        _ => if model.is_some() { 10 } else { 20 },
    }
}
fn main() {
    if let Ok(cfg) = std::env::var("VT_FAKE") {
        std::process::exit(fake(&cfg));
    }
    main_loop(|sc, tr| {
        let kind = sc["kind"].as_str().unwrap();
        let ms = if kind == "ext" { masks(us(&sc["nv"])) } else { vec![] };
        tr.ev(json!({"e":"new","masks":ms}));
        match kind {
            "out" => output(sc, tr),
            "asg" => asg(sc, tr),
            "conv" => conv(sc, tr),
            _ => ext(sc, tr),
        }
    });
}
