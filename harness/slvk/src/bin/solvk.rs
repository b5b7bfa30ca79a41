//! Replays call histories on the real solver interfaces and records everything observable
use rustsat::solvers::*;
use serde_json::{json, Value};
use slvcore::*;
use vtcore::{main_loop, serde_json};

type Kis = rustsat_kissat::Kissat<'static>;
fn kissat_other(s: &mut Kis, op: &Value) -> Option<Value> {
    use rustsat_kissat::{Config, Limit};
    Some(match op["o"].as_str().unwrap() {
        "opt" => wrap(
            Ok(s.set_option(op["name"].as_str().unwrap(), op["val"].as_i64().unwrap() as i32)),
            ok,
        ),
        "getopt" => wrap(
            Ok(s.get_option(op["name"].as_str().unwrap())),
            |v| json!({"k": "int", "v": v.clamp(-(1 << 30), 1 << 30)}),
        ),
        "conf" => wrap(
            Ok(s.set_configuration(match op["name"].as_str().unwrap() {
                "default" => Config::Default,
                "basic" => Config::Basic,
                "plain" => Config::Plain,
                "sat" => Config::Sat,
                _ => Config::Unsat,
            })),
            ok,
        ),
        "climit" => {
            let n = op["n"].as_u64().unwrap() as u32;
            s.set_limit(if op["k"] == "conflicts" {
                Limit::Conflicts(n)
            } else {
                Limit::Decisions(n)
            });
            json!({"k": "ok"})
        }
        _ => return None,
    })
}

fn main() {
    main_loop(|sc, tr| {
        tr.ev(json!({"e": "new", "b": sc["b"], "nv": sc["nv"]}));
        match sc["b"].as_str().unwrap() {
            "kissat" => {
                let mut e: Ext<Kis> = Ext {
                    other: kissat_other,
                    ..Ext::default()
                };
                interrupting!(e);
                e.term = Some(|s, cb| match cb {
                    Some(cb) => s.attach_terminator(cb),
                    None => s.detach_terminator(),
                });
                run(Kis::default(), &e, sc, tr);
            }
            "sim-kissat" => {
                let mut e: Ext<simulators::Incremental<Kis>> = Ext::default();
                incremental!(e);
                run(simulators::Incremental::default(), &e, sc, tr);
            }
            b => panic!("harness: backend {b}"),
        }
    });
}
