use crate::util::*;
use procstar::{environ, spec};
use serde_json::json;
use std::collections::BTreeMap;

const SECRETS: [&str; 3] = ["PROCSTAR_AGENT_CERT", "PROCSTAR_AGENT_KEY", "PROCSTAR_AGENT_TOKEN"];

fn oracle(start: &[(String, String)], s: &spec::Env) -> BTreeMap<String, String> {
    let mut r = BTreeMap::new();
    for (k, v) in start {
        let inherit = match &s.inherit {
            spec::EnvInherit::None => false,
            spec::EnvInherit::All => true,
            spec::EnvInherit::Vars(l) => l.iter().any(|x| x == k),
        };
        if inherit && !SECRETS.contains(&k.as_str()) {
            r.insert(k.clone(), v.clone());
        }
    }
    for (k, v) in &s.vars {
        match v {
            Some(v) => { r.insert(k.clone(), v.clone()); }
            None => { r.remove(k); }
        }
    }
    r
}

pub fn env(c: &mut Ctx) {
    let mut names: Vec<String> = ["A", "B", "", "PATH", "HOME", "LD_PRELOAD", "é", "PROCSTAR_AGENT_HOST", "PROCSTAR_X", "procstar_agent_token", "X=Y"]
        .iter().map(|s| s.to_string()).collect();
    names.extend(SECRETS.iter().map(|s| s.to_string()));
    names.extend(c.strs.iter().filter(|s| s.len() < 200).cloned());
    let mut values = vec!["".to_owned(), "1".into(), "two words".into(), "ü=\n".into()];
    values.extend(c.strs.iter().filter(|s| s.len() < 200).cloned());
    let mut n = 0usize;
    while c.go() {
        n += 1;
        let sz = if n % 5 == 0 { 12 } else { 3 };
        let mut start = vec![];
        for _ in 0..c.below(sz + 1) {
            let k = c.pick(&names).clone();
            let v = if c.below(3) == 0 { c.pick(&values).clone() } else { format!("v{}", c.below(1000)) };
            start.push((k, v));
        }
        let inherit = match c.below(4) {
            0 => spec::EnvInherit::None,
            1 => spec::EnvInherit::All,
            _ => {
                let mut l = vec![];
                for _ in 0..c.below(5) {
                    l.push(c.pick(&names).clone());
                }
                spec::EnvInherit::Vars(l)
            }
        };
        let mut vars = BTreeMap::new();
        for _ in 0..c.below(sz + 1) {
            let k = c.pick(&names).clone();
            let v = if c.below(3) == 0 { None } else { Some(c.pick(&values).clone()) };
            vars.insert(k, v);
        }
        let s = spec::Env { inherit, vars };
        let want = oracle(&start, &s);
        let got = guard(|| environ::build(start.clone().into_iter(), &s));
        c.eval(|| json!({"start": start, "spec": format!("{:?}", s)}));
        if got.as_ref().ok() != Some(&want) {
            c.fail(json!({"start": start, "spec": format!("{:?}", s)}), json!(want), json!(format!("{:?}", got)));
        }
        if n > 300000 {
            break;
        }
    }
}
