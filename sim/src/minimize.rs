//! Shrinks a scenario while the violation persists. Works on the JSON form: removes elements of
//! arrays, drops optional parts, lowers numbers.
use crate::scen::{Scenario, Work};
use serde_json::Value;
use std::time::Instant;

type Path = Vec<Step>;
#[derive(Clone)]
enum Step {
    I(usize),
    K(String),
}
fn at<'a>(v: &'a mut Value, p: &[Step]) -> Option<&'a mut Value> {
    let mut x = v;
    for s in p {
        x = match s {
            Step::I(i) => x.get_mut(*i)?,
            Step::K(k) => x.get_mut(k.as_str())?,
        };
    }
    Some(x)
}
fn collect(v: &Value, p: &mut Path, arrays: &mut Vec<(usize, Path)>, leaves: &mut Vec<Path>, parts: &mut Vec<Path>) {
    match v {
        Value::Array(a) => {
            arrays.push((a.len(), p.clone()));
            parts.push(p.clone());
            for (i, x) in a.iter().enumerate() {
                p.push(Step::I(i));
                collect(x, p, arrays, leaves, parts);
                p.pop();
            }
        }
        Value::Object(o) => {
            parts.push(p.clone());
            for (k, x) in o {
                p.push(Step::K(k.clone()));
                collect(x, p, arrays, leaves, parts);
                p.pop();
            }
        }
        Value::Number(_) => leaves.push(p.clone()),
        _ => {}
    }
}

pub fn minimise(s: &Scenario, until: Instant, test: &mut dyn FnMut(&Scenario) -> bool) -> (Scenario, u64) {
    let mut tries = 0;
    let mut best = s.clone();
    // written-out graphs shrink better
    let mut c = best.clone();
    if spell_out(&mut c) {
        tries += 1;
        if test(&c) {
            best = c;
        }
    }
    let mut cur = serde_json::to_value(&best).unwrap();
    let mut attempt = |v: &Value, tries: &mut u64| -> bool {
        if Instant::now() >= until {
            return false;
        }
        match serde_json::from_value::<Scenario>(v.clone()) {
            Ok(x) => {
                *tries += 1;
                test(&x)
            }
            Err(_) => false,
        }
    };
    loop {
        let mut changed = false;
        let (mut arrays, mut leaves, mut parts) = (Vec::new(), Vec::new(), Vec::new());
        collect(&cur, &mut Vec::new(), &mut arrays, &mut leaves, &mut parts);
        arrays.sort_by_key(|x| std::cmp::Reverse(x.0));
        for (_, p) in &arrays {
            let mut len = match at(&mut cur, p) {
                Some(Value::Array(a)) => a.len(),
                _ => continue,
            };
            let mut chunk = len;
            while chunk >= 1 && len > 0 {
                let mut i = 0;
                while i < len {
                    let mut v = cur.clone();
                    if let Some(Value::Array(a)) = at(&mut v, p) {
                        let e = (i + chunk).min(a.len());
                        a.drain(i..e);
                    }
                    if attempt(&v, &mut tries) {
                        len -= chunk.min(len - i);
                        cur = v;
                        changed = true;
                    } else {
                        i += chunk;
                    }
                    if Instant::now() >= until {
                        break;
                    }
                }
                chunk /= 2;
            }
        }
        parts.clear();
        leaves.clear();
        collect(&cur, &mut Vec::new(), &mut Vec::new(), &mut leaves, &mut parts);
        for p in parts.iter().chain(leaves.iter()) {
            let mut v = cur.clone();
            match at(&mut v, p) {
                Some(x) if !x.is_null() => *x = Value::Null,
                _ => continue,
            }
            if attempt(&v, &mut tries) {
                cur = v;
                changed = true;
            }
        }
        leaves.clear();
        collect(&cur, &mut Vec::new(), &mut Vec::new(), &mut leaves, &mut Vec::new());
        for p in &leaves {
            // the seed is only a name here
            if matches!(p.last(), Some(Step::K(k)) if k == "seed") && p.len() == 1 {
                continue;
            }
            loop {
                let x = match at(&mut cur, p).and_then(|x| x.as_i64()) {
                    Some(x) if x != 0 => x,
                    _ => break,
                };
                let mut ok = false;
                for y in [0, 1, x / 2, x - x.signum()] {
                    if y == x || (y == 1 && x < 0) || (y == 1 && x == 1) {
                        continue;
                    }
                    let mut v = cur.clone();
                    *at(&mut v, p).unwrap() = y.into();
                    if attempt(&v, &mut tries) {
                        cur = v;
                        ok = true;
                        changed = true;
                        break;
                    }
                }
                if !ok || Instant::now() >= until {
                    break;
                }
            }
        }
        if !changed || Instant::now() >= until {
            break;
        }
    }
    (serde_json::from_value(cur).unwrap_or(best), tries)
}

fn spell_out(s: &mut Scenario) -> bool {
    use crate::graphs::Graph;
    let mut any = false;
    let mut f = |g: &mut Graph| {
        if let Graph::Family { .. } = g {
            let e = g.edges();
            if e.len() <= 4000 {
                *g = Graph::Edges(e);
                any = true;
            }
        }
    };
    match &mut s.work {
        Work::Service(w) => w.graphs.iter_mut().for_each(|g| f(&mut g.graph)),
        Work::Det(w) => f(&mut w.graph),
        Work::Witness(w) => f(&mut w.graph),
        Work::Image(w) => w.graphs.iter_mut().for_each(|g| f(&mut g.0)),
        _ => {}
    }
    any
}
