//! The plain part of JSON paths: `$.a['b'][0][*]`, `..a`, slices.
use serde_json::Value;

#[derive(Debug)]
pub struct Error(String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}

#[derive(Debug, Clone)]
enum Step {
    Key(String),
    Index(i64),
    Slice(Option<i64>, Option<i64>),
    All,
    Deep(Box<Step>),
}

#[derive(Debug)]
pub struct Selector(Vec<Step>);

impl Selector {
    pub fn new(s: &str) -> Result<Selector, Error> {
        let c: Vec<char> = s.chars().collect();
        let err = || Error(format!("invalid JSON path: {s}"));
        if c.first() != Some(&'$') {
            return Err(err());
        }
        let mut i = 1;
        let mut steps = vec![];
        let name = |i: &mut usize| {
            let from = *i;
            while *i < c.len() && c[*i] != '.' && c[*i] != '[' {
                *i += 1;
            }
            c[from..*i].iter().collect::<String>()
        };
        while i < c.len() {
            if c[i] == '.' {
                i += 1;
                let deep = c.get(i) == Some(&'.');
                if deep {
                    i += 1;
                }
                let n = name(&mut i);
                if n.is_empty() {
                    return Err(err());
                }
                let step = if n == "*" { Step::All } else { Step::Key(n) };
                steps.push(if deep { Step::Deep(Box::new(step)) } else { step });
            } else if c[i] == '[' {
                let end = c[i..].iter().position(|x| *x == ']').ok_or_else(err)? + i;
                let t: String = c[i + 1..end].iter().collect();
                let t = t.trim();
                i = end + 1;
                let quoted = |q: char| t.len() >= 2 && t.starts_with(q) && t.ends_with(q);
                if t == "*" {
                    steps.push(Step::All);
                } else if quoted('\'') || quoted('"') {
                    steps.push(Step::Key(t[1..t.len() - 1].to_string()));
                } else if let Some((a, b)) = t.split_once(':') {
                    let p = |x: &str| if x.is_empty() { Ok(None) } else { x.parse().map(Some).map_err(|_| err()) };
                    steps.push(Step::Slice(p(a)?, p(b)?));
                } else {
                    steps.push(Step::Index(t.parse().map_err(|_| err())?));
                }
            } else {
                return Err(err());
            }
        }
        Ok(Selector(steps))
    }

    pub fn find<'a>(&self, v: &'a Value) -> std::vec::IntoIter<&'a Value> {
        let mut cur = vec![v];
        for s in &self.0 {
            cur = cur.into_iter().flat_map(|v| step(s, v)).collect();
        }
        cur.into_iter()
    }
}

fn step<'a>(s: &Step, v: &'a Value) -> Vec<&'a Value> {
    let at = |i: i64, n: usize| if i < 0 { (n as i64 + i).max(0) as usize } else { (i as usize).min(n) };
    match (s, v) {
        (Step::Key(k), Value::Object(m)) => m.get(k).into_iter().collect(),
        (Step::Index(i), Value::Array(a)) => {
            let i = if *i < 0 { a.len() as i64 + i } else { *i };
            usize::try_from(i).ok().and_then(|i| a.get(i)).into_iter().collect()
        }
        (Step::Slice(x, y), Value::Array(a)) => {
            let (x, y) = (x.map_or(0, |x| at(x, a.len())), y.map_or(a.len(), |y| at(y, a.len())));
            a.iter().skip(x).take(y.saturating_sub(x)).collect()
        }
        (Step::All, Value::Array(a)) => a.iter().collect(),
        (Step::All, Value::Object(m)) => m.values().collect(),
        (Step::Deep(s), v) => {
            let mut out = step(s, v);
            let kids: Vec<&Value> = match v {
                Value::Array(a) => a.iter().collect(),
                Value::Object(m) => m.values().collect(),
                _ => vec![],
            };
            for k in kids {
                out.extend(step(&Step::Deep(s.clone()), k));
            }
            out
        }
        _ => vec![],
    }
}
