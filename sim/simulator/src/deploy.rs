//! The packaged deployment: the start script and data of /repo/builtin-package and /repo/distro, run against the
//! simulated node. The AIR interpreter below is a stub of the host's (only what a start script needs).
use crate::trace::Tet;
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub struct Package {
    pub script: Air,
    pub data: Value,
    pub root: String,
    pub len: u64,
    pub certs: Vec<Value>,
    /// the peer in the middle of the packaged certificates
    pub label: String,
}

pub fn repo() -> String {
    std::env::var("TGSIM_REPO").unwrap_or_else(|_| "/repo".into())
}

fn load() -> Result<Package, String> {
    let read = |p: &str| std::fs::read_to_string(format!("{}/{p}", repo())).map_err(|e| format!("{p}: {e}"));
    let js = |p: &str| read(p).and_then(|t| serde_json::from_str::<Value>(&t).map_err(|e| format!("{p}: {e}")));
    let text: Vec<String> = read("builtin-package/on_start.air")?.lines().filter(|l| !l.trim().starts_with("//") && !l.trim().starts_with('#')).map(String::from).collect();
    let script = parse(&text.join("\n"))?;
    let data = js("builtin-package/on_start.json")?;
    let init = js("distro/init_certs.json")?;
    let certs = init["certs"].as_array().cloned().ok_or("init_certs.json: no certs")?;
    let label = certs.iter().map(|c| c["chain"].as_array().cloned().unwrap_or_default()).find(|c| c.len() == 3).and_then(|c| c[1]["issued_for"].as_str().map(String::from));
    Ok(Package {
        script,
        data,
        root: init["root_node"].as_str().ok_or("init_certs.json: no root_node")?.into(),
        len: init["max_chain_length"].as_u64().ok_or("init_certs.json: no max_chain_length")?,
        certs,
        label: label.unwrap_or_default(),
    })
}

pub fn package() -> &'static Package {
    static P: std::sync::OnceLock<Package> = std::sync::OnceLock::new();
    P.get_or_init(|| match load() {
        Ok(p) => p,
        Err(e) => {
            eprintln!("the package cannot be read: {e}");
            std::process::exit(2);
        }
    })
}

// ---- AIR ------------------------------------------------------------------------------------------------------

#[derive(Clone, Debug)]
pub enum Arg {
    Lit(Value),
    /// variable and path into it
    Var(String, Vec<String>),
}
#[derive(Clone, Debug)]
pub enum Air {
    Null,
    Seq(Box<Air>, Box<Air>),
    Par(Box<Air>, Box<Air>),
    Xor(Box<Air>, Box<Air>),
    Match(Arg, Arg, Box<Air>),
    Mismatch(Arg, Arg, Box<Air>),
    Fold(Arg, String, Box<Air>),
    Next(String),
    New(Box<Air>),
    Ap(Arg, String),
    Call(Arg, Arg, Arg, Vec<Arg>, Option<String>),
}

fn tokens(t: &str) -> Vec<String> {
    let mut out = vec![];
    let mut cs = t.chars().peekable();
    while let Some(c) = cs.next() {
        match c {
            ';' => while cs.next_if(|c| *c != '\n').is_some() {},
            '(' | ')' | '[' | ']' => out.push(c.to_string()),
            '"' => {
                let mut s = String::from("\"");
                for c in cs.by_ref() {
                    if c == '"' {
                        break;
                    }
                    s.push(c);
                }
                out.push(s);
            }
            c if c.is_whitespace() => {}
            c => {
                let mut s = c.to_string();
                // a path may contain brackets: x.$.a.[0]
                while let Some(c) = cs.next_if(|c| !c.is_whitespace() && !"()\";".contains(*c)) {
                    if c == ']' && s.matches('[').count() <= s.matches(']').count() {
                        out.push(std::mem::take(&mut s));
                        s.push(']');
                        break;
                    }
                    s.push(c);
                }
                out.push(s);
            }
        }
    }
    out
}

struct P {
    t: Vec<String>,
    i: usize,
}
impl P {
    fn next(&mut self) -> Result<String, String> {
        self.i += 1;
        self.t.get(self.i - 1).cloned().ok_or("script ends early".into())
    }
    fn want(&mut self, s: &str) -> Result<(), String> {
        let n = self.next()?;
        if n == s { Ok(()) } else { Err(format!("expected {s}, found {n}")) }
    }
    fn arg(&mut self) -> Result<Arg, String> {
        let t = self.next()?;
        if let Some(s) = t.strip_prefix('"') {
            return Ok(Arg::Lit(json!(s)));
        }
        if t == "[" {
            self.want("]")?;
            return Ok(Arg::Lit(json!([])));
        }
        if let Ok(v) = serde_json::from_str::<Value>(&t) {
            return Ok(Arg::Lit(v));
        }
        let mut parts = t.split('.');
        let name = parts.next().unwrap_or("").trim_end_matches('!').to_string();
        let path = parts
            .map(|p| p.trim_end_matches('!').trim_matches(|c| c == '[' || c == ']').to_string())
            .filter(|p| !p.is_empty() && p != "$")
            .collect();
        Ok(Arg::Var(name, path))
    }
    fn air(&mut self) -> Result<Air, String> {
        self.want("(")?;
        let op = self.next()?;
        let b = |x: Air| Box::new(x);
        let r = match op.as_str() {
            "null" => Air::Null,
            "seq" => Air::Seq(b(self.air()?), b(self.air()?)),
            "par" => Air::Par(b(self.air()?), b(self.air()?)),
            "xor" => Air::Xor(b(self.air()?), b(self.air()?)),
            "match" => Air::Match(self.arg()?, self.arg()?, b(self.air()?)),
            "mismatch" => Air::Mismatch(self.arg()?, self.arg()?, b(self.air()?)),
            "fold" => Air::Fold(self.arg()?, self.next()?, b(self.air()?)),
            "next" => Air::Next(self.next()?),
            "ap" => Air::Ap(self.arg()?, self.next()?),
            "new" => {
                self.next()?;
                Air::New(b(self.air()?))
            }
            "call" => {
                let peer = self.arg()?;
                self.want("(")?;
                let (s, f) = (self.arg()?, self.arg()?);
                self.want(")")?;
                self.want("[")?;
                let mut args = vec![];
                while self.t.get(self.i).map(|x| x != "]").unwrap_or(false) {
                    args.push(self.arg()?);
                }
                self.want("]")?;
                let out = if self.t.get(self.i).map(|x| x != ")").unwrap_or(false) { Some(self.next()?) } else { None };
                Air::Call(peer, s, f, args, out)
            }
            x => return Err(format!("instruction {x} is not known to the simulated host")),
        };
        self.want(")")?;
        Ok(r)
    }
}

pub fn parse(t: &str) -> Result<Air, String> {
    let mut p = P { t: tokens(t), i: 0 };
    let r = p.air().map_err(|e| format!("start script: {e}"))?;
    if p.i != p.t.len() {
        return Err("start script: more than one instruction".into());
    }
    Ok(r)
}

pub enum Flow<E> {
    /// caught by xor
    Fail(String),
    /// the particle dies
    Stop(E),
}

/// what a service on the host is asked
pub struct Asked {
    pub service: String,
    pub f: String,
    pub args: Vec<Value>,
    pub tets: Vec<Vec<Tet>>,
}

pub struct Vm<'a, E> {
    pub vars: BTreeMap<String, (Value, Tet)>,
    folds: BTreeMap<String, (Vec<Value>, usize, Air, Tet)>,
    pub host: String,
    pub init: String,
    pub call: &'a mut dyn FnMut(Asked) -> Result<Value, Flow<E>>,
}

impl<'a, E> Vm<'a, E> {
    pub fn new(host: &str, init: &str, data: &Value, call: &'a mut dyn FnMut(Asked) -> Result<Value, Flow<E>>) -> Self {
        let from_init = Tet { peer_pk: init.into(), ..Default::default() };
        let mut vars = BTreeMap::new();
        vars.insert("relay".to_string(), (json!(host), from_init.clone()));
        vars.insert("%init_peer_id%".to_string(), (json!(init), from_init.clone()));
        for (k, v) in data.as_object().into_iter().flatten() {
            vars.insert(k.clone(), (v.clone(), from_init.clone()));
        }
        Vm { vars, folds: BTreeMap::new(), host: host.into(), init: init.into(), call }
    }
    fn get(&self, a: &Arg) -> Result<(Value, Tet), Flow<E>> {
        match a {
            Arg::Lit(v) => Ok((v.clone(), Tet { peer_pk: self.init.clone(), ..Default::default() })),
            Arg::Var(n, path) => {
                let (v, t) = self.vars.get(n).ok_or_else(|| Flow::Fail(format!("no variable {n}")))?;
                let mut v = v;
                for p in path {
                    let next = match p.parse::<usize>() {
                        Ok(i) if v.is_array() => v.get(i),
                        _ => v.get(p.as_str()),
                    };
                    v = next.ok_or_else(|| Flow::Fail(format!("no {p} in {n}")))?;
                }
                Ok((v.clone(), t.clone()))
            }
        }
    }
    pub fn run(&mut self, a: &Air) -> Result<(), Flow<E>> {
        match a {
            Air::Null => Ok(()),
            Air::Seq(x, y) => {
                self.run(x)?;
                self.run(y)
            }
            Air::Par(x, y) => {
                let r = self.run(x);
                if let Err(Flow::Stop(e)) = r {
                    return Err(Flow::Stop(e));
                }
                match (r, self.run(y)) {
                    (_, Err(Flow::Stop(e))) => Err(Flow::Stop(e)),
                    (Err(e), Err(_)) => Err(e),
                    _ => Ok(()),
                }
            }
            Air::Xor(x, y) => match self.run(x) {
                Err(Flow::Fail(_)) => self.run(y),
                r => r,
            },
            Air::Match(x, y, i) | Air::Mismatch(x, y, i) => {
                let same = self.get(x)?.0 == self.get(y)?.0;
                if same == matches!(a, Air::Match(..)) { self.run(i) } else { Err(Flow::Fail("match".into())) }
            }
            Air::New(i) => self.run(i),
            Air::Ap(x, n) => {
                let v = self.get(x)?;
                self.vars.insert(n.clone(), v);
                Ok(())
            }
            Air::Fold(x, it, body) => {
                let (v, t) = self.get(x)?;
                let Value::Array(items) = v else { return Err(Flow::Fail("fold over something else".into())) };
                let Some(first) = items.first().cloned() else { return Ok(()) };
                self.vars.insert(it.clone(), (first, t.clone()));
                self.folds.insert(it.clone(), (items, 0, (**body).clone(), t));
                let r = self.run(body);
                self.folds.remove(it);
                self.vars.remove(it);
                r
            }
            Air::Next(it) => {
                let Some((items, i, body, t)) = self.folds.get(it).cloned() else { return Err(Flow::Fail("next outside of fold".into())) };
                let Some(item) = items.get(i + 1).cloned() else { return Ok(()) };
                self.vars.insert(it.clone(), (item, t.clone()));
                self.folds.get_mut(it).unwrap().1 = i + 1;
                let r = self.run(&body);
                if let Some(f) = self.folds.get_mut(it) {
                    f.1 = i;
                }
                self.vars.insert(it.clone(), (items[i].clone(), t));
                r
            }
            Air::Call(peer, s, f, args, out) => {
                let peer = self.get(peer)?.0;
                if peer != json!(self.host) {
                    // no other peer takes part in a start script
                    return Err(Flow::Fail(format!("call on {peer}")));
                }
                let s = self.get(s)?.0.as_str().unwrap_or("").to_string();
                let f = self.get(f)?.0.as_str().unwrap_or("").to_string();
                let mut vals = vec![];
                let mut tets = vec![];
                for x in args {
                    let (v, t) = self.get(x)?;
                    vals.push(v);
                    tets.push(vec![t]);
                }
                let made = Tet { peer_pk: self.host.clone(), service_id: s.clone(), function_name: f.clone(), json_path: String::new() };
                let v = (self.call)(Asked { service: s, f, args: vals, tets })?;
                if let Some(o) = out {
                    self.vars.insert(o.clone(), (v, made));
                }
                Ok(())
            }
        }
    }
}
