//! The published client functions (/repo/aqua/*.aqua), run across simulated peers. The interpreter below is a stub of the
//! Aqua compiler and AquaVM: it knows the sequential language the published functions are written in.
use crate::deploy::{Asked, Flow};
use crate::trace::Tet;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Ex {
    Lit(Value),
    Var(String),
    Field(Box<Ex>, String),
    Index(Box<Ex>, Box<Ex>),
    /// function, or service and its function
    Call(Option<String>, String, Vec<Ex>),
    Op(&'static str, Box<Ex>, Box<Ex>),
    Not(Box<Ex>),
    List(Vec<Ex>),
    Record(Vec<(String, Ex)>),
}
#[derive(Clone, Debug)]
pub enum St {
    On(Ex, Vec<St>),
    If(Ex, Vec<St>, Vec<St>),
    For(String, Ex, Vec<St>),
    Try(Vec<St>, Option<String>, Vec<St>),
    Stream(String),
    Push(String, Ex),
    Let(Vec<String>, Ex),
    Resolve(String, Ex),
    Return(Vec<Ex>),
    Do(Ex),
}
#[derive(Clone, Debug)]
pub struct Func {
    /// name, and whether it is a stream shared with the caller
    params: Vec<(String, bool)>,
    body: Vec<St>,
}
#[derive(Default, Debug)]
pub struct Program {
    pub funcs: BTreeMap<String, Func>,
    services: BTreeMap<String, String>,
    consts: BTreeMap<String, Ex>,
    pub exported: Vec<String>,
}

struct Line {
    text: String,
    indent: usize,
    kids: Vec<Line>,
}

fn lines(t: &str) -> Vec<Line> {
    // comments away, open brackets joined
    let mut flat: Vec<(usize, String)> = vec![];
    let mut open = 0i32;
    for l in t.lines() {
        let mut s = String::new();
        let mut quoted = false;
        let cs: Vec<char> = l.chars().collect();
        for (i, c) in cs.iter().enumerate() {
            if *c == '"' {
                quoted = !quoted;
            }
            if !quoted && *c == '-' && cs.get(i + 1) == Some(&'-') {
                break;
            }
            s.push(*c);
        }
        if s.trim().is_empty() || s.trim().starts_with("//") || s.trim().starts_with('#') {
            continue;
        }
        let depth: i32 = s.chars().map(|c| match c { '(' | '[' => 1, ')' | ']' => -1, _ => 0 }).sum();
        if open > 0 {
            let last = flat.last_mut().unwrap();
            last.1.push(' ');
            last.1.push_str(s.trim());
        } else {
            flat.push((s.len() - s.trim_start().len(), s.trim().to_string()));
        }
        open += depth;
    }
    fn nest(flat: &[(usize, String)], i: &mut usize, at: usize) -> Vec<Line> {
        let mut out = vec![];
        while *i < flat.len() && flat[*i].0 >= at {
            let (indent, text) = flat[*i].clone();
            *i += 1;
            let kids = match flat.get(*i) {
                Some((d, _)) if *d > indent => nest(flat, i, *d),
                _ => vec![],
            };
            out.push(Line { text, indent, kids });
        }
        out
    }
    nest(&flat, &mut 0, 0)
}

fn tokens(t: &str) -> Result<Vec<String>, String> {
    let cs: Vec<char> = t.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    while i < cs.len() {
        let c = cs[i];
        if c.is_whitespace() {
            i += 1;
        } else if c == '"' {
            let mut s = String::from("\"");
            i += 1;
            while i < cs.len() && cs[i] != '"' {
                s.push(cs[i]);
                i += 1;
            }
            i += 1;
            out.push(s);
        } else if c.is_alphanumeric() || c == '_' || c == '%' {
            let mut s = String::new();
            while i < cs.len() && (cs[i].is_alphanumeric() || cs[i] == '_' || cs[i] == '%') {
                s.push(cs[i]);
                i += 1;
            }
            out.push(s);
        } else {
            let two: String = cs[i..(i + 2).min(cs.len())].iter().collect();
            if ["==", "!=", "&&", "||", "<=", ">="].contains(&two.as_str()) {
                out.push(two);
                i += 2;
            } else if "()[].,!<>+-*?=:".contains(c) {
                out.push(c.to_string());
                i += 1;
            } else {
                return Err(format!("character {c} in {t}"));
            }
        }
    }
    Ok(out)
}

struct Px {
    t: Vec<String>,
    i: usize,
}
impl Px {
    fn peek(&self) -> &str {
        self.t.get(self.i).map(|s| s.as_str()).unwrap_or("")
    }
    fn eat(&mut self, s: &str) -> bool {
        if self.peek() == s {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn want(&mut self, s: &str) -> Result<(), String> {
        if self.eat(s) { Ok(()) } else { Err(format!("expected {s}, found {}", self.peek())) }
    }
    fn level(&mut self, l: usize) -> Result<Ex, String> {
        const OPS: [&[&str]; 4] = [&["||"], &["&&"], &["==", "!=", "<", ">", "<=", ">="], &["+", "-"]];
        if l == OPS.len() {
            return self.unary();
        }
        let mut a = self.level(l + 1)?;
        while let Some(op) = OPS[l].iter().find(|o| **o == self.peek()) {
            self.i += 1;
            a = Ex::Op(op, Box::new(a), Box::new(self.level(l + 1)?));
        }
        Ok(a)
    }
    fn unary(&mut self) -> Result<Ex, String> {
        if self.eat("!") {
            return Ok(Ex::Not(Box::new(self.unary()?)));
        }
        let mut a = self.atom()?;
        loop {
            if self.eat("!") {
                let i = if self.peek().parse::<u64>().is_ok() {
                    self.i += 1;
                    Ex::Lit(json!(self.t[self.i - 1].parse::<u64>().unwrap()))
                } else {
                    Ex::Lit(json!(0))
                };
                a = Ex::Index(Box::new(a), Box::new(i));
            } else if self.eat("[") {
                let i = self.level(0)?;
                self.want("]")?;
                a = Ex::Index(Box::new(a), Box::new(i));
            } else if self.eat(".") {
                let n = self.name()?;
                if self.peek() == "(" {
                    let Ex::Var(s) = a else { return Err(format!("call of {n} on a value")) };
                    a = Ex::Call(Some(s), n, self.args()?);
                } else if n == "length" && self.peek() != "(" {
                    return Err("length".into());
                } else {
                    a = Ex::Field(Box::new(a), n);
                }
            } else {
                return Ok(a);
            }
        }
    }
    fn name(&mut self) -> Result<String, String> {
        let n = self.peek().to_string();
        self.i += 1;
        if n.starts_with(|c: char| c.is_alphabetic() || c == '_' || c == '%') { Ok(n) } else { Err(format!("expected a name, found {n}")) }
    }
    fn args(&mut self) -> Result<Vec<Ex>, String> {
        self.want("(")?;
        let mut v = vec![];
        while !self.eat(")") {
            v.push(self.level(0)?);
            if self.peek() != ")" {
                self.want(",")?;
            }
        }
        Ok(v)
    }
    fn atom(&mut self) -> Result<Ex, String> {
        let t = self.peek().to_string();
        self.i += 1;
        if let Some(s) = t.strip_prefix('"') {
            return Ok(Ex::Lit(json!(s)));
        }
        match t.as_str() {
            "(" => {
                let e = self.level(0)?;
                self.want(")")?;
                return Ok(e);
            }
            // a list, an option or a stream literal
            "?" | "*" if self.peek() == "[" => return self.atom(),
            "[" => {
                let mut v = vec![];
                while !self.eat("]") {
                    v.push(self.level(0)?);
                    if self.peek() != "]" {
                        self.want(",")?;
                    }
                }
                return Ok(Ex::List(v));
            }
            "nil" => return Ok(Ex::List(vec![])),
            "true" | "false" => return Ok(Ex::Lit(json!(t == "true"))),
            _ => {}
        }
        if let Ok(n) = t.parse::<u64>() {
            return Ok(Ex::Lit(json!(n)));
        }
        if !t.starts_with(|c: char| c.is_alphabetic() || c == '_' || c == '%') {
            return Err(format!("unexpected {t}"));
        }
        if self.peek() == "(" {
            // Name(a = x, ...) makes a record
            if self.t.get(self.i + 2).map(|s| s == "=").unwrap_or(false) {
                self.i += 1;
                let mut v = vec![];
                while !self.eat(")") {
                    let n = self.name()?;
                    self.want("=")?;
                    v.push((n, self.level(0)?));
                    if self.peek() != ")" {
                        self.want(",")?;
                    }
                }
                return Ok(Ex::Record(v));
            }
            return Ok(Ex::Call(None, t, self.args()?));
        }
        Ok(Ex::Var(t))
    }
}

fn expr(t: &str) -> Result<Ex, String> {
    let mut p = Px { t: tokens(t)?, i: 0 };
    let e = p.level(0).map_err(|e| format!("{e} in {t}"))?;
    if p.i != p.t.len() {
        return Err(format!("more than an expression: {t}"));
    }
    Ok(e)
}
fn is_name(t: &str) -> bool {
    !t.is_empty() && t.chars().all(|c| c.is_alphanumeric() || c == '_') && !t.starts_with(|c: char| c.is_numeric())
}
fn split_top(t: &str) -> Vec<String> {
    let (mut out, mut cur, mut d, mut q) = (vec![], String::new(), 0, false);
    for c in t.chars() {
        match c {
            '"' => q = !q,
            '(' | '[' if !q => d += 1,
            ')' | ']' if !q => d -= 1,
            ',' if d == 0 && !q => {
                out.push(std::mem::take(&mut cur).trim().to_string());
                continue;
            }
            _ => {}
        }
        cur.push(c);
    }
    if !cur.trim().is_empty() {
        out.push(cur.trim().to_string());
    }
    out
}

fn block(ls: &[Line]) -> Result<Vec<St>, String> {
    let mut out: Vec<St> = vec![];
    for l in ls {
        let _ = l.indent;
        let mut t = l.text.trim();
        for p in ["par ", "co "] {
            t = t.strip_prefix(p).unwrap_or(t).trim();
        }
        if let Some(head) = t.strip_suffix(':') {
            let kids = block(&l.kids)?;
            if let Some(e) = head.strip_prefix("on ") {
                out.push(St::On(expr(e.split(" via ").next().unwrap())?, kids));
            } else if let Some(e) = head.strip_prefix("if ") {
                out.push(St::If(expr(e)?, kids, vec![]));
            } else if let Some(e) = head.strip_prefix("else if ") {
                let inner = St::If(expr(e)?, kids, vec![]);
                otherwise(out.last_mut(), vec![inner])?;
            } else if head == "else" {
                otherwise(out.last_mut(), kids)?;
            } else if let Some(e) = head.strip_prefix("for ") {
                let (n, e) = e.split_once("<-").ok_or(format!("for: {t}"))?;
                let mut e = e.trim();
                for s in [" par", " try", " rec"] {
                    e = e.strip_suffix(s).unwrap_or(e);
                }
                out.push(St::For(n.trim().into(), expr(e)?, kids));
            } else if head == "try" {
                out.push(St::Try(kids, None, vec![]));
            } else if head == "otherwise" || head.starts_with("catch ") {
                let Some(St::Try(_, n, h)) = out.last_mut() else { return Err(format!("{t} without try")) };
                *n = head.strip_prefix("catch ").map(|s| s.trim().to_string());
                *h = kids;
            } else {
                return Err(format!("statement {t}"));
            }
            continue;
        }
        if !l.kids.is_empty() {
            return Err(format!("block under {t}"));
        }
        if let Some(r) = t.strip_prefix("<- ") {
            out.push(St::Return(split_top(r).iter().map(|e| expr(e)).collect::<Result<_, _>>()?));
        } else if let Some((n, e)) = t.split_once("<<-") {
            out.push(St::Push(n.trim().into(), expr(e.trim())?));
        } else if let Some((n, e)) = t.split_once("<-") {
            out.push(St::Let(n.split(',').map(|x| x.trim().to_string()).collect(), expr(e.trim())?));
        } else if let Some((n, ty)) = t.split_once(':').filter(|(n, ty)| is_name(n.trim()) && ty.trim().starts_with('*')) {
            let _ = ty;
            out.push(St::Stream(n.trim().into()));
        } else if let Some((n, e)) = t.split_once('=').filter(|(n, e)| is_name(n.trim()) && !e.starts_with('=')) {
            out.push(St::Let(vec![n.trim().into()], expr(e.trim())?));
        } else if let Some((n, e)) = t.split_once(' ').filter(|(n, e)| is_name(n) && e.trim().starts_with(|c: char| c.is_alphanumeric() || c == '"' || c == '%')) {
            out.push(St::Resolve(n.into(), expr(e.trim())?));
        } else {
            out.push(St::Do(expr(t)?));
        }
    }
    Ok(out)
}
fn otherwise(s: Option<&mut St>, b: Vec<St>) -> Result<(), String> {
    match s {
        Some(St::If(_, _, e)) if e.is_empty() => {
            *e = b;
            Ok(())
        }
        Some(St::If(_, _, e)) => otherwise(e.last_mut(), b),
        _ => Err("else without if".into()),
    }
}

impl Program {
    pub fn parse(texts: &[(String, String)]) -> Result<Program, String> {
        let mut p = Program::default();
        for (n, id) in [("Peer", "peer"), ("Sig", "sig"), ("Op", "op")] {
            p.services.insert(n.into(), id.into());
        }
        for (file, t) in texts {
            p.add(t).map_err(|e| format!("{file}: {e}"))?;
        }
        Ok(p)
    }
    fn add(&mut self, t: &str) -> Result<(), String> {
        for l in lines(t) {
            let word = l.text.split(|c: char| c.is_whitespace()).next().unwrap_or("");
            match word {
                "func" => {
                    let h = l.text.strip_prefix("func").unwrap().trim();
                    let open = h.find('(').ok_or("func without parameters")?;
                    let close = matching(h, open).ok_or("func without parameters")?;
                    let params = split_top(&h[open + 1..close])
                        .iter()
                        .map(|x| x.split_once(':').map(|(n, ty)| (n.trim().to_string(), ty.trim().starts_with('*'))).ok_or(format!("parameter {x}")))
                        .collect::<Result<Vec<_>, _>>()?;
                    let name = h[..open].trim().to_string();
                    let body = block(&l.kids).map_err(|e| format!("{name}: {e}"))?;
                    if self.funcs.insert(name.clone(), Func { params, body }).is_some() {
                        return Err(format!("two functions {name}"));
                    }
                }
                "service" => {
                    let h = l.text.strip_prefix("service").unwrap().trim().trim_end_matches(':');
                    let (n, id) = match h.split_once('(') {
                        Some((n, r)) => (n.trim(), r.trim_end_matches(')').trim().trim_matches('"')),
                        None => (h.trim(), ""),
                    };
                    self.services.insert(n.into(), id.into());
                }
                "const" => {
                    let (n, e) = l.text.strip_prefix("const").unwrap().split_once('=').ok_or("const")?;
                    self.consts.insert(n.trim().into(), expr(e.trim())?);
                }
                "export" => self.exported.extend(l.text.strip_prefix("export").unwrap().split(',').map(|s| s.trim().to_string())),
                "aqua" | "module" | "import" | "use" | "alias" | "data" | "ability" => {}
                w => return Err(format!("declaration {w}")),
            }
        }
        Ok(())
    }
}
fn matching(s: &str, open: usize) -> Option<usize> {
    let mut d = 0;
    for (i, c) in s.char_indices().skip_while(|x| x.0 < open) {
        match c {
            '(' => d += 1,
            ')' => {
                d -= 1;
                if d == 0 {
                    return Some(i);
                }
            }
            _ => {}
        }
    }
    None
}

/// a value and where it comes from
type V = (Value, Tet);
#[derive(Clone)]
enum Bind {
    Val(V),
    Stream(Rc<RefCell<Vec<V>>>),
}
struct Env {
    vars: BTreeMap<String, Bind>,
    ids: BTreeMap<String, V>,
}

/// What the interpreter asks of the simulated network.
pub enum Need {
    /// the particle travels to this peer
    Hop(String),
    Ask(String, Asked),
}

pub struct Aqua<'a, E> {
    pub prog: &'a Program,
    pub init: String,
    pub relay: String,
    here: String,
    depth: u32,
    pub net: &'a mut dyn FnMut(Need) -> Result<Value, Flow<E>>,
}

fn fail<T, E>(s: impl Into<String>) -> Result<T, Flow<E>> {
    Err(Flow::Fail(s.into()))
}

impl<'a, E> Aqua<'a, E> {
    pub fn new(prog: &'a Program, init: &str, relay: &str, here: &str, net: &'a mut dyn FnMut(Need) -> Result<Value, Flow<E>>) -> Self {
        Aqua { prog, init: init.into(), relay: relay.into(), here: here.into(), depth: 0, net }
    }
    fn lit(&self, v: Value) -> V {
        (v, Tet { peer_pk: self.init.clone(), ..Default::default() })
    }
    /// the client runs a published function
    pub fn run(&mut self, f: &str, args: &[Value]) -> Result<Vec<Value>, Flow<E>> {
        let args = args.iter().map(|a| Bind::Val(self.lit(a.clone()))).collect();
        let r = self.func(f, args)?;
        Ok(r.into_iter().map(|b| self.value(&b).0).collect())
    }
    fn value(&self, b: &Bind) -> V {
        match b {
            Bind::Val(v) => v.clone(),
            Bind::Stream(s) => {
                let s = s.borrow();
                let t = s.first().map(|x| x.1.clone()).unwrap_or_else(|| self.lit(Value::Null).1);
                (Value::Array(s.iter().map(|x| x.0.clone()).collect()), t)
            }
        }
    }
    fn func(&mut self, f: &str, args: Vec<Bind>) -> Result<Vec<Bind>, Flow<E>> {
        let prog = self.prog;
        let Some(d) = prog.funcs.get(f) else { return fail(format!("no function {f}")) };
        if d.params.len() != args.len() {
            return fail(format!("{f} takes {} arguments, got {}", d.params.len(), args.len()));
        }
        self.depth += 1;
        if self.depth > 50 {
            return fail("calls nested too deeply");
        }
        let mut env = Env { vars: BTreeMap::new(), ids: BTreeMap::new() };
        for ((n, stream), a) in d.params.iter().zip(args) {
            let b = match (&a, stream) {
                (Bind::Stream(_), true) => a,
                _ => Bind::Val(self.value(&a)),
            };
            env.vars.insert(n.clone(), b);
        }
        let here = self.here.clone();
        let r = self.block(&d.body, &mut env)?;
        self.here = here;
        self.depth -= 1;
        Ok(r.unwrap_or_default())
    }
    fn hop(&mut self, to: String) -> Result<(), Flow<E>> {
        if to != self.here {
            (self.net)(Need::Hop(to.clone()))?;
            self.here = to;
        }
        Ok(())
    }
    fn block(&mut self, b: &[St], env: &mut Env) -> Result<Option<Vec<Bind>>, Flow<E>> {
        for s in b {
            match s {
                St::On(p, body) => {
                    let to = self.eval(p, env)?.0;
                    let Some(to) = to.as_str() else { return fail(format!("on {to}")) };
                    let back = self.here.clone();
                    self.hop(to.to_string())?;
                    let r = self.block(body, env)?;
                    if r.is_some() {
                        return Ok(r);
                    }
                    self.hop(back)?;
                }
                St::If(c, a, e) => {
                    let r = match self.eval(c, env)?.0 {
                        Value::Bool(true) => self.block(a, env)?,
                        Value::Bool(false) => self.block(e, env)?,
                        v => return fail(format!("if {v}")),
                    };
                    if r.is_some() {
                        return Ok(r);
                    }
                }
                St::For(n, e, body) => {
                    let (v, t) = self.eval(e, env)?;
                    let Value::Array(items) = v else { return fail(format!("for over {v}")) };
                    for i in items {
                        env.vars.insert(n.clone(), Bind::Val((i, t.clone())));
                        let r = self.block(body, env)?;
                        if r.is_some() {
                            return Ok(r);
                        }
                    }
                    env.vars.remove(n);
                }
                St::Try(b, n, h) => {
                    let (here, depth) = (self.here.clone(), self.depth);
                    match self.block(b, env) {
                        Err(Flow::Fail(m)) => {
                            self.depth = depth;
                            self.hop(here)?;
                            if let Some(n) = n {
                                let e = self.lit(json!({"message": m, "error_code": 10000}));
                                env.vars.insert(n.clone(), Bind::Val(e));
                            }
                            let r = self.block(h, env)?;
                            if r.is_some() {
                                return Ok(r);
                            }
                        }
                        Ok(Some(r)) => return Ok(Some(r)),
                        Ok(None) => {}
                        Err(e) => return Err(e),
                    }
                }
                St::Stream(n) => {
                    env.vars.insert(n.clone(), Bind::Stream(Default::default()));
                }
                St::Push(n, e) => {
                    let v = self.eval(e, env)?;
                    match env.vars.get(n) {
                        Some(Bind::Stream(s)) => s.borrow_mut().push(v),
                        _ => return fail(format!("{n} is no stream")),
                    }
                }
                St::Let(ns, e) => {
                    let vs = self.multi(e, env)?;
                    if vs.len() < ns.len() {
                        return fail(format!("{} results for {}", vs.len(), ns.join(", ")));
                    }
                    for (n, v) in ns.iter().zip(vs) {
                        let v = self.value(&v);
                        env.vars.insert(n.clone(), Bind::Val(v));
                    }
                }
                St::Resolve(n, e) => {
                    if !self.prog.services.contains_key(n) {
                        return fail(format!("no service {n}"));
                    }
                    let v = self.eval(e, env)?;
                    env.ids.insert(n.clone(), v);
                }
                St::Return(es) => {
                    let mut out = vec![];
                    for e in es {
                        let b = self.multi(e, env)?;
                        out.extend(b);
                    }
                    return Ok(Some(out));
                }
                St::Do(e) => {
                    self.multi(e, env)?;
                }
            }
        }
        Ok(None)
    }
    fn multi(&mut self, e: &Ex, env: &mut Env) -> Result<Vec<Bind>, Flow<E>> {
        match e {
            Ex::Call(None, f, args) => {
                let mut bs = vec![];
                for a in args {
                    bs.push(match a {
                        Ex::Var(n) if env.vars.contains_key(n) => env.vars[n].clone(),
                        _ => Bind::Val(self.eval(a, env)?),
                    });
                }
                self.func(f, bs)
            }
            _ => Ok(vec![Bind::Val(self.eval(e, env)?)]),
        }
    }
    fn eval(&mut self, e: &Ex, env: &mut Env) -> Result<V, Flow<E>> {
        match e {
            Ex::Lit(v) => Ok(self.lit(v.clone())),
            Ex::List(es) => {
                let mut v = vec![];
                for e in es {
                    v.push(self.eval(e, env)?.0);
                }
                Ok(self.lit(json!(v)))
            }
            Ex::Record(fs) => {
                let mut m = serde_json::Map::new();
                for (n, e) in fs {
                    m.insert(n.clone(), self.eval(e, env)?.0);
                }
                Ok(self.lit(Value::Object(m)))
            }
            Ex::Var(n) => match n.as_str() {
                "HOST_PEER_ID" => Ok(self.lit(json!(self.relay))),
                "INIT_PEER_ID" | "%init_peer_id%" => Ok(self.lit(json!(self.init))),
                n => {
                    if let Some(b) = env.vars.get(n) {
                        return Ok(self.value(b));
                    }
                    let prog = self.prog;
                    match prog.consts.get(n) {
                        Some(c) => self.eval(c, env),
                        None => fail(format!("no variable {n}")),
                    }
                }
            },
            Ex::Field(x, f) => {
                let (v, mut t) = self.eval(x, env)?;
                t.json_path = format!("{}.{f}", if t.json_path.is_empty() { "$" } else { &t.json_path });
                match v.get(f) {
                    Some(v) => Ok((v.clone(), t)),
                    None => fail(format!("no {f} in {v}")),
                }
            }
            Ex::Index(x, i) => {
                let (v, mut t) = self.eval(x, env)?;
                let i = self.eval(i, env)?.0.as_u64().unwrap_or(u64::MAX) as usize;
                t.json_path = format!("{}.[{i}]", if t.json_path.is_empty() { "$" } else { &t.json_path });
                match v.get(i) {
                    Some(v) => Ok((v.clone(), t)),
                    None => fail(format!("waits for element {i} of {v} for ever")),
                }
            }
            Ex::Not(x) => match self.eval(x, env)?.0 {
                Value::Bool(b) => Ok(self.lit(json!(!b))),
                v => fail(format!("!{v}")),
            },
            Ex::Op(op, a, b) => {
                let x = self.eval(a, env)?.0;
                if *op == "&&" && x == json!(false) || *op == "||" && x == json!(true) {
                    return Ok(self.lit(x));
                }
                let y = self.eval(b, env)?.0;
                let n = || -> Result<(u64, u64), Flow<E>> {
                    match (x.as_u64(), y.as_u64()) {
                        (Some(a), Some(b)) => Ok((a, b)),
                        _ => fail(format!("{x} {op} {y}")),
                    }
                };
                let v = match *op {
                    "==" => json!(x == y),
                    "!=" => json!(x != y),
                    "&&" | "||" => y.clone(),
                    "<" => n().map(|(a, b)| json!(a < b))?,
                    ">" => n().map(|(a, b)| json!(a > b))?,
                    "<=" => n().map(|(a, b)| json!(a <= b))?,
                    ">=" => n().map(|(a, b)| json!(a >= b))?,
                    "+" => n().map(|(a, b)| json!(a.wrapping_add(b)))?,
                    _ => n().map(|(a, b)| json!(a.wrapping_sub(b)))?,
                };
                Ok(self.lit(v))
            }
            Ex::Call(None, ..) => {
                let v = self.multi(e, env)?;
                match v.first() {
                    Some(b) => Ok(self.value(b)),
                    None => Ok(self.lit(Value::Null)),
                }
            }
            Ex::Call(Some(s), f, args) => {
                let prog = self.prog;
                let Some(id) = prog.services.get(s) else { return fail(format!("no service {s}")) };
                let id = match env.ids.get(s) {
                    Some(v) => v.0.as_str().unwrap_or("").to_string(),
                    None => id.clone(),
                };
                let (mut vals, mut tets) = (vec![], vec![]);
                for a in args {
                    let (v, t) = self.eval(a, env)?;
                    vals.push(v);
                    tets.push(vec![t]);
                }
                let made = Tet { peer_pk: self.here.clone(), service_id: id.clone(), function_name: f.clone(), json_path: String::new() };
                let here = self.here.clone();
                let v = (self.net)(Need::Ask(here, Asked { service: id, f: f.clone(), args: vals, tets }))?;
                Ok((v, made))
            }
        }
    }
}

pub fn program() -> Result<&'static Program, String> {
    static P: std::sync::OnceLock<Result<Program, String>> = std::sync::OnceLock::new();
    P.get_or_init(|| {
        let dir = format!("{}/aqua", crate::deploy::repo());
        let mut names: Vec<String> = std::fs::read_dir(&dir)
            .map_err(|e| format!("{dir}: {e}"))?
            .filter_map(|e| e.ok().map(|e| e.file_name().to_string_lossy().into_owned()))
            .filter(|n| n.ends_with(".aqua"))
            .collect();
        names.sort();
        let mut texts = vec![];
        for n in names {
            let t = std::fs::read_to_string(format!("{dir}/{n}")).map_err(|e| format!("{n}: {e}"))?;
            texts.push((n, t));
        }
        Program::parse(&texts)
    })
    .as_ref()
    .map_err(|e| e.clone())
}
