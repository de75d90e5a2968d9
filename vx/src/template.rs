use crate::render::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::path::PathBuf;

/// Ghost text belonging to one function, as written in a template.
#[derive(Default, Clone)]
pub struct Overlay {
    pub spec: String,
    pub attrs: String,
    pub inserts: Vec<(Anchor, String)>,
    pub substs: Vec<(String, String)>,
    pub opts: HashMap<String, String>,
}
#[derive(Clone, Debug)]
pub enum Anchor {
    Begin,
    Tail,
    RetBind,
    LoopInv(usize),
    LoopBegin(usize),
    LoopHead(usize),
    LoopEnd(usize),
    BeforeLoop(usize),
    AfterLoop(usize),
    AfterLet(String, usize),
    Before(String, usize),
    After(String, usize),
}

pub struct Template {
    repo: PathBuf,
    contracts: PathBuf,
    features: Vec<String>,
    demote: Vec<String>,
    vacuity: bool,
    pub out: String,
    sources: HashMap<String, std::rc::Rc<Source>>,
    current: String,
    fns: Vec<Value>,
    items: Vec<Value>,
    errors: Vec<Value>,
    pub paths: Vec<(String, String)>,
}

impl Template {
    pub fn new(repo: PathBuf, contracts: PathBuf, features: Vec<String>, demote: Vec<String>, vacuity: bool) -> Self {
        Self { repo, contracts, features, demote, vacuity, out: String::new(), sources: HashMap::new(), current: String::new(),
            fns: vec![], items: vec![], errors: vec![], paths: vec![] }
    }
    fn line(&self) -> usize {
        self.out.matches('\n').count() + 1
    }
    fn source(&mut self) -> std::rc::Rc<Source> {
        let name = self.current.clone();
        if let Some(s) = self.sources.get(&name) {
            return s.clone();
        }
        let s = std::rc::Rc::new(Source::load(&self.repo.join(&name), &self.features));
        self.sources.insert(name, s.clone());
        s
    }
    pub fn map(&self) -> Value {
        json!({"functions": self.fns, "items": self.items, "errors": self.errors, "path_rewrites": self.paths})
    }
    pub fn file(&mut self, name: &str) {
        let text = std::fs::read_to_string(self.contracts.join(name)).unwrap_or_else(|e| panic!("{name}: {e}"));
        let lines: Vec<&str> = text.lines().collect();
        let mut i = 0;
        let mut active = vec![true];
        while i < lines.len() {
            let l = lines[i];
            let Some(d) = l.trim_start().strip_prefix("//@") else {
                if active.iter().all(|a| *a) {
                    self.out.push_str(l);
                    self.out.push('\n');
                }
                i += 1;
                continue;
            };
            let d = d.trim();
            let (cmd, rest) = d.split_once(' ').unwrap_or((d, ""));
            let rest = rest.trim();
            match cmd {
                "if" => {
                    let (neg, f) = match rest.strip_prefix('!') { Some(f) => (true, f), None => (false, rest) };
                    active.push(self.features.iter().any(|x| x == f) != neg);
                    i += 1;
                    continue;
                }
                "else" => {
                    let a = active.pop().unwrap();
                    active.push(!a);
                    i += 1;
                    continue;
                }
                "endif" => {
                    active.pop();
                    i += 1;
                    continue;
                }
                _ => {}
            }
            let on = active.iter().all(|a| *a);
            match cmd {
                "include" => {
                    if on {
                        let cur = self.current.clone();
                        self.file(rest);
                        self.current = cur;
                    }
                    i += 1;
                }
                "source" => {
                    if on {
                        self.current = rest.to_string();
                    }
                    i += 1;
                }
                "path" => {
                    let (a, b) = rest.split_once(" => ").expect("path A => B");
                    self.paths.push((a.trim().into(), b.trim().into()));
                    i += 1;
                }
                "item" => {
                    if on {
                        self.item(rest);
                    }
                    i += 1;
                }
                "impl-open" => {
                    if on {
                        let s = self.source();
                        match s.impl_header(rest, &self.paths) {
                            Ok(h) => self.out.push_str(&format!("{h} {{\n")),
                            Err(e) => self.errors.push(json!({"what": rest, "file": self.current, "error": e})),
                        }
                    }
                    i += 1;
                }
                "fn" | "trait" => {
                    let mut ov = Overlay::default();
                    let mut words = rest.split_whitespace();
                    let mut path = String::new();
                    for w in words.by_ref() {
                        if let Some((k, v)) = w.split_once('=') {
                            ov.opts.insert(k.into(), v.into());
                        } else if w == "bare" || w == "extern" || w == "drop" || w == "inherent" {
                            ov.opts.insert(w.into(), "1".into());
                        } else {
                            if !path.is_empty() {
                                path.push(' ');
                            }
                            path.push_str(w);
                        }
                    }
                    i += 1;
                    let mut specs: HashMap<String, String> = HashMap::new();
                    let mut section: Option<(String, String)> = Some(("none".into(), String::new()));
                    loop {
                        let l = *lines.get(i).unwrap_or_else(|| panic!("{name}: unterminated fn {path}"));
                        i += 1;
                        if let Some(d) = l.trim_start().strip_prefix("//@") {
                            let (k, t) = section.take().unwrap();
                            Self::section(&mut ov, &mut specs, &k, t, name);
                            let d = d.trim();
                            if d == "end" {
                                break;
                            }
                            section = Some((d.to_string(), String::new()));
                        } else {
                            let s = section.as_mut().unwrap();
                            s.1.push_str(l);
                            s.1.push('\n');
                        }
                    }
                    if on {
                        if cmd == "fn" {
                            self.function(&path, ov);
                        } else {
                            self.traitdef(&path, specs);
                        }
                    }
                }
                _ => panic!("{name}: unknown directive {d}"),
            }
        }
    }
    fn section(ov: &mut Overlay, specs: &mut HashMap<String, String>, key: &str, text: String, name: &str) {
        let (cmd, rest) = key.split_once(' ').unwrap_or((key, ""));
        let num = || rest.trim().parse::<usize>().unwrap_or_else(|_| panic!("{name}: {key}"));
        // `tokens` or `tokens` #n
        let tick = || {
            let r = rest.trim().trim_start_matches('`');
            let (t, after) = r.rsplit_once('`').unwrap_or_else(|| panic!("{name}: {key}"));
            (t.to_string(), after.trim().trim_start_matches('#').parse::<usize>().unwrap_or(1))
        };
        let a = match cmd {
            "none" => {
                if !text.trim().is_empty() {
                    panic!("{name}: text outside a section: {text}");
                }
                return;
            }
            "spec" => {
                if rest.is_empty() {
                    ov.spec = text;
                } else {
                    specs.insert(rest.trim().to_string(), text);
                }
                return;
            }
            "attr" => {
                ov.attrs = text;
                return;
            }
            "subst" => {
                let (a, b) = rest.split_once("=>").unwrap_or_else(|| panic!("{name}: {key}"));
                let s = |x: &str| x.trim().trim_matches('`').to_string();
                ov.substs.push((s(a), s(b)));
                return;
            }
            "begin" => Anchor::Begin,
            "tail" => Anchor::Tail,
            "ret-bind" => Anchor::RetBind,
            "loop" => Anchor::LoopInv(num()),
            "loop-begin" => Anchor::LoopBegin(num()),
            "loop-head" => Anchor::LoopHead(num()),
            "loop-end" => Anchor::LoopEnd(num()),
            "before-loop" => Anchor::BeforeLoop(num()),
            "after-loop" => Anchor::AfterLoop(num()),
            "after-let" => {
                let mut w = rest.split_whitespace();
                let n = w.next().unwrap().to_string();
                Anchor::AfterLet(n, w.next().map_or(1, |x| x.trim_start_matches('#').parse().unwrap()))
            }
            "before" => {
                let (t, n) = tick();
                Anchor::Before(t, n)
            }
            "after" => {
                let (t, n) = tick();
                Anchor::After(t, n)
            }
            _ => panic!("{name}: unknown section {key}"),
        };
        ov.inserts.push((a, text));
    }
    fn item(&mut self, rest: &str) {
        let s = self.source();
        let mut w = rest.split_whitespace();
        let (kind, name) = (w.next().unwrap(), w.next().unwrap());
        let extra: Vec<&str> = w.collect();
        let start = self.line();
        match s.item(kind, name, &extra, &self.paths) {
            Ok(t) => {
                self.out.push_str(&t);
                self.out.push('\n');
                self.items.push(json!({"kind": kind, "name": name, "file": self.current, "start": start, "end": self.line() - 1}));
            }
            Err(e) => self.errors.push(json!({"what": rest, "file": self.current, "error": e})),
        }
    }
    fn traitdef(&mut self, name: &str, specs: HashMap<String, String>) {
        let s = self.source();
        match s.traitdef(name, &specs, &self.paths) {
            Ok(t) => {
                self.out.push_str(&t);
                self.out.push('\n');
            }
            Err(e) => self.errors.push(json!({"what": name, "file": self.current, "error": e})),
        }
    }
    fn function(&mut self, path: &str, mut ov: Overlay) {
        let s = self.source();
        let id = format!("{}::{}", self.current.trim_start_matches("src/").trim_end_matches(".rs"), path);
        let demoted = self.demote.iter().any(|d| *d == id);
        if demoted {
            ov.opts.insert("extern".into(), "1".into());
        }
        let start = self.line();
        let props = ov.opts.get("props").cloned().unwrap_or_default();
        let mut error = Value::Null;
        if self.vacuity {
            ov.opts.insert("vacuity".into(), "1".into());
        }
        let r = match s.function(path, &ov, &self.paths) {
            Ok(r) => r,
            Err(e) => {
                // An anchor or the function itself is gone: keep the contract only, the body is undecided.
                error = json!(e);
                ov.opts.insert("extern".into(), "1".into());
                ov.inserts.clear();
                ov.substs.clear();
                match s.function(path, &ov, &self.paths) {
                    Ok(r) => r,
                    Err(e) => {
                        self.fns.push(json!({"id": id, "file": self.current, "props": props, "error": e, "missing": true}));
                        return;
                    }
                }
            }
        };
        self.out.push_str(&r.text);
        self.out.push('\n');
        self.fns.push(json!({
            "id": id, "file": self.current, "line": r.line, "props": props, "start": start, "end": self.line() - 1,
            "extern": ov.opts.contains_key("extern"), "demoted": demoted, "error": error,
            "loops": r.loops, "calls": r.calls, "rewrites": r.rewrites, "trusted": ov.opts.contains_key("extern") && !demoted && error.is_null(),
        }));
    }
}
