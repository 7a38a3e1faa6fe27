//! The contract DSL (spec/contracts/*.vc).
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Clause {
    pub tags: Vec<String>,
    pub text: String,
    pub src: String, // file:line
}

#[derive(Clone, Debug, Default)]
pub struct Contract {
    pub key: String,
    pub params: Vec<String>,
    pub ret: String,
    pub mode: String, // "" | trusted | inline | required
    pub fx: Option<(u8, u8)>,
    pub req: Vec<Clause>,
    pub ens: Vec<Clause>,
    pub entry: Vec<Clause>,
    pub exit: Vec<Clause>,
    pub loops: BTreeMap<usize, Vec<Clause>>,
    pub attrs: Vec<Clause>,
    /// locals of the source the loop clauses mention (name, index among the `let mut` bindings of the body)
    pub locals: Vec<(String, usize)>,
    pub src: String,
}

#[derive(Default)]
pub struct Contracts {
    pub map: BTreeMap<String, Contract>,
    pub alias: BTreeMap<String, Vec<String>>,
    /// slices that name the functions they are about (the others start from every function tagged with them)
    pub roots: BTreeMap<String, Vec<String>>,
}

pub fn hit(tags: &[String], slice: &str) -> bool {
    tags.iter().any(|t| t == "*" || t == slice) && !tags.iter().any(|t| t.strip_prefix('!') == Some(slice))
}

impl Contract {
    /// does the contract say anything in this slice?
    pub fn active(&self, slice: &str) -> bool {
        self.req.iter().chain(&self.ens).any(|c| hit(&c.tags, slice)) || self.loops.values().flatten().any(|c| hit(&c.tags, slice))
    }
    pub fn has_ens(&self, slice: &str) -> bool {
        self.ens.iter().any(|c| hit(&c.tags, slice))
    }
}

impl Contracts {
    pub fn load(&mut self, text: &str, file: &str) -> Result<(), String> {
        let mut cur: Option<Contract> = None;
        enum Tgt { None, Req, Ens, Entry, Exit, Loop(usize), Attr }
        let mut tgt = Tgt::None;
        let mut pending: Option<Clause> = None;
        let alias = &mut self.alias;
        let named = &mut self.roots;
        fn expand(alias: &BTreeMap<String, Vec<String>>, tags: Vec<String>) -> Vec<String> {
            let mut out = vec![];
            for t in tags {
                if let Some(n) = t.strip_prefix('@') {
                    out.extend(alias.get(n).cloned().unwrap_or_else(|| panic!("unknown tag alias @{n}")));
                } else {
                    out.push(t);
                }
            }
            out
        }
        fn flush(cur: &mut Option<Contract>, tgt: &Tgt, p: &mut Option<Clause>) {
            if let (Some(c), Some(cl)) = (cur.as_mut(), p.take()) {
                match tgt {
                    Tgt::Req => c.req.push(cl),
                    Tgt::Ens => c.ens.push(cl),
                    Tgt::Entry => c.entry.push(cl),
                    Tgt::Exit => c.exit.push(cl),
                    Tgt::Loop(k) => c.loops.entry(*k).or_default().push(cl),
                    Tgt::Attr => c.attrs.push(cl),
                    Tgt::None => {}
                }
            }
        }
        for (i, line) in text.lines().enumerate() {
            let src = format!("{file}:{}", i + 1);
            let t = line.trim_start();
            if let Some(rest) = t.strip_prefix("#") {
                if rest.starts_with('[') || rest.starts_with("![") {
                    if let Some(p) = pending.as_mut() {
                        p.text.push_str(line);
                        p.text.push('\n');
                    }
                    continue;
                }
                if rest.starts_with('#') {
                    continue; // comment
                }
                flush(&mut cur, &tgt, &mut pending);
                let (word, rest) = rest.split_once(char::is_whitespace).unwrap_or((rest, ""));
                match word {
                    "fn" => {
                        if let Some(c) = cur.take() {
                            self.map.insert(c.key.clone(), c);
                        }
                        let (key, rest) = rest.split_once('(').ok_or(format!("{src}: #fn needs (params)"))?;
                        let (ps, ret) = rest.split_once(')').ok_or(format!("{src}: #fn needs )"))?;
                        let params = ps.split(',').map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect();
                        let ret = ret.trim();
                        cur = Some(Contract { key: key.trim().into(), params, ret: if ret.is_empty() { "r".into() } else { ret.into() }, src: src.clone(), ..Default::default() });
                        tgt = Tgt::None;
                    }
                    "alias" => {
                        let mut it = rest.split_whitespace().map(|x| x.to_string());
                        let n = it.next().ok_or(src.clone())?;
                        let v = expand(alias, it.collect());
                        alias.insert(n, v);
                        tgt = Tgt::None;
                    }
                    "roots" => {
                        let (n, ks) = rest.split_once(':').ok_or(format!("{src}: missing ':'"))?;
                        named.entry(n.trim().into()).or_default().extend(ks.split_whitespace().map(|x| x.to_string()));
                        tgt = Tgt::None;
                    }
                    "mode" => cur.as_mut().ok_or(src.clone())?.mode = rest.trim().into(),
                    "locals" => {
                        for x in rest.split_whitespace() {
                            let (n, k) = x.split_once('@').ok_or(format!("{src}: #locals name@index"))?;
                            cur.as_mut().ok_or(src.clone())?.locals.push((n.into(), k.parse().map_err(|_| src.clone())?));
                        }
                    }
                    "fx" => {
                        let v: Vec<u8> = rest.split_whitespace().map(|x| x.parse().unwrap_or(2)).collect();
                        cur.as_mut().ok_or(src.clone())?.fx = Some((v[0], v[1]));
                    }
                    "req" | "ens" | "entry" | "exit" | "attr" | "loop" => {
                        let (head, body) = rest.split_once(':').ok_or(format!("{src}: missing ':'"))?;
                        let mut tags: Vec<String> = head.split(|c: char| c == ',' || c.is_whitespace()).filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
                        tgt = match word {
                            "req" => Tgt::Req,
                            "ens" => Tgt::Ens,
                            "entry" => Tgt::Entry,
                            "exit" => Tgt::Exit,
                            "attr" => Tgt::Attr,
                            _ => {
                                let k = tags.remove(0).parse().map_err(|_| format!("{src}: loop index"))?;
                                Tgt::Loop(k)
                            }
                        };
                        let tags = expand(alias, tags);
                        pending = Some(Clause { tags, text: format!("{}\n", body), src });
                    }
                    w => return Err(format!("{src}: unknown directive #{w}")),
                }
            } else if let Some(p) = pending.as_mut() {
                p.text.push_str(line);
                p.text.push('\n');
            }
        }
        flush(&mut cur, &tgt, &mut pending);
        if let Some(c) = cur.take() {
            self.map.insert(c.key.clone(), c);
        }
        Ok(())
    }
}

/// `//#if A B` ... `//#else` ... `//#endif` filtering of a spec file
pub fn filter_sections(text: &str, slice: &str) -> String {
    let mut out = String::new();
    let mut stack: Vec<bool> = vec![];
    for l in text.lines() {
        let t = l.trim();
        if let Some(r) = t.strip_prefix("//#if") {
            let tags: Vec<String> = r.split_whitespace().map(|s| s.to_string()).collect();
            let neg = tags.first().map(|x| x == "not").unwrap_or(false);
            let h = if neg { !hit(&tags[1..], slice) } else { hit(&tags, slice) };
            stack.push(h);
            out.push('\n');
        } else if t.starts_with("//#else") {
            if let Some(x) = stack.last_mut() {
                *x = !*x;
            }
            out.push('\n');
        } else if t.starts_with("//#endif") {
            stack.pop();
            out.push('\n');
        } else if stack.iter().all(|x| *x) {
            out.push_str(l);
            out.push('\n');
        } else {
            out.push('\n');
        }
    }
    out
}
