//! Contract files (*.vspec).
//!
//! === fn PATH            start of a function block
//! params: a b c          names used for the parameters (positional) in the texts below
//! ret: r                 name of the result
//! lifetime: 'a           name the elided lifetime of the signature 'a
//! panics: NAME           explicit panics are refusals: allowed where the ghost bool NAME holds
//! closures: HEAD         contract of any closure of that arity without an entry of its own
//! inst: P = TYPE; ...     (dependencies) the type parameter P is instantiated
//! === same               (dependencies) type items the prelude repeats
//! trusted                emit with external_body (assumed, listed)
//! before N: text placed before a rewritten `for` loop
//! spec: / entry: / loop N: / loopbody N: / loopend N: / closure N: HEAD / closurebody N:
//! === trait PATH         text to put in place of the trait's items
//! === types              list of types/consts to keep
//! === never              functions never pulled in as helpers
//! === mods               modules to keep even if empty
use std::collections::BTreeMap;

#[derive(Default, Clone)]
pub struct Contract {
    pub params: Vec<String>,
    pub ret: Option<String>,
    pub trusted: bool,
    pub attrs: String,
    pub rettype: Option<String>,
    pub lifetime: bool,
    pub panics: Option<String>,
    pub closures_any: Vec<(String, String)>,
    pub spec: String,
    pub entry: String,
    pub exit: String,
    pub inst: BTreeMap<String, String>,
    pub loops: BTreeMap<usize, String>,
    pub loopbody: BTreeMap<usize, String>,
    pub loopend: BTreeMap<usize, String>,
    pub before: BTreeMap<usize, String>,
    pub closures: BTreeMap<usize, (String, String)>,
    pub closurebody: BTreeMap<usize, String>,
}
#[derive(Default)]
pub struct Contracts {
    pub map: BTreeMap<String, Contract>,
    pub traits: BTreeMap<String, String>,
    pub types: Vec<String>,
    pub never: Vec<String>,
    pub same: Vec<String>,
    pub keep_mods: Vec<String>,
}

impl Contracts {
    pub fn load(dir: &str) -> Contracts {
        let mut cs = Contracts::default();
        let mut files: Vec<_> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().path())
            .filter(|p| p.extension().map_or(false, |e| e == "vspec")).collect();
        files.sort();
        for f in files {
            cs.parse(&std::fs::read_to_string(&f).unwrap(), &f.display().to_string());
        }
        cs
    }
    fn parse(&mut self, s: &str, file: &str) {
        let mut kind = String::new();
        let mut names: Vec<String> = vec![];
        let mut cur = Contract::default();
        let mut sect = String::new();
        let mut trait_txt = String::new();
        macro_rules! flush { () => {
            if kind == "fn" {
                for n in &names {
                    // one block may be shared by several functions; {fn} is the name
                    let c = subst_fn(&cur, n);
                    if self.map.insert(n.split_whitespace().filter(|t| !t.contains('=')).collect::<Vec<_>>().join(" "), c).is_some() { panic!("duplicate contract {}", n); }
                }
            } else if kind == "trait" {
                self.traits.insert(names[0].clone(), trait_txt.clone());
            }
            #[allow(unused_assignments)]
            { cur = Contract::default(); trait_txt = String::new(); }
        } }
        for (ln, l) in s.lines().enumerate() {
            if let Some(rest) = l.strip_prefix("=== ") {
                flush!();
                let mut it = rest.splitn(2, ' ');
                kind = it.next().unwrap().to_string();
                names = it.next().unwrap_or("").split(';').map(|x| x.trim().to_string()).filter(|x| !x.is_empty()).collect();
                sect.clear();
                continue;
            }
            if l.starts_with("##") { continue; }
            match kind.as_str() {
                "types" => self.types.extend(l.split_whitespace().map(|x| x.to_string())),
                "never" => self.never.extend(l.split_whitespace().map(|x| x.to_string())),
                "same" => self.same.extend(l.split_whitespace().map(|x| x.to_string())),
                "mods" => self.keep_mods.extend(l.split_whitespace().map(|x| x.to_string())),
                "trait" => { trait_txt.push_str(l); trait_txt.push('\n'); }
                "fn" => {
                    let unindented = !l.starts_with(' ') && !l.is_empty();
                    if unindented {
                        let (k, v) = match l.find(':') { Some(p) => (&l[..p], l[p + 1..].trim()), None => (l.trim(), "") };
                        let mut w = k.split_whitespace();
                        match (w.next().unwrap(), w.next()) {
                            ("params", _) => cur.params = v.split_whitespace().map(|x| x.to_string()).collect(),
                            ("ret", _) => cur.ret = Some(v.to_string()),
                            ("rettype", _) => cur.rettype = Some(v.to_string()),
                            ("inst", _) => for kv in v.split(';') { let (a, b) = kv.split_once('=').expect("inst"); cur.inst.insert(a.trim().to_string(), b.trim().to_string()); },
                            ("attrs", _) => cur.attrs = v.to_string(),
                            ("lifetime", _) => cur.lifetime = true,
                            ("panics", _) => cur.panics = Some(v.to_string()),
                            ("closures", _) => { cur.closures_any.push((v.to_string(), String::new())); sect = "closures".to_string(); }
                            ("trusted", _) => cur.trusted = true,
                            ("closure", Some(n)) => { cur.closures.insert(n.parse().unwrap(), (v.to_string(), String::new())); sect = k.to_string(); }
                            ("spec", _) | ("entry", _) | ("exit", _) | ("loop", _) | ("loopbody", _) | ("loopend", _) | ("before", _) | ("closurebody", _) => {
                                sect = k.to_string();
                                if !v.is_empty() { add(&mut cur, &sect, v); }
                            }
                            _ => panic!("{}:{}: bad line {}", file, ln + 1, l),
                        }
                    } else {
                        add(&mut cur, &sect, l);
                    }
                }
                "" => {}
                o => panic!("{}:{}: unknown kind {}", file, ln + 1, o),
            }
        }
        flush!();
    }
}
fn subst_fn(c: &Contract, name: &str) -> Contract {
    // "PATH k=v k=v": replace {k} by v
    let mut c = c.clone();
    for kv in name.split_whitespace().filter(|t| t.contains('=')) {
        let (k, v) = kv.split_once('=').expect("k=v");
        let k = format!("{{{}}}", k);
        let r = |s: &mut String| *s = s.replace(&k, v);
        r(&mut c.spec); r(&mut c.entry); r(&mut c.exit); r(&mut c.attrs);
        for m in [&mut c.loops, &mut c.loopbody, &mut c.loopend, &mut c.before, &mut c.closurebody] { for x in m.values_mut() { r(x); } }
        for x in c.closures.values_mut() { r(&mut x.0); r(&mut x.1); }
        for x in c.closures_any.iter_mut() { r(&mut x.0); r(&mut x.1); }
    }
    c
}
fn add(c: &mut Contract, sect: &str, l: &str) {
    let mut w = sect.split_whitespace();
    let k = w.next().unwrap_or("");
    let n: usize = w.next().map(|x| x.parse().unwrap()).unwrap_or(0);
    let t: &mut String = match k {
        "spec" => &mut c.spec,
        "entry" => &mut c.entry,
        "exit" => &mut c.exit,
        "loop" => c.loops.entry(n).or_default(),
        "loopbody" => c.loopbody.entry(n).or_default(),
        "loopend" => c.loopend.entry(n).or_default(),
        "before" => c.before.entry(n).or_default(),
        "closure" => &mut c.closures.get_mut(&n).unwrap().1,
        "closures" => &mut c.closures_any.last_mut().unwrap().1,
        "closurebody" => c.closurebody.entry(n).or_default(),
        "" => return,
        o => panic!("bad section {}", o),
    };
    t.push_str(l);
    t.push('\n');
}
