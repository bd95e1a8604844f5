//! The operations a history can contain.

use crate::fp::{self, first, float, num, Mode};
use crate::json::{driver_error, misfit, obj, opt, s, J};
use crate::{lay, sch};
use kicad_parse_gen as k;
use kicad_parse_gen::checkfix::{CheckFix, Config};
use kicad_parse_gen::footprint::{Flip, Module, Rotate};
use kicad_parse_gen::layout::{Layout, NetName};
use kicad_parse_gen::schematic::{Component, FieldUpdate, Schematic};
use kicad_parse_gen::symbol_lib::SymbolLib;
use kicad_parse_gen::{Adjust, Bound, BoundingBox, KicadFile};
use std::path::{Path, PathBuf};

pub enum Doc {
    None,
    Fp(Module),
    FpEl(k::footprint::Element),
    Lay(Layout),
    LayEl(k::layout::Element),
    Tab(k::fp_lib_table::FpLibTable),
    Sch(Schematic),
    Lib(SymbolLib),
    Comp(Component),
    Net(NetName),
    Bnd(Bound),
    Project(String),
}

pub struct Session {
    doc: Doc,
    mode: Mode,
    scratch: String,
}

/// public entry points that want a 'static str
fn leak(x: &str) -> &'static str {
    Box::leak(x.to_string().into_boxed_str())
}

fn ok() -> J {
    s("ok")
}

fn err() -> J {
    obj(vec![("err", J::B(true))])
}

fn res<T, E, F: FnOnce(T) -> J>(r: Result<T, E>, f: F) -> J {
    match r {
        Ok(x) => obj(vec![("ok", f(x))]),
        Err(_) => err(),
    }
}

/// the findings among logged lines: "LEVEL:where: 7.3 subject:message"
fn logged(t: &str) -> J {
    let mut v = vec![];
    for l in t.lines() {
        let info = l.starts_with("INFO:");
        if !info && !l.starts_with("WARN:") {
            continue;
        }
        let m = match l.find(": ") {
            Some(i) => l[i + 2..].trim_start(),
            None => continue,
        };
        let rule = m.split(' ').next().unwrap_or("");
        if rule.split('.').count() == 2 && rule.split('.').all(|x| x.parse::<u32>().is_ok()) {
            v.push(obj(vec![("info", J::B(info)), ("text", s(m))]));
        }
    }
    J::A(v)
}

/// lossless pieces of a text: parentheses, runs of blanks, words (quoted words with their quotes)
fn pieces(t: &str) -> J {
    let c: Vec<char> = t.chars().collect();
    let mut v = vec![];
    let mut i = 0;
    while i < c.len() {
        let st = i;
        match c[i] {
            '(' | ')' => i += 1,
            x if blank(x) => {
                while i < c.len() && blank(c[i]) {
                    i += 1
                }
            }
            '"' => {
                i += 1;
                while i < c.len() && c[i] != '"' {
                    i += 1
                }
                i = (i + 1).min(c.len())
            }
            _ => {
                while i < c.len() && c[i] != '(' && c[i] != ')' && !blank(c[i]) {
                    i += 1
                }
            }
        }
        v.push(s(c[st..i].iter().collect::<String>()))
    }
    J::A(v)
}

fn blank(c: char) -> bool {
    c == ' ' || c == '\t' || c == '\n' || c == '\r'
}

fn lines(t: &str) -> J {
    J::A(t.split('\n').map(s).collect())
}

/// what the standard library makes of every number-like word of a text
fn numbers(t: &str) -> J {
    let mut v: Vec<(String, J)> = vec![];
    let mut seen = std::collections::HashSet::new();
    let mut add = |w: &str| {
        if w.is_empty() || !seen.insert(w.to_string()) {
            return;
        }
        let f = w.parse::<f64>().ok().map(|x| s(format!("{}", x)));
        let i = w.parse::<i64>().ok().map(|x| s(x.to_string()));
        let x = i64::from_str_radix(w, 16).ok().map(|x| s(format!("{:X}", x)));
        if f.is_some() || i.is_some() || x.is_some() {
            v.push((w.to_string(), obj(vec![("f", opt(f)), ("i", opt(i)), ("x", opt(x))])))
        }
    };
    for q in t.split('"') {
        add(q);
        for w in q.split(|c: char| c.is_whitespace() || c == '(' || c == ')') {
            add(w);
            if w.starts_with('F') {
                add(&w[1..])
            }
        }
    }
    // words of the line formats may have quotes inside
    for w in t.replace('"', "").split_whitespace() {
        add(w);
        if w.starts_with('F') {
            add(&w[1..])
        }
    }
    // never empty, so that it is always read as a record
    v.push((
        "0".to_string(),
        obj(vec![("f", opt(Some(s("0")))), ("i", opt(Some(s("0")))), ("x", opt(Some(s("0"))))]),
    ));
    J::O(v)
}

fn with_nums(j: J, t: &str) -> J {
    match j {
        J::O(mut v) => {
            v.push(("nums".to_string(), numbers(t)));
            J::O(v)
        }
        x => x,
    }
}

fn cfg(j: &J) -> Config {
    let mut c = Config::klc();
    if let Some(x) = j.maybe("font_size") {
        c.m.font_size = float(x)
    }
    if let Some(x) = j.maybe("font_thickness") {
        c.m.font_thickness = float(x)
    }
    c
}

fn kind_of(f: &KicadFile) -> &'static str {
    match *f {
        KicadFile::Unknown(_) => "unknown",
        KicadFile::Module(_) => "fp",
        KicadFile::Schematic(_) => "sch",
        KicadFile::Layout(_) => "lay",
        KicadFile::SymbolLib(_) => "lib",
        KicadFile::Project(_) => "project",
        KicadFile::FpLibTable(_) => "tab",
    }
}

impl Session {
    pub fn new(scratch: String) -> Session {
        Session {
            doc: Doc::None,
            mode: Mode::Txt,
            scratch,
        }
    }

    fn path(&self, j: &J) -> PathBuf {
        let p = j.str();
        if p.starts_with('/') || p.contains("..") {
            driver_error("paths must stay in the scratch directory")
        }
        Path::new(&self.scratch).join(p)
    }

    fn project(&self, d: &Doc) -> J {
        match *d {
            Doc::None => s("none"),
            Doc::Fp(ref m) => fp::p_module(m, self.mode),
            Doc::FpEl(ref m) => fp::p_elem(m, self.mode),
            Doc::Lay(ref l) => lay::p_layout(l, self.mode),
            Doc::LayEl(ref l) => lay::p_elem(l, self.mode),
            Doc::Tab(ref t) => lay::p_fplib(t),
            Doc::Sch(ref t) => sch::p_sch(t),
            Doc::Lib(ref t) => sch::p_lib(t),
            Doc::Comp(ref t) => sch::p_comp(t),
            Doc::Net(ref t) => s(t.0.clone()),
            Doc::Bnd(ref b) => fp::p_bound(b, self.mode),
            Doc::Project(ref t) => s(t.clone()),
        }
    }

    fn build(&self, kind: &str, j: &J) -> Doc {
        match kind {
            "fp" => Doc::Fp(fp::b_module(j)),
            "fpel" => Doc::FpEl(fp::b_elem(j)),
            "lay" => Doc::Lay(lay::b_layout(j)),
            "layel" => Doc::LayEl(lay::b_elem(j)),
            "tab" => Doc::Tab(lay::b_fplib(j)),
            "sch" => Doc::Sch(sch::b_sch(j)),
            "lib" => Doc::Lib(sch::b_lib(j)),
            "comp" => Doc::Comp(sch::b_comp(j)),
            "net" => Doc::Net(NetName(j.string())),
            "bnd" => Doc::Bnd(b_bound(j)),
            x => driver_error(&format!("bad kind {}", x)),
        }
    }

    fn parse(&self, kind: &str, t: &str) -> Option<Doc> {
        match kind {
            "fp" => k::footprint::parse(t).ok().map(Doc::Fp),
            "lay" => k::layout::parse(t).ok().map(Doc::Lay),
            "tab" => k::fp_lib_table::parse(t).ok().map(Doc::Tab),
            "sch" => k::schematic::parse_str(t).ok().map(Doc::Sch),
            "lib" => k::symbol_lib::parse_str(t).ok().map(Doc::Lib),
            x => driver_error(&format!("bad kind {}", x)),
        }
    }

    fn kind(&self) -> &'static str {
        match self.doc {
            Doc::Fp(_) => "fp",
            Doc::Lay(_) => "lay",
            Doc::Tab(_) => "tab",
            Doc::Sch(_) => "sch",
            Doc::Lib(_) => "lib",
            _ => misfit("no text form"),
        }
    }

    fn text(&self, indent: i64) -> Option<String> {
        match self.doc {
            Doc::Fp(ref m) => k::footprint::module_to_string(m, indent).ok(),
            Doc::Lay(ref l) => k::layout::layout_to_string(l, indent).ok(),
            Doc::Tab(ref t) => k::fp_lib_table::to_string(t, indent).ok(),
            Doc::Sch(ref t) => Some(format!("{}", t)),
            Doc::Lib(ref t) => Some(format!("{}", t)),
            Doc::Comp(ref t) => Some(format!("{}", t)),
            _ => misfit("no text form"),
        }
    }

    fn textj(&self, t: &str) -> J {
        match self.doc {
            Doc::Sch(_) | Doc::Lib(_) | Doc::Comp(_) | Doc::Project(_) => lines(t),
            _ => pieces(t),
        }
    }

    pub fn step(&mut self, j: &J) -> J {
        let m = self.mode;
        match j.get("op").str() {
            "mode" => {
                self.mode = if j.get("m").str() == "unit" { Mode::Unit } else { Mode::Txt };
                ok()
            }
            "new" => {
                self.doc = self.build(j.get("kind").str(), j.get("doc"));
                ok()
            }
            "get" => self.project(&self.doc),
            "ser" => match self.text(j.gi("indent")) {
                Some(t) => obj(vec![("ok", self.textj(&t))]),
                None => err(),
            },
            "reparse" => match self.text(j.gi("indent")) {
                Some(t) => match self.parse(self.kind(), &t) {
                    Some(d) => {
                        self.doc = d;
                        with_nums(obj(vec![("ok", self.project(&self.doc))]), &t)
                    }
                    None => with_nums(err(), &t),
                },
                None => err(),
            },
            "parse" => {
                let t = j.get("text").str();
                match self.parse(j.get("kind").str(), t) {
                    Some(d) => {
                        self.doc = d;
                        with_nums(obj(vec![("ok", self.project(&self.doc))]), t)
                    }
                    None => with_nums(err(), t),
                }
            }
            "reford" => {
                let (c, n) = k::reference_ord(j.get("v").str());
                obj(vec![("c", s(c.to_string())), ("n", s(n.to_string()))])
            }
            "sort" => {
                let mut v: Vec<String> = j.get("v").arr().iter().map(|x| x.string()).collect();
                v.sort_by_key(|x| k::reference_ord(x));
                J::A(v.into_iter().map(s).collect())
            }
            // an empty document, made by the library
            "begin" => {
                self.doc = match j.get("kind").str() {
                    "fp" => Doc::Fp(Module::new(j.gs("name"))),
                    "lay" => Doc::Lay(Layout::default()),
                    "lib" => Doc::Lib(SymbolLib::default()),
                    x => driver_error(&format!("bad kind {}", x)),
                };
                self.project(&self.doc)
            }
            // a letter of a field line
            "letter" => {
                let c = j.get("v").str().chars().next().unwrap_or_else(|| driver_error("no letter"));
                match j.get("what").str() {
                    "o" => res(k::schematic::Orientation::new(c), |x| s(x.to_string())),
                    "j" => res(k::schematic::Justify::new(c), |x| s(x.to_string())),
                    x => driver_error(&format!("bad letter {}", x)),
                }
            }
            "allowed" => {
                use k::checkfix::*;
                let v = j.get("v").str();
                obj(vec![
                    ("ok", J::B(is_allowed_1_7(v))),
                    ("items", J::A(allowed_1_7_items(v).iter().map(sch::p_finding).collect())),
                ])
            }
            "section" => {
                use k::checkfix::KLCSection::*;
                let of = |i: i64| match i {
                    1 => General,
                    2 => SymbolLibraryNames,
                    3 => SymbolNames,
                    4 => SymbolRules,
                    5 => FootprintLibraryNames,
                    6 => FootprintNames,
                    7 => FootprintRules,
                    8 => SMDRules,
                    9 => THTRules,
                    10 => FootprintProperties,
                    _ => misfit("no section"),
                };
                let n: i64 = of(j.gi("i")).into();
                obj(vec![("n", s(n.to_string())), ("title", s(of(j.gi("i")).to_string()))])
            }
            // findings put together and made flatter by one level
            "flat" => sch::p_finding(&sch::b_finding(j.get("f")).flatter()),
            "same" => {
                let (a, b) = (j.get("a"), j.get("b"));
                let all = |eq: bool, back: bool, ne: bool| vec![("eq", J::B(eq)), ("back", J::B(back)), ("ne", J::B(ne))];
                match j.get("kind").str() {
                    "fpel" => {
                        let (x, y) = (fp::b_elem(a), fp::b_elem(b));
                        obj(all(x == y, y == x, x != y))
                    }
                    "class" => {
                        let (x, y) = (lay::b_netclass(a), lay::b_netclass(b));
                        let mut v = all(x == y, y == x, x != y);
                        v.push(("no_nets", J::B(x.equal_no_net(&y))));
                        obj(v)
                    }
                    "net" => {
                        let net = |j: &J| k::layout::Net { num: j.gi("num"), name: j.gs("name").into() };
                        let (x, y) = (net(a), net(b));
                        obj(all(x == y, y == x, x != y))
                    }
                    x => driver_error(&format!("bad kind {}", x)),
                }
            }
            "newbound" => {
                self.doc = Doc::Bnd(Bound::default());
                ok()
            }
            "corners" => {
                let (x1, y1, x2, y2) = (float(j.get("x1")), float(j.get("y1")), float(j.get("x2")), float(j.get("y2")));
                let mut b = if j.gb("whole") {
                    Bound::new_from_i64(x1 as i64, y1 as i64, x2 as i64, y2 as i64)
                } else {
                    Bound::new(x1, y1, x2, y2)
                };
                b.swap_if_needed();
                let v = fp::p_bound(&b, m);
                self.doc = Doc::Bnd(b);
                v
            }
            "bdims" => match self.doc {
                Doc::Bnd(ref b) => obj(vec![("w", num(b.width(), m)), ("h", num(b.height(), m))]),
                _ => misfit("no bound"),
            },
            "bupdate" => match self.doc {
                Doc::Bnd(ref mut b) => {
                    b.update(&b_bound(j.get("b")));
                    fp::p_bound(b, m)
                }
                _ => misfit("no bound"),
            },
            "bbox" => {
                let b = match self.doc {
                    Doc::Fp(ref x) => x.bounding_box(),
                    Doc::FpEl(ref x) => x.bounding_box(),
                    Doc::Lay(ref x) => x.bounding_box(),
                    Doc::LayEl(ref x) => x.bounding_box(),
                    Doc::Sch(ref x) => x.bounding_box(),
                    Doc::Comp(ref x) => x.bounding_box(),
                    _ => misfit("no box"),
                };
                fp::p_bound(&b, m)
            }
            "adjust" => {
                let (x, y) = (float(j.get("x")), float(j.get("y")));
                match self.doc {
                    Doc::Fp(ref mut d) => d.adjust(x, y),
                    Doc::Lay(ref mut d) => d.adjust(x, y),
                    Doc::LayEl(ref mut d) => d.adjust(x, y),
                    _ => misfit("cannot adjust"),
                };
                self.project(&self.doc)
            }
            "flip" => {
                match self.doc {
                    Doc::Fp(ref mut d) => d.flip(),
                    Doc::FpEl(ref mut d) => d.flip(),
                    _ => misfit("cannot flip"),
                };
                self.project(&self.doc)
            }
            "rotate" => {
                let r = float(j.get("r"));
                match self.doc {
                    Doc::Fp(ref mut d) => d.rotate(r),
                    Doc::FpEl(ref mut d) => d.rotate(r),
                    _ => misfit("cannot rotate"),
                };
                self.project(&self.doc)
            }
            "check" => {
                let c = cfg(j);
                let f = match self.doc {
                    Doc::Fp(ref d) => d.check(&c),
                    Doc::Lib(ref d) => d.symbols[j.gi("i") as usize].check(&c),
                    _ => misfit("cannot check"),
                };
                J::A(f.iter().map(sch::p_finding).collect())
            }
            "fix" => {
                let c = cfg(j);
                match self.doc {
                    Doc::Fp(ref mut d) => d.fix(&c),
                    Doc::Lib(ref mut d) => d.symbols[j.gi("i") as usize].fix(&c),
                    _ => misfit("cannot fix"),
                };
                self.project(&self.doc)
            }
            o => {
                if let Doc::Fp(ref mut d) = self.doc {
                    if let Some(x) = fp_op(d, o, j, m) {
                        return x;
                    }
                }
                if let Doc::Lay(ref mut d) = self.doc {
                    if let Some(x) = lay_op(d, o, j, m) {
                        return x;
                    }
                }
                if let Doc::Comp(ref mut d) = self.doc {
                    if let Some(x) = comp_op(d, o, j) {
                        return x;
                    }
                }
                if let Doc::Sch(ref mut d) = self.doc {
                    if let Some(x) = sch_op(d, o, j, &self.scratch) {
                        return x;
                    }
                }
                if let Doc::Lib(ref mut d) = self.doc {
                    if let Some(x) = lib_op(d, o, j) {
                        return x;
                    }
                }
                if let Doc::Net(ref mut d) = self.doc {
                    if let Some(x) = net_op(d, o, j) {
                        return x;
                    }
                }
                if let Doc::Tab(ref mut d) = self.doc {
                    if let Some(x) = tab_op(d, o, j) {
                        return x;
                    }
                }
                self.file_op(o, j)
            }
        }
    }

    fn file_op(&mut self, o: &str, j: &J) -> J {
        match o {
            // fixtures, made with the standard library
            "put" => {
                let p = self.path(j.get("path"));
                if let Some(d) = p.parent() {
                    std::fs::create_dir_all(d).unwrap_or_else(|e| driver_error(&e.to_string()))
                }
                std::fs::write(&p, j.get("text").str()).unwrap_or_else(|e| driver_error(&e.to_string()));
                with_nums(obj(vec![("ok", ok())]), j.get("text").str())
            }
            // a place without room, if the system has one
            "full" => {
                use std::os::unix::fs::FileTypeExt;
                let dev = Path::new("/dev/full");
                match std::fs::symlink_metadata(dev) {
                    Ok(ref m) if m.file_type().is_char_device() => {
                        std::os::unix::fs::symlink(dev, self.path(j.get("path"))).unwrap_or_else(|e| driver_error(&e.to_string()));
                        ok()
                    }
                    _ => err(),
                }
            }
            // one of the repository's programs, run on a file or on the current document
            "program" => {
                let given = j.maybe("path").is_some();
                let p = if given { self.path(j.get("path")) } else { Path::new(&self.scratch).join("document") };
                if !given {
                    let r = match self.doc {
                        Doc::Fp(ref d) => k::write_module(d, &p),
                        Doc::Lay(ref d) => k::write_layout(d, &p),
                        Doc::Lib(ref d) => k::write_file(&p, &d.to_string()),
                        _ => misfit("cannot write"),
                    };
                    r.unwrap_or_else(|e| driver_error(&e.to_string()));
                }
                let dir = std::env::var("KICAD_PROGRAMS").unwrap_or_else(|_| driver_error("no programs"));
                let o = std::process::Command::new(Path::new(&dir).join(j.get("prog").str()))
                    .arg(&p)
                    .current_dir(&self.scratch)
                    .output()
                    .unwrap_or_else(|e| driver_error(&e.to_string()));
                if !o.status.success() {
                    return err();
                }
                let text = |b: &[u8]| String::from_utf8_lossy(b).into_owned();
                match j.get("want").str() {
                    "text" => obj(vec![("ok", s(text(&o.stdout).replace(&format!("{}/", self.scratch), "")))]),
                    // the answer, after whatever the readers had to say about lines they skip
                    "found" => {
                        let t = text(&o.stdout).replace(&format!("{}/", self.scratch), "");
                        obj(vec![("ok", s(&t[t.rfind("found: ").unwrap_or(0)..]))])
                    }
                    "board" => match k::layout::parse(text(&o.stdout).trim_end()) {
                        Ok(d) => obj(vec![("ok", self.project(&Doc::Lay(d)))]),
                        Err(_) => s("no board"),
                    },
                    "findings" => obj(vec![("ok", logged(&text(&o.stderr)))]),
                    x => driver_error(&format!("bad want {}", x)),
                }
            }
            "putbytes" => {
                let p = self.path(j.get("path"));
                let b: Vec<u8> = j.get("bytes").arr().iter().map(|x| x.int() as u8).collect();
                std::fs::write(&p, &b).unwrap_or_else(|e| driver_error(&e.to_string()));
                ok()
            }
            "mkdir" => {
                std::fs::create_dir_all(self.path(j.get("path"))).unwrap_or_else(|e| driver_error(&e.to_string()));
                ok()
            }
            "wipe" => {
                let p = self.path(j.get("path"));
                let _ = std::fs::remove_dir_all(&p);
                let _ = std::fs::remove_file(&p);
                ok()
            }
            // what is really on the disk
            "raw" => match std::fs::read_to_string(self.path(j.get("path"))) {
                Ok(t) => obj(vec![("ok", s(t))]),
                Err(_) => err(),
            },
            "exists" => J::B(self.path(j.get("path")).exists()),
            "write" => {
                let p = self.path(j.get("path"));
                match self.doc {
                    Doc::Fp(ref d) => res(k::write_module(d, &p), |_| ok()),
                    Doc::Lay(ref d) => res(k::write_layout(d, &p), |_| ok()),
                    _ => misfit("cannot write"),
                }
            }
            "write_text" => {
                let t = j.get("text").str();
                with_nums(res(k::write_file(self.path(j.get("path")), t), |_| ok()), t)
            }
            "read_text" => res(k::read_file(self.path(j.get("path"))), s),
            "read" => {
                let p = self.path(j.get("path"));
                let e = match j.get("as").str() {
                    "fp" => k::Expected::Module,
                    "sch" => k::Expected::Schematic,
                    "lay" => k::Expected::Layout,
                    "lib" => k::Expected::SymbolLib,
                    "project" => k::Expected::Project,
                    "tab" => k::Expected::FpLibTable,
                    "any" => k::Expected::Any,
                    x => driver_error(&format!("bad kind {}", x)),
                };
                match k::read_kicad_file(&p, e) {
                    Ok(f) => {
                        let kd = kind_of(&f);
                        let shown = format!("{}", f);
                        let mut name_ok = true;
                        let d = match f {
                            KicadFile::Unknown(x) => {
                                name_ok = x == p;
                                Doc::None
                            }
                            KicadFile::Module(x) => Doc::Fp(x),
                            KicadFile::Schematic(x) => {
                                name_ok = x.filename.as_ref() == Some(&p);
                                Doc::Sch(x)
                            }
                            KicadFile::Layout(x) => Doc::Lay(x),
                            KicadFile::SymbolLib(x) => Doc::Lib(x),
                            KicadFile::Project(x) => Doc::Project(x.data),
                            KicadFile::FpLibTable(x) => Doc::Tab(x),
                        };
                        let shown = if kd == "unknown" { s("unknown") } else { s(shown) };
                        obj(vec![
                            ("ok", s(kd)),
                            ("doc", self.project(&d)),
                            ("shown", shown),
                            ("name_ok", J::B(name_ok)),
                        ])
                    }
                    Err(_) => err(),
                }
            }
            "read_as" => {
                let p = self.path(j.get("path"));
                let d = match j.get("as").str() {
                    "fp" => k::read_module(&p).map(Doc::Fp),
                    "sch" => k::read_schematic(&p).map(Doc::Sch),
                    "lay" => k::read_layout(&p).map(Doc::Lay),
                    "lib" => k::read_symbol_lib(&p).map(Doc::Lib),
                    "project" => k::read_project(&p).map(|x| Doc::Project(x.data)),
                    "tab" => k::read_fp_lib_table(&p).map(Doc::Tab),
                    x => driver_error(&format!("bad kind {}", x)),
                };
                match d {
                    Ok(d) => {
                        let o = obj(vec![("ok", self.project(&d))]);
                        if j.maybe("load").is_some() {
                            self.doc = d
                        }
                        o
                    }
                    Err(_) => err(),
                }
            }
            // load a schematic or symbol library through its own file reader
            "load" => {
                let p = self.path(j.get("path"));
                let d = match j.get("kind").str() {
                    "sch" => k::schematic::parse_file(&p).map(Doc::Sch),
                    "lib" => k::symbol_lib::parse_file(&p).map(Doc::Lib),
                    x => driver_error(&format!("bad kind {}", x)),
                };
                match d {
                    Ok(d) => {
                        self.doc = d;
                        obj(vec![("ok", self.project(&self.doc))])
                    }
                    Err(_) => err(),
                }
            }
            "setenv" => {
                std::env::set_var(j.get("k").str(), j.get("v").str());
                ok()
            }
            "unsetenv" => {
                std::env::remove_var(j.get("k").str());
                ok()
            }
            x => driver_error(&format!("unknown operation {}", x)),
        }
    }
}

fn b_bound(j: &J) -> Bound {
    Bound {
        is_bounded: j.gb("b"),
        x1: float(j.get("x1")),
        y1: float(j.get("y1")),
        x2: float(j.get("x2")),
        y2: float(j.get("y2")),
    }
}

fn hex(x: i64) -> J {
    s(format!("{:X}", x))
}

/// the steps of building a footprint with the library's constructors; the later ones work on the item made last
fn build_op(d: &mut Module, o: &str, j: &J) -> Option<bool> {
    use k::footprint::*;
    let layer = |j: &J| Layer::from_string(j.get("word").str()).ok();
    let made = match o {
        "make_text" => Element::FpText(FpText::new(j.gs("name"), j.gs("value"))),
        "make_pad" => {
            let (t, shape) = (PadType::from_string(j.get("t").str()), PadShape::from_string(j.get("shape").str()));
            match (t, shape) {
                (Ok(t), Ok(shape)) => Element::Pad(Pad::new(j.gs("name"), t, shape)),
                _ => return Some(false),
            }
        }
        "make_drawing" => match j.get("k").str() {
            "fp_line" => Element::FpLine(FpLine::default()),
            "fp_circle" => Element::FpCircle(FpCircle::default()),
            "fp_arc" => Element::FpArc(FpArc::default()),
            "fp_poly" => Element::FpPoly(FpPoly::default()),
            x => driver_error(&format!("bad drawing {}", x)),
        },
        _ => {
            let at = || {
                let a = j.get("at");
                At::new(float(a.get("x")), float(a.get("y")), float(a.get("rot")))
            };
            match (o, d.elements.last_mut()) {
                ("set_at", Some(&mut Element::FpText(ref mut t))) => t.at = at(),
                ("set_at", Some(&mut Element::Pad(ref mut p))) => p.at = at(),
                ("set_size", Some(&mut Element::Pad(ref mut p))) => p.size = Xy::new(float(j.get("x")), float(j.get("y")), XyType::Size),
                ("set_effects", Some(&mut Element::FpText(ref mut t))) => t.set_effects(&fp::b_effects(j.get("effects"))),
                ("set_layer", Some(&mut Element::FpText(ref mut t))) => match layer(j) {
                    Some(l) => t.set_layer(&l),
                    None => return Some(false),
                },
                ("set_layer", Some(&mut ref mut e)) => match layer(j) {
                    Some(l) => match *e {
                        Element::FpLine(ref mut x) => x.layer = l,
                        Element::FpCircle(ref mut x) => x.layer = l,
                        Element::FpArc(ref mut x) => x.layer = l,
                        Element::FpPoly(ref mut x) => x.layer = l,
                        _ => misfit("no layer"),
                    },
                    None => return Some(false),
                },
                ("add_layer", Some(&mut Element::Pad(ref mut p))) => match layer(j) {
                    Some(l) => p.layers.append(l),
                    None => return Some(false),
                },
                ("set_net", Some(&mut Element::Pad(ref mut p))) => p.set_net(Net { num: j.gi("num"), name: j.gs("name").into() }),
                ("set_drill", Some(&mut Element::Pad(ref mut p))) => p.set_drill(fp::b_drill(j.get("drill"))),
                _ => return None,
            }
            return Some(true);
        }
    };
    d.append(made);
    Some(true)
}

fn fp_op(d: &mut Module, o: &str, j: &J, m: Mode) -> Option<J> {
    if let Some(done) = build_op(d, o, j) {
        return Some(if done { obj(vec![("ok", fp::p_module(d, m))]) } else { err() });
    }
    match o {
        "set_reference" => d.set_reference(j.get("old").str(), j.get("new").str()),
        "adjust_at" => d.adjust_at(float(j.get("x")), float(j.get("y"))),
        "rename_net" => d.rename_net(j.get("old").str(), j.get("new").str()),
        "append" => d.append(fp::b_elem(j.get("el"))),
        "adjust" => d.adjust(float(j.get("x")), float(j.get("y"))),
        "flip" => d.flip(),
        "rotate" => d.rotate(float(j.get("r"))),
        "set_text" => {
            // mutable text access
            let t = match j.get("which").str() {
                "reference" => d.get_reference_text_mut(),
                "value" => d.get_value_text_mut(),
                "user" => d.get_reference2_text_mut(),
                x => d.get_text_mut(leak(x)),
            };
            let r = t.is_some();
            if let Some(t) = t {
                t.value = j.gs("v")
            }
            return Some(obj(vec![("hit", J::B(r)), ("doc", fp::p_module(d, m))]));
        }
        "look" => {
            let r = j.get("ref").str();
            let (x, y) = d.at();
            let t = |x: Option<&k::footprint::FpText>| opt(x.map(|t| fp::p_text(t, m)));
            return Some(obj(vec![
                ("is_ref", J::B(d.is_reference_with_name(r))),
                ("reference", opt(d.get_reference().map(|x| s(x.clone())))),
                ("text", t(d.get_text(leak(j.get("which").str())))),
                ("ref_text", t(d.get_reference_text())),
                ("ref2_text", t(d.get_reference2_text())),
                ("value_text", t(d.get_value_text())),
                ("smd", J::B(d.has_smd_attr())),
                ("tstamp", opt(d.get_tstamp().map(hex))),
                ("tedit", opt(d.get_tedit().map(hex))),
                ("x", num(x, m)),
                ("y", num(y, m)),
                ("rot", num(d.get_rotation(), m)),
                ("front", J::B(d.is_front())),
                ("pads", J::A(d.pads().into_iter().map(|x| fp::p_pad(x, m)).collect())),
                ("lines", J::A(d.lines().into_iter().map(|x| fp::p_line(x, m)).collect())),
            ]));
        }
        _ => return None,
    };
    Some(fp::p_module(d, m))
}

fn net_rule(n: &mut NetName, r: &J) -> Result<(), k::KicadError> {
    match r.get("rule").str() {
        "rename" => n.rename(r.get("from").str(), r.get("to").str()),
        "block" => n.replace_block(r.get("from").str(), r.get("to").str()),
        "prefix" => n.0 = format!("{}{}", r.get("p").str(), n.0),
        "failon" => {
            if n.0 == r.get("name").str() {
                return Err("refused".to_string().into());
            }
            n.0 = format!("{}{}", r.get("p").str(), n.0)
        }
        "unnamed" => {
            if n.is_unnamed_net().is_some() {
                n.set_unnamed_net(r.get("to").str())?
            }
        }
        x => driver_error(&format!("bad rule {}", x)),
    }
    Ok(())
}

fn lay_op(d: &mut Layout, o: &str, j: &J, m: Mode) -> Option<J> {
    match o {
        "change_net_name" => d.change_net_name(j.get("old").str(), j.get("new").str()),
        "update_net_names" => {
            let r = d.update_net_names(|n| net_rule(n, j));
            return Some(match r {
                Ok(()) => obj(vec![("ok", lay::p_layout(d, m))]),
                Err(_) => err(),
            });
        }
        "add_net" => d.add_net(j.gi("num"), leak(j.get("name").str())),
        "add_netclass" => {
            let n = lay::b_netclass(j.get("nc"));
            d.add_netclass(
                leak(&n.name),
                leak(&n.desc),
                n.clearance,
                n.trace_width,
                n.via_dia,
                n.via_drill,
                n.uvia_dia,
                n.uvia_drill,
                n.diff_pair_gap,
                n.diff_pair_width,
                n.nets.iter().map(|x| x.0.clone()).collect(),
            )
        }
        "modify_module" => {
            let e = j.get("edit");
            let r = d.modify_module(j.get("ref").str(), |md| {
                if fp_op(md, e.get("op").str(), e, m).is_none() {
                    driver_error("unknown edit")
                }
            });
            let p = lay::p_layout(d, m);
            return Some(obj(vec![("hit", J::B(r.is_ok())), ("doc", p)]));
        }
        "update_setup" => d.setup.update_element(leak(j.get("name").str()), j.gs("v")),
        "look" => {
            let r = j.get("ref").str();
            let net = leak(j.get("net").str());
            return Some(obj(vec![
                (
                    "nets",
                    J::A(d
                        .nets()
                        .into_iter()
                        .map(|n| lay::p_elem(&k::layout::Element::Net(n.clone()), m))
                        .collect()),
                ),
                ("classes", J::A(d.netclasses().into_iter().map(|n| lay::p_netclass(n, m)).collect())),
                ("modules", J::A(d.get_modules().into_iter().map(|n| fp::p_module(n, m)).collect())),
                ("module", opt(d.get_module(r).map(|n| fp::p_module(n, m)))),
                ("setup", opt(d.setup.get(j.get("setup").str()).map(|x| s(x.clone())))),
                ("has_net", J::A(d.netclasses().into_iter().map(|n| J::B(n.has_net(net))).collect())),
                (
                    "equal",
                    J::A(d
                        .netclasses()
                        .into_iter()
                        .map(|n| {
                            J::A(d.netclasses().into_iter().map(|o| J::B(n.equal_no_net(o))).collect())
                        })
                        .collect()),
                ),
            ]));
        }
        _ => return None,
    };
    Some(lay::p_layout(d, m))
}

fn net_op(d: &mut NetName, o: &str, j: &J) -> Option<J> {
    match o {
        "net" => {
            let r = net_rule(d, j);
            if r.is_err() {
                return Some(err());
            }
            Some(obj(vec![("ok", s(d.0.clone()))]))
        }
        "unnamed" => Some(opt(d.is_unnamed_net().map(|(a, b)| J::A(vec![s(a), s(b)])))),
        "set_unnamed" => Some(match d.set_unnamed_net(j.get("to").str()) {
            Ok(()) => obj(vec![("ok", s(d.0.clone()))]),
            Err(_) => err(),
        }),
        "show" => Some(s(format!("{}", d))),
        _ => None,
    }
}

fn tab_op(d: &mut k::fp_lib_table::FpLibTable, o: &str, j: &J) -> Option<J> {
    match o {
        "expand" => {
            let i = j.gi("i") as usize;
            Some(res(d.libs[i].get_expanded_uri(), s))
        }
        _ => None,
    }
}

fn upd(u: FieldUpdate) -> (J, bool) {
    let j = match u {
        FieldUpdate::New => J::A(vec![s("new")]),
        FieldUpdate::Update(ref x) => J::A(vec![s("update"), s(x.clone())]),
        FieldUpdate::Same => J::A(vec![s("same")]),
    };
    let b: bool = u.into();
    (j, b)
}

fn comp_op(d: &mut Component, o: &str, j: &J) -> Option<J> {
    match o {
        "update_reference" => d.update_reference(j.gs("v")),
        "update_name" => d.update_name(j.gs("v")),
        "update_field" => d.update_field(j.get("name").str(), j.get("v").str()),
        "add_or_update_field" => {
            let t = sch::b_field(j.get("template"));
            let (u, b) = upd(d.add_or_update_field(&t, j.get("name").str(), j.get("v").str()));
            return Some(obj(vec![("res", u), ("changed", J::B(b)), ("doc", sch::p_comp(d))]));
        }
        "add_new_field" => {
            let t = sch::b_field(j.get("template"));
            d.add_new_field(&t, j.get("name").str(), j.get("v").str())
        }
        "new_field" => {
            let n = |x: &str| float(j.get(x));
            d.fields.push(k::schematic::ComponentField::new_from(j.gi("i"), j.gs("name"), j.gs("v"), n("x"), n("y")))
        }
        "look" => {
            let n = j.get("name").str();
            let mut h: Vec<(String, String)> = d.fields_hash().into_iter().collect();
            h.sort();
            return Some(obj(vec![
                ("value", opt(d.get_field_value(n).map(s))),
                ("field", opt(d.get_field(n).map(|x| sch::p_field(&x)))),
                ("free", s(d.get_available_field_num().to_string())),
                (
                    "hash",
                    J::A(h.into_iter().map(|(a, b)| J::A(vec![s(a), s(b)])).collect()),
                ),
            ]));
        }
        _ => return None,
    };
    Some(sch::p_comp(d))
}

fn comps(v: &[Component]) -> J {
    J::A(v.iter().map(sch::p_comp).collect())
}

fn sch_op(d: &mut Schematic, o: &str, j: &J, scratch: &str) -> Option<J> {
    match o {
        "modify_component" => {
            let e = j.get("edit");
            d.modify_component(j.get("ref").str(), |c| {
                if comp_op(c, e.get("op").str(), e).is_none() {
                    driver_error("unknown edit")
                }
            })
        }
        "modify_components" => {
            let e = j.get("edit");
            d.modify_components(|c| {
                if comp_op(c, e.get("op").str(), e).is_none() {
                    driver_error("unknown edit")
                }
            })
        }
        "increment_sheet_count" => d.increment_sheet_count(),
        "set_filename" => {
            d.filename = first(j.get("path")).map(|p| Path::new(scratch).join(p.str()));
            return Some(ok());
        }
        "components" => {
            // what the list already holds stays in front
            let mut v = vec![k::schematic::Component::default()];
            d.collect_components(&mut v);
            if v.is_empty() {
                v.push(k::schematic::Component::default());
            } else {
                v.remove(0);
            }
            return Some(obj(vec![("c", comps(&d.components())), ("k", comps(&v))]));
        }
        "all_components" => return Some(res(d.all_components(), |v| comps(&v))),
        "by_reference" => return Some(res(d.component_by_reference(j.get("ref").str()), |c| sch::p_comp(&c))),
        "sheet_file" => {
            let sh = &d.sheets[j.gi("i") as usize];
            let root = Path::new(scratch);
            return Some(res(k::schematic::filename_for_sheet(d, sh), |p| {
                s(p.strip_prefix(root).map(|x| x.to_string_lossy().to_string()).unwrap_or("outside".to_string()))
            }));
        }
        "sheet_doc" => {
            let sh = &d.sheets[j.gi("i") as usize];
            return Some(res(k::schematic::parse_file_for_sheet(d, sh), |x| sch::p_sch(&x)));
        }
        _ => return None,
    };
    Some(sch::p_sch(d))
}

fn lib_op(d: &mut SymbolLib, o: &str, j: &J) -> Option<J> {
    match o {
        "new_symbol" => {
            d.symbols.push(k::symbol_lib::Symbol::new(j.gs("name"), j.gs("ref")));
            Some(sch::p_lib(d))
        }
        "fresh_part" => {
            use k::symbol_lib::*;
            let y = d.symbols.last_mut().unwrap_or_else(|| misfit("no symbol"));
            match j.get("k").str() {
                "field" => y.fields.push(Field::default()),
                "pin" => y.draw.push(Draw::Pin(Pin::default())),
                "rect" => y.draw.push(Draw::Rectangle(Rectangle::default())),
                x => driver_error(&format!("bad part {}", x)),
            };
            Some(sch::p_lib(d))
        }
        "set_name" => {
            d.symbols[j.gi("i") as usize].set_name(j.get("v").str());
            Some(sch::p_lib(d))
        }
        "find" => {
            let n = j.get("name").str();
            Some(opt(d.find(|x| x.name == n).map(sch::p_sym)))
        }
        "symlook" => {
            let x = &d.symbols[j.gi("i") as usize];
            Some(obj(vec![
                ("pins", J::A(x.pins().into_iter().map(sch::p_pin).collect())),
                ("power", J::B(x.is_power())),
                ("graphics", J::B(x.is_graphics())),
                ("basic", J::B(x.is_basic())),
            ]))
        }
        _ => None,
    }
}
