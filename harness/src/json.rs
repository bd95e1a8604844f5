//! Minimal JSON reader and writer (strings, integers, booleans, arrays, objects).

#[derive(Debug, Clone, PartialEq)]
pub enum J {
    Null,
    B(bool),
    N(i64),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
}

pub fn s<T: Into<String>>(x: T) -> J {
    J::S(x.into())
}

pub fn obj(v: Vec<(&str, J)>) -> J {
    J::O(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}

pub fn opt(v: Option<J>) -> J {
    J::A(v.into_iter().collect())
}

impl J {
    pub fn get(&self, k: &str) -> &J {
        self.maybe(k).unwrap_or_else(|| driver_error(&format!("missing key {} in {}", k, self.dump())))
    }
    pub fn maybe(&self, k: &str) -> Option<&J> {
        match *self {
            J::O(ref v) => v.iter().find(|x| x.0 == k).map(|x| &x.1),
            _ => None,
        }
    }
    pub fn str(&self) -> &str {
        match *self {
            J::S(ref s) => s,
            _ => driver_error(&format!("expected string, got {}", self.dump())),
        }
    }
    pub fn string(&self) -> String {
        self.str().to_string()
    }
    pub fn gs(&self, k: &str) -> String {
        self.get(k).string()
    }
    pub fn gb(&self, k: &str) -> bool {
        self.get(k).bool()
    }
    pub fn bool(&self) -> bool {
        match *self {
            J::B(b) => b,
            _ => driver_error("expected bool"),
        }
    }
    pub fn arr(&self) -> &[J] {
        match *self {
            J::A(ref v) => v,
            _ => driver_error(&format!("expected array, got {}", self.dump())),
        }
    }
    /// integer given either as number or as decimal text
    pub fn int(&self) -> i64 {
        match *self {
            J::N(n) => n,
            J::S(ref s) => s.parse().unwrap_or_else(|_| driver_error(&format!("bad int {}", s))),
            _ => driver_error("expected int"),
        }
    }
    pub fn gi(&self, k: &str) -> i64 {
        self.get(k).int()
    }

    pub fn dump(&self) -> String {
        let mut o = String::new();
        self.write(&mut o);
        o
    }
    fn write(&self, o: &mut String) {
        match *self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if b { "true" } else { "false" }),
            J::N(n) => o.push_str(&n.to_string()),
            J::S(ref s) => quote(s, o),
            J::A(ref v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    x.write(o)
                }
                o.push(']')
            }
            J::O(ref v) => {
                o.push('{');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    quote(&x.0, o);
                    o.push(':');
                    x.1.write(o)
                }
                o.push('}')
            }
        }
    }
}

fn quote(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
}

/// A defect of the test input, not of the code under test: leave with the tool error code.
pub fn driver_error(m: &str) -> ! {
    eprintln!("driver error: {}", m);
    std::process::exit(2)
}

/// a step that the document at hand does not allow: part of the outcome, the history went another way before
pub fn misfit(m: &str) -> ! {
    panic!("step does not fit: {}", m)
}

pub fn parse(t: &str) -> J {
    let c: Vec<char> = t.chars().collect();
    let mut p = 0;
    let v = val(&c, &mut p);
    ws(&c, &mut p);
    if p != c.len() {
        driver_error("trailing JSON")
    }
    v
}

fn ws(c: &[char], p: &mut usize) {
    while *p < c.len() && c[*p].is_whitespace() {
        *p += 1
    }
}

fn val(c: &[char], p: &mut usize) -> J {
    ws(c, p);
    if *p >= c.len() {
        driver_error("short JSON")
    }
    match c[*p] {
        '{' => {
            *p += 1;
            let mut v = vec![];
            loop {
                ws(c, p);
                if c[*p] == '}' {
                    *p += 1;
                    return J::O(v);
                }
                if c[*p] == ',' {
                    *p += 1;
                    ws(c, p);
                }
                let k = string(c, p);
                ws(c, p);
                *p += 1; // ':'
                let x = val(c, p);
                v.push((k, x));
            }
        }
        '[' => {
            *p += 1;
            let mut v = vec![];
            loop {
                ws(c, p);
                if c[*p] == ']' {
                    *p += 1;
                    return J::A(v);
                }
                if c[*p] == ',' {
                    *p += 1;
                }
                v.push(val(c, p));
            }
        }
        '"' => J::S(string(c, p)),
        't' => {
            *p += 4;
            J::B(true)
        }
        'f' => {
            *p += 5;
            J::B(false)
        }
        'n' => {
            *p += 4;
            J::Null
        }
        _ => {
            let st = *p;
            while *p < c.len() && (c[*p] == '-' || c[*p].is_ascii_digit()) {
                *p += 1
            }
            let t: String = c[st..*p].iter().collect();
            J::N(t.parse().unwrap_or_else(|_| driver_error(&format!("bad JSON number {:?}", t))))
        }
    }
}

fn string(c: &[char], p: &mut usize) -> String {
    if c[*p] != '"' {
        driver_error("expected JSON string")
    }
    *p += 1;
    let mut s = String::new();
    let mut hi: u32 = 0;
    loop {
        let x = c[*p];
        *p += 1;
        match x {
            '"' => return s,
            '\\' => {
                let e = c[*p];
                *p += 1;
                match e {
                    'n' => s.push('\n'),
                    'r' => s.push('\r'),
                    't' => s.push('\t'),
                    'b' => s.push('\u{8}'),
                    'f' => s.push('\u{c}'),
                    'u' => {
                        let h: String = c[*p..*p + 4].iter().collect();
                        *p += 4;
                        let n = u32::from_str_radix(&h, 16).unwrap();
                        if (0xd800..0xdc00).contains(&n) {
                            hi = n
                        } else if (0xdc00..0xe000).contains(&n) {
                            s.push(char::from_u32(0x10000 + ((hi - 0xd800) << 10) + (n - 0xdc00)).unwrap())
                        } else {
                            s.push(char::from_u32(n).unwrap())
                        }
                    }
                    e => s.push(e),
                }
            }
            x => s.push(x),
        }
    }
}
