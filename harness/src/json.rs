//! A minimal JSON reader, enough for the command lines this driver is given.
#[derive(Clone, Debug)]
pub enum J {
    Null,
    Bool(bool),
    Num(i64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(v) => v.iter().find(|(n, _)| n == k).map(|(_, j)| j),
            _ => None,
        }
    }
    pub fn at(&self, k: &str) -> &J {
        self.get(k).unwrap_or_else(|| die(&format!("missing field {}", k)))
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => die("string expected"),
        }
    }
    pub fn num(&self) -> i64 {
        match self {
            J::Num(n) => *n,
            _ => die("number expected"),
        }
    }
    pub fn boolean(&self) -> bool {
        match self {
            J::Bool(b) => *b,
            _ => die("boolean expected"),
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            _ => die("array expected"),
        }
    }
}

/// An error of the driver or of its input, never of the library.
pub fn die(msg: &str) -> ! {
    eprintln!("DRIVER ERROR: {}", msg);
    std::process::exit(77)
}

pub fn parse(s: &str) -> J {
    let b = s.as_bytes();
    let mut p = 0;
    value(b, &mut p)
}

fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && (b[*p] as char).is_whitespace() {
        *p += 1;
    }
}

fn value(b: &[u8], p: &mut usize) -> J {
    ws(b, p);
    if *p >= b.len() {
        die("unexpected end of JSON");
    }
    match b[*p] {
        b'{' => {
            *p += 1;
            let mut v = vec![];
            ws(b, p);
            if b[*p] == b'}' {
                *p += 1;
                return J::Obj(v);
            }
            loop {
                ws(b, p);
                let k = string(b, p);
                ws(b, p);
                if b[*p] != b':' {
                    die("':' expected");
                }
                *p += 1;
                v.push((k, value(b, p)));
                ws(b, p);
                *p += 1;
                match b[*p - 1] {
                    b',' => continue,
                    b'}' => return J::Obj(v),
                    _ => die("',' expected"),
                }
            }
        }
        b'[' => {
            *p += 1;
            let mut v = vec![];
            ws(b, p);
            if b[*p] == b']' {
                *p += 1;
                return J::Arr(v);
            }
            loop {
                v.push(value(b, p));
                ws(b, p);
                *p += 1;
                match b[*p - 1] {
                    b',' => continue,
                    b']' => return J::Arr(v),
                    _ => die("',' expected"),
                }
            }
        }
        b'"' => J::Str(string(b, p)),
        b't' => {
            *p += 4;
            J::Bool(true)
        }
        b'f' => {
            *p += 5;
            J::Bool(false)
        }
        b'n' => {
            *p += 4;
            J::Null
        }
        _ => {
            let s = *p;
            while *p < b.len() && (b[*p] == b'-' || b[*p].is_ascii_digit()) {
                *p += 1;
            }
            match std::str::from_utf8(&b[s..*p]).unwrap().parse() {
                Ok(n) => J::Num(n),
                Err(_) => die("number expected"),
            }
        }
    }
}

fn string(b: &[u8], p: &mut usize) -> String {
    if b[*p] != b'"' {
        die("'\"' expected");
    }
    *p += 1;
    let s = *p;
    while b[*p] != b'"' {
        if b[*p] == b'\\' {
            die("escapes are not supported");
        }
        *p += 1;
    }
    *p += 1;
    String::from_utf8(b[s..*p - 1].to_vec()).unwrap()
}

pub fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 32 => o.push('?'),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn list<T>(v: &[T], f: impl Fn(&T) -> String) -> String {
    let mut o = String::from("[");
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&f(x));
    }
    o.push(']');
    o
}
