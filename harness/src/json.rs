//! A minimal JSON writer (the build is offline and needs no more than this).
use std::fmt::Write;

#[derive(Default, Clone)]
pub struct Obj(String);

impl Obj {
    pub fn new() -> Self {
        Obj(String::new())
    }
    fn key(&mut self, k: &str) {
        if !self.0.is_empty() {
            self.0.push(',');
        }
        write!(self.0, "\"{k}\":").unwrap();
    }
    pub fn raw(mut self, k: &str, v: impl AsRef<str>) -> Self {
        self.key(k);
        self.0.push_str(v.as_ref());
        self
    }
    pub fn int(mut self, k: &str, v: i64) -> Self {
        self.key(k);
        write!(self.0, "{v}").unwrap();
        self
    }
    pub fn str(mut self, k: &str, v: &str) -> Self {
        self.key(k);
        self.0.push_str(&quote(v));
        self
    }
    pub fn end(self) -> String {
        format!("{{{}}}", self.0)
    }
}

pub fn quote(v: &str) -> String {
    let mut s = String::from("\"");
    for c in v.chars() {
        match c {
            '"' => s.push_str("\\\""),
            '\\' => s.push_str("\\\\"),
            '\n' => s.push_str("\\n"),
            c if (c as u32) < 32 => write!(s, "\\u{:04x}", c as u32).unwrap(),
            c => s.push(c),
        }
    }
    s.push('"');
    s
}

pub fn arr<S: AsRef<str>>(it: impl IntoIterator<Item = S>) -> String {
    let mut s = String::from("[");
    for (i, x) in it.into_iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(x.as_ref());
    }
    s.push(']');
    s
}

pub fn ints(it: impl IntoIterator<Item = i64>) -> String {
    arr(it.into_iter().map(|x| x.to_string()))
}

/// A JSON value, for histories generated by TLC.
#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Int(i64),
    Str(String),
    Arr(Vec<Val>),
    Obj(Vec<(String, Val)>),
}

impl Val {
    pub fn get(&self, k: &str) -> &Val {
        match self {
            Val::Obj(v) => &v.iter().find(|x| x.0 == k).unwrap_or_else(|| panic!("no field {k}")).1,
            _ => panic!("not an object"),
        }
    }
    pub fn int(&self) -> i64 {
        match self {
            Val::Int(i) => *i,
            _ => panic!("not a number"),
        }
    }
    pub fn str(&self) -> &str {
        match self {
            Val::Str(s) => s,
            _ => panic!("not a string"),
        }
    }
    pub fn arr(&self) -> &[Val] {
        match self {
            Val::Arr(v) => v,
            _ => panic!("not an array"),
        }
    }
    pub fn ints(&self) -> Vec<i64> {
        self.arr().iter().map(|x| x.int()).collect()
    }
}

pub fn parse(s: &str) -> Val {
    let b = s.as_bytes();
    let mut i = 0;
    value(b, &mut i)
}

fn ws(b: &[u8], i: &mut usize) {
    while *i < b.len() && (b[*i] as char).is_whitespace() {
        *i += 1;
    }
}

fn value(b: &[u8], i: &mut usize) -> Val {
    ws(b, i);
    match b[*i] {
        b'[' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(b, i);
                match b[*i] {
                    b']' => {
                        *i += 1;
                        return Val::Arr(v);
                    }
                    b',' => *i += 1,
                    _ => v.push(value(b, i)),
                }
            }
        }
        b'{' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(b, i);
                match b[*i] {
                    b'}' => {
                        *i += 1;
                        return Val::Obj(v);
                    }
                    b',' => *i += 1,
                    _ => {
                        let Val::Str(k) = value(b, i) else { panic!("key") };
                        ws(b, i);
                        assert_eq!(b[*i], b':');
                        *i += 1;
                        v.push((k, value(b, i)));
                    }
                }
            }
        }
        b'"' => {
            let st = *i + 1;
            *i += 1;
            while b[*i] != b'"' {
                *i += 1;
            }
            *i += 1;
            Val::Str(String::from_utf8_lossy(&b[st..*i - 1]).into_owned())
        }
        b't' => {
            *i += 4;
            Val::Int(1)
        }
        b'f' => {
            *i += 5;
            Val::Int(0)
        }
        _ => {
            let st = *i;
            while *i < b.len() && (b[*i] == b'-' || b[*i].is_ascii_digit()) {
                *i += 1;
            }
            Val::Int(std::str::from_utf8(&b[st..*i]).unwrap().parse().expect("number"))
        }
    }
}

/// Line `i` of a file of TLC-generated behaviours.
pub fn line(file: &str, i: u64) -> Option<Val> {
    use std::sync::OnceLock;
    static LINES: OnceLock<Vec<String>> = OnceLock::new();
    let l = LINES.get_or_init(|| std::fs::read_to_string(file).expect("behaviour file").lines().map(|l| l.to_string()).collect());
    l.get(i as usize).map(|l| parse(l))
}
