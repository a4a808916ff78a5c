use std::fmt;

#[derive(Debug, Clone, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl J {
    pub fn s(x: &str) -> J {
        J::Str(x.to_string())
    }
    pub fn u(x: usize) -> J {
        J::Int(x as i64)
    }
    pub fn obj(fields: Vec<(&str, J)>) -> J {
        J::Obj(fields.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
    }
    pub fn arr(&self) -> &Vec<J> {
        match self {
            J::Arr(a) => a,
            _ => panic!("not an array: {self}"),
        }
    }
    pub fn int(&self) -> i64 {
        match self {
            J::Int(i) => *i,
            _ => panic!("not a number: {self}"),
        }
    }
    pub fn us(&self) -> usize {
        self.int() as usize
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => panic!("not a string: {self}"),
        }
    }
    pub fn bool(&self) -> bool {
        match self {
            J::Bool(b) => *b,
            _ => panic!("not a boolean: {self}"),
        }
    }
    pub fn get(&self, key: &str) -> Option<&J> {
        match self {
            J::Obj(o) => o.iter().find(|(k, _)| k == key).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn at(&self, key: &str) -> &J {
        self.get(key).unwrap_or_else(|| panic!("no field {key} in {self}"))
    }
}

impl fmt::Display for J {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            J::Null => write!(f, "null"),
            J::Bool(b) => write!(f, "{b}"),
            J::Int(i) => write!(f, "{i}"),
            J::Str(s) => {
                write!(f, "\"")?;
                for c in s.chars() {
                    match c {
                        '"' => write!(f, "\\\"")?,
                        '\\' => write!(f, "\\\\")?,
                        c if (c as u32) < 32 || (c as u32) > 126 => {
                            let mut b = [0u16; 2];
                            for u in c.encode_utf16(&mut b) {
                                write!(f, "\\u{:04x}", u)?
                            }
                        }
                        c => write!(f, "{c}")?,
                    }
                }
                write!(f, "\"")
            }
            J::Arr(a) => {
                write!(f, "[")?;
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        write!(f, ",")?
                    }
                    write!(f, "{x}")?
                }
                write!(f, "]")
            }
            J::Obj(o) => {
                write!(f, "{{")?;
                for (i, (k, v)) in o.iter().enumerate() {
                    if i > 0 {
                        write!(f, ",")?
                    }
                    write!(f, "\"{k}\":{v}")?
                }
                write!(f, "}}")
            }
        }
    }
}

pub fn parse(s: &str) -> J {
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    let v = value(&b, &mut i);
    ws(&b, &mut i);
    assert!(i == b.len(), "trailing characters in JSON");
    v
}
fn ws(b: &[char], i: &mut usize) {
    while *i < b.len() && b[*i].is_ascii_whitespace() {
        *i += 1
    }
}
fn value(b: &[char], i: &mut usize) -> J {
    ws(b, i);
    match b[*i] {
        'n' => word(b, i, "null", J::Null),
        't' => word(b, i, "true", J::Bool(true)),
        'f' => word(b, i, "false", J::Bool(false)),
        '"' => J::Str(string(b, i)),
        '[' => {
            *i += 1;
            let mut a = vec![];
            loop {
                ws(b, i);
                if b[*i] == ']' {
                    *i += 1;
                    return J::Arr(a);
                }
                if b[*i] == ',' {
                    *i += 1;
                    continue;
                }
                a.push(value(b, i));
            }
        }
        '{' => {
            *i += 1;
            let mut o = vec![];
            loop {
                ws(b, i);
                match b[*i] {
                    '}' => {
                        *i += 1;
                        return J::Obj(o);
                    }
                    ',' => *i += 1,
                    _ => {
                        let k = string(b, i);
                        ws(b, i);
                        assert!(b[*i] == ':');
                        *i += 1;
                        o.push((k, value(b, i)));
                    }
                }
            }
        }
        _ => {
            let st = *i;
            while *i < b.len() && (b[*i] == '-' || b[*i].is_ascii_digit()) {
                *i += 1
            }
            J::Int(b[st..*i].iter().collect::<String>().parse().unwrap())
        }
    }
}
fn word(b: &[char], i: &mut usize, w: &str, v: J) -> J {
    for c in w.chars() {
        assert!(b[*i] == c);
        *i += 1;
    }
    v
}
fn string(b: &[char], i: &mut usize) -> String {
    assert!(b[*i] == '"');
    *i += 1;
    let mut u: Vec<u16> = vec![];
    loop {
        match b[*i] {
            '"' => {
                *i += 1;
                return String::from_utf16(&u).unwrap();
            }
            '\\' => {
                *i += 1;
                match b[*i] {
                    'n' => u.push(10),
                    't' => u.push(9),
                    'r' => u.push(13),
                    'b' => u.push(8),
                    'f' => u.push(12),
                    'u' => {
                        let h: String = b[*i + 1..*i + 5].iter().collect();
                        u.push(u16::from_str_radix(&h, 16).unwrap());
                        *i += 4;
                    }
                    c => u.push(c as u16),
                }
                *i += 1;
            }
            c => {
                let mut buf = [0u16; 2];
                u.extend_from_slice(c.encode_utf16(&mut buf));
                *i += 1;
            }
        }
    }
}
