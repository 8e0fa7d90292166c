//! A very small JSON reader and writer (no dependency needed).
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(f64),
    Int(i128),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}
impl J {
    pub fn s(x: impl Into<String>) -> J {
        J::Str(x.into())
    }
    pub fn n(x: u64) -> J {
        J::Int(x as i128)
    }
    pub fn get(&self, k: &str) -> &J {
        static N: J = J::Null;
        match self {
            J::Obj(v) => v.iter().find(|(a, _)| a == k).map(|x| &x.1).unwrap_or(&N),
            _ => &N,
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => "",
        }
    }
    pub fn u64(&self) -> u64 {
        match self {
            J::Int(i) => *i as u64,
            J::Num(f) => *f as u64,
            _ => 0,
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            _ => &[],
        }
    }
    pub fn obj(&self) -> &[(String, J)] {
        match self {
            J::Obj(v) => v,
            _ => &[],
        }
    }
    pub fn u64s(&self) -> Vec<u64> {
        self.arr().iter().map(|x| x.u64()).collect()
    }
    pub fn nums(v: &[u64]) -> J {
        J::Arr(v.iter().map(|x| J::n(*x)).collect())
    }
    pub fn strs(v: &[String]) -> J {
        J::Arr(v.iter().map(|x| J::s(x.clone())).collect())
    }
    pub fn out(&self, o: &mut String, ind: usize, pretty: bool) {
        let nl = |o: &mut String, k: usize| {
            if pretty {
                o.push('\n');
                for _ in 0..k {
                    o.push(' ')
                }
            }
        };
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Num(f) => o.push_str(&format!("{f}")),
            J::Int(i) => o.push_str(&i.to_string()),
            J::Str(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
                        c => o.push(c),
                    }
                }
                o.push('"')
            }
            J::Arr(v) => {
                let flat = v.iter().all(|x| matches!(x, J::Int(_) | J::Num(_)));
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    if !flat {
                        nl(o, ind + 1);
                    }
                    x.out(o, ind + 1, pretty);
                }
                if !flat && !v.is_empty() {
                    nl(o, ind);
                }
                o.push(']')
            }
            J::Obj(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    nl(o, ind + 1);
                    J::Str(k.clone()).out(o, 0, false);
                    o.push_str(": ");
                    x.out(o, ind + 1, pretty);
                }
                if !v.is_empty() {
                    nl(o, ind);
                }
                o.push('}')
            }
        }
    }
    pub fn line(&self) -> String {
        let mut s = String::new();
        self.out(&mut s, 0, false);
        s
    }
    pub fn pretty(&self) -> String {
        let mut s = String::new();
        self.out(&mut s, 0, true);
        s.push('\n');
        s
    }
}

pub fn obj(v: Vec<(&str, J)>) -> J {
    J::Obj(v.into_iter().map(|(k, x)| (k.to_string(), x)).collect())
}

pub fn parse(s: &str) -> Option<J> {
    let b = s.as_bytes();
    let mut p = 0;
    let v = val(b, &mut p)?;
    Some(v)
}
fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && b[*p].is_ascii_whitespace() {
        *p += 1
    }
}
fn val(b: &[u8], p: &mut usize) -> Option<J> {
    ws(b, p);
    match *b.get(*p)? {
        b'{' => {
            *p += 1;
            let mut v = vec![];
            loop {
                ws(b, p);
                if b.get(*p)? == &b'}' {
                    *p += 1;
                    return Some(J::Obj(v));
                }
                if b[*p] == b',' {
                    *p += 1;
                    continue;
                }
                let J::Str(k) = val(b, p)? else { return None };
                ws(b, p);
                if b.get(*p)? != &b':' {
                    return None;
                }
                *p += 1;
                v.push((k, val(b, p)?));
            }
        }
        b'[' => {
            *p += 1;
            let mut v = vec![];
            loop {
                ws(b, p);
                if b.get(*p)? == &b']' {
                    *p += 1;
                    return Some(J::Arr(v));
                }
                if b[*p] == b',' {
                    *p += 1;
                    continue;
                }
                v.push(val(b, p)?);
            }
        }
        b'"' => {
            *p += 1;
            let mut o = Vec::new();
            loop {
                let c = *b.get(*p)?;
                *p += 1;
                match c {
                    b'"' => return Some(J::Str(String::from_utf8_lossy(&o).into_owned())),
                    b'\\' => {
                        let e = *b.get(*p)?;
                        *p += 1;
                        match e {
                            b'n' => o.push(b'\n'),
                            b'u' => {
                                let h = std::str::from_utf8(b.get(*p..*p + 4)?).ok()?;
                                *p += 4;
                                let c = char::from_u32(u32::from_str_radix(h, 16).ok()?)?;
                                let mut t = [0; 4];
                                o.extend_from_slice(c.encode_utf8(&mut t).as_bytes());
                            }
                            x => o.push(x),
                        }
                    }
                    x => o.push(x),
                }
            }
        }
        b't' => {
            *p += 4;
            Some(J::Bool(true))
        }
        b'f' => {
            *p += 5;
            Some(J::Bool(false))
        }
        b'n' => {
            *p += 4;
            Some(J::Null)
        }
        _ => {
            let st = *p;
            while *p < b.len() && (b[*p].is_ascii_digit() || b"+-.eE".contains(&b[*p])) {
                *p += 1
            }
            let t = std::str::from_utf8(&b[st..*p]).ok()?;
            if let Ok(i) = t.parse::<i128>() {
                Some(J::Int(i))
            } else {
                t.parse::<f64>().ok().map(J::Num)
            }
        }
    }
}
