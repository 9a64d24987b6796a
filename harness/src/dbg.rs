//! Reads back the output of Rust's `{:?}`.
#[derive(Debug, Clone, PartialEq)]
pub enum Val {
    /// name, fields in order (tuple fields have an empty name)
    Node(String, Vec<(String, Val)>),
    List(Vec<Val>),
    /// map or set: sets have no values
    Map(Vec<(Val, Option<Val>)>),
}

impl Val {
    pub fn parse(s: &str) -> Option<Val> {
        let c: Vec<char> = s.chars().collect();
        let mut p = P { c, i: 0 };
        let v = p.val()?;
        p.ws();
        (p.i == p.c.len()).then_some(v)
    }
    pub fn name(&self) -> Option<&str> {
        match self {
            Val::Node(n, _) => Some(n),
            _ => None,
        }
    }
    pub fn field(&self, f: &str) -> Option<&Val> {
        match self {
            Val::Node(_, v) => v.iter().find(|(n, _)| n == f).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn arg(&self) -> Option<&Val> {
        match self {
            Val::Node(_, v) if v.len() == 1 => Some(&v[0].1),
            _ => None,
        }
    }
    pub fn list(&self) -> Option<&[Val]> {
        match self {
            Val::List(v) => Some(v),
            _ => None,
        }
    }
    pub fn map(&self) -> Option<&[(Val, Option<Val>)]> {
        match self {
            Val::Map(v) => Some(v),
            _ => None,
        }
    }
    pub fn num(&self) -> Option<usize> {
        self.name()?.parse().ok()
    }
}

struct P {
    c: Vec<char>,
    i: usize,
}

impl P {
    fn ws(&mut self) {
        while self.i < self.c.len() && self.c[self.i].is_whitespace() {
            self.i += 1;
        }
    }
    fn eat(&mut self, x: char) -> bool {
        self.ws();
        if self.c.get(self.i) == Some(&x) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn ident(&mut self) -> Option<String> {
        self.ws();
        let st = self.i;
        while self.i < self.c.len() && (self.c[self.i].is_alphanumeric() || self.c[self.i] == '_') {
            self.i += 1;
        }
        (self.i > st).then(|| self.c[st..self.i].iter().collect())
    }
    fn val(&mut self) -> Option<Val> {
        self.ws();
        match self.c.get(self.i)? {
            '[' => {
                self.i += 1;
                let mut v = Vec::new();
                loop {
                    if self.eat(']') {
                        return Some(Val::List(v));
                    }
                    v.push(self.val()?);
                    self.eat(',');
                }
            }
            '{' => {
                self.i += 1;
                let mut v = Vec::new();
                loop {
                    if self.eat('}') {
                        return Some(Val::Map(v));
                    }
                    let k = self.val()?;
                    let w = if self.eat(':') { Some(self.val()?) } else { None };
                    v.push((k, w));
                    self.eat(',');
                }
            }
            _ => {
                let name = self.ident()?;
                let mut fields = Vec::new();
                if self.eat('(') {
                    loop {
                        if self.eat(')') {
                            break;
                        }
                        fields.push((String::new(), self.val()?));
                        self.eat(',');
                    }
                } else if self.eat('{') {
                    loop {
                        if self.eat('}') {
                            break;
                        }
                        let f = self.ident()?;
                        if !self.eat(':') {
                            return None;
                        }
                        fields.push((f, self.val()?));
                        self.eat(',');
                    }
                }
                Some(Val::Node(name, fields))
            }
        }
    }
}
