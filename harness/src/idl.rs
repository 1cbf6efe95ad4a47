//! The published interface description: reading it, and encoding and decoding values by it alone.
use crate::engine::Row;
use serde_json::{json, Value};
use solana_sdk::pubkey::Pubkey;

#[derive(Clone, PartialEq)]
pub enum V {
    /// type and value of a number (the bits of it for floats)
    N(String, i128),
    B(bool),
    S(Vec<u8>),
    K(Pubkey),
    O(Option<Box<V>>),
    L(Vec<V>),
    T(Vec<(String, V)>),
    E(String),
}

impl std::fmt::Debug for V {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            V::N(t, v) => write!(f, "{}{}", v, t),
            V::B(b) => write!(f, "{}", b),
            V::S(s) => write!(f, "{:?}", String::from_utf8_lossy(s)),
            V::K(k) => write!(f, "{}", k),
            V::O(None) => write!(f, "none"),
            V::O(Some(v)) => write!(f, "some({:?})", v),
            V::L(l) if l.len() > 16 => write!(f, "{:?}…", &l[..16]),
            V::L(l) => write!(f, "{:?}", l),
            V::T(t) => f.debug_map().entries(t.iter().map(|(k, v)| (k, v))).finish(),
            V::E(e) => write!(f, "{}", e),
        }
    }
}

pub fn n(v: impl TryInto<i128>) -> V {
    V::N(String::new(), v.try_into().ok().expect("number"))
}
pub fn e(s: &str) -> V {
    V::E(s.to_string())
}
pub fn t(f: &[(&str, V)]) -> V {
    V::T(f.iter().map(|(k, v)| (k.to_string(), v.clone())).collect())
}

impl V {
    pub fn get(&self, name: &str) -> Result<&V, String> {
        match self {
            V::T(f) => f.iter().find(|(k, _)| k == name).map(|x| &x.1).ok_or_else(|| format!("no field {}", name)),
            _ => Err(format!("no field {}: not a struct", name)),
        }
    }
    pub fn num(&self) -> Result<i128, String> {
        match self {
            V::N(_, v) => Ok(*v),
            V::B(b) => Ok(*b as i128),
            V::T(f) if f.len() == 1 => f[0].1.num(),
            v => Err(format!("{:?} is not a number", v)),
        }
    }
    pub fn key(&self) -> Result<Pubkey, String> {
        match self {
            V::K(k) => Ok(*k),
            V::T(f) if f.len() == 1 => f[0].1.key(),
            v => Err(format!("{:?} is not a key", v)),
        }
    }
    pub fn f(&self, name: &str) -> Result<i128, String> {
        self.get(name)?.num().map_err(|e| format!("{}: {}", name, e))
    }
    pub fn k(&self, name: &str) -> Result<Pubkey, String> {
        self.get(name)?.key().map_err(|e| format!("{}: {}", name, e))
    }
}

pub struct Idl {
    pub v: Value,
}

pub fn disc(space: &str, name: &str) -> [u8; 8] {
    solana_sdk::hash::hash(format!("{}:{}", space, name).as_bytes()).to_bytes()[..8].try_into().unwrap()
}
pub fn snake(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        if c.is_uppercase() {
            o.push('_');
            o.extend(c.to_lowercase());
        } else {
            o.push(c)
        }
    }
    o
}
pub fn camel(s: &str) -> String {
    let mut o = String::new();
    let mut up = false;
    for c in s.chars() {
        if c == '_' {
            up = !o.is_empty();
        } else if up {
            o.extend(c.to_uppercase());
            up = false;
        } else {
            o.push(c)
        }
    }
    o
}

const JSON: &str = "/repo/idl/openbook_v2.json";
const TS: &str = "/repo/ts/client/src/openbook_v2.ts";

fn width(p: &str) -> Option<usize> {
    Some(match p {
        "u8" | "i8" | "bool" => 1,
        "u16" | "i16" => 2,
        "u32" | "i32" | "f32" => 4,
        "u64" | "i64" | "f64" => 8,
        "u128" | "i128" => 16,
        "publicKey" => 32,
        _ => return None,
    })
}

/// an object literal of the client's source as a value
struct Lit<'a>(&'a [u8], usize);
impl<'a> Lit<'a> {
    fn skip(&mut self) {
        loop {
            match self.0.get(self.1) {
                Some(c) if c.is_ascii_whitespace() || *c == b',' || *c == b';' => self.1 += 1,
                Some(b'/') if self.0.get(self.1 + 1) == Some(&b'/') => {
                    while self.0.get(self.1).map(|c| *c != b'\n').unwrap_or(false) {
                        self.1 += 1
                    }
                }
                _ => return,
            }
        }
    }
    fn word(&mut self) -> String {
        let s = self.1;
        while self.0.get(self.1).map(|c| c.is_ascii_alphanumeric() || b"_-.$".contains(c)).unwrap_or(false) {
            self.1 += 1
        }
        String::from_utf8_lossy(&self.0[s..self.1]).to_string()
    }
    fn string(&mut self) -> Option<String> {
        let q = *self.0.get(self.1)?;
        let mut o = vec![];
        self.1 += 1;
        loop {
            match *self.0.get(self.1)? {
                b'\\' => {
                    o.push(*self.0.get(self.1 + 1)?);
                    self.1 += 2;
                }
                c if c == q => {
                    self.1 += 1;
                    return String::from_utf8(o).ok();
                }
                c => {
                    o.push(c);
                    self.1 += 1;
                }
            }
        }
    }
    fn val(&mut self) -> Option<Value> {
        self.skip();
        match *self.0.get(self.1)? {
            b'{' => {
                let mut m = serde_json::Map::new();
                self.1 += 1;
                loop {
                    self.skip();
                    let k = match *self.0.get(self.1)? {
                        b'}' => {
                            self.1 += 1;
                            return Some(Value::Object(m));
                        }
                        b'\'' | b'"' => self.string()?,
                        _ => self.word(),
                    };
                    self.skip();
                    if *self.0.get(self.1)? != b':' {
                        return None;
                    }
                    self.1 += 1;
                    let v = self.val()?;
                    m.insert(k, v);
                }
            }
            b'[' => {
                let mut l = vec![];
                self.1 += 1;
                loop {
                    self.skip();
                    if *self.0.get(self.1)? == b']' {
                        self.1 += 1;
                        return Some(Value::Array(l));
                    }
                    l.push(self.val()?);
                }
            }
            b'\'' | b'"' | b'`' => self.string().map(Value::String),
            _ => serde_json::from_str(&self.word()).ok(),
        }
    }
}

impl Idl {
    pub fn json() -> Result<Idl, String> {
        let s = std::fs::read_to_string(JSON).map_err(|e| format!("{}: {}", JSON, e))?;
        Ok(Idl { v: serde_json::from_str(&s).map_err(|e| format!("{}: {}", JSON, e))? })
    }
    /// the copy the TypeScript client is built on, if it can be read as an object literal
    pub fn ts(marker: &str) -> Option<Idl> {
        let s = std::fs::read_to_string(TS).ok()?;
        let at = s.find(marker)?;
        let at = at + s[at..].find("= {")? + 2;
        let mut v = Lit(s.as_bytes(), at).val()?;
        for a in v.get_mut("accounts")?.as_array_mut()? {
            // that client wants account names to start with a small letter
            let name = a["name"].as_str()?.to_string();
            a["name"] = json!(name[..1].to_uppercase() + &name[1..]);
        }
        Some(Idl { v })
    }
    fn list(&self, what: &str) -> &[Value] {
        self.v[what].as_array().map(|a| &a[..]).unwrap_or(&[])
    }
    pub fn find(&self, what: &str, name: &str) -> Result<&Value, String> {
        self.list(what).iter().find(|x| x["name"] == name).ok_or_else(|| format!("the interface has no {} in {}", name, what))
    }
    pub fn names(&self, what: &str) -> Vec<String> {
        self.list(what).iter().map(|x| x["name"].as_str().unwrap_or("").to_string()).collect()
    }
    /// fields of a struct among types or accounts
    pub fn fields(&self, name: &str) -> Result<&[Value], String> {
        let d = self.find("accounts", name).or_else(|_| self.find("types", name))?;
        d["type"]["fields"].as_array().map(|a| &a[..]).ok_or_else(|| format!("{} is not a struct", name))
    }
    pub fn variants(&self, name: &str) -> Result<Vec<String>, String> {
        let d = self.find("types", name)?;
        Ok(d["type"]["variants"].as_array().ok_or_else(|| format!("{} is not an enum", name))?.iter().map(|v| v["name"].as_str().unwrap_or("").to_string()).collect())
    }
    fn is_enum(&self, name: &str) -> bool {
        self.find("types", name).map(|d| d["type"]["kind"] == "enum").unwrap_or(false)
    }
    /// size of a type of fixed size
    pub fn size(&self, ty: &Value) -> Result<usize, String> {
        if let Some(p) = ty.as_str() {
            return width(p).ok_or_else(|| format!("{} has no fixed size", p));
        }
        if let Some(a) = ty["array"].as_array() {
            return Ok(self.size(&a[0])? * a[1].as_u64().unwrap_or(0) as usize);
        }
        if let Some(d) = ty["defined"].as_str() {
            if self.is_enum(d) {
                return Ok(1);
            }
            return self.fields(d)?.iter().map(|f| self.size(&f["type"])).sum();
        }
        Err(format!("{} has no fixed size", ty))
    }
    pub fn enc(&self, ty: &Value, v: &V, o: &mut Vec<u8>) -> Result<(), String> {
        let bad = || Err(format!("{:?} given for the type {}", v, ty));
        if let Some(p) = ty.as_str() {
            match (p, v) {
                ("string", V::S(s)) | ("bytes", V::S(s)) => {
                    o.extend((s.len() as u32).to_le_bytes());
                    o.extend(s);
                }
                ("publicKey", V::K(k)) => o.extend(k.to_bytes()),
                ("bool", V::B(b)) => o.push(*b as u8),
                (_, V::N(_, x)) if width(p).is_some() => o.extend(&x.to_le_bytes()[..width(p).unwrap()]),
                _ => return bad(),
            }
            return Ok(());
        }
        match v {
            V::O(x) if !ty["option"].is_null() => {
                o.push(x.is_some() as u8);
                if let Some(x) = x {
                    self.enc(&ty["option"], x, o)?;
                }
            }
            V::L(l) if !ty["vec"].is_null() => {
                o.extend((l.len() as u32).to_le_bytes());
                for x in l {
                    self.enc(&ty["vec"], x, o)?;
                }
            }
            V::L(l) if !ty["array"].is_null() => {
                for x in l {
                    self.enc(&ty["array"][0], x, o)?;
                }
            }
            V::E(x) if !ty["defined"].is_null() => {
                let d = ty["defined"].as_str().unwrap();
                match self.variants(d)?.iter().position(|y| y == x) {
                    Some(i) => o.push(i as u8),
                    None => return Err(format!("{} has no variant {}", d, x)),
                }
            }
            V::T(_) if !ty["defined"].is_null() => {
                for f in self.fields(ty["defined"].as_str().unwrap())? {
                    self.enc(&f["type"], v.get(f["name"].as_str().unwrap_or(""))?, o)?;
                }
            }
            _ => return bad(),
        }
        Ok(())
    }
    pub fn dec(&self, ty: &Value, b: &mut &[u8]) -> Result<V, String> {
        fn take<'a>(b: &mut &'a [u8], n: usize) -> Result<&'a [u8], String> {
            if b.len() < n {
                return Err(format!("{} bytes missing", n - b.len()));
            }
            let (x, y) = b.split_at(n);
            *b = y;
            Ok(x)
        }
        let len = |b: &mut &[u8]| -> Result<usize, String> { Ok(u32::from_le_bytes(take(b, 4)?.try_into().unwrap()) as usize) };
        if let Some(p) = ty.as_str() {
            if p == "string" || p == "bytes" {
                let n = len(b)?;
                return Ok(V::S(take(b, n)?.to_vec()));
            }
            let w = width(p).ok_or_else(|| format!("unknown type {}", p))?;
            let x = take(b, w)?;
            if p == "publicKey" {
                return Ok(V::K(Pubkey::try_from(x).unwrap()));
            }
            let mut y = [if p.starts_with('i') && x[w - 1] >= 128 { 255u8 } else { 0 }; 16];
            y[..w].copy_from_slice(x);
            let y = i128::from_le_bytes(y);
            return match p {
                "bool" if y > 1 => Err("not a bool".into()),
                "bool" => Ok(V::B(y == 1)),
                _ => Ok(V::N(p.to_string(), y)),
            };
        }
        if !ty["option"].is_null() {
            return match take(b, 1)?[0] {
                0 => Ok(V::O(None)),
                1 => Ok(V::O(Some(Box::new(self.dec(&ty["option"], b)?)))),
                _ => Err("not an option".into()),
            };
        }
        if !ty["vec"].is_null() {
            let n = len(b)?;
            return (0..n).map(|_| self.dec(&ty["vec"], b)).collect::<Result<_, _>>().map(V::L);
        }
        if let Some(a) = ty["array"].as_array() {
            return (0..a[1].as_u64().unwrap_or(0)).map(|_| self.dec(&a[0], b)).collect::<Result<_, _>>().map(V::L);
        }
        let d = ty["defined"].as_str().ok_or_else(|| format!("unknown type {}", ty))?;
        if self.is_enum(d) {
            let i = take(b, 1)?[0] as usize;
            return self.variants(d)?.get(i).cloned().map(V::E).ok_or_else(|| format!("{} has no variant {}", d, i));
        }
        self.fields(d)?.iter().map(|f| Ok((f["name"].as_str().unwrap_or("").to_string(), self.dec(&f["type"], b)?))).collect::<Result<_, String>>().map(V::T)
    }
    /// decodes a whole value, nothing may remain
    pub fn dec_all(&self, ty: &Value, mut b: &[u8]) -> Result<V, String> {
        let v = self.dec(ty, &mut b)?;
        match b.len() {
            0 => Ok(v),
            n => Err(format!("{} bytes left over", n)),
        }
    }
    pub fn def(name: &str) -> Value {
        json!({ "defined": name })
    }
    fn walk(&self, ty: &Value, path: &str) -> Result<(Value, usize), String> {
        let (mut ty, mut off) = (ty.clone(), 0);
        for p in path.split('.').filter(|p| !p.is_empty()) {
            if let Ok(i) = p.parse::<usize>() {
                let a = ty["array"].clone();
                if i as u64 >= a[1].as_u64().unwrap_or(0) {
                    return Err(format!("{}: only {} elements", path, a[1]));
                }
                off += i * self.size(&a[0])?;
                ty = a[0].clone();
            } else {
                let d = ty["defined"].as_str().unwrap_or("").to_string();
                let mut found = None;
                for f in self.fields(&d)? {
                    if f["name"] == p {
                        found = Some(f["type"].clone());
                        break;
                    }
                    off += self.size(&f["type"])?;
                }
                ty = found.ok_or_else(|| format!("{} has no field {}", d, p))?;
            }
        }
        Ok((ty, off))
    }
    pub fn offset(&self, ty: &Value, path: &str) -> Result<usize, String> {
        self.walk(ty, path).map(|x| x.1)
    }
    /// the part of a struct of fixed size that a path like nodes.nodes.17.tag leads to
    pub fn at(&self, ty: &Value, b: &[u8], path: &str) -> Result<V, String> {
        let (ty, off) = self.walk(ty, path)?;
        let w = self.size(&ty)?;
        self.dec_all(&ty, b.get(off..off + w).ok_or_else(|| format!("{} lies beyond the end", path))?)
    }
    /// an arbitrary value of a type
    pub fn gen(&self, ty: &Value, r: &mut Row) -> Result<V, String> {
        if let Some(p) = ty.as_str() {
            let num = |r: &mut Row| -> [u8; 16] {
                let mut b = [0u8; 16];
                match r.below(5) {
                    0 => b[0] = r.next() as u8,
                    1 => {}
                    2 => b = [255; 16],
                    _ => {
                        b[..8].copy_from_slice(&r.next().to_le_bytes());
                        b[8..].copy_from_slice(&r.next().to_le_bytes());
                    }
                }
                b
            };
            return match p {
                "string" => Ok(V::S((0..r.below(20)).map(|_| b'a' + (r.next() % 26) as u8).collect())),
                "publicKey" => Ok(V::K(key(r))),
                "bool" => Ok(V::B(r.chance(1, 2))),
                _ => {
                    let w = width(p).ok_or_else(|| format!("unknown type {}", p))?;
                    let v = self.dec_all(ty, &num(r)[..w])?;
                    // what is not a number cannot be sent
                    Ok(match &v {
                        V::N(p, x) if p == "f64" && f64::from_bits(*x as u64).is_nan() => V::N(p.clone(), 1.5f64.to_bits() as i128),
                        V::N(p, x) if p == "f32" && f32::from_bits(*x as u32).is_nan() => V::N(p.clone(), 1.5f32.to_bits() as i128),
                        _ => v,
                    })
                }
            };
        }
        if !ty["option"].is_null() {
            return Ok(V::O(if r.chance(2, 3) { Some(Box::new(self.gen(&ty["option"], r)?)) } else { None }));
        }
        if !ty["vec"].is_null() {
            return (0..r.below(6)).map(|_| self.gen(&ty["vec"], r)).collect::<Result<_, _>>().map(V::L);
        }
        if let Some(a) = ty["array"].as_array() {
            return (0..a[1].as_u64().unwrap_or(0)).map(|_| self.gen(&a[0], r)).collect::<Result<_, _>>().map(V::L);
        }
        let d = ty["defined"].as_str().ok_or_else(|| format!("unknown type {}", ty))?;
        if self.is_enum(d) {
            let v = self.variants(d)?;
            return Ok(V::E(v[r.idx(v.len())].clone()));
        }
        self.fields(d)?.iter().map(|f| Ok((f["name"].as_str().unwrap_or("").to_string(), self.gen(&f["type"], r)?))).collect::<Result<_, String>>().map(V::T)
    }
}

/// the description and the client's copies of it
pub fn idls() -> &'static Result<Vec<(&'static str, Idl)>, String> {
    static ALL: std::sync::OnceLock<Result<Vec<(&'static str, Idl)>, String>> = std::sync::OnceLock::new();
    ALL.get_or_init(|| {
        let mut v = vec![("json", Idl::json()?)];
        v.extend(Idl::ts("export const IDL").map(|i| ("copy of the client", i)));
        v.extend(Idl::ts("export type OpenbookV2").map(|i| ("type of the client", i)));
        Ok(v)
    })
}

pub fn key(r: &mut Row) -> Pubkey {
    let mut b = [0u8; 32];
    for c in b.chunks_mut(8) {
        c.copy_from_slice(&r.next().to_le_bytes());
    }
    Pubkey::new_from_array(b)
}
