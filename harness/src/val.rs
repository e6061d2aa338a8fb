//! API values as the specification sees them (see PdfValues.tla).

use crate::json::J;
use pdf_writer::*;
use std::fmt::Write;

#[derive(Debug, Clone, PartialEq)]
pub struct V {
    pub t: String,
    pub b: Vec<i64>,
    pub k: Vec<V>,
}

pub fn v(t: &str, b: Vec<i64>, k: Vec<V>) -> V {
    V { t: t.into(), b, k }
}
pub fn bytes(b: &[u8]) -> Vec<i64> {
    b.iter().map(|&b| b as i64).collect()
}
pub fn cps(s: &str) -> Vec<i64> {
    s.chars().map(|c| c as u32 as i64).collect()
}
pub fn f32t(f: f32) -> Vec<i64> {
    let u = f.to_bits();
    vec![(u >> 31) as i64, ((u >> 23) & 0xff) as i64, (u & 0x7fffff) as i64]
}

pub fn null() -> V {
    v("null", vec![], vec![])
}
pub fn b(x: bool) -> V {
    v("bool", vec![x as i64], vec![])
}
pub fn i(n: i32) -> V {
    v("int", vec![n as i64], vec![])
}
pub fn f(x: f32) -> V {
    v("f32", f32t(x), vec![])
}
pub fn name(x: &[u8]) -> V {
    v("name", bytes(x), vec![])
}
pub fn st(x: &[u8]) -> V {
    v("str", bytes(x), vec![])
}
pub fn rf(r: Ref) -> V {
    v("ref", vec![r.get() as i64, 0], vec![])
}
pub fn text(s: &str) -> V {
    v("text", cps(s), vec![])
}
pub fn arr(k: Vec<V>) -> V {
    v("array", vec![], k)
}
pub fn ent(key: &[u8], x: V) -> V {
    v("ent", bytes(key), vec![x])
}
pub fn rect(r: Rect) -> V {
    v("rect", vec![], vec![f(r.x1), f(r.y1), f(r.x2), f(r.y2)])
}
/// A value of an enumeration, by name; the specification has the mapping.
pub fn en(s: &str) -> V {
    v(s, vec![], vec![])
}
pub fn fs(x: &[f32]) -> V {
    arr(x.iter().map(|&x| f(x)).collect())
}
pub fn is(x: &[i32]) -> V {
    arr(x.iter().map(|&x| i(x)).collect())
}
pub fn rfs(x: &[Ref]) -> V {
    arr(x.iter().map(|&x| rf(x)).collect())
}
pub fn names(x: &[Vec<u8>]) -> V {
    arr(x.iter().map(|x| name(x)).collect())
}

pub const NONE: i64 = -1000;

/// A date as the calls that built it.
#[derive(Clone, Debug, Copy)]
pub struct DateSpec(pub [i64; 8]);

impl DateSpec {
    pub fn v(&self) -> V {
        v("date", self.0.to_vec(), vec![])
    }
    /// `order` permutes the setter calls.
    pub fn build(&self, order: u64) -> Date {
        let d = &self.0;
        let mut r = Date::new(d[0] as u16);
        for j in 0..7 {
            let x = ((j + order) % 7 + 1) as usize;
            if d[x] == NONE {
                continue;
            }
            r = match x {
                1 => r.month(d[1] as u8),
                2 => r.day(d[2] as u8),
                3 => r.hour(d[3] as u8),
                4 => r.minute(d[4] as u8),
                5 => r.second(d[5] as u8),
                6 => r.utc_offset_hour(d[6] as i8),
                _ => r.utc_offset_minute(d[7] as u8),
            };
        }
        r
    }
}

/// A text with languages: (code, text) sections.
#[derive(Clone, Debug)]
pub struct LangSpec(pub Vec<(LanguageIdentifier, Vec<u8>, String)>);

impl LangSpec {
    pub fn v(&self) -> V {
        v("lang", vec![], self.0.iter().map(|(_, code, s)| {
            v("sec", cps(s), vec![v("lid", bytes(code), vec![])])
        }).collect())
    }
    pub fn parts(&self) -> Vec<(LanguageIdentifier, &str)> {
        self.0.iter().map(|(l, _, s)| (*l, s.as_str())).collect()
    }
}

impl V {
    pub fn write(&self, o: &mut String) {
        write!(o, "{{\"t\":\"{}\",\"b\":", self.t).unwrap();
        nums(o, &self.b);
        o.push_str(",\"k\":[");
        for (n, x) in self.k.iter().enumerate() {
            if n > 0 {
                o.push(',');
            }
            x.write(o);
        }
        o.push_str("]}");
    }

    pub fn json(&self) -> String {
        let mut s = String::new();
        self.write(&mut s);
        s
    }

    pub fn parse(j: &J) -> V {
        V {
            t: j.at("t").str().into(),
            b: j.at("b").arr().iter().map(|x| x.num()).collect(),
            k: j.at("k").arr().iter().map(V::parse).collect(),
        }
    }

    pub fn by(&self) -> Vec<u8> {
        self.b.iter().map(|&x| x as u8).collect()
    }
    pub fn string(&self) -> String {
        self.b.iter().map(|&c| char::from_u32(c as u32).unwrap()).collect()
    }
    pub fn flt(&self) -> f32 {
        f32::from_bits(
            ((self.b[0] as u32) << 31) | ((self.b[1] as u32) << 23) | self.b[2] as u32,
        )
    }
    pub fn lang(&self) -> LangSpec {
        LangSpec(self.k.iter().map(|s| {
            let c = s.k[0].by();
            let id = LanguageIdentifier::new(
                [c[0], c[1]],
                if c.len() == 4 { Some([c[2], c[3]]) } else { None },
            );
            (id, c, s.string())
        }).collect())
    }
    pub fn date(&self) -> DateSpec {
        DateSpec(self.b.clone().try_into().unwrap())
    }

    /// Write a primitive through the API.
    pub fn put(&self, o: Obj) {
        match self.t.as_str() {
            "null" => o.primitive(Null),
            "bool" => o.primitive(self.b[0] == 1),
            "int" => o.primitive(self.b[0] as i32),
            "f32" => o.primitive(self.flt()),
            "name" => o.primitive(Name(&self.by())),
            "str" => o.primitive(Str(&self.by())),
            "ref" => o.primitive(Ref::new(self.b[0] as i32)),
            "text" => o.primitive(TextStr(&self.string())),
            "lang" => o.primitive(TextStrWithLang(&self.lang().parts())),
            "rect" => o.primitive(Rect::new(
                self.k[0].flt(), self.k[1].flt(), self.k[2].flt(), self.k[3].flt(),
            )),
            "date" => o.primitive(self.date().build(self.b[0] as u64)),
            t => panic!("harness: not a primitive: {t}"),
        }
    }

    /// The number of values in it.
    pub fn size(&self) -> usize {
        1 + self.k.iter().map(V::size).sum::<usize>()
    }
}

pub fn nums(o: &mut String, b: &[i64]) {
    o.push('[');
    for (n, x) in b.iter().enumerate() {
        if n > 0 {
            o.push(',');
        }
        write!(o, "{x}").unwrap();
    }
    o.push(']');
}

pub fn byts(o: &mut String, b: &[u8]) {
    o.push('[');
    for (n, x) in b.iter().enumerate() {
        if n > 0 {
            o.push(',');
        }
        write!(o, "{x}").unwrap();
    }
    o.push(']');
}

pub fn jb(b: &[u8]) -> String {
    let mut s = String::new();
    byts(&mut s, b);
    s
}
pub fn jvs(k: &[V]) -> String {
    let mut s = String::from("[");
    for (n, x) in k.iter().enumerate() {
        if n > 0 {
            s.push(',');
        }
        x.write(&mut s);
    }
    s.push(']');
    s
}
