//! The recorder: runs API calls and logs one event per call.

use crate::val::*;
use std::any::Any;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// splitmix64
#[derive(Clone)]
pub struct Rng {
    state: u64,
    /// Which of the special values to take, instead of any.
    pub special: Option<usize>,
    /// Take numbers close to this, and strings that are much alike.
    pub near: Option<f32>,
    /// Which of the well-known names and strings to take; whether one was.
    pub known: Option<usize>,
    pub knew: bool,
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng { state: seed ^ 0x9E3779B97F4A7C15, special: None, near: None, known: None, knew: false };
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.state = self.state.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.state;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn n(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() >> 11) as usize % n }
    }
    /// lo..=hi
    pub fn r(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.next() >> 1) as i64 % (hi - lo + 1)
    }
    pub fn p(&mut self, percent: usize) -> bool {
        self.n(100) < percent
    }
    pub fn of<'a, T>(&mut self, x: &'a [T]) -> &'a T {
        let i = self.n(x.len());
        &x[i]
    }
    /// The well-known name or string to take now.
    pub fn well_known(&mut self) -> Option<&'static str> {
        let k = self.known?;
        self.knew = true;
        Some(known()[k % known().len()])
    }
    /// The special value to take now.
    pub fn pick<'a, T>(&self, x: &'a [T]) -> Option<&'a T> {
        self.special.map(|k| &x[k % x.len()])
    }
    pub fn shuffle<T>(&mut self, x: &mut [T]) {
        for i in (1..x.len()).rev() {
            let j = self.n(i + 1);
            x.swap(i, j);
        }
    }
}

/// Names of the standard, and texts with some form to them.
pub fn known() -> &'static [&'static str] {
    const TEXTS: &[&str] = &[
        "a.b", ".", "a..b.", "me\n", "\nme", "a\r\nb", "a\rb", " a", "a ", "  ", "a  b", "\ta\t", "http://a.b/c?d=e&f#g",
        "mailto:a@b", "https://x/%20%41", "a/b\\c", "C:\\a\\b", "../a", "/a//b/", "file.txt", "D:2024", "D:20240101000000Z",
        "a-b_c", "a:b", "a;b,c", "a=b", "a+b", "a|b", "'a'", "\"a\"", "`a`", "<a>", "[a]", "{a}", "(a", "a)", "a\\", "\\n", "\\(",
        "%a", "#a", "a#41", "@a", "&amp;", "0", "00", "-0", "1.0", "0x10", "1e5", "null", "true", "NaN", "inf",
        "ABC", "abc", "aBc", "a\u{0}b", "a\u{7f}", "a\u{a0}b", "a\u{ad}b", "\u{200b}", "\u{2028}", "e\u{301}", "\u{e9}", "\u{df}", "\u{130}",
        "\u{feff}a", "a\u{feff}", "\u{fffe}", "\u{202e}a", "x\u{1f468}\u{200d}\u{1f469}", "0 R", "1 0 R", "stream", "endobj",
    ];
    static ALL: std::sync::OnceLock<Vec<&str>> = std::sync::OnceLock::new();
    ALL.get_or_init(|| TEXTS.iter().copied().chain(include_str!("known.txt").lines()).collect())
}

pub struct Cx {
    pub r: Rng,
    pub log: String,
    pub n: usize,
    /// The call in progress.
    pub call: String,
    /// Budget for nested structures.
    pub fuel: i64,
    /// Nesting of walkers, and the type of the innermost writer.
    pub depth: usize,
    pub writer: &'static str,
    /// The method that the outermost walker has to call.
    pub force: Option<usize>,
    /// Only find out how many methods there are.
    pub probe: bool,
    pub probed: usize,
    /// Goes through the values of enumerations: the current and their number.
    pub sweep: Option<(usize, usize)>,
    /// The greatest number of values; whether a call could be refused.
    pub swept: usize,
    /// Sweep over the special values of all kinds of arguments.
    pub values: bool,
    /// Sweep over this part of the well-known names and strings.
    pub known: Option<usize>,
    /// The method under test before and after each other one.
    pub pairs: bool,
    /// Each value of its enumerations before all other methods.
    pub context: bool,
    /// The method under test so many times; elements still to be put into
    /// what it opens.
    pub many: Option<usize>,
    pub elements: Option<usize>,
    /// A long random sequence of methods.
    pub walk: bool,
    pub sweep_depth: usize,
    pub tried: bool,
    /// For writers with a single call: which object it is, and how many.
    pub round: usize,
    pub rounds: usize,
    /// Only the method under test, nothing else.
    pub alone: bool,
    /// No references among arbitrary values.
    pub norefs: bool,
    /// Calls made, for the coverage report.
    pub hits: std::collections::BTreeMap<String, u64>,
}

pub fn msg(e: Box<dyn Any + Send>) -> String {
    e.downcast_ref::<&str>()
        .map(|s| s.to_string())
        .or_else(|| e.downcast_ref::<String>().cloned())
        .unwrap_or_default()
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' | '\\' => {
                o.push('\\');
                o.push(c)
            }
            ' '..='~' => o.push(c),
            _ => o.push('?'),
        }
    }
    o.push('"');
    o
}

impl Cx {
    pub fn new(seed: u64) -> Self {
        Cx {
            r: Rng::new(seed),
            log: String::new(),
            n: 0,
            call: String::new(),
            fuel: 40,
            depth: 0,
            writer: "",
            force: None,
            probe: false,
            probed: 0,
            sweep: None,
            swept: 0,
            values: false,
            known: None,
            pairs: false,
            context: false,
            many: None,
            elements: None,
            walk: false,
            sweep_depth: 0,
            tried: false,
            round: 0,
            rounds: 1,
            alone: false,
            norefs: false,
            hits: Default::default(),
        }
    }

    pub fn ev(&mut self, s: &str) {
        if self.n > 0 {
            self.log.push(',');
        }
        self.log.push('{');
        self.log.push_str(s);
        self.log.push('}');
        self.n += 1;
    }

    pub fn hit(&mut self, s: &str) {
        *self.hits.entry(s.into()).or_default() += 1;
    }

    fn hit_m(&mut self, m: &str) {
        let s = format!("{}.{m}", self.writer);
        self.hit(&s);
    }

    /// One of `n` values of an enumeration: each in turn for the method under
    /// test, any otherwise.
    pub fn variant(&mut self, n: usize) -> usize {
        match self.sweep.as_mut() {
            Some((at, of)) if self.depth <= self.sweep_depth => {
                *of = n.max(*of);
                *at % n
            }
            _ => self.r.n(n),
        }
    }

    /// A call of a typed writer's method that writes something at once.
    pub fn m(&mut self, m: &str, a: &[V]) {
        self.hit_m(m);
        self.ev_m(m, a, true);
    }

    fn ev_m(&mut self, m: &str, a: &[V], ok: bool) {
        let e = if self.writer == "Content" { "\"e\":\"cop\",\"c\":1" } else { "\"e\":\"m\"" };
        self.ev(&format!("{e},\"m\":\"{m}\",\"a\":{},\"ok\":{ok}", jvs(a)));
    }

    /// The same for a call that may be refused.
    pub fn attempt(&mut self, m: &str, a: &[V], f: impl FnOnce()) -> bool {
        self.call = m.into();
        self.tried |= self.depth <= 1;
        let ok = catch_unwind(AssertUnwindSafe(f)).is_ok();
        self.hit_m(m);
        self.ev_m(m, a, ok);
        ok
    }

    /// The same for a call that starts another writer.
    pub fn attempt_sub<T>(&mut self, m: &str, f: impl FnOnce() -> T) -> Option<T> {
        self.call = m.into();
        self.tried |= self.depth <= 1;
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(s) => {
                self.sub(m, &[]);
                Some(s)
            }
            Err(_) => {
                self.hit_m(m);
                self.ev(&format!("\"e\":\"m\",\"m\":\"{m}\",\"a\":[],\"ok\":false"));
                None
            }
        }
    }

    /// A call that consumes the writer and gives another for the same object.
    pub fn conv(&mut self, m: &str, a: &[V]) {
        self.hit_m(m);
        self.ev(&format!("\"e\":\"conv\",\"m\":\"{m}\",\"a\":{}", jvs(a)));
    }

    /// A call that consumes the writer and finishes its object.
    pub fn fill(&mut self, m: &str, a: &[V]) {
        self.hit_m(m);
        self.ev(&format!("\"e\":\"fill\",\"m\":\"{m}\",\"a\":{}", jvs(a)));
    }

    /// A call that starts another writer.
    pub fn sub(&mut self, m: &str, a: &[V]) {
        self.hit_m(m);
        self.ev(&format!("\"e\":\"sub\",\"m\":\"{m}\",\"a\":{}", jvs(a)));
    }

    pub fn end(&mut self) {
        self.ev("\"e\":\"end\"");
    }
}
