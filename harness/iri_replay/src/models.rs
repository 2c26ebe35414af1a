//! The dependency models against the real dependencies, on seeded random operations. This is no
//! part of a verdict: it validates the environment the solver runs use.
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) | 1)
    }
    pub fn below(&mut self, n: usize) -> usize {
        self.next(n)
    }
    fn next(&mut self, n: usize) -> usize {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        ((self.0 >> 20) % n as u64) as usize
    }
    fn pick<'a>(&mut self, of: &[&'a str]) -> &'a str {
        of[self.next(of.len())]
    }
    fn text(&mut self, max: usize) -> String {
        const A: &[&str] = &["a", "b", "Z", "0", "-", ".", "_", "~", "/", "/", ":", "%", "%2e", "@", "!", "+", " ", "<", "\"", "{", "`", "\\", "|", "'", "?", "#"];
        let n = self.next(max + 1);
        (0..n).map(|_| self.pick(A)).collect()
    }
    fn url(&mut self) -> String {
        let mut s = String::from(self.pick(&["http:", "https:", "a:", "urn:", "ftp:", "x-y:", "a", "", "1:", "file:"]));
        if self.next(3) > 0 {
            s.push_str("//");
            s.push_str(self.pick(&["h", "h.example", "h:8080", "", "a-b.c", "h:80"]));
        }
        if self.next(4) > 0 {
            s.push_str(self.pick(&["/", "/", "", "x"]));
        }
        s.push_str(&self.text(5));
        if self.next(3) == 0 {
            s.push('?');
            s.push_str(&self.text(3));
        }
        if self.next(3) == 0 {
            s.push('#');
            s.push_str(&self.text(3));
        }
        s
    }
}

/// None: outside the model.
fn modelled<T>(f: impl FnOnce() -> T) -> Option<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Some(v),
        Err(e) => {
            let why = e.downcast_ref::<String>().cloned().unwrap_or_default();
            if why.starts_with("url-model: unmodelled") {
                None
            } else {
                panic!("the url model panics: {why}")
            }
        }
    }
}

macro_rules! facts {
    ($u:expr) => {{
        let u = $u;
        format!(
            "{} | {} | {:?} | {:?} | {} | {:?} | {:?} | {} | {:?} | {}",
            u.as_str(),
            u.scheme(),
            u.host_str(),
            u.port(),
            u.path(),
            u.query(),
            u.fragment(),
            u.cannot_be_a_base(),
            u.path_segments().map(|s| s.collect::<Vec<_>>()),
            u.has_authority(),
        )
    }};
}

fn same(what: &str, model: String, real: String) {
    if model != real {
        println!("MODEL MISMATCH {what}\n model: {model}\n real:  {real}");
        std::process::exit(1)
    }
}

pub fn compare(seed: u64, rounds: u64) {
    let mut r = Rng(seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) | 1);
    let (mut parsed, mut refused, mut outside, mut edits) = (0u64, 0u64, 0u64, 0u64);
    for _ in 0..rounds {
        let s = r.url();
        let real = url::Url::parse(&s);
        let Some(model) = modelled(|| url_model::Url::parse(&s)) else {
            outside += 1;
            continue;
        };
        let (Ok(mut m), Ok(mut w)) = (model.clone(), real.clone()) else {
            same(
                &format!("parse {s:?}"),
                format!("{:?}", model.map_err(|e| e.to_string())),
                format!("{:?}", real.map(|u| u.to_string()).map_err(|e| e.to_string())),
            );
            refused += 1;
            continue;
        };
        same(&format!("parse {s:?}"), facts!(&m), facts!(&w));
        parsed += 1;
        for _ in 0..3 {
            let before = m.to_string();
            let t = r.text(4);
            let what = r.next(9);
            let done = modelled(|| {
                let mut m = m.clone();
                match what {
                    0 => m.set_path(&t),
                    1 => m.set_query(Some(&t)),
                    2 => m.set_query(None),
                    3 => m.set_fragment(Some(&t)),
                    4 => m.set_fragment(None),
                    6 => drop(m.path_segments_mut().map(|mut p| drop(p.push(&t)))),
                    7 => drop(m.path_segments_mut().map(|mut p| drop(p.pop()))),
                    8 => drop(m.path_segments_mut().map(|mut p| drop(p.pop_if_empty()))),
                    _ => match m.join(&t) {
                        Ok(j) => m = j,
                        Err(e) => return Err(e.to_string()),
                    },
                }
                Ok(m)
            });
            let Some(done) = done else {
                outside += 1;
                continue;
            };
            let mut failed = None;
            match what {
                0 => w.set_path(&t),
                1 => w.set_query(Some(&t)),
                2 => w.set_query(None),
                3 => w.set_fragment(Some(&t)),
                4 => w.set_fragment(None),
                6 => drop(w.path_segments_mut().map(|mut p| drop(p.push(&t)))),
                7 => drop(w.path_segments_mut().map(|mut p| drop(p.pop()))),
                8 => drop(w.path_segments_mut().map(|mut p| drop(p.pop_if_empty()))),
                _ => match w.join(&t) {
                    Ok(j) => w = j,
                    Err(e) => failed = Some(e.to_string()),
                },
            }
            edits += 1;
            let label = format!("operation {what} with {t:?} on {before:?}");
            match done {
                Ok(n) => {
                    same(&label, facts!(&n), failed.unwrap_or(facts!(&w)));
                    m = n;
                }
                Err(e) => same(&label, e, failed.unwrap_or_default()),
            }
        }
    }
    println!("url model: {parsed} URLs and {edits} edits agree, {refused} refused alike, {outside} outside the model");

    let mut ops = 0u64;
    for _ in 0..rounds / 10 {
        let mut m = bimap_model::BiBTreeMap::<u8, u8>::new();
        let mut w = bimap::BiBTreeMap::<u8, u8>::new();
        for _ in 0..10 {
            let (a, b) = (r.next(4) as u8, r.next(4) as u8);
            ops += 1;
            let (x, y) = match r.next(8) {
                0..=2 => (format!("{:?}", m.insert(a, b)), format!("{:?}", w.insert(a, b))),
                3 => (format!("{:?}", m.insert_no_overwrite(a, b)), format!("{:?}", w.insert_no_overwrite(a, b))),
                4 => (format!("{:?}", m.remove_by_left(&a)), format!("{:?}", w.remove_by_left(&a))),
                5 => (format!("{:?}", m.remove_by_right(&b)), format!("{:?}", w.remove_by_right(&b))),
                6 => {
                    m.retain(|l, r| l + r != a);
                    w.retain(|l, r| l + r != a);
                    (String::new(), String::new())
                }
                _ => {
                    let (m2, w2) = (m.clone(), w.clone());
                    (format!("{}", m2 == m), format!("{}", w2 == w))
                }
            };
            same("map operation", x, y);
            macro_rules! map_facts {
                ($m:expr) => {
                    format!(
                        "{:?} {:?} {:?} {:?} {} {} {:?} {:?} {} {}",
                        $m.iter().collect::<Vec<_>>(),
                        $m.iter().rev().collect::<Vec<_>>(),
                        $m.left_values().collect::<Vec<_>>(),
                        $m.right_values().collect::<Vec<_>>(),
                        $m.len(),
                        $m.is_empty(),
                        $m.get_by_left(&a),
                        $m.get_by_right(&b),
                        $m.contains_left(&b),
                        $m.contains_right(&a),
                    )
                };
            }
            same("map contents", map_facts!(m), map_facts!(w));
        }
    }
    println!("bimap model: {ops} operations agree");
}
