//! The neutral value tree that the reference decoder and the code under test are compared in.

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    N(i64),
    /// A flat array of numbers.
    A(Vec<i64>),
    B(Vec<u8>),
    L(Vec<V>),
    R(Vec<(&'static str, V)>),
    /// A variant.
    T(&'static str, Box<V>),
    None,
    S(Box<V>),
}

pub fn some(v: V) -> V {
    V::S(Box::new(v))
}

pub fn tag(name: &'static str, v: V) -> V {
    V::T(name, Box::new(v))
}

/// Describe the first difference, the left side being what was expected.
pub fn diff(expected: &V, found: &V) -> Option<String> {
    let mut path = String::new();
    walk(expected, found, &mut path)
}

fn short(v: &V) -> String {
    let mut s = format!("{v:?}");
    if s.len() > 160 {
        let mut end = 160;
        while !s.is_char_boundary(end) {
            end -= 1;
        }
        s.truncate(end);
        s.push_str("...");
    }
    s
}

fn walk(a: &V, b: &V, path: &mut String) -> Option<String> {
    let report = |path: &str, a: &V, b: &V| Some(format!("{path}: expected {}, found {}", short(a), short(b)));
    let mark = path.len();
    match (a, b) {
        (V::L(x), V::L(y)) => {
            for (i, (p, q)) in x.iter().zip(y).enumerate() {
                path.push_str(&format!("[{i}]"));
                if let Some(d) = walk(p, q, path) {
                    return Some(d);
                }
                path.truncate(mark);
            }
            if x.len() != y.len() {
                return Some(format!("{path}: expected {} items, found {}", x.len(), y.len()));
            }
            None
        }
        (V::A(x), V::A(y)) => {
            if x == y {
                return None;
            }
            for (i, (p, q)) in x.iter().zip(y).enumerate() {
                if p != q {
                    return Some(format!("{path}[{i}]: expected {p}, found {q}"));
                }
            }
            Some(format!("{path}: expected {} items, found {}", x.len(), y.len()))
        }
        (V::B(x), V::B(y)) => {
            if x == y {
                return None;
            }
            for (i, (p, q)) in x.iter().zip(y).enumerate() {
                if p != q {
                    return Some(format!("{path}[{i}]: expected {p}, found {q}"));
                }
            }
            Some(format!("{path}: expected {} bytes, found {}", x.len(), y.len()))
        }
        (V::R(x), V::R(y)) => {
            if x.len() != y.len() {
                return report(path, a, b);
            }
            for (name, p) in x {
                path.push('.');
                path.push_str(name);
                match y.iter().find(|(other, _)| other == name) {
                    Some((_, q)) => {
                        if let Some(d) = walk(p, q, path) {
                            return Some(d);
                        }
                    }
                    None => panic!("HARNESS: field {path} missing in projection"),
                }
                path.truncate(mark);
            }
            None
        }
        (V::T(m, p), V::T(n, q)) => {
            if m != n {
                return report(path, a, b);
            }
            path.push('/');
            path.push_str(m);
            let d = walk(p, q, path);
            path.truncate(mark);
            d
        }
        (V::S(p), V::S(q)) => {
            path.push('?');
            let d = walk(p, q, path);
            path.truncate(mark);
            d
        }
        _ => {
            if a == b {
                None
            } else {
                report(path, a, b)
            }
        }
    }
}

#[macro_export]
macro_rules! rec {
    ($($name:ident : $value:expr),* $(,)?) => {
        $crate::value::V::R(vec![$((stringify!($name), $value)),*])
    };
}
