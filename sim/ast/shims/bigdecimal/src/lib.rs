//! Stand-in for the crate of this name (not available offline): just what sm_ast uses.
use num::{BigInt, Num, One, Zero};
use std::cmp::Ordering;

#[derive(Clone, Debug, Hash)]
pub struct BigDecimal {
    digits: BigInt,
    scale: usize,
}

impl BigDecimal {
    pub fn from_str_radix(s: &str, radix: u32) -> Result<Self, String> {
        let (a, b) = match s.find('.') {
            Some(i) => (&s[..i], &s[i + 1..]),
            None => (s, ""),
        };
        let all: String = [a, b].concat();
        let digits = BigInt::from_str_radix(&all, radix).map_err(|e| format!("{:?}", e))?;
        Ok(BigDecimal { digits, scale: b.len() })
    }
    fn at(&self, scale: usize) -> BigInt {
        let mut d = self.digits.clone();
        for _ in self.scale..scale {
            d = d * 10;
        }
        d
    }
    pub fn is_zero(&self) -> bool {
        self.digits.is_zero()
    }
    pub fn is_one(&self) -> bool {
        let mut one = BigInt::one();
        for _ in 0..self.scale {
            one = one * 10;
        }
        self.digits == one
    }
}
impl Ord for BigDecimal {
    fn cmp(&self, o: &Self) -> Ordering {
        let s = self.scale.max(o.scale);
        self.at(s).cmp(&o.at(s))
    }
}
impl PartialOrd for BigDecimal {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl PartialEq for BigDecimal {
    fn eq(&self, o: &Self) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for BigDecimal {}
impl std::fmt::Display for BigDecimal {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        let s = self.digits.to_string();
        let (sign, s) = match s.strip_prefix('-') {
            Some(r) => ("-", r.to_string()),
            None => ("", s),
        };
        let s = format!("{:0>w$}", s, w = self.scale + 1);
        let (a, b) = s.split_at(s.len() - self.scale);
        if b.is_empty() { write!(f, "{}{}", sign, a) } else { write!(f, "{}{}.{}", sign, a, b) }
    }
}
