//! Copy-on-write flat memory with per-byte symbolic contents.
use crate::expr::*;
use std::rc::Rc;

pub const PG: usize = 4096;
#[derive(Clone)]
pub struct Page {
    pub b: [u8; PG],
    /// per byte: 0 = concrete, otherwise an 8-bit expression
    pub s: Option<Box<[E; PG]>>,
}
#[derive(Clone)]
pub struct Mem {
    regions: [Rc<Vec<Option<Rc<Page>>>>; 4],
}
pub const GLOBAL: u64 = 1 << 40;
pub const STACK: u64 = 2 << 40;
pub const HEAP: u64 = 3 << 40;
pub const FUNCS: u64 = 5 << 40;

#[derive(Debug)]
pub struct Bad(pub u64);

impl Mem {
    pub fn new() -> Self {
        let z = || Rc::new(Vec::new());
        Mem { regions: [z(), z(), z(), z()] }
    }
    #[inline]
    fn loc(a: u64) -> (usize, usize, usize) {
        let r = (a >> 40) as usize;
        let o = a & ((1 << 40) - 1);
        (r.min(4), (o >> 12) as usize, (o & 4095) as usize)
    }
    #[inline]
    fn page(&self, a: u64) -> Result<(&Page, usize), Bad> {
        let (r, p, o) = Self::loc(a);
        if r == 0 || r > 3 {
            return Err(Bad(a));
        }
        match self.regions[r].get(p) {
            Some(Some(x)) => Ok((x, o)),
            _ => Err(Bad(a)),
        }
    }
    #[inline]
    fn page_mut(&mut self, a: u64) -> Result<(&mut Page, usize), Bad> {
        let (r, p, o) = Self::loc(a);
        if r == 0 || r > 3 {
            return Err(Bad(a));
        }
        let reg = Rc::make_mut(&mut self.regions[r]);
        match reg.get_mut(p) {
            Some(Some(x)) => Ok((Rc::make_mut(x), o)),
            _ => Err(Bad(a)),
        }
    }
    pub fn map(&mut self, a: u64, n: u64) {
        if n == 0 {
            return;
        }
        let (r, p0, _) = Self::loc(a);
        let (_, p1, _) = Self::loc(a + n - 1);
        let mut need = false;
        for p in p0..=p1 {
            if !matches!(self.regions[r].get(p), Some(Some(_))) {
                need = true;
            }
        }
        if !need {
            return;
        }
        let reg = Rc::make_mut(&mut self.regions[r]);
        if reg.len() <= p1 {
            reg.resize(p1 + 1, None);
        }
        for p in p0..=p1 {
            if reg[p].is_none() {
                reg[p] = Some(Rc::new(Page { b: [0; PG], s: None }));
            }
        }
    }
    #[inline]
    pub fn byte(&self, a: u64) -> Result<(u8, E), Bad> {
        let (p, o) = self.page(a)?;
        Ok((p.b[o], p.s.as_ref().map_or(0, |s| s[o])))
    }
    #[inline]
    pub fn set_byte(&mut self, a: u64, v: u8, e: E) -> Result<(), Bad> {
        let (p, o) = self.page_mut(a)?;
        p.b[o] = v;
        if e != 0 {
            if p.s.is_none() {
                p.s = Some(Box::new([0; PG]));
            }
            p.s.as_mut().unwrap()[o] = e;
        } else if let Some(s) = &mut p.s {
            s[o] = 0;
        }
        Ok(())
    }
    /// Concrete little-endian read of up to 8 bytes; None if any byte is symbolic.
    #[inline]
    pub fn read_u(&self, a: u64, n: usize) -> Result<Option<u64>, Bad> {
        let (p, o) = self.page(a)?;
        if o + n <= PG {
            if let Some(s) = &p.s
                && s[o..o + n].iter().any(|x| *x != 0)
            {
                return Ok(None);
            }
            let mut buf = [0u8; 8];
            match n {
                8 => buf.copy_from_slice(&p.b[o..o + 8]),
                4 => buf[..4].copy_from_slice(&p.b[o..o + 4]),
                1 => buf[0] = p.b[o],
                _ => buf[..n].copy_from_slice(&p.b[o..o + n]),
            }
            return Ok(Some(u64::from_le_bytes(buf)));
        }
        let mut v = 0u64;
        for i in 0..n {
            let (b, e) = self.byte(a + i as u64)?;
            if e != 0 {
                return Ok(None);
            }
            v |= (b as u64) << (8 * i);
        }
        Ok(Some(v))
    }
    #[inline]
    pub fn write_u(&mut self, a: u64, n: usize, v: u64) -> Result<(), Bad> {
        let bytes = v.to_le_bytes();
        let (p, o) = self.page_mut(a)?;
        if o + n <= PG {
            p.b[o..o + n].copy_from_slice(&bytes[..n]);
            if let Some(s) = &mut p.s {
                s[o..o + n].fill(0);
            }
            return Ok(());
        }
        for i in 0..n {
            self.set_byte(a + i as u64, bytes[i], 0)?;
        }
        Ok(())
    }
    pub fn copy(&mut self, d: u64, s: u64, n: u64) -> Result<(), Bad> {
        if n == 0 || d == s {
            return Ok(());
        }
        let n = n as usize;
        let mut tb = vec![0u8; n];
        let mut te: Vec<E> = vec![];
        let mut i = 0;
        while i < n {
            let (p, o) = self.page(s + i as u64)?;
            let k = (PG - o).min(n - i);
            tb[i..i + k].copy_from_slice(&p.b[o..o + k]);
            if let Some(x) = &p.s {
                if te.is_empty() {
                    te.resize(n, 0);
                }
                te[i..i + k].copy_from_slice(&x[o..o + k]);
            }
            i += k;
        }
        self.write_bytes(d, &tb, &te)
    }
    pub fn write_bytes(&mut self, d: u64, tb: &[u8], te: &[E]) -> Result<(), Bad> {
        let n = tb.len();
        let mut i = 0;
        while i < n {
            let (p, o) = self.page_mut(d + i as u64)?;
            let k = (PG - o).min(n - i);
            p.b[o..o + k].copy_from_slice(&tb[i..i + k]);
            let sym = !te.is_empty() && te[i..i + k].iter().any(|x| *x != 0);
            if sym {
                if p.s.is_none() {
                    p.s = Some(Box::new([0; PG]));
                }
                p.s.as_mut().unwrap()[o..o + k].copy_from_slice(&te[i..i + k]);
            } else if let Some(x) = &mut p.s {
                x[o..o + k].fill(0);
            }
            i += k;
        }
        Ok(())
    }
    pub fn fill(&mut self, d: u64, v: u8, e: E, n: u64) -> Result<(), Bad> {
        let n = n as usize;
        let mut i = 0;
        while i < n {
            let (p, o) = self.page_mut(d + i as u64)?;
            let k = (PG - o).min(n - i);
            p.b[o..o + k].fill(v);
            if e != 0 {
                if p.s.is_none() {
                    p.s = Some(Box::new([0; PG]));
                }
                p.s.as_mut().unwrap()[o..o + k].fill(e);
            } else if let Some(x) = &mut p.s {
                x[o..o + k].fill(0);
            }
            i += k;
        }
        Ok(())
    }
}
