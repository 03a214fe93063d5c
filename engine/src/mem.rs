//! Paged copy-on-write memory with per-byte symbolic overlay.
use crate::expr::E;
use crate::ir::{FN_BASE, GLOB_BASE, HEAP_BASE, PAGE, STACK_BASE};
use std::rc::Rc;

pub const NOSYM: u32 = u32::MAX;

#[derive(Clone)]
pub struct Page {
    pub data: [u8; PAGE],
    pub sym: Option<Box<[u32; PAGE]>>,
}

type Region = Rc<Vec<Option<Rc<Page>>>>;

#[derive(Clone)]
pub struct Mem {
    glob: Region,
    stack: Region,
    heap: Region,
    pub heap_ptr: u64,
    pub sp: u64,
}

#[derive(Clone, Copy, Debug)]
pub enum B {
    C(u8),
    S(E),
}

impl Mem {
    pub fn new(image: &[u8]) -> Mem {
        let glob = image
            .chunks(PAGE)
            .map(|c| {
                let mut d = [0u8; PAGE];
                d[..c.len()].copy_from_slice(c);
                Some(Rc::new(Page { data: d, sym: None }))
            })
            .collect();
        Mem {
            glob: Rc::new(glob),
            stack: Rc::new(vec![]),
            heap: Rc::new(vec![]),
            heap_ptr: HEAP_BASE + 64,
            sp: STACK_BASE + 64,
        }
    }

    #[inline]
    fn locate(&self, a: u64) -> Result<(u8, usize, usize), String> {
        let (r, o) = if a >= HEAP_BASE && a < self.heap_ptr {
            (2, a - HEAP_BASE)
        } else if a >= STACK_BASE && a < self.sp {
            (1, a - STACK_BASE)
        } else if a >= GLOB_BASE && a < FN_BASE && ((a - GLOB_BASE) as usize) < self.glob.len() * PAGE {
            (0, a - GLOB_BASE)
        } else {
            return Err(format!("wild access at {a:#x}"));
        };
        Ok((r, (o as usize) / PAGE, (o as usize) % PAGE))
    }
    #[inline]
    fn region(&self, r: u8) -> &Region {
        match r {
            0 => &self.glob,
            1 => &self.stack,
            _ => &self.heap,
        }
    }
    fn page_mut(&mut self, r: u8, p: usize) -> &mut Page {
        let reg = match r {
            0 => &mut self.glob,
            1 => &mut self.stack,
            _ => &mut self.heap,
        };
        let v = Rc::make_mut(reg);
        while v.len() <= p {
            v.push(None);
        }
        let pg = v[p].get_or_insert_with(|| Rc::new(Page { data: [0; PAGE], sym: None }));
        Rc::make_mut(pg)
    }

    pub fn read(&self, a: u64) -> Result<B, String> {
        let (r, p, o) = self.locate(a)?;
        Ok(match self.region(r).get(p) {
            Some(Some(pg)) => {
                if let Some(s) = &pg.sym {
                    if s[o] != NOSYM {
                        return Ok(B::S(s[o]));
                    }
                }
                B::C(pg.data[o])
            }
            _ => B::C(0),
        })
    }

    /// Reads up to 8 concrete bytes; None if any is symbolic.
    #[inline]
    pub fn read_conc(&self, a: u64, n: usize) -> Result<Option<u64>, String> {
        let (r, p, o) = self.locate(a)?;
        self.locate(a + n as u64 - 1)?;
        if o + n <= PAGE {
            match self.region(r).get(p) {
                Some(Some(pg)) => {
                    if let Some(s) = &pg.sym {
                        if s[o..o + n].iter().any(|x| *x != NOSYM) {
                            return Ok(None);
                        }
                    }
                    let mut b = [0u8; 8];
                    b[..n].copy_from_slice(&pg.data[o..o + n]);
                    Ok(Some(u64::from_le_bytes(b)))
                }
                _ => Ok(Some(0)),
            }
        } else {
            let mut x = 0u64;
            for i in 0..n {
                match self.read(a + i as u64)? {
                    B::C(c) => x |= (c as u64) << (8 * i),
                    B::S(_) => return Ok(None),
                }
            }
            Ok(Some(x))
        }
    }

    pub fn write(&mut self, a: u64, b: B) -> Result<(), String> {
        let (r, p, o) = self.locate(a)?;
        let pg = self.page_mut(r, p);
        match b {
            B::C(c) => {
                pg.data[o] = c;
                if let Some(s) = &mut pg.sym {
                    s[o] = NOSYM;
                }
            }
            B::S(e) => {
                let s = pg.sym.get_or_insert_with(|| Box::new([NOSYM; PAGE]));
                s[o] = e;
            }
        }
        Ok(())
    }

    #[inline]
    pub fn write_conc(&mut self, a: u64, n: usize, v: u64) -> Result<(), String> {
        if n == 0 {
            return Ok(());
        }
        let (r, p, o) = self.locate(a)?;
        if o + n <= PAGE {
            self.locate(a + n as u64 - 1)?;
            let pg = self.page_mut(r, p);
            pg.data[o..o + n].copy_from_slice(&v.to_le_bytes()[..n]);
            if let Some(s) = &mut pg.sym {
                for x in &mut s[o..o + n] {
                    *x = NOSYM;
                }
            }
            Ok(())
        } else {
            let b = v.to_le_bytes();
            for i in 0..n {
                self.write(a + i as u64, B::C(b[i]))?;
            }
            Ok(())
        }
    }

    pub fn read_vec(&self, a: u64, n: u64) -> Result<Vec<B>, String> {
        let mut v = Vec::with_capacity(n as usize);
        let mut i = 0;
        while i < n {
            let (r, p, o) = self.locate(a + i)?;
            let k = ((PAGE - o) as u64).min(n - i) as usize;
            self.locate(a + i + k as u64 - 1)?;
            match self.region(r).get(p) {
                Some(Some(pg)) => match &pg.sym {
                    None => v.extend(pg.data[o..o + k].iter().map(|c| B::C(*c))),
                    Some(s) => {
                        for j in o..o + k {
                            v.push(if s[j] != NOSYM { B::S(s[j]) } else { B::C(pg.data[j]) });
                        }
                    }
                },
                _ => v.extend(std::iter::repeat(B::C(0)).take(k)),
            }
            i += k as u64;
        }
        Ok(v)
    }
    pub fn write_vec(&mut self, a: u64, b: &[B]) -> Result<(), String> {
        let mut i = 0;
        while i < b.len() {
            let (r, p, o) = self.locate(a + i as u64)?;
            let k = (PAGE - o).min(b.len() - i);
            self.locate(a + (i + k) as u64 - 1)?;
            let pg = self.page_mut(r, p);
            for j in 0..k {
                match b[i + j] {
                    B::C(c) => {
                        pg.data[o + j] = c;
                        if let Some(s) = &mut pg.sym {
                            s[o + j] = NOSYM;
                        }
                    }
                    B::S(e) => {
                        let s = pg.sym.get_or_insert_with(|| Box::new([NOSYM; PAGE]));
                        s[o + j] = e;
                    }
                }
            }
            i += k;
        }
        Ok(())
    }
}
