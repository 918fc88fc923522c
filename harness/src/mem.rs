//! A sparse, bounds-checked, copy-on-write `Memory`.
use ic_stable_structures::Memory;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

pub const PAGE: u64 = 65536;
const BLK: u64 = 16384;
type Blk = Rc<[u8; BLK as usize]>;

#[derive(Clone, Default)]
struct Inner {
    pages: u64,
    max_pages: u64,
    blocks: Vec<Option<Blk>>,
    /// blocks beyond the first `NEAR`
    far: BTreeMap<usize, Blk>,
}
const NEAR: usize = 1 << 14;

/// Cloning shares the memory; `snapshot` makes an independent copy.
#[derive(Clone)]
pub struct Mem(Rc<RefCell<Inner>>);

impl Mem {
    pub fn new() -> Self {
        Self::with_max(1 << 40)
    }
    pub fn with_max(max_pages: u64) -> Self {
        Mem(Rc::new(RefCell::new(Inner {
            pages: 0,
            max_pages,
            blocks: vec![],
            far: BTreeMap::new(),
        })))
    }
    pub fn snapshot(&self) -> Mem {
        Mem(Rc::new(RefCell::new(self.0.borrow().clone())))
    }
}

impl Memory for Mem {
    fn size(&self) -> u64 {
        self.0.borrow().pages
    }
    fn grow(&self, pages: u64) -> i64 {
        let mut i = self.0.borrow_mut();
        let old = i.pages;
        match old.checked_add(pages) {
            Some(n) if n <= i.max_pages => {
                i.pages = n;
                old as i64
            }
            _ => -1,
        }
    }
    fn read(&self, offset: u64, dst: &mut [u8]) {
        let i = self.0.borrow();
        let end = offset.checked_add(dst.len() as u64).expect("mem read overflow");
        assert!(end <= i.pages * PAGE, "memory read out of bounds");
        let mut off = offset;
        let mut pos = 0usize;
        while pos < dst.len() {
            let b = (off / BLK) as usize;
            let o = (off % BLK) as usize;
            let n = (BLK as usize - o).min(dst.len() - pos);
            let blk = if b < NEAR { i.blocks.get(b).and_then(|x| x.as_ref()) } else { i.far.get(&b) };
            match blk {
                Some(blk) => dst[pos..pos + n].copy_from_slice(&blk[o..o + n]),
                None => dst[pos..pos + n].fill(0),
            }
            pos += n;
            off += n as u64;
        }
    }
    fn write(&self, offset: u64, src: &[u8]) {
        let mut i = self.0.borrow_mut();
        let end = offset.checked_add(src.len() as u64).expect("mem write overflow");
        assert!(end <= i.pages * PAGE, "memory write out of bounds");
        let mut off = offset;
        let mut pos = 0usize;
        while pos < src.len() {
            let b = (off / BLK) as usize;
            let o = (off % BLK) as usize;
            let n = (BLK as usize - o).min(src.len() - pos);
            let part = &src[pos..pos + n];
            let blank = part.iter().all(|x| *x == 0);
            let i = &mut *i;
            let old = if b < NEAR { i.blocks.get_mut(b).and_then(|x| x.as_mut()) } else { i.far.get_mut(&b) };
            match old {
                Some(blk) => Rc::make_mut(blk)[o..o + n].copy_from_slice(part),
                None if blank => {}
                None => {
                    let mut v = [0u8; BLK as usize];
                    v[o..o + n].copy_from_slice(part);
                    let v = Rc::new(v);
                    if b < NEAR {
                        if b >= i.blocks.len() {
                            i.blocks.resize(b + 1, None);
                        }
                        i.blocks[b] = Some(v);
                    } else {
                        i.far.insert(b, v);
                    }
                }
            }
            pos += n;
            off += n as u64;
        }
    }
}
