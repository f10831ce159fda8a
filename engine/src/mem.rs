//! Copy-on-write paged memory with a symbolic overlay.
use crate::expr::Ex;
use std::rc::Rc;

pub const PS: usize = 256;

#[derive(Clone)]
pub struct Page {
    pub d: [u8; PS],
    pub s: Option<Box<[Ex; PS]>>,
}

impl Page {
    pub fn zero() -> Self {
        Page { d: [0; PS], s: None }
    }
}

type L3 = [Option<Rc<Page>>; 256];
type L2 = [Option<Rc<L3>>; 256];
type L1 = [Option<Rc<L2>>; 256];

/// 4 GiB address space: 8 bits per level, 256-byte pages.
#[derive(Clone)]
pub struct Mem {
    root: Rc<L1>,
}

fn empty<T>() -> [Option<Rc<T>>; 256] {
    std::array::from_fn(|_| None)
}

impl Mem {
    pub fn new() -> Self {
        Mem { root: Rc::new(empty()) }
    }
    #[inline]
    pub fn page(&self, a: u64) -> Option<&Page> {
        if a >> 32 != 0 {
            return None;
        }
        let l2 = self.root[(a >> 24) as usize & 255].as_ref()?;
        let l3 = l2[(a >> 16) as usize & 255].as_ref()?;
        l3[(a >> 8) as usize & 255].as_deref()
    }
    /// Slot for the page of `a` (intermediate levels created).
    pub fn slot(&mut self, a: u64) -> &mut Option<Rc<Page>> {
        let l1 = Rc::make_mut(&mut self.root);
        let l2 = Rc::make_mut(l1[(a >> 24) as usize & 255].get_or_insert_with(|| Rc::new(empty())));
        let l3 = Rc::make_mut(l2[(a >> 16) as usize & 255].get_or_insert_with(|| Rc::new(empty())));
        &mut l3[(a >> 8) as usize & 255]
    }
    #[inline]
    pub fn page_mut(&mut self, a: u64) -> Option<&mut Page> {
        if a >> 32 != 0 {
            return None;
        }
        self.slot(a).as_mut().map(Rc::make_mut)
    }
    pub fn insert(&mut self, a: u64, p: Rc<Page>) {
        *self.slot(a) = Some(p);
    }
}
