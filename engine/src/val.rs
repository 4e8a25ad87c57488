use crate::expr::{cst, E};
use std::rc::Rc;

/// A register value: a concrete scalar of at most 64 bits, an expression, or an aggregate.
#[derive(Clone, Debug)]
pub enum V {
    C(u64),
    E(E),
    A(Rc<Vec<V>>),
}

impl V {
    #[inline]
    pub fn c(&self) -> u64 {
        match self {
            V::C(x) => *x,
            V::E(e) => match crate::expr::as_const(*e) {
                Some(v) => v as u64,
                None => crate::exec::give_up("concrete value expected"),
            },
            V::A(_) => crate::exec::give_up("scalar value expected"),
        }
    }
    /// as an expression of width w
    #[inline]
    pub fn e(&self, w: u32) -> E {
        match self {
            V::C(x) => cst(*x as u128, w),
            V::E(e) => *e,
            V::A(_) => crate::exec::give_up("scalar value expected"),
        }
    }
    #[inline]
    pub fn of(e: E) -> V {
        let n = crate::expr::node(e);
        if n.w <= 64 {
            if let crate::expr::Op::Const(c) = n.op {
                return V::C(c as u64);
            }
        }
        V::E(e)
    }
    #[inline]
    pub fn is_c(&self) -> bool {
        matches!(self, V::C(_))
    }
}
