//! Monitor A08: which combinations of geometric objects the compiled crate
//! lets a program make. Each question is put to the crate's types through a
//! probe that exists in two forms; the one the types select answers at run time.

use std::marker::PhantomData;
use std::ops::{Add, AddAssign, Mul, Sub, SubAssign};

use harness::core::*;
use harness::ensure;
use num_bigint::BigInt;
use num_rational::BigRational;
use rust_systre::arithmetic::geometry::{AffineMap, CoordinateMap, Point, ScalarProduct, Vector};
use rust_systre::arithmetic::matrices::Matrix;
use rust_systre::pgraphs::{Edge, Graph, LabelVector2d, LabelVector3d};

#[derive(Clone, Copy, Debug, Eq, PartialEq, Hash, Ord, PartialOrd)]
struct A {}
#[derive(Clone, Copy, Debug, Eq, PartialEq, Hash, Ord, PartialOrd)]
struct B {}
#[derive(Clone, Copy, Debug, Eq, PartialEq, Hash, Ord, PartialOrd)]
struct C {}

type Q = BigRational;

struct Probe<L, R>(PhantomData<(L, R)>);

macro_rules! probe {
    ($no:ident, $yes:ident, $bound:ident, $f:ident) => {
        trait $no {
            fn $f(&self) -> bool { false }
        }
        impl<L, R> $no for &Probe<L, R> {}
        trait $yes {
            fn $f(&self) -> bool { true }
        }
        impl<L: $bound<R>, R> $yes for Probe<L, R> {}
    };
}
probe!(NoAdd, YesAdd, Add, adds);
probe!(NoSub, YesSub, Sub, subtracts);
probe!(NoAddAssign, YesAddAssign, AddAssign, adds_in_place);
probe!(NoSubAssign, YesSubAssign, SubAssign, subtracts_in_place);
probe!(NoMul, YesMul, Mul, multiplies);
probe!(NoEq, YesEq, PartialEq, compares);

struct Answer {
    what: String,
    allowed: bool,
    wanted: bool,
}

fn answers() -> Vec<Answer> {
    let mut out = vec![];
    macro_rules! ask {
        ($wanted:expr, $f:ident, $l:ty, $r:ty) => {
            out.push(Answer {
                what: format!("{} {} {}", stringify!($l), stringify!($f), stringify!($r)),
                allowed: (&Probe::<$l, $r>(PhantomData)).$f(),
                wanted: $wanted,
            });
        };
    }
    macro_rules! number {
        ($t:ty) => {
            // sums and differences of vectors: in one coordinate system only
            ask!(true, adds, Vector<$t, A>, Vector<$t, A>);
            ask!(true, adds, Vector<$t, A>, &'static Vector<$t, A>);
            ask!(true, adds, &'static Vector<$t, A>, Vector<$t, A>);
            ask!(true, subtracts, Vector<$t, A>, Vector<$t, A>);
            ask!(true, adds_in_place, Vector<$t, A>, Vector<$t, A>);
            ask!(true, subtracts_in_place, Vector<$t, A>, Vector<$t, A>);
            ask!(false, adds, Vector<$t, A>, Vector<$t, B>);
            ask!(false, adds, Vector<$t, A>, &'static Vector<$t, B>);
            ask!(false, adds, &'static Vector<$t, A>, Vector<$t, B>);
            ask!(false, adds, &'static Vector<$t, A>, &'static Vector<$t, B>);
            ask!(false, subtracts, Vector<$t, A>, Vector<$t, B>);
            ask!(false, subtracts, Vector<$t, A>, &'static Vector<$t, B>);
            ask!(false, subtracts, &'static Vector<$t, A>, Vector<$t, B>);
            ask!(false, subtracts, &'static Vector<$t, A>, &'static Vector<$t, B>);
            ask!(false, adds_in_place, Vector<$t, A>, Vector<$t, B>);
            ask!(false, adds_in_place, Vector<$t, A>, &'static Vector<$t, B>);
            ask!(false, subtracts_in_place, Vector<$t, A>, Vector<$t, B>);
            ask!(false, subtracts_in_place, Vector<$t, A>, &'static Vector<$t, B>);
            // points: moved by vectors, differences are vectors, no sums
            ask!(true, adds, Point<$t, A>, Vector<$t, A>);
            ask!(true, subtracts, Point<$t, A>, Vector<$t, A>);
            ask!(true, subtracts, Point<$t, A>, Point<$t, A>);
            ask!(true, adds_in_place, Point<$t, A>, Vector<$t, A>);
            ask!(false, adds, Point<$t, A>, Point<$t, A>);
            ask!(false, adds, Point<$t, A>, &'static Point<$t, A>);
            ask!(false, adds, &'static Point<$t, A>, Point<$t, A>);
            ask!(false, adds, &'static Point<$t, A>, &'static Point<$t, A>);
            ask!(false, adds_in_place, Point<$t, A>, Point<$t, A>);
            ask!(false, adds_in_place, Point<$t, A>, &'static Point<$t, A>);
            ask!(false, subtracts_in_place, Point<$t, A>, Point<$t, A>);
            ask!(false, adds, Point<$t, A>, Vector<$t, B>);
            ask!(false, adds, Point<$t, A>, &'static Vector<$t, B>);
            ask!(false, adds, &'static Point<$t, A>, Vector<$t, B>);
            ask!(false, adds, &'static Point<$t, A>, &'static Vector<$t, B>);
            ask!(false, subtracts, Point<$t, A>, Vector<$t, B>);
            ask!(false, subtracts, &'static Point<$t, A>, &'static Vector<$t, B>);
            ask!(false, subtracts, Point<$t, A>, Point<$t, B>);
            ask!(false, subtracts, Point<$t, A>, &'static Point<$t, B>);
            ask!(false, subtracts, &'static Point<$t, A>, Point<$t, B>);
            ask!(false, subtracts, &'static Point<$t, A>, &'static Point<$t, B>);
            ask!(false, adds_in_place, Point<$t, A>, Vector<$t, B>);
            ask!(false, subtracts_in_place, Point<$t, A>, Vector<$t, B>);
            ask!(false, subtracts, Vector<$t, A>, Point<$t, A>);
            ask!(false, subtracts, &'static Vector<$t, A>, &'static Point<$t, A>);
            ask!(false, multiplies, Point<$t, A>, Point<$t, A>);
            // comparisons
            ask!(true, compares, Vector<$t, A>, Vector<$t, A>);
            ask!(true, compares, Point<$t, A>, Point<$t, A>);
            ask!(false, compares, Vector<$t, A>, Vector<$t, B>);
            ask!(false, compares, Point<$t, A>, Point<$t, B>);
            ask!(false, compares, Vector<$t, A>, Point<$t, A>);
            ask!(false, compares, Point<$t, A>, Vector<$t, A>);
        };
    }
    number!(i32);
    number!(i64);
    number!(f64);
    number!(BigInt);
    number!(Q);
    // maps act on objects of their own system
    ask!(true, multiplies, &'static AffineMap<Q, A>, &'static AffineMap<Q, A>);
    ask!(true, multiplies, &'static AffineMap<Q, A>, &'static Point<Q, A>);
    ask!(true, multiplies, &'static AffineMap<Q, A>, &'static Vector<Q, A>);
    ask!(false, multiplies, &'static AffineMap<Q, A>, &'static AffineMap<Q, B>);
    ask!(false, multiplies, &'static AffineMap<Q, A>, &'static Point<Q, B>);
    ask!(false, multiplies, &'static AffineMap<Q, A>, &'static Vector<Q, B>);
    ask!(true, multiplies, &'static CoordinateMap<Q, A, B>, &'static Point<Q, A>);
    ask!(true, multiplies, &'static CoordinateMap<Q, A, B>, &'static Vector<Q, A>);
    ask!(true, multiplies, &'static CoordinateMap<Q, A, B>, &'static AffineMap<Q, A>);
    ask!(true, multiplies, &'static CoordinateMap<Q, A, B>, &'static ScalarProduct<Q, A>);
    ask!(true, multiplies, &'static CoordinateMap<Q, B, C>, &'static CoordinateMap<Q, A, B>);
    ask!(false, multiplies, &'static CoordinateMap<Q, A, B>, &'static Point<Q, B>);
    ask!(false, multiplies, &'static CoordinateMap<Q, A, B>, &'static Vector<Q, B>);
    ask!(false, multiplies, &'static CoordinateMap<Q, A, B>, &'static AffineMap<Q, B>);
    ask!(false, multiplies, &'static CoordinateMap<Q, A, B>, &'static ScalarProduct<Q, B>);
    ask!(false, multiplies, &'static CoordinateMap<Q, A, B>, &'static CoordinateMap<Q, B, C>);
    ask!(false, multiplies, &'static CoordinateMap<Q, A, B>, &'static CoordinateMap<Q, A, B>);
    ask!(false, multiplies, &'static CoordinateMap<Q, A, B>, &'static CoordinateMap<Q, A, C>);
    ask!(true, compares, AffineMap<Q, A>, AffineMap<Q, A>);
    ask!(true, compares, CoordinateMap<Q, A, B>, CoordinateMap<Q, A, B>);
    ask!(true, compares, ScalarProduct<Q, A>, ScalarProduct<Q, A>);
    ask!(false, compares, AffineMap<Q, A>, AffineMap<Q, B>);
    ask!(false, compares, CoordinateMap<Q, A, B>, CoordinateMap<Q, A, C>);
    ask!(false, compares, CoordinateMap<Q, A, B>, CoordinateMap<Q, C, B>);
    ask!(false, compares, ScalarProduct<Q, A>, ScalarProduct<Q, B>);
    // labels
    ask!(true, adds, LabelVector2d<A>, LabelVector2d<A>);
    ask!(true, subtracts, LabelVector3d<A>, LabelVector3d<A>);
    ask!(false, adds, LabelVector2d<A>, LabelVector2d<B>);
    ask!(false, subtracts, LabelVector2d<A>, LabelVector2d<B>);
    ask!(false, adds, LabelVector3d<A>, LabelVector3d<B>);
    ask!(false, subtracts, LabelVector3d<A>, LabelVector3d<B>);
    ask!(false, adds, LabelVector2d<A>, LabelVector3d<A>);
    ask!(false, adds, LabelVector3d<A>, LabelVector2d<A>);
    ask!(false, compares, LabelVector2d<A>, LabelVector2d<B>);
    ask!(false, compares, LabelVector2d<A>, LabelVector3d<A>);
    ask!(true, compares, Edge<LabelVector2d<A>, A>, Edge<LabelVector2d<A>, A>);
    ask!(false, compares, Edge<LabelVector2d<A>, A>, Edge<LabelVector2d<B>, B>);
    ask!(false, compares, Edge<LabelVector2d<A>, A>, Edge<LabelVector3d<A>, A>);
    ask!(false, multiplies, Graph<LabelVector2d<A>, A>, Graph<LabelVector2d<A>, A>);
    // matrices of different entries
    ask!(true, adds, Matrix<i64>, Matrix<i64>);
    ask!(false, adds, Matrix<i64>, Matrix<i32>);
    ask!(false, multiplies, Matrix<i64>, Matrix<f64>);
    ask!(false, compares, Matrix<i64>, Matrix<i32>);
    out
}

fn a08(cx: &mut Ctx) -> Res {
    let all = answers();
    let a = &all[cx.case as usize % all.len()];
    cx.describe(a.what.clone());
    cx.count(if a.wanted { "combinations with a meaning" } else { "combinations without a meaning" });
    ensure!(a.allowed || !a.wanted, "a program cannot write this combination");
    ensure!(a.wanted || !a.allowed, "a program may write this combination, which has no meaning");
    cx.nontrivial();
    Ok(())
}

fn main() {
    main_with(&[Prop {
        id: "A08", rule: "each combination of two kinds of objects and an operation, put to the compiled crate once; distinct by combination",
        quick: answers().len() as u64, thorough: answers().len() as u64, run: a08,
        need: &[("combinations with a meaning", 40), ("combinations without a meaning", 150)],
        assumptions: &["combinations are those listed in the monitor"],
    }])
}
