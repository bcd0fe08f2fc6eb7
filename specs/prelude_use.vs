use vstd::prelude::*;
use vstd::multiset::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use std::ops::{Add, Sub, Div, Mul, Neg, Rem};
use std::cmp::Ordering;
use std::marker::PhantomData;
