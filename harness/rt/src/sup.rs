//! What the adapters of the generated code need.
pub use fbm::{Rng, V};
use std::any::Any;
use std::collections::{HashMap, VecDeque};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

// ---------------------------------------------------------------- reading

/// Budget of a reader and what it saw
pub struct Bud {
    pub left: usize,
    pub bytes_left: usize,
    pub depth: usize,
    pub max_depth: usize,
    pub cut: bool,
    /// Address range of the buffer
    pub range: Option<(usize, usize)>,
    /// Something outside of the buffer was handed out, or invalid UTF-8
    pub bad: Option<String>,
    pub tables: u64,
    pub strings: u64,
    pub vectors: u64,
    pub errors: u64,
}

impl Bud {
    pub fn new(nodes: usize, bytes: usize, max_depth: usize, buf: &[u8]) -> Self {
        let p = buf.as_ptr() as usize;
        Bud { range: Some((p, p + buf.len())), left: nodes, bytes_left: bytes, max_depth, ..Self::unlimited() }
    }
    pub fn unlimited() -> Self {
        Bud {
            left: usize::MAX,
            bytes_left: usize::MAX,
            depth: 0,
            max_depth: usize::MAX,
            cut: false,
            range: None,
            bad: None,
            tables: 0,
            strings: 0,
            vectors: 0,
            errors: 0,
        }
    }
    pub fn enter(&mut self) -> bool {
        if self.left == 0 || self.depth >= self.max_depth {
            self.cut = true;
            return false;
        }
        self.left -= 1;
        self.depth += 1;
        self.tables += 1;
        true
    }
    pub fn leave(&mut self) {
        self.depth -= 1;
    }
    /// One more element may be read
    pub fn elem(&mut self) -> bool {
        if self.left == 0 {
            self.cut = true;
            return false;
        }
        self.left -= 1;
        true
    }
    fn inside(&mut self, p: usize, n: usize, what: &str) {
        if let Some((a, b)) = self.range {
            if n > 0 && (p < a || p + n > b) {
                self.bad = Some(format!("{what} of length {n} outside of the buffer was handed out"));
            }
        }
    }
    fn take(&mut self, n: usize) -> bool {
        if self.bytes_left < n {
            self.cut = true;
            return false;
        }
        self.bytes_left -= n;
        true
    }
    pub fn string(&mut self, s: &str) -> V {
        self.strings += 1;
        self.inside(s.as_ptr() as usize, s.len(), "string");
        if !self.take(s.len()) {
            return V::Cut;
        }
        match std::str::from_utf8(s.as_bytes()) {
            Ok(s) => V::Str(s.to_string()),
            Err(_) => {
                self.bad = Some("a string with invalid UTF-8 was handed out".into());
                V::Cut
            }
        }
    }
    pub fn bytes<T: ByteLike>(&mut self, s: &[T]) -> V {
        self.vectors += 1;
        self.inside(s.as_ptr() as usize, s.len(), "byte vector");
        if !self.take(s.len()) {
            return V::Cut;
        }
        V::Vec(s.iter().map(|x| V::Int(x.val())).collect())
    }
    pub fn strukt(&mut self, _v: &V) {}
}

pub trait ByteLike {
    fn val(&self) -> i128;
}
impl ByteLike for u8 {
    fn val(&self) -> i128 {
        *self as i128
    }
}
impl ByteLike for i8 {
    fn val(&self) -> i128 {
        *self as i128
    }
}

pub fn kind_name(k: &planus::errors::ErrorKind) -> &'static str {
    use planus::errors::ErrorKind::*;
    match k {
        InvalidOffset => "InvalidOffset",
        InvalidLength => "InvalidLength",
        UnionVectorLengthsMismatched { .. } => "UnionVectorLengthsMismatched",
        UnknownEnumTag { .. } => "UnknownEnumTag",
        UnknownUnionTag { .. } => "UnknownUnionTag",
        InvalidVtableLength { .. } => "InvalidVtableLength",
        InvalidUtf8 { .. } => "InvalidUtf8",
        MissingRequired => "MissingRequired",
        MissingNullTerminator => "MissingNullTerminator",
        _ => "other",
    }
}
pub fn ek(e: &planus::Error) -> V {
    V::Err(kind_name(&e.error_kind).into())
}
pub fn eke(_e: &planus::errors::UnknownEnumTag) -> V {
    V::Err("UnknownEnumTag".into())
}

pub fn rd_vec<'a, T: planus::VectorRead<'a>>(
    v: planus::Vector<'a, T>,
    c: &mut Bud,
    f: impl Fn(T, &mut Bud) -> V,
) -> V {
    c.vectors += 1;
    let mut out = vec![];
    for x in v {
        if !c.elem() {
            out.push(V::Cut);
            break;
        }
        out.push(f(x, c));
    }
    V::Vec(out)
}
pub fn rd_uvec<'a, T: planus::VectorReadUnion<'a>>(
    v: planus::UnionVector<'a, T>,
    c: &mut Bud,
    f: impl Fn(planus::Result<T>, &mut Bud) -> V,
) -> V {
    c.vectors += 1;
    let mut out = vec![];
    for x in v {
        if !c.elem() {
            out.push(V::Cut);
            break;
        }
        out.push(f(x, c));
    }
    V::Vec(out)
}

// ---------------------------------------------------------------- writing

/// Choices of a writer
pub struct St {
    pub rng: Rng,
    /// Allowed styles
    pub mask: u32,
    pub memo: bool,
    /// A style for everything
    pub fixed: Option<usize>,
    map: HashMap<(usize, V), Box<dyn Any>>,
    smap: HashMap<String, planus::Offset<str>>,
    pub counts: [u64; 8],
    pub memo_hits: u64,
}

impl St {
    pub fn new(rng: Rng) -> Self {
        St {
            rng,
            mask: 0x7f,
            memo: false,
            fixed: None,
            map: HashMap::new(),
            smap: HashMap::new(),
            counts: [0; 8],
            memo_hits: 0,
        }
    }
    /// Offsets are only valid until the builder is cleared
    pub fn forget(&mut self) {
        self.map.clear();
        self.smap.clear();
    }
    pub fn style(&mut self) -> usize {
        if let Some(s) = self.fixed {
            return s;
        }
        loop {
            let s = self.rng.below(7);
            if self.mask & (1 << s) != 0 {
                return s;
            }
        }
    }
    pub fn pick(&mut self, n: usize) -> usize {
        self.rng.below(n)
    }
    pub fn count(&mut self, style: usize) {
        self.counts[style] += 1;
    }
    pub fn string(&mut self, b: &mut planus::Builder, s: &str) -> planus::Offset<str> {
        if self.memo {
            if let Some(o) = self.smap.get(s) {
                if self.rng.chance(1, 2) {
                    self.memo_hits += 1;
                    return *o;
                }
            }
        }
        let o = match self.rng.below(3) {
            0 => b.create_string(s),
            1 => b.create_string(s.to_string()),
            _ => b.create_string(&s),
        };
        if self.memo {
            self.smap.insert(s.to_string(), o);
        }
        o
    }
    pub fn memo_get<T: Copy + 'static>(&mut self, d: usize, v: &V) -> Option<T> {
        if !self.memo || self.rng.chance(1, 2) {
            return None;
        }
        let r = self.map.get(&(d, v.clone())).and_then(|x| x.downcast_ref::<T>()).copied();
        if r.is_some() {
            self.memo_hits += 1;
        }
        r
    }
    pub fn memo_put<T: Copy + 'static>(&mut self, d: usize, v: &V, t: T) {
        if self.memo {
            self.map.insert((d, v.clone()), Box::new(t));
        }
    }
}

macro_rules! as_array {
    ($v:expr, $x:ident, $e:expr, $other:expr) => {
        match $v.len() {
            0 => {
                let $x: [_; 0] = $v.try_into().ok().unwrap();
                $e
            }
            1 => {
                let $x: [_; 1] = $v.try_into().ok().unwrap();
                $e
            }
            2 => {
                let $x: [_; 2] = $v.try_into().ok().unwrap();
                $e
            }
            3 => {
                let $x: [_; 3] = $v.try_into().ok().unwrap();
                $e
            }
            5 => {
                let $x: [_; 5] = $v.try_into().ok().unwrap();
                $e
            }
            _ => $other,
        }
    };
}

/// Which of the forms a value takes when it is written
fn forms() -> u64 {
    FORMS.fetch_add(1, std::sync::atomic::Ordering::Relaxed)
}
/// Values that were written through one of the wrappers
pub static FORMS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

macro_rules! by_array {
    ($v:expr, $x:ident, $e:expr, $other:expr) => {
        match $v.len() {
            0 => {
                let $x: &[_; 0] = $v[..].try_into().unwrap();
                $e
            }
            1 => {
                let $x: &[_; 1] = $v[..].try_into().unwrap();
                $e
            }
            2 => {
                let $x: &[_; 2] = $v[..].try_into().unwrap();
                $e
            }
            3 => {
                let $x: &[_; 3] = $v[..].try_into().unwrap();
                $e
            }
            4 => {
                let $x: &[_; 4] = $v[..].try_into().unwrap();
                $e
            }
            7 => {
                let $x: &[_; 7] = $v[..].try_into().unwrap();
                $e
            }
            _ => $other,
        }
    };
}

/// A vector that is written as a vector, a slice, an array, a box, or references to them
pub struct Vw<T>(pub Vec<T>, pub usize);
pub fn vw<T>(v: Vec<T>, st: &mut St) -> Vw<T> {
    Vw(v, st.pick(8))
}
macro_rules! vector_forms {
    ([$($gen:tt)*] $me:ty, $o:ty, $t:ty) => {
        impl<$($gen)*> planus::WriteAsOffset<$o> for $me {
            fn prepare(&self, b: &mut planus::Builder) -> planus::Offset<$o> {
                forms();
                match self.1 {
                    0 | 1 => by_array!(self.0, x, planus::WriteAsOffset::<$o>::prepare(x, b), planus::WriteAsOffset::<$o>::prepare(&self.0[..], b)),
                    2 => planus::WriteAsOffset::<$o>::prepare(&self.0[..], b),
                    3 => <&[$t] as planus::WriteAsOffset<$o>>::prepare(&&self.0[..], b),
                    _ => planus::WriteAsOffset::<$o>::prepare(&self.0, b),
                }
            }
        }
        impl<$($gen)*> planus::WriteAs<planus::Offset<$o>> for $me {
            type Prepared = planus::Offset<$o>;
            fn prepare(&self, b: &mut planus::Builder) -> planus::Offset<$o> {
                forms();
                match self.1 {
                    0 | 1 => by_array!(self.0, x, planus::WriteAs::<planus::Offset<$o>>::prepare(x, b), planus::WriteAs::<planus::Offset<$o>>::prepare(&self.0[..], b)),
                    2 => planus::WriteAs::<planus::Offset<$o>>::prepare(&self.0[..], b),
                    3 => <&[$t] as planus::WriteAs<planus::Offset<$o>>>::prepare(&&self.0[..], b),
                    4 => <Box<&[$t]> as planus::WriteAs<planus::Offset<$o>>>::prepare(&Box::new(&self.0[..]), b),
                    _ => planus::WriteAs::<planus::Offset<$o>>::prepare(&self.0, b),
                }
            }
        }
        impl<$($gen)*> planus::WriteAsOptional<planus::Offset<$o>> for $me {
            type Prepared = planus::Offset<$o>;
            fn prepare(&self, b: &mut planus::Builder) -> Option<planus::Offset<$o>> {
                forms();
                match self.1 {
                    0 | 1 => by_array!(self.0, x, planus::WriteAsOptional::<planus::Offset<$o>>::prepare(x, b), planus::WriteAsOptional::<planus::Offset<$o>>::prepare(&self.0[..], b)),
                    2 => planus::WriteAsOptional::<planus::Offset<$o>>::prepare(&self.0[..], b),
                    3 => <&[$t] as planus::WriteAsOptional<planus::Offset<$o>>>::prepare(&&self.0[..], b),
                    4 => <Box<&[$t]> as planus::WriteAsOptional<planus::Offset<$o>>>::prepare(&Box::new(&self.0[..]), b),
                    5 => <Option<&[$t]> as planus::WriteAsOptional<planus::Offset<$o>>>::prepare(&Some(&self.0[..]), b),
                    _ => planus::WriteAsOptional::<planus::Offset<$o>>::prepare(&self.0, b),
                }
            }
        }
        impl<$($gen)*> planus::WriteAsDefault<planus::Offset<$o>, ()> for $me {
            type Prepared = planus::Offset<$o>;
            fn prepare(&self, b: &mut planus::Builder, d: &()) -> Option<planus::Offset<$o>> {
                forms();
                match self.1 {
                    0 | 1 | 2 => planus::WriteAsDefault::<planus::Offset<$o>, ()>::prepare(&self.0[..], b, d),
                    3 => <&[$t] as planus::WriteAsDefault<planus::Offset<$o>, ()>>::prepare(&&self.0[..], b, d),
                    4 => <Box<&[$t]> as planus::WriteAsDefault<planus::Offset<$o>, ()>>::prepare(&Box::new(&self.0[..]), b, d),
                    _ => planus::WriteAsDefault::<planus::Offset<$o>, ()>::prepare(&self.0, b, d),
                }
            }
        }
    };
}
vector_forms!([T: planus::VectorWrite<P>, P: planus::Primitive] Vw<T>, [P], T);
/// The same for vectors of bytes
pub struct Vb<T>(pub Vec<T>, pub usize);
pub fn vb<T>(v: Vec<T>, st: &mut St) -> Vb<T> {
    Vb(v, st.pick(8))
}
vector_forms!([] Vb<u8>, [u8], u8);
vector_forms!([] Vb<i8>, [i8], i8);

/// The same for vectors of unions
pub struct Vu<T>(pub Vec<T>, pub usize);
pub fn vu<T>(v: Vec<T>, st: &mut St) -> Vu<T> {
    Vu(v, st.pick(8))
}
impl<U, T: planus::WriteAsUnion<U>> planus::WriteAsUnionVector<U> for Vu<T> {
    fn prepare(&self, b: &mut planus::Builder) -> planus::UnionVectorOffset<U> {
        forms();
        match self.1 {
            0 | 1 => by_array!(
                self.0,
                x,
                planus::WriteAsUnionVector::<U>::prepare(x, b),
                planus::WriteAsUnionVector::<U>::prepare(&self.0[..], b)
            ),
            2 => planus::WriteAsUnionVector::<U>::prepare(&self.0[..], b),
            3 => <&[T] as planus::WriteAsUnionVector<U>>::prepare(&&self.0[..], b),
            4 => {
                let x: Vec<&T> = self.0.iter().collect();
                planus::WriteAsUnionVector::<U>::prepare(&x, b)
            }
            5 => {
                let x: Vec<Box<&T>> = self.0.iter().map(Box::new).collect();
                planus::WriteAsUnionVector::<U>::prepare(&x, b)
            }
            _ => planus::WriteAsUnionVector::<U>::prepare(&self.0, b),
        }
    }
}
impl<U, T: planus::WriteAsUnion<U>> planus::WriteAsDefaultUnionVector<U> for Vu<T> {
    fn prepare(&self, b: &mut planus::Builder) -> Option<planus::UnionVectorOffset<U>> {
        forms();
        match self.1 {
            0 | 1 => by_array!(
                self.0,
                x,
                planus::WriteAsDefaultUnionVector::<U>::prepare(x, b),
                planus::WriteAsDefaultUnionVector::<U>::prepare(&self.0[..], b)
            ),
            2 => planus::WriteAsDefaultUnionVector::<U>::prepare(&self.0[..], b),
            3 => <&[T] as planus::WriteAsDefaultUnionVector<U>>::prepare(&&self.0[..], b),
            4 => {
                let x: Vec<&T> = self.0.iter().collect();
                planus::WriteAsDefaultUnionVector::<U>::prepare(&x, b)
            }
            _ => planus::WriteAsDefaultUnionVector::<U>::prepare(&self.0, b),
        }
    }
}
impl<U, T: planus::WriteAsUnion<U>> planus::WriteAsOptionalUnionVector<U> for Vu<T> {
    fn prepare(&self, b: &mut planus::Builder) -> Option<planus::UnionVectorOffset<U>> {
        forms();
        match self.1 {
            0 | 1 => by_array!(
                self.0,
                x,
                planus::WriteAsOptionalUnionVector::<U>::prepare(x, b),
                planus::WriteAsOptionalUnionVector::<U>::prepare(&self.0[..], b)
            ),
            2 => planus::WriteAsOptionalUnionVector::<U>::prepare(&self.0[..], b),
            3 => <&[T] as planus::WriteAsOptionalUnionVector<U>>::prepare(&&self.0[..], b),
            4 => <Option<&[T]> as planus::WriteAsOptionalUnionVector<U>>::prepare(&Some(&self.0[..]), b),
            _ => planus::WriteAsOptionalUnionVector::<U>::prepare(&self.0, b),
        }
    }
}

/// Any value, written directly, boxed, or through references
pub struct Fm<T>(pub T, pub usize);
pub fn fm<T>(v: T, st: &mut St) -> Fm<T> {
    Fm(v, st.pick(4))
}
macro_rules! fm_forms {
    ($self:ident, $x:ident, $e:expr) => {{
        forms();
        match $self.1 {
            0 => {
                let y = Box::new(&$self.0);
                let $x = &y;
                $e
            }
            1 => {
                let $x = &&$self.0;
                $e
            }
            2 => {
                let y = &$self.0;
                let $x = &&Box::new(&y);
                $e
            }
            _ => {
                let $x = &$self.0;
                $e
            }
        }
    }};
}
impl<P, T: planus::WriteAsOffset<P>> planus::WriteAsOffset<P> for Fm<T> {
    fn prepare(&self, b: &mut planus::Builder) -> planus::Offset<P> {
        fm_forms!(self, x, planus::WriteAsOffset::<P>::prepare(x, b))
    }
}
impl<P: planus::Primitive, T: planus::WriteAs<P>> planus::WriteAs<P> for Fm<T> {
    type Prepared = T::Prepared;
    fn prepare(&self, b: &mut planus::Builder) -> T::Prepared {
        fm_forms!(self, x, planus::WriteAs::<P>::prepare(x, b))
    }
}
impl<P: planus::Primitive, D: ?Sized, T: planus::WriteAsDefault<P, D>> planus::WriteAsDefault<P, D> for Fm<T> {
    type Prepared = T::Prepared;
    fn prepare(&self, b: &mut planus::Builder, d: &D) -> Option<T::Prepared> {
        fm_forms!(self, x, planus::WriteAsDefault::<P, D>::prepare(x, b, d))
    }
}
impl<P: planus::Primitive, T: planus::WriteAsOptional<P>> planus::WriteAsOptional<P> for Fm<T> {
    type Prepared = T::Prepared;
    fn prepare(&self, b: &mut planus::Builder) -> Option<T::Prepared> {
        fm_forms!(self, x, planus::WriteAsOptional::<P>::prepare(x, b))
    }
}
impl<U, T: planus::WriteAsUnion<U>> planus::WriteAsUnion<U> for Fm<T> {
    fn prepare(&self, b: &mut planus::Builder) -> planus::UnionOffset<U> {
        fm_forms!(self, x, planus::WriteAsUnion::<U>::prepare(x, b))
    }
}
impl<U, T: planus::WriteAsOptionalUnion<U>> planus::WriteAsOptionalUnion<U> for Fm<T> {
    fn prepare(&self, b: &mut planus::Builder) -> Option<planus::UnionOffset<U>> {
        fm_forms!(self, x, planus::WriteAsOptionalUnion::<U>::prepare(x, b))
    }
}

/// Vectors with unused capacity, empty ones included: only the elements may matter
pub fn roomy<T>(mut v: Vec<T>) -> Vec<T> {
    v.reserve(3);
    v
}

pub fn vec_u8(b: &mut planus::Builder, v: Vec<u8>, st: &mut St) -> planus::Offset<[u8]> {
    match st.pick(4) {
        0 => as_array!(v, x, b.create_vector(x), b.create_vector(&v[..])),
        1 => as_array!(v, x, b.create_vector(&x), b.create_vector(&v)),
        2 => b.create_vector(&v[..]),
        _ => b.create_vector(v),
    }
}
pub fn vec_i8(b: &mut planus::Builder, v: Vec<i8>, st: &mut St) -> planus::Offset<[i8]> {
    match st.pick(4) {
        0 => as_array!(v, x, b.create_vector(x), b.create_vector(&v[..])),
        1 => as_array!(v, x, b.create_vector(&x), b.create_vector(&v)),
        2 => b.create_vector(&v[..]),
        _ => b.create_vector(v),
    }
}
pub fn vec_any<T, P>(b: &mut planus::Builder, v: Vec<T>, st: &mut St) -> planus::Offset<[P]>
where
    T: planus::VectorWrite<P>,
    P: planus::Primitive,
{
    match st.pick(5) {
        0 => as_array!(v, x, b.create_vector::<P>(x), b.create_vector::<P>(&v[..])),
        1 => as_array!(v, x, b.create_vector::<P>(&x), b.create_vector::<P>(&v)),
        2 => b.create_vector::<P>(&v[..]),
        3 => b.create_vector::<P>(v.iter().collect::<Vec<&T>>()),
        _ => b.create_vector::<P>(v),
    }
}
pub fn vec_union<T: planus::WriteAsUnion<U>, U>(
    b: &mut planus::Builder,
    v: Vec<T>,
    st: &mut St,
) -> planus::UnionVectorOffset<U> {
    match st.pick(4) {
        0 => as_array!(v, x, b.create_union_vector::<U>(x), b.create_union_vector::<U>(&v[..])),
        1 => as_array!(v, x, b.create_union_vector::<U>(&x), b.create_union_vector::<U>(&v)),
        2 => b.create_union_vector::<U>(&v[..]),
        _ => b.create_union_vector::<U>(v),
    }
}
pub fn is_default(v: &V, d: &V) -> bool {
    fbm::eq_default(v, d)
}

// ---------------------------------------------------------------- vectors

/// Checks of vectors against slices
pub struct Vc {
    pub rng: Rng,
    pub errors: Vec<String>,
    pub ops: u64,
    pub vectors: u64,
    pub steps: usize,
    /// Malformed data: whether and how an element fails can depend on the way it is reached
    pub lax: bool,
    pub what: String,
    pub lens: std::collections::BTreeSet<usize>,
}

pub trait Like {
    fn like(&self, o: &Self, lax: bool) -> bool;
}
impl Like for V {
    fn like(&self, o: &V, lax: bool) -> bool {
        if !lax {
            return self == o;
        }
        match (self, o) {
            (V::Err(_), _) | (_, V::Err(_)) => true,
            (V::Table(a), V::Table(b)) | (V::Vec(a), V::Vec(b)) | (V::Struct(a), V::Struct(b)) => a.like(b, lax),
            (V::Union(i, a), V::Union(j, b)) => i == j && a.like(b, lax),
            _ => self == o,
        }
    }
}
macro_rules! like_eq {
    ($($t:ty)*) => {$(impl Like for $t {
        fn like(&self, o: &$t, _: bool) -> bool { self == o }
    })*};
}
like_eq!(usize bool);
impl<T: Like> Like for Option<T> {
    fn like(&self, o: &Self, lax: bool) -> bool {
        match (self, o) {
            (Some(a), Some(b)) => a.like(b, lax),
            (None, None) => true,
            _ => false,
        }
    }
}
impl<T: Like> Like for Vec<T> {
    fn like(&self, o: &Self, lax: bool) -> bool {
        self.len() == o.len() && self.iter().zip(o).all(|(a, b)| a.like(b, lax))
    }
}
impl<A: Like, B: Like> Like for (A, B) {
    fn like(&self, o: &Self, lax: bool) -> bool {
        self.0.like(&o.0, lax) && self.1.like(&o.1, lax)
    }
}

impl Vc {
    /// Window sizes such that all windows together are not too large
    fn window(&mut self, n: usize) -> usize {
        let k = self.index(n).max(1);
        if k > n || k * (n - k + 1) <= 20_000 {
            k
        } else if self.rng.chance(1, 2) {
            self.rng.range(1, (20_000 / n).max(1))
        } else {
            n - self.rng.below((20_000 / n).max(1))
        }
    }
    pub fn new(rng: Rng, steps: usize) -> Self {
        Vc { rng, errors: vec![], ops: 0, vectors: 0, steps, lax: false, what: String::new(), lens: Default::default() }
    }
    fn eq<T: Like + Debug>(&mut self, what: &str, got: T, want: T) {
        self.ops += 1;
        if !got.like(&want, self.lax) && self.errors.len() < 5 {
            let mut g = format!("{}{what}: got {got:?}, expected {want:?}", self.what);
            if g.len() > 600 {
                let mut n = 600;
                while !g.is_char_boundary(n) {
                    n -= 1;
                }
                g.truncate(n);
            }
            self.errors.push(g);
        }
    }
    fn index(&mut self, n: usize) -> usize {
        match self.rng.below(10) {
            0 => 0,
            1 => 1,
            2 => n,
            3 => n.wrapping_sub(1),
            4 => n + 1,
            5 => usize::MAX - self.rng.below(3),
            6 => usize::MAX / 2 + self.rng.below(3),
            7 => usize::MAX / 4 + 1,
            _ => self.rng.below(n + 2),
        }
    }
    fn bound(&mut self, n: usize) -> std::ops::Bound<usize> {
        let i = self.index(n);
        match self.rng.below(3) {
            0 => std::ops::Bound::Included(i),
            1 => std::ops::Bound::Excluded(i),
            _ => std::ops::Bound::Unbounded,
        }
    }
}

/// Interleaved use of a double-ended iterator against a queue
fn check_iter<I, M>(name: &str, mut it: I, model: Vec<M>, conv: impl Fn(I::Item) -> M, c: &mut Vc)
where
    I: DoubleEndedIterator + ExactSizeIterator + Clone,
    M: Like + Debug + Clone,
{
    let mut q: VecDeque<M> = model.into();
    let steps = if q.len() > 1000 { 4 } else { c.rng.range(1, c.steps) };
    for _ in 0..steps {
        match c.rng.below(12) {
            0 | 1 => c.eq(&format!("{name}.next"), it.next().map(&conv), q.pop_front()),
            2 | 3 => c.eq(&format!("{name}.next_back"), it.next_back().map(&conv), q.pop_back()),
            4 => {
                let n = c.index(q.len());
                for _ in 0..n.min(q.len()) {
                    q.pop_front();
                }
                c.eq(&format!("{name}.nth({n})"), it.nth(n).map(&conv), q.pop_front());
            }
            5 => {
                let n = c.index(q.len());
                for _ in 0..n.min(q.len()) {
                    q.pop_back();
                }
                c.eq(&format!("{name}.nth_back({n})"), it.nth_back(n).map(&conv), q.pop_back());
            }
            6 => {
                c.eq(&format!("{name}.len"), it.len(), q.len());
                c.eq(&format!("{name}.size_hint"), it.size_hint(), (q.len(), Some(q.len())));
            }
            7 => c.eq(&format!("{name}.count"), it.clone().count(), q.len()),
            8 => c.eq(&format!("{name}.last"), it.clone().last().map(&conv), q.back().cloned()),
            9 => {
                let l: Vec<M> = it.clone().map(&conv).collect();
                c.eq(&format!("{name}.collect"), l, q.iter().cloned().collect());
            }
            10 => {
                let l: Vec<M> = it.clone().rev().map(&conv).collect();
                c.eq(&format!("{name}.rev"), l, q.iter().rev().cloned().collect());
            }
            _ => {
                let s = c.rng.range(1, 4);
                let l: Vec<M> = it.clone().step_by(s).map(&conv).collect();
                c.eq(&format!("{name}.step_by({s})"), l, q.iter().step_by(s).cloned().collect());
            }
        }
        if q.is_empty() && c.rng.chance(1, 2) {
            break;
        }
    }
    c.eq(&format!("{name}.len at the end"), it.len(), q.len());
}

macro_rules! check_body {
    ($v:ident, $items:ident, $conv:ident, $c:ident) => {{
        $c.vectors += 1;
        $c.lens.insert($items.len());
        let all = |v| -> Vec<V> { rec(v, &$conv) };
        let n = $items.len();
        $c.eq("len", $v.len(), n);
        $c.eq("is_empty", $v.is_empty(), n == 0);
        $c.eq("iter", all($v), $items.to_vec());
        for _ in 0..if n > 1000 { 4 } else { $c.steps } {
            match $c.rng.below(21) {
                19 => {
                    // Only that it can be made: what it says is not specified
                    if n <= 64 && $c.rng.chance(1, 4) {
                        let k = $c.rng.range(1, 5);
                        for t in [
                            format!("{:?}", $v.iter()),
                            format!("{:?}", $v.chunks(k)),
                            format!("{:?}", $v.rchunks(k)),
                            format!("{:?}", $v.chunks_exact(1)),
                            format!("{:?}", $v.rchunks_exact(1)),
                            format!("{:?}", $v.windows(k)),
                        ] {
                            $c.eq("the text of an iterator is empty", t.is_empty(), false);
                        }
                    }
                }
                0 => $c.eq("first", $v.first().map(&$conv), $items.first().cloned()),
                1 => $c.eq("last", $v.last().map(&$conv), $items.last().cloned()),
                2 => {
                    let i = $c.index(n);
                    $c.eq(&format!("get({i})"), $v.get(i).map(&$conv), $items.get(i).cloned());
                    if i < n {
                        $c.eq(
                            &format!("get_unchecked({i})"),
                            // SAFETY: in bounds
                            $conv(unsafe { $v.get_unchecked(i) }),
                            $items[i].clone(),
                        );
                    }
                }
                3 => {
                    let (i, j) = ($c.index(n), $c.index(n));
                    $c.eq(&format!("get({i}..{j})"), $v.get(i..j).map(all), $items.get(i..j).map(|x| x.to_vec()));
                    if i <= j && j <= n {
                        $c.eq("get_unchecked(a..b)", all(unsafe { $v.get_unchecked(i..j) }), $items[i..j].to_vec());
                    }
                }
                4 => {
                    let i = $c.index(n);
                    $c.eq(&format!("get({i}..)"), $v.get(i..).map(all), $items.get(i..).map(|x| x.to_vec()));
                    if i <= n {
                        $c.eq("get_unchecked(a..)", all(unsafe { $v.get_unchecked(i..) }), $items[i..].to_vec());
                    }
                }
                5 => {
                    let i = $c.index(n);
                    $c.eq(&format!("get(..{i})"), $v.get(..i).map(all), $items.get(..i).map(|x| x.to_vec()));
                    if i <= n {
                        $c.eq("get_unchecked(..a)", all(unsafe { $v.get_unchecked(..i) }), $items[..i].to_vec());
                    }
                }
                6 => {
                    let i = $c.index(n);
                    $c.eq(&format!("get(..={i})"), $v.get(..=i).map(all), $items.get(..=i).map(|x| x.to_vec()));
                    if i < n {
                        $c.eq("get_unchecked(..=a)", all(unsafe { $v.get_unchecked(..=i) }), $items[..=i].to_vec());
                    }
                }
                7 => {
                    let (i, j) = ($c.index(n), $c.index(n));
                    $c.eq(&format!("get({i}..={j})"), $v.get(i..=j).map(all), $items.get(i..=j).map(|x| x.to_vec()));
                    if i <= j && j < n {
                        $c.eq("get_unchecked(a..=b)", all(unsafe { $v.get_unchecked(i..=j) }), $items[i..=j].to_vec());
                    }
                }
                8 => {
                    let b = ($c.bound(n), $c.bound(n));
                    let want = $items.get(b).map(|x| x.to_vec());
                    $c.eq(&format!("get({b:?})"), $v.get(b).map(all), want.clone());
                    if let Some(want) = want {
                        $c.eq(&format!("get_unchecked({b:?})"), all(unsafe { $v.get_unchecked(b) }), want);
                    }
                    $c.eq("get(..)", $v.get(..).map(all), Some($items.to_vec()));
                }
                9 => $c.eq(
                    "split_first",
                    $v.split_first().map(|(x, r)| ($conv(x), all(r))),
                    $items.split_first().map(|(x, r)| (x.clone(), r.to_vec())),
                ),
                10 => $c.eq(
                    "split_last",
                    $v.split_last().map(|(x, r)| ($conv(x), all(r))),
                    $items.split_last().map(|(x, r)| (x.clone(), r.to_vec())),
                ),
                11 => {
                    let i = $c.index(n);
                    let want = $items.split_at_checked(i).map(|(a, b)| (a.to_vec(), b.to_vec()));
                    $c.eq(&format!("split_at({i})"), $v.split_at(i).map(|(a, b)| (all(a), all(b))), want.clone());
                    if let Some(want) = want {
                        let (a, b) = unsafe { $v.split_at_unchecked(i) };
                        $c.eq("split_at_unchecked", (all(a), all(b)), want);
                    }
                }
                12 => check_iter("iter()", $v.iter(), $items.to_vec(), &$conv, $c),
                13 => {
                    let k = $c.index(n).max(1);
                    check_iter(&format!("chunks({k})"), $v.chunks(k), $items.chunks(k).map(|x| x.to_vec()).collect(), all, $c);
                }
                14 => {
                    let k = $c.index(n).max(1);
                    check_iter(&format!("rchunks({k})"), $v.rchunks(k), $items.rchunks(k).map(|x| x.to_vec()).collect(), all, $c);
                }
                15 => {
                    let k = $c.index(n).max(1);
                    let it = $v.chunks_exact(k);
                    $c.eq(&format!("chunks_exact({k}).remainder"), all(it.remainder()), $items.chunks_exact(k).remainder().to_vec());
                    check_iter(&format!("chunks_exact({k})"), it, $items.chunks_exact(k).map(|x| x.to_vec()).collect(), all, $c);
                }
                16 => {
                    let k = $c.index(n).max(1);
                    let it = $v.rchunks_exact(k);
                    $c.eq(&format!("rchunks_exact({k}).remainder"), all(it.remainder()), $items.rchunks_exact(k).remainder().to_vec());
                    check_iter(&format!("rchunks_exact({k})"), it, $items.rchunks_exact(k).map(|x| x.to_vec()).collect(), all, $c);
                }
                17 => {
                    let k = $c.window(n);
                    check_iter(&format!("windows({k})"), $v.windows(k), $items.windows(k).map(|x| x.to_vec()).collect(), all, $c);
                }
                18 => {
                    // The documented panic
                    if $c.rng.chance(1, 8) {
                        let w = $c.rng.below(5);
                        let r = quiet(|| match w {
                            0 => drop($v.chunks(0)),
                            1 => drop($v.rchunks(0)),
                            2 => drop($v.chunks_exact(0)),
                            3 => drop($v.rchunks_exact(0)),
                            _ => drop($v.windows(0)),
                        });
                        $c.eq("a chunk size of zero panics", r.is_err(), true);
                    }
                }
                _ => {
                    // Sub-vectors of sub-vectors
                    let (i, j) = ($c.index(n), $c.index(n));
                    if let (Some(a), Some(b)) = ($v.get(i..), $items.get(i..)) {
                        $c.eq(&format!("get({i}..).get(..{j})"), a.get(..j).map(all), b.get(..j).map(|x| x.to_vec()));
                        $c.eq("sub-vector first", a.first().map(&$conv), b.first().cloned());
                        $c.eq("sub-vector last", a.last().map(&$conv), b.last().cloned());
                    }
                }
            }
        }
    }};
}

/// Runs something that may panic without a message
pub fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    QUIET.with(|q| q.set(q.get() + 1));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    QUIET.with(|q| q.set(q.get() - 1));
    r.map_err(|_| LAST.with(|l| l.borrow().clone()))
}
thread_local! {
    pub static QUIET: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
    pub static LAST: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn check_vec<'a, T: planus::VectorRead<'a> + Debug>(
    v: planus::Vector<'a, T>,
    items: &[V],
    conv: impl Fn(T) -> V,
    c: &mut Vc,
) {
    fn rec<'a, T: planus::VectorRead<'a>>(v: planus::Vector<'a, T>, conv: &impl Fn(T) -> V) -> Vec<V> {
        v.into_iter().map(conv).collect()
    }
    check_body!(v, items, conv, c)
}
pub fn check_uvec<'a, T: planus::VectorReadUnion<'a> + Debug>(
    v: planus::UnionVector<'a, T>,
    items: &[V],
    conv: impl Fn(planus::Result<T>) -> V,
    c: &mut Vc,
) {
    fn rec<'a, T: planus::VectorReadUnion<'a>>(
        v: planus::UnionVector<'a, T>,
        conv: &impl Fn(planus::Result<T>) -> V,
    ) -> Vec<V> {
        v.into_iter().map(conv).collect()
    }
    check_body!(v, items, conv, c)
}
#[macro_export]
macro_rules! to_vec_of {
    (check_uvec, $r:tt, $x:expr, $c:expr) => {
        if $c.rng.chance(1, 2) {
            $x.to_vec()
        } else {
            TryFrom::try_from($x)
        }
    };
    (check_vec, true, $x:expr, $c:expr) => {
        $x.to_vec_result()
    };
    (check_vec, false, $x:expr, $c:expr) => {
        if $c.rng.chance(1, 2) {
            $x.to_vec()
        } else {
            TryFrom::try_from($x)
        }
    };
}
pub use crate::to_vec_of;
pub fn check_to_vec(t: Result<Vec<V>, planus::Error>, items: &[V], c: &mut Vc) {
    fn first_err(v: &V) -> Option<&str> {
        match v {
            V::Err(e) => Some(e),
            V::Struct(x) | V::Table(x) | V::Vec(x) => x.iter().find_map(first_err),
            V::Union(_, v) => first_err(v),
            _ => None,
        }
    }
    let bad = items.iter().any(|x| first_err(x).is_some());
    match t {
        Ok(t) => {
            c.eq("to_vec fails", false, bad);
            c.eq("to_vec", t, items.to_vec())
        }
        Err(_) => c.eq("to_vec fails", true, bad),
    }
}

// ---------------------------------------------------------------- owned values

pub struct Ops {
    pub eq: bool,
    pub ne: bool,
    pub partial: Option<std::cmp::Ordering>,
    pub cmp: Option<std::cmp::Ordering>,
    pub hash: Option<(u64, u64)>,
    pub json: Result<serde_json::Value, String>,
    /// Value restored from text
    pub back: Result<V, String>,
    pub back_eq: bool,
    pub clone: V,
    pub clone_eq: bool,
    pub debug: String,
}

fn ops_common<T>(a: &T, b: &T, f: impl Fn(&T) -> V) -> Ops
where
    T: Clone + PartialEq + PartialOrd + Debug + serde::Serialize + for<'a> serde::Deserialize<'a>,
{
    let c = a.clone();
    let json = serde_json::to_value(a).map_err(|e| e.to_string());
    let text = serde_json::to_string(a).map_err(|e| e.to_string());
    let back: Result<T, String> = text.and_then(|t| serde_json::from_str(&t).map_err(|e| e.to_string()));
    Ops {
        eq: a == b,
        #[allow(clippy::nonminimal_bool)]
        ne: a != b,
        partial: a.partial_cmp(b),
        cmp: None,
        hash: None,
        json,
        back_eq: back.as_ref().map(|x| x == a).unwrap_or(false),
        back: back.map(|x| f(&x)),
        clone_eq: c == *a,
        clone: f(&c),
        debug: format!("{a:?}"),
    }
}
pub fn ops_partial<T>(a: &T, b: &T, f: impl Fn(&T) -> V) -> Ops
where
    T: Clone + PartialEq + PartialOrd + Debug + serde::Serialize + for<'a> serde::Deserialize<'a>,
{
    ops_common(a, b, f)
}
pub fn ops_eq<T>(a: &T, b: &T, f: impl Fn(&T) -> V) -> Ops
where
    T: Clone + Eq + Ord + Hash + Debug + serde::Serialize + for<'a> serde::Deserialize<'a>,
{
    let mut o = ops_common(a, b, f);
    o.cmp = Some(a.cmp(b));
    let h = |x: &T| {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        x.hash(&mut h);
        h.finish()
    };
    o.hash = Some((h(a), h(b)));
    o
}

/// What comparing two references to structs gives
pub struct RefOps {
    pub eq: bool,
    pub ne: bool,
    pub partial: Option<std::cmp::Ordering>,
    pub operators: [bool; 4],
    pub cmp: Option<std::cmp::Ordering>,
    pub hash: Option<(u64, u64)>,
    pub owned: V,
    pub debug: String,
}
fn ref_bytes<'a, T: planus::TableRead<'a>>(x: &'a [u8], at: usize) -> T {
    <T as planus::TableRead>::from_buffer(planus::SliceWithStartOffset { buffer: x, offset_from_start: 0 }, at).expect("a struct reference")
}
#[allow(clippy::nonminimal_bool)]
pub fn ref_partial<'a, T, O>(x: &'a [u8], y: &'a [u8], at: usize, f: impl Fn(&O) -> V) -> (T, T, RefOps)
where
    T: planus::TableRead<'a> + Copy + PartialEq + PartialOrd + Debug,
    O: From<T>,
{
    let (a, b): (T, T) = (ref_bytes(x, at), ref_bytes(y, at));
    let o = RefOps {
        eq: a == b,
        ne: a != b,
        partial: a.partial_cmp(&b),
        operators: [a < b, a <= b, a > b, a >= b],
        cmp: None,
        hash: None,
        owned: f(&O::from(a)),
        debug: format!("{a:?}"),
    };
    (a, b, o)
}
pub fn ref_eq<'a, T, O>(x: &'a [u8], y: &'a [u8], at: usize, f: impl Fn(&O) -> V) -> (T, T, RefOps)
where
    T: planus::TableRead<'a> + Copy + Eq + Ord + Hash + Debug,
    O: From<T>,
{
    let (a, b, mut o) = ref_partial::<T, O>(x, y, at, f);
    o.cmp = Some(a.cmp(&b));
    let h = |x: &T| {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        x.hash(&mut h);
        h.finish()
    };
    o.hash = Some((h(&a), h(&b)));
    (a, b, o)
}

// ---------------------------------------------------------------- interface of a schema

pub struct TableApi {
    pub decl: usize,
    pub eq: bool,
    pub create: fn(&mut planus::Builder, &V, &mut St),
    pub finish: fn(&mut planus::Builder, &V, &mut St, Option<[u8; 4]>) -> usize,
    pub read: fn(&[u8], &mut Bud) -> V,
    pub owned: fn(&[u8]) -> V,
    pub debug: fn(&[u8]) -> String,
    pub error_text: fn(&[u8]) -> Option<String>,
    pub vectors: fn(&[u8], &V, &mut Vc),
    pub default: Option<fn() -> V>,
    pub ops: fn(&V, &V) -> Ops,
    pub unmk: fn(&V) -> V,
}
pub struct StructApi {
    pub decl: usize,
    pub eq: bool,
    pub size: usize,
    pub align: usize,
    pub default: Option<fn() -> V>,
    pub ops: fn(&V, &V) -> Ops,
    #[allow(clippy::type_complexity)]
    pub ref_ops: Option<fn(&[u8], &[u8], usize) -> RefOps>,
}
pub struct EnumApi {
    pub decl: usize,
    pub size: usize,
    pub values: Vec<i128>,
    pub names: Vec<String>,
    pub to_int: fn(&V) -> i128,
    #[allow(clippy::type_complexity)]
    pub from_int: fn(i128) -> Result<V, i128>,
    pub ops: fn(&V, &V) -> Ops,
}
pub struct SchemaApi {
    pub k: usize,
    pub tables: Vec<TableApi>,
    pub structs: Vec<StructApi>,
    pub enums: Vec<EnumApi>,
}
