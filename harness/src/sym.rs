//! Boundary between the harness and its host. The host is either the symbolic
//! executor (inputs are solver variables) or the native replay binary (inputs are
//! concrete values from a file).
extern "C" {
    fn vf_f64(p: *const u8, n: usize) -> f64;
    fn vf_u64(p: *const u8, n: usize) -> u64;
    fn vf_out_f(v: f64);
    fn vf_out_u(v: u64);
    fn vf_push(p: *const u8, n: usize);
    fn vf_push_i(i: usize);
    fn vf_pop();
    fn vf_user(c: usize, t: f64, ys: *const f64, n: usize) -> f64;
}
pub fn inf(name: &str) -> f64 {
    unsafe { vf_f64(name.as_ptr(), name.len()) }
}
pub fn inu(name: &str) -> u64 {
    unsafe { vf_u64(name.as_ptr(), name.len()) }
}
pub fn inn(name: &str) -> usize {
    inu(name) as usize
}
pub fn inb(name: &str) -> bool {
    (inu(name) & 1) != 0
}
pub fn out_f(v: f64) {
    unsafe { vf_out_f(v) }
}
pub fn out_u(v: u64) {
    unsafe { vf_out_u(v) }
}
pub fn push(name: &str) {
    unsafe { vf_push(name.as_ptr(), name.len()) }
}
pub fn push_i(i: usize) {
    unsafe { vf_push_i(i) }
}
pub fn pop() {
    unsafe { vf_pop() }
}
pub fn user(c: usize, t: f64, ys: &[f64]) -> f64 {
    unsafe { vf_user(c, t, ys.as_ptr(), ys.len()) }
}
/// scoped name: inputs and outputs made inside `f` are below `name`
pub fn at<R>(name: &str, f: impl FnOnce() -> R) -> R {
    push(name);
    let r = f();
    pop();
    r
}
pub fn ati<R>(i: usize, f: impl FnOnce() -> R) -> R {
    push_i(i);
    let r = f();
    pop();
    r
}

/// emits every field as outputs
pub trait Dump {
    fn dump(&self);
}
/// builds a value from inputs
pub trait Make: Sized {
    fn make() -> Self;
}
impl Dump for f64 {
    fn dump(&self) {
        out_f(*self)
    }
}
impl Make for f64 {
    fn make() -> Self {
        inf("")
    }
}
macro_rules! ints { ($($t:ty)*) => {$(
    impl Dump for $t { fn dump(&self) { out_u(*self as u64) } }
    impl Make for $t { fn make() -> Self { inu("") as $t } }
)*} }
ints!(u8 u16 u32 u64 usize);
impl Dump for i32 { fn dump(&self) { out_u(*self as u32 as u64) } }
impl Make for i32 { fn make() -> Self { inu("") as u32 as i32 } }
impl Dump for bool {
    fn dump(&self) {
        out_u(*self as u64)
    }
}
impl Make for bool {
    fn make() -> Self {
        inb("")
    }
}
impl<T: Dump> Dump for Vec<T> {
    fn dump(&self) {
        at("len", || out_u(self.len() as u64));
        for i in 0..self.len() {
            ati(i, || self[i].dump());
        }
    }
}
impl<T: Make> Make for Vec<T> {
    fn make() -> Self {
        let n = inn("len");
        let mut v = Vec::new();
        for i in 0..n {
            v.push(ati(i, T::make));
        }
        v
    }
}
impl<T: Dump> Dump for Option<T> {
    fn dump(&self) {
        match self {
            None => at("some", || out_u(0)),
            Some(x) => {
                at("some", || out_u(1));
                at("val", || x.dump())
            }
        }
    }
}
impl<T: Make> Make for Option<T> {
    fn make() -> Self {
        if inb("some") {
            Some(at("val", T::make))
        } else {
            None
        }
    }
}
impl<T: Dump> Dump for Box<T> {
    fn dump(&self) {
        (**self).dump()
    }
}
impl<T: Make> Make for Box<T> {
    fn make() -> Self {
        Box::new(T::make())
    }
}
/// Dump and Make for a struct with the given public fields
#[macro_export]
macro_rules! fields {
    ($t:path { $($f:ident),* }) => {
        impl $crate::sym::Dump for $t {
            fn dump(&self) { $( $crate::sym::at(stringify!($f), || self.$f.dump()); )* }
        }
        impl $crate::sym::Make for $t {
            fn make() -> Self {
                #[allow(unused_mut)]
                let mut v = <$t>::default();
                $( v.$f = $crate::sym::at(stringify!($f), $crate::sym::Make::make); )*
                v
            }
        }
    };
}
