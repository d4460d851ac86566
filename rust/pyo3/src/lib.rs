//! A stand-in for the parts of pyo3 that the code under test uses.  It lets the
//! real Rust sources be compiled offline; calls come in over a C ABI with a
//! small self-describing byte encoding instead of through CPython objects.
//!
//! Conversions follow pyo3: integers are range checked, `Option` is None,
//! tuples need the exact length, a panic becomes an exception.

pub use pyo3_macros::{pyclass, pyfunction, pymethods, pymodule};

pub mod prelude {
    pub use crate::{pyclass, pyfunction, pymethods, pymodule};
    pub use crate::PyResult;
}

use std::any::Any;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Mutex, OnceLock};

#[derive(Clone, Debug)]
pub enum Value {
    None,
    Bool(bool),
    Int(i128),
    Float(f64),
    Str(String),
    List(Vec<Value>),
    Tuple(Vec<Value>),
    Dict(Vec<(Value, Value)>),
    Obj(String, u64),
    Enum(String, u64),
}

#[derive(Debug)]
pub struct PyErr(pub String, pub String);
pub type PyResult<T> = Result<T, PyErr>;

pub fn type_err<T>(what: &str, got: &Value) -> PyResult<T> {
    Err(PyErr("TypeError".into(), format!("expected {what}, got {got:?}")))
}

// ---------------------------------------------------------------- conversions

pub trait FromVal: Sized {
    fn from_val(v: &Value) -> PyResult<Self>;
}
pub trait IntoVal {
    fn into_val(self) -> PyResult<Value>;
}

macro_rules! ints {
    ($($t:ty),*) => {$(
        impl FromVal for $t {
            fn from_val(v: &Value) -> PyResult<Self> {
                let n = match v {
                    Value::Int(n) => *n,
                    Value::Bool(b) => i128::from(*b),
                    _ => return type_err("int", v),
                };
                <$t>::try_from(n).map_err(|_| PyErr(
                    "OverflowError".into(), format!("{n} out of range for {}", stringify!($t))))
            }
        }
        impl IntoVal for $t {
            fn into_val(self) -> PyResult<Value> {
                i128::try_from(self).map(Value::Int)
                    .map_err(|_| PyErr("OverflowError".into(), "too big".into()))
            }
        }
    )*};
}
ints!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);

impl FromVal for bool {
    fn from_val(v: &Value) -> PyResult<Self> {
        match v { Value::Bool(b) => Ok(*b), _ => type_err("bool", v) }
    }
}
impl IntoVal for bool {
    fn into_val(self) -> PyResult<Value> { Ok(Value::Bool(self)) }
}
impl FromVal for f64 {
    fn from_val(v: &Value) -> PyResult<Self> {
        match v { Value::Float(x) => Ok(*x), Value::Int(n) => Ok(*n as f64), _ => type_err("float", v) }
    }
}
impl IntoVal for f64 {
    fn into_val(self) -> PyResult<Value> { Ok(Value::Float(self)) }
}
impl FromVal for String {
    fn from_val(v: &Value) -> PyResult<Self> {
        match v { Value::Str(s) => Ok(s.clone()), _ => type_err("str", v) }
    }
}
impl IntoVal for String {
    fn into_val(self) -> PyResult<Value> { Ok(Value::Str(self)) }
}
impl IntoVal for &str {
    fn into_val(self) -> PyResult<Value> { Ok(Value::Str(self.to_owned())) }
}
impl FromVal for char {
    fn from_val(v: &Value) -> PyResult<Self> {
        match v {
            Value::Str(s) if s.chars().count() == 1 => Ok(s.chars().next().unwrap()),
            _ => type_err("a one-character str", v),
        }
    }
}
impl IntoVal for char {
    fn into_val(self) -> PyResult<Value> { Ok(Value::Str(self.to_string())) }
}
impl IntoVal for () {
    fn into_val(self) -> PyResult<Value> { Ok(Value::None) }
}
impl<T: FromVal> FromVal for Option<T> {
    fn from_val(v: &Value) -> PyResult<Self> {
        match v { Value::None => Ok(None), _ => T::from_val(v).map(Some) }
    }
}
impl<T: IntoVal> IntoVal for Option<T> {
    fn into_val(self) -> PyResult<Value> {
        match self { None => Ok(Value::None), Some(x) => x.into_val() }
    }
}
impl<T: IntoVal> IntoVal for PyResult<T> {
    fn into_val(self) -> PyResult<Value> { self.and_then(IntoVal::into_val) }
}
fn seq(v: &Value) -> PyResult<&[Value]> {
    match v { Value::List(xs) | Value::Tuple(xs) => Ok(xs), _ => type_err("a sequence", v) }
}
impl<T: FromVal> FromVal for Vec<T> {
    fn from_val(v: &Value) -> PyResult<Self> { seq(v)?.iter().map(T::from_val).collect() }
}
impl<T: IntoVal> IntoVal for Vec<T> {
    fn into_val(self) -> PyResult<Value> {
        Ok(Value::List(self.into_iter().map(IntoVal::into_val).collect::<PyResult<_>>()?))
    }
}
impl<T: FromVal + Ord> FromVal for BTreeSet<T> {
    fn from_val(v: &Value) -> PyResult<Self> { seq(v)?.iter().map(T::from_val).collect() }
}
impl<T: IntoVal> IntoVal for BTreeSet<T> {
    fn into_val(self) -> PyResult<Value> {
        Ok(Value::List(self.into_iter().map(IntoVal::into_val).collect::<PyResult<_>>()?))
    }
}
impl<T: IntoVal, S> IntoVal for HashSet<T, S> {
    fn into_val(self) -> PyResult<Value> {
        Ok(Value::List(self.into_iter().map(IntoVal::into_val).collect::<PyResult<_>>()?))
    }
}
impl<K: FromVal + Ord, V: FromVal> FromVal for BTreeMap<K, V> {
    fn from_val(v: &Value) -> PyResult<Self> {
        match v {
            Value::Dict(xs) => xs.iter()
                .map(|(k, v)| Ok((K::from_val(k)?, V::from_val(v)?))).collect(),
            _ => type_err("dict", v),
        }
    }
}
impl<K: FromVal + Eq + std::hash::Hash, V: FromVal> FromVal for HashMap<K, V> {
    fn from_val(v: &Value) -> PyResult<Self> {
        match v {
            Value::Dict(xs) => xs.iter()
                .map(|(k, v)| Ok((K::from_val(k)?, V::from_val(v)?))).collect(),
            _ => type_err("dict", v),
        }
    }
}
impl<K: IntoVal, V: IntoVal> IntoVal for BTreeMap<K, V> {
    fn into_val(self) -> PyResult<Value> {
        Ok(Value::Dict(self.into_iter()
            .map(|(k, v)| Ok((k.into_val()?, v.into_val()?))).collect::<PyResult<_>>()?))
    }
}
impl<K: IntoVal, V: IntoVal, S> IntoVal for HashMap<K, V, S> {
    fn into_val(self) -> PyResult<Value> {
        Ok(Value::Dict(self.into_iter()
            .map(|(k, v)| Ok((k.into_val()?, v.into_val()?))).collect::<PyResult<_>>()?))
    }
}
macro_rules! tuples {
    ($(($n:expr; $($t:ident $i:tt),*))*) => {$(
        impl<$($t: FromVal),*> FromVal for ($($t,)*) {
            fn from_val(v: &Value) -> PyResult<Self> {
                match v {
                    Value::Tuple(xs) if xs.len() == $n => Ok(($($t::from_val(&xs[$i])?,)*)),
                    _ => type_err("a tuple of the right length", v),
                }
            }
        }
        impl<$($t: IntoVal),*> IntoVal for ($($t,)*) {
            fn into_val(self) -> PyResult<Value> {
                Ok(Value::Tuple(vec![$(self.$i.into_val()?),*]))
            }
        }
    )*};
}
tuples!((1; A 0) (2; A 0, B 1) (3; A 0, B 1, C 2) (4; A 0, B 1, C 2, D 3) (5; A 0, B 1, C 2, D 3, E 4));

// -------------------------------------------------------------------- objects

type Store = Mutex<HashMap<u64, Box<dyn Any + Send>>>;
fn store() -> &'static Store {
    static S: OnceLock<Store> = OnceLock::new();
    S.get_or_init(|| Mutex::new(HashMap::new()))
}
static NEXT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1);

pub fn put_obj<T: Any + Send>(name: &str, x: T) -> Value {
    let id = NEXT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    store().lock().unwrap_or_else(|e| e.into_inner()).insert(id, Box::new(x));
    Value::Obj(name.into(), id)
}
pub fn with_obj<T: Any + Send, R>(v: &Value, f: impl FnOnce(&mut T) -> R) -> PyResult<R> {
    let Value::Obj(_, id) = v else { return type_err("an object", v) };
    let mut bx = match store().lock().unwrap_or_else(|e| e.into_inner()).remove(id) {
        Some(b) => b,
        None => return Err(PyErr("RuntimeError".into(), "Already borrowed".into())),
    };
    let out = catch_unwind(AssertUnwindSafe(|| bx.downcast_mut::<T>().map(f)));
    store().lock().unwrap_or_else(|e| e.into_inner()).insert(*id, bx);
    match out {
        Ok(Some(r)) => Ok(r),
        Ok(None) => type_err("an object of another class", v),
        Err(p) => std::panic::resume_unwind(p),
    }
}

// ------------------------------------------------------------------- registry

pub type Thunk = fn(&[Value], &[(String, Value)]) -> PyResult<Value>;

pub struct Method { pub name: &'static str, pub kind: &'static str, pub call: Thunk }
pub enum Def {
    Func { name: &'static str, call: Thunk },
    Class { name: &'static str, enums: &'static [(&'static str, u64)], methods: Vec<Method> },
}
pub trait NoMethods {
    #[allow(non_snake_case)]
    fn __py_methods() -> Vec<Method> { vec![] }
}
impl<T> NoMethods for T {}

/// Binds positional and keyword arguments to parameter names; `None` is "not given".
pub fn bind(name: &str, params: &[&str], args: &[Value], kw: &[(String, Value)])
    -> PyResult<Vec<Option<Value>>> {
    let mut out: Vec<Option<Value>> = vec![None; params.len()];
    if args.len() > params.len() {
        return Err(PyErr("TypeError".into(), format!(
            "{name}() takes {} positional arguments but {} were given", params.len(), args.len())));
    }
    for (i, a) in args.iter().enumerate() { out[i] = Some(a.clone()); }
    for (k, v) in kw {
        match params.iter().position(|p| p == k) {
            Some(i) if out[i].is_none() => out[i] = Some(v.clone()),
            _ => return Err(PyErr("TypeError".into(), format!(
                "{name}() got an unexpected or repeated keyword argument '{k}'"))),
        }
    }
    Ok(out)
}
pub fn need(name: &str, p: &str, v: &Option<Value>) -> PyResult<Value> {
    v.clone().ok_or_else(|| PyErr("TypeError".into(),
        format!("{name}() missing 1 required positional argument: '{p}'")))
}

// ------------------------------------------------------------------- encoding

fn put(v: &Value, o: &mut Vec<u8>) {
    fn s(x: &str, o: &mut Vec<u8>) {
        o.extend((x.len() as u32).to_le_bytes());
        o.extend(x.as_bytes());
    }
    match v {
        Value::None => o.push(b'N'),
        Value::Bool(b) => { o.push(b'B'); o.push(u8::from(*b)); }
        Value::Int(n) => { o.push(b'I'); o.extend(n.to_le_bytes()); }
        Value::Float(x) => { o.push(b'F'); o.extend(x.to_le_bytes()); }
        Value::Str(x) => { o.push(b'S'); s(x, o); }
        Value::List(xs) | Value::Tuple(xs) => {
            o.push(if matches!(v, Value::List(_)) { b'L' } else { b'T' });
            o.extend((xs.len() as u32).to_le_bytes());
            for x in xs { put(x, o); }
        }
        Value::Dict(xs) => {
            o.push(b'D');
            o.extend((xs.len() as u32).to_le_bytes());
            for (k, x) in xs { put(k, o); put(x, o); }
        }
        Value::Obj(c, i) => { o.push(b'O'); s(c, o); o.extend(i.to_le_bytes()); }
        Value::Enum(c, i) => { o.push(b'E'); s(c, o); o.extend(i.to_le_bytes()); }
    }
}
struct Rd<'a>(&'a [u8]);
impl Rd<'_> {
    fn take(&mut self, n: usize) -> Vec<u8> {
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a.to_vec()
    }
    fn u32(&mut self) -> usize { u32::from_le_bytes(self.take(4).try_into().unwrap()) as usize }
    fn u64(&mut self) -> u64 { u64::from_le_bytes(self.take(8).try_into().unwrap()) }
    fn s(&mut self) -> String { let n = self.u32(); String::from_utf8(self.take(n)).unwrap() }
    fn val(&mut self) -> Value {
        match self.take(1)[0] {
            b'N' => Value::None,
            b'B' => Value::Bool(self.take(1)[0] != 0),
            b'I' => Value::Int(i128::from_le_bytes(self.take(16).try_into().unwrap())),
            b'F' => Value::Float(f64::from_le_bytes(self.take(8).try_into().unwrap())),
            b'S' => Value::Str(self.s()),
            b'L' => { let n = self.u32(); Value::List((0..n).map(|_| self.val()).collect()) }
            b'T' => { let n = self.u32(); Value::Tuple((0..n).map(|_| self.val()).collect()) }
            b'D' => { let n = self.u32(); Value::Dict((0..n).map(|_| (self.val(), self.val())).collect()) }
            b'O' => Value::Obj(self.s(), self.u64()),
            b'E' => Value::Enum(self.s(), self.u64()),
            x => panic!("bad tag {x}"),
        }
    }
}

static TABLE: OnceLock<Vec<Thunk>> = OnceLock::new();

unsafe fn give(v: Vec<u8>, out: *mut *mut u8, len: *mut usize) {
    let b = v.into_boxed_slice();
    *len = b.len();
    *out = Box::into_raw(b).cast();
}

/// Describes the module: a list of ("f", name, index) and
/// ("c", name, [(variant, value)], [(method, kind, index)]).
/// # Safety
/// Called once from the loader with valid out-pointers.
pub unsafe fn describe(module: &str, defs: Vec<Def>, out: *mut *mut u8, len: *mut usize) {
    std::panic::set_hook(Box::new(|_| {}));
    let mut table: Vec<Thunk> = vec![];
    let st = |x: &str| Value::Str(x.into());
    let items = defs.into_iter().map(|d| match d {
        Def::Func { name, call } => {
            table.push(call);
            Value::Tuple(vec![st("f"), st(name), Value::Int(table.len() as i128 - 1)])
        }
        Def::Class { name, enums, methods } => {
            let vs = enums.iter().map(|(n, i)| Value::Tuple(vec![st(n), Value::Int(i128::from(*i))])).collect();
            let ms = methods.into_iter().map(|m| {
                table.push(m.call);
                Value::Tuple(vec![st(m.name), st(m.kind), Value::Int(table.len() as i128 - 1)])
            }).collect();
            Value::Tuple(vec![st("c"), st(name), Value::List(vs), Value::List(ms)])
        }
    }).collect();
    let _ = TABLE.set(table);
    let mut o = vec![];
    put(&Value::Tuple(vec![st(module), Value::List(items)]), &mut o);
    give(o, out, len);
}

#[no_mangle]
/// # Safety
/// `buf`/`n` is a valid encoded (args tuple, kwargs dict) pair.
pub unsafe extern "C" fn mini_call(idx: usize, buf: *const u8, n: usize,
                                   out: *mut *mut u8, len: *mut usize) -> i32 {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut rd = Rd(std::slice::from_raw_parts(buf, n));
        let (Value::Tuple(args), Value::Dict(kw)) = (rd.val(), rd.val()) else { unreachable!() };
        let kw: Vec<(String, Value)> = kw.into_iter().map(|(k, v)| match k {
            Value::Str(s) => (s, v), _ => unreachable!() }).collect();
        (TABLE.get().unwrap()[idx])(&args, &kw)
    }));
    let (rc, v) = match r {
        Ok(Ok(v)) => (0, v),
        Ok(Err(PyErr(k, m))) => (1, Value::Tuple(vec![Value::Str(k), Value::Str(m)])),
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| (*s).to_owned()))
                .unwrap_or_else(|| "panic".into());
            (2, Value::Str(m))
        }
    };
    let mut o = vec![];
    put(&v, &mut o);
    give(o, out, len);
    rc
}
#[no_mangle]
/// # Safety
/// `p`/`n` came from this library.
pub unsafe extern "C" fn mini_free(p: *mut u8, n: usize) {
    drop(Box::from_raw(std::ptr::slice_from_raw_parts_mut(p, n)));
}
#[no_mangle]
pub extern "C" fn mini_drop(id: u64) {
    let x = store().lock().unwrap_or_else(|e| e.into_inner()).remove(&id);
    drop(x);
}
