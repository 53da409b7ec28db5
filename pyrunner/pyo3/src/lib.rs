//! As much of pyo3 as the Python module uses, over the C interface of
//! Python itself: the module that comes out is a real one, imported and
//! called by a real interpreter.
pub use pyo3_macros::{pyclass, pyfunction, pymethods, pymodule};
use std::ffi::{CStr, CString, c_char, c_int, c_long, c_uint, c_ulong, c_ulonglong, c_void};
use std::marker::PhantomData;

pub mod ffi {
    use super::*;
    #[repr(C)]
    pub struct PyObject {
        pub refs: isize,
        pub ty: *mut PyObject,
    }
    #[repr(C)]
    pub struct PyMethodDef {
        pub name: *const c_char,
        pub call: *const c_void,
        pub flags: c_int,
        pub doc: *const c_char,
    }
    #[repr(C)]
    pub struct PyModuleDef {
        pub base: PyObject,
        pub init: *const c_void,
        pub index: isize,
        pub copy: *const c_void,
        pub name: *const c_char,
        pub doc: *const c_char,
        pub size: isize,
        pub rest: [*const c_void; 5],
    }
    #[repr(C)]
    pub struct PyTypeSlot {
        pub slot: c_int,
        pub func: *const c_void,
    }
    #[repr(C)]
    pub struct PyTypeSpec {
        pub name: *const c_char,
        pub size: c_int,
        pub item: c_int,
        pub flags: c_uint,
        pub slots: *mut PyTypeSlot,
    }
    unsafe extern "C" {
        pub static mut PyExc_RuntimeError: *mut PyObject;
        pub static mut PyExc_TypeError: *mut PyObject;
        pub static mut PyExc_ValueError: *mut PyObject;
        pub static mut PyExc_OverflowError: *mut PyObject;
        pub static mut PyExc_OSError: *mut PyObject;
        pub static mut PyExc_KeyError: *mut PyObject;
        pub static mut PyExc_Exception: *mut PyObject;
        pub static mut PyExc_BaseException: *mut PyObject;
        pub static mut _Py_NoneStruct: PyObject;
        pub fn Py_IncRef(o: *mut PyObject);
        pub fn Py_DecRef(o: *mut PyObject);
        pub fn PyErr_SetString(ty: *mut PyObject, text: *const c_char);
        pub fn PyErr_SetObject(ty: *mut PyObject, value: *mut PyObject);
        pub fn PyErr_Fetch(ty: *mut *mut PyObject, value: *mut *mut PyObject, trace: *mut *mut PyObject);
        pub fn PyErr_NormalizeException(ty: *mut *mut PyObject, value: *mut *mut PyObject, trace: *mut *mut PyObject);
        pub fn PyErr_Occurred() -> *mut PyObject;
        pub fn PyErr_NewException(name: *const c_char, base: *mut PyObject, dict: *mut PyObject) -> *mut PyObject;
        pub fn PyModule_Create2(def: *mut PyModuleDef, version: c_int) -> *mut PyObject;
        pub fn PyObject_SetAttrString(o: *mut PyObject, name: *const c_char, v: *mut PyObject) -> c_int;
        pub fn PyCFunction_NewEx(def: *mut PyMethodDef, this: *mut PyObject, module: *mut PyObject) -> *mut PyObject;
        pub fn PyType_FromSpec(spec: *mut PyTypeSpec) -> *mut PyObject;
        pub fn PyType_GetFlags(t: *mut PyObject) -> c_ulong;
        pub fn PyType_GenericAlloc(t: *mut PyObject, n: isize) -> *mut PyObject;
        pub fn PyObject_Free(o: *mut c_void);
        pub fn PyObject_Type(o: *mut PyObject) -> *mut PyObject;
        pub fn PyObject_Str(o: *mut PyObject) -> *mut PyObject;
        pub fn PyObject_CallObject(f: *mut PyObject, args: *mut PyObject) -> *mut PyObject;
        pub fn PyTuple_New(n: isize) -> *mut PyObject;
        pub fn PyTuple_SetItem(t: *mut PyObject, n: isize, o: *mut PyObject) -> c_int;
        pub fn PyTuple_GetItem(t: *mut PyObject, n: isize) -> *mut PyObject;
        pub fn PyTuple_Size(t: *mut PyObject) -> isize;
        pub fn PyDict_Next(d: *mut PyObject, at: *mut isize, k: *mut *mut PyObject, v: *mut *mut PyObject) -> c_int;
        pub fn PySequence_Check(o: *mut PyObject) -> c_int;
        pub fn PySequence_Size(o: *mut PyObject) -> isize;
        pub fn PySequence_GetItem(o: *mut PyObject, n: isize) -> *mut PyObject;
        pub fn PyUnicode_AsUTF8AndSize(o: *mut PyObject, n: *mut isize) -> *const c_char;
        pub fn PyUnicode_FromStringAndSize(p: *const c_char, n: isize) -> *mut PyObject;
        pub fn PyNumber_Index(o: *mut PyObject) -> *mut PyObject;
        pub fn PyLong_AsUnsignedLongLong(o: *mut PyObject) -> c_ulonglong;
        pub fn PyLong_AsLong(o: *mut PyObject) -> c_long;
        pub fn PyLong_FromLong(v: c_long) -> *mut PyObject;
        pub fn PyBool_FromLong(v: c_long) -> *mut PyObject;
    }
}
use ffi::PyObject;

// ------------------------------- handles --------------------------------
#[derive(Clone, Copy)]
pub struct Python<'py>(PhantomData<&'py ()>);
impl Python<'_> {
    /// What runs here always holds the interpreter.
    pub fn attach<R>(f: impl FnOnce(Python<'static>) -> R) -> R {
        f(Python(PhantomData))
    }
    pub fn with_gil<R>(f: impl FnOnce(Python<'static>) -> R) -> R {
        f(Python(PhantomData))
    }
    pub fn check_signals(self) -> PyResult<()> {
        unsafe extern "C" {
            fn PyErr_CheckSignals() -> c_int;
        }
        if unsafe { PyErr_CheckSignals() } == 0 { Ok(()) } else { Err(PyErr::fetch()) }
    }
    #[allow(non_snake_case)]
    pub fn None(self) -> Py<PyAny> {
        unsafe { Py::borrowed(&raw mut ffi::_Py_NoneStruct) }
    }
}

pub struct PyAny;
pub struct PyModule;
pub struct PyCFunction;

/// A reference that is owned.
pub struct Py<T>(*mut PyObject, PhantomData<T>);
unsafe impl<T> Send for Py<T> {}
unsafe impl<T> Sync for Py<T> {}
impl<T> Drop for Py<T> {
    fn drop(&mut self) {
        unsafe { ffi::Py_DecRef(self.0) }
    }
}
impl<T> Py<T> {
    unsafe fn owned(o: *mut PyObject) -> Self {
        Py(o, PhantomData)
    }
    unsafe fn borrowed(o: *mut PyObject) -> Self {
        unsafe { ffi::Py_IncRef(o) };
        Py(o, PhantomData)
    }
    pub fn clone_ref(&self, _: Python) -> Self {
        unsafe { Py::borrowed(self.0) }
    }
    pub fn into_ptr(self) -> *mut PyObject {
        let p = self.0;
        std::mem::forget(self);
        p
    }
    pub fn bind<'py>(&self, py: Python<'py>) -> Bound<'py, T> {
        Bound(self.clone_ref(py), PhantomData)
    }
    pub fn into_bound(self, _: Python) -> Bound<'_, T> {
        Bound(self, PhantomData)
    }
    pub fn into_any(self) -> Py<PyAny> {
        unsafe { Py::owned(self.into_ptr()) }
    }
    pub fn as_ptr(&self) -> *mut PyObject {
        self.0
    }
    pub fn is_none(&self, _: Python) -> bool {
        self.0 == &raw mut ffi::_Py_NoneStruct
    }
    pub fn call1<A: IntoArgs>(&self, py: Python, args: A) -> PyResult<Py<PyAny>> {
        let args = args.into_args(py)?;
        result(unsafe { ffi::PyObject_CallObject(self.0, args.0) })
    }
    pub fn call0(&self, _: Python) -> PyResult<Py<PyAny>> {
        result(unsafe { ffi::PyObject_CallObject(self.0, std::ptr::null_mut()) })
    }
}
impl<T: PyClass + PyMethods> Py<T> {
    pub fn new(_: Python, value: T) -> PyResult<Py<T>> {
        unsafe {
            let o: Py<T> = result::<T>(ffi::PyType_GenericAlloc(type_of::<T>()?, 0))?;
            (*o.0.cast::<Instance<T>>()).value = Box::into_raw(Box::new(value));
            Ok(o)
        }
    }
}

pub struct Bound<'py, T>(Py<T>, PhantomData<&'py ()>);
impl<'py, T> Bound<'py, T> {
    pub fn py(&self) -> Python<'py> {
        Python(PhantomData)
    }
    pub fn unbind(self) -> Py<T> {
        self.0
    }
    pub fn into_ptr(self) -> *mut PyObject {
        self.0.into_ptr()
    }
    pub fn call1<A: IntoArgs>(&self, args: A) -> PyResult<Bound<'py, PyAny>> {
        Ok(Bound(self.0.call1(self.py(), args)?, PhantomData))
    }
}
impl<'py, T: PyClass + PyMethods> Bound<'py, T> {
    pub fn new(py: Python<'py>, value: T) -> PyResult<Bound<'py, T>> {
        Ok(Bound(Py::new(py, value)?, PhantomData))
    }
}
impl<'py, T> Bound<'py, T> {
    pub fn as_ptr(&self) -> *mut PyObject {
        self.0.0
    }
    pub fn into_any(self) -> Bound<'py, PyAny> {
        Bound(self.0.into_any(), PhantomData)
    }
    pub fn is_none(&self) -> bool {
        self.0.is_none(self.py())
    }
    pub fn call0(&self) -> PyResult<Bound<'py, PyAny>> {
        Ok(Bound(self.0.call0(self.py())?, PhantomData))
    }
}
impl<T> Clone for Bound<'_, T> {
    fn clone(&self) -> Self {
        Bound(self.0.clone_ref(self.py()), PhantomData)
    }
}
impl Bound<'_, PyModule> {
    pub fn add_function(&self, f: Bound<'_, PyCFunction>) -> PyResult<()> {
        let n = unsafe { text_of_attribute(f.0.0)? };
        self.set(&n, f.0.0)
    }
    pub fn add_class<T: PyClass + PyMethods>(&self) -> PyResult<()> {
        self.set(T::NAME, type_of::<T>()?)
    }
    fn set(&self, name: &str, o: *mut PyObject) -> PyResult<()> {
        let n = CString::new(name).unwrap();
        if unsafe { ffi::PyObject_SetAttrString(self.0.0, n.as_ptr(), o) } != 0 {
            return Err(PyErr::fetch());
        }
        Ok(())
    }
}
unsafe fn text_of_attribute(f: *mut PyObject) -> PyResult<String> {
    unsafe extern "C" {
        fn PyObject_GetAttrString(o: *mut PyObject, name: *const c_char) -> *mut PyObject;
    }
    let o: Py<PyAny> = result(unsafe { PyObject_GetAttrString(f, c"__name__".as_ptr()) })?;
    unsafe { String::extract(o.0) }
}

fn result<T>(o: *mut PyObject) -> PyResult<Py<T>> {
    if o.is_null() { Err(PyErr::fetch()) } else { Ok(unsafe { Py::owned(o) }) }
}

// ------------------------------- errors ---------------------------------
pub type PyResult<T> = Result<T, PyErr>;
enum Kind {
    Lazy(*mut PyObject, String),
    Raised(Py<PyAny>),
}
pub struct PyErr(Kind);
unsafe impl Send for PyErr {}
unsafe impl Sync for PyErr {}
pub trait Exception {
    fn type_object() -> *mut PyObject;
}
impl PyErr {
    pub fn new<E: Exception, A: Into<String>>(args: A) -> PyErr {
        PyErr(Kind::Lazy(E::type_object(), args.into()))
    }
    fn fetch() -> PyErr {
        let (mut t, mut v, mut b) = (std::ptr::null_mut(), std::ptr::null_mut(), std::ptr::null_mut());
        unsafe {
            ffi::PyErr_Fetch(&mut t, &mut v, &mut b);
            if t.is_null() {
                return PyErr::new::<exceptions::PyRuntimeError, _>("attempted to fetch exception but none was set");
            }
            ffi::PyErr_NormalizeException(&mut t, &mut v, &mut b);
            ffi::Py_DecRef(t);
            if !b.is_null() {
                ffi::Py_DecRef(b);
            }
            PyErr(Kind::Raised(Py::owned(v)))
        }
    }
    fn restore(self) {
        unsafe {
            match self.0 {
                Kind::Lazy(t, m) => {
                    let o = ffi::PyUnicode_FromStringAndSize(m.as_ptr().cast(), m.len() as isize);
                    ffi::PyErr_SetObject(t, o);
                    ffi::Py_DecRef(o);
                }
                Kind::Raised(v) => {
                    let t = ffi::PyObject_Type(v.0);
                    ffi::PyErr_SetObject(t, v.0);
                    ffi::Py_DecRef(t);
                }
            }
        }
    }
    #[doc(hidden)]
    pub fn argument(self, name: &str) -> PyErr {
        match self.0 {
            Kind::Lazy(t, m) if t == exceptions::PyTypeError::type_object() => PyErr(Kind::Lazy(t, format!("argument '{name}': {m}"))),
            k => PyErr(k),
        }
    }
}
impl std::fmt::Display for PyErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match &self.0 {
            Kind::Lazy(_, m) => write!(f, "{m}"),
            Kind::Raised(v) => {
                let t = result::<PyAny>(unsafe { ffi::PyObject_Str(v.0) }).and_then(|s| unsafe { String::extract(s.0) });
                write!(f, "{}", t.unwrap_or_default())
            }
        }
    }
}
impl std::fmt::Debug for PyErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "PyErr({self})")
    }
}
impl std::error::Error for PyErr {}
impl From<PyErr> for std::io::Error {
    fn from(e: PyErr) -> Self {
        std::io::Error::other(e)
    }
}
pub mod exceptions {
    macro_rules! exception {
        ($($n:ident $o:ident),*) => {$(
            pub struct $n;
            impl $n {
                pub fn new_err<A: Into<String>>(args: A) -> crate::PyErr {
                    crate::PyErr::new::<$n, A>(args)
                }
            }
            impl crate::Exception for $n {
                fn type_object() -> *mut crate::ffi::PyObject {
                    unsafe { crate::ffi::$o }
                }
            }
        )*};
    }
    exception!(PyRuntimeError PyExc_RuntimeError, PyTypeError PyExc_TypeError, PyValueError PyExc_ValueError,
        PyOverflowError PyExc_OverflowError, PyOSError PyExc_OSError, PyIOError PyExc_OSError, PyKeyError PyExc_KeyError,
        PyException PyExc_Exception);
}

fn panicked() -> *mut PyObject {
    static P: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    *P.get_or_init(|| unsafe {
        ffi::PyErr_NewException(c"pyo3_runtime.PanicException".as_ptr(), ffi::PyExc_BaseException, std::ptr::null_mut()) as usize
    }) as *mut PyObject
}

/// Rust code called by Python: what it returns, raises, or panics with.
#[doc(hidden)]
pub fn guarded(f: impl FnOnce(Python<'static>) -> PyResult<*mut PyObject>) -> *mut PyObject {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(Python(PhantomData)))) {
        Ok(Ok(o)) => o,
        Ok(Err(e)) => {
            e.restore();
            std::ptr::null_mut()
        }
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| (*s).to_string()));
            PyErr(Kind::Lazy(panicked(), m.unwrap_or_else(|| "panic from Rust code".into()))).restore();
            std::ptr::null_mut()
        }
    }
}

// ------------------------------ conversions -----------------------------
pub trait FromPyObject: Sized {
    /// # Safety
    /// the object must be alive
    unsafe fn extract(o: *mut PyObject) -> PyResult<Self>;
}
fn wrong<T>(o: *mut PyObject, what: &str) -> PyResult<T> {
    unsafe extern "C" {
        fn PyType_GetName(t: *mut PyObject) -> *mut PyObject;
    }
    let n = unsafe {
        let t: Py<PyAny> = result(ffi::PyObject_Type(o))?;
        let n: Py<PyAny> = result(PyType_GetName(t.0))?;
        String::extract(n.0)?
    };
    Err(PyErr::new::<exceptions::PyTypeError, _>(format!("'{n}' object cannot be converted to '{what}'")))
}
fn is_text(o: *mut PyObject) -> bool {
    unsafe { ffi::PyType_GetFlags((*o).ty) & (1 << 28) != 0 }
}
impl FromPyObject for String {
    unsafe fn extract(o: *mut PyObject) -> PyResult<String> {
        if !is_text(o) {
            return wrong(o, "PyString");
        }
        let mut n = 0;
        let p = unsafe { ffi::PyUnicode_AsUTF8AndSize(o, &mut n) };
        if p.is_null() {
            return Err(PyErr::fetch());
        }
        Ok(String::from_utf8(unsafe { std::slice::from_raw_parts(p.cast::<u8>(), n as usize) }.to_vec()).expect("shim: UTF-8"))
    }
}
macro_rules! whole {
    ($($t:ty),*) => {$(
        impl FromPyObject for $t {
            unsafe fn extract(o: *mut PyObject) -> PyResult<$t> {
                let i: Py<PyAny> = result(unsafe { ffi::PyNumber_Index(o) })?;
                let v = unsafe { ffi::PyLong_AsUnsignedLongLong(i.0) };
                if v == u64::MAX && unsafe { !ffi::PyErr_Occurred().is_null() } {
                    return Err(PyErr::fetch());
                }
                <$t>::try_from(v).map_err(|e| PyErr::new::<exceptions::PyOverflowError, _>(e.to_string()))
            }
        }
    )*};
}
whole!(u8, u16, u32, u64, usize);
impl FromPyObject for bool {
    unsafe fn extract(o: *mut PyObject) -> PyResult<bool> {
        unsafe extern "C" {
            static mut PyBool_Type: PyObject;
        }
        if unsafe { (*o).ty } != &raw mut PyBool_Type {
            return wrong(o, "PyBool");
        }
        Ok(unsafe { ffi::PyLong_AsLong(o) } != 0)
    }
}
impl FromPyObject for std::ffi::OsString {
    unsafe fn extract(o: *mut PyObject) -> PyResult<Self> {
        unsafe { String::extract(o) }.map(Into::into)
    }
}
impl<T: FromPyObject> FromPyObject for Option<T> {
    unsafe fn extract(o: *mut PyObject) -> PyResult<Self> {
        if o == &raw mut ffi::_Py_NoneStruct { Ok(None) } else { unsafe { T::extract(o).map(Some) } }
    }
}
impl<T: FromPyObject> FromPyObject for Vec<T> {
    unsafe fn extract(o: *mut PyObject) -> PyResult<Self> {
        unsafe {
            if is_text(o) {
                return Err(PyErr::new::<exceptions::PyTypeError, _>("Can't extract `str` to `Vec`"));
            }
            if ffi::PySequence_Check(o) == 0 {
                return wrong(o, "Sequence");
            }
            let n = ffi::PySequence_Size(o);
            if n < 0 {
                return Err(PyErr::fetch());
            }
            (0..n)
                .map(|k| {
                    let x: Py<PyAny> = result(ffi::PySequence_GetItem(o, k))?;
                    T::extract(x.0)
                })
                .collect()
        }
    }
}
impl FromPyObject for Py<PyAny> {
    unsafe fn extract(o: *mut PyObject) -> PyResult<Self> {
        Ok(unsafe { Py::borrowed(o) })
    }
}

impl FromPyObject for Bound<'static, PyAny> {
    unsafe fn extract(o: *mut PyObject) -> PyResult<Self> {
        Ok(Bound(unsafe { Py::borrowed(o) }, PhantomData))
    }
}

pub trait IntoPy {
    fn into_py(self) -> *mut PyObject;
}
fn none() -> *mut PyObject {
    unsafe {
        let n = &raw mut ffi::_Py_NoneStruct;
        ffi::Py_IncRef(n);
        n
    }
}
impl IntoPy for () {
    fn into_py(self) -> *mut PyObject {
        none()
    }
}
impl IntoPy for String {
    fn into_py(self) -> *mut PyObject {
        self.as_str().into_py()
    }
}
impl IntoPy for &String {
    fn into_py(self) -> *mut PyObject {
        self.as_str().into_py()
    }
}
impl IntoPy for &str {
    fn into_py(self) -> *mut PyObject {
        unsafe { ffi::PyUnicode_FromStringAndSize(self.as_ptr().cast(), self.len() as isize) }
    }
}
impl IntoPy for bool {
    fn into_py(self) -> *mut PyObject {
        unsafe { ffi::PyBool_FromLong(self.into()) }
    }
}
impl<T> IntoPy for Py<T> {
    fn into_py(self) -> *mut PyObject {
        self.into_ptr()
    }
}
impl<T> IntoPy for &Py<T> {
    fn into_py(self) -> *mut PyObject {
        unsafe { Py::<T>::borrowed(self.0).into_ptr() }
    }
}
impl<T> IntoPy for Bound<'_, T> {
    fn into_py(self) -> *mut PyObject {
        self.into_ptr()
    }
}
impl<T> IntoPy for &Bound<'_, T> {
    fn into_py(self) -> *mut PyObject {
        (&self.0).into_py()
    }
}
macro_rules! number {
    ($($t:ty),*) => {$(
        impl IntoPy for $t {
            fn into_py(self) -> *mut PyObject {
                unsafe { ffi::PyLong_FromLong(c_long::try_from(self).expect("shim: a small number")) }
            }
        }
    )*};
}
number!(i8, i16, i32, i64, isize, u8, u16, u32, u64, usize);
impl<T: IntoPy> IntoPy for Option<T> {
    fn into_py(self) -> *mut PyObject {
        self.map_or_else(none, T::into_py)
    }
}
/// What a function may return.
pub trait IntoResult {
    fn into_result(self) -> PyResult<*mut PyObject>;
}
impl<T: IntoPy> IntoResult for T {
    fn into_result(self) -> PyResult<*mut PyObject> {
        Ok(self.into_py())
    }
}
impl<T: IntoPy> IntoResult for PyResult<T> {
    fn into_result(self) -> PyResult<*mut PyObject> {
        self.map(T::into_py)
    }
}

pub mod types {
    pub use super::{PyAny, PyModule, PyTuple};
    pub use super::PyCFunction;
}
pub struct PyTuple;
impl PyTuple {
    pub fn empty<'py>(py: Python<'py>) -> Bound<'py, PyTuple> {
        PyTuple::new(py, [(); 0]).expect("shim: an empty tuple")
    }
    pub fn new<'py, I>(_: Python<'py>, items: I) -> PyResult<Bound<'py, PyTuple>>
    where
        I: IntoIterator,
        I::Item: IntoPy,
    {
        let list: Vec<_> = items.into_iter().map(IntoPy::into_py).collect();
        let t: Py<PyTuple> = result(unsafe { ffi::PyTuple_New(list.len() as isize) })?;
        for (k, o) in list.into_iter().enumerate() {
            unsafe { ffi::PyTuple_SetItem(t.0, k as isize, o) };
        }
        Ok(Bound(t, PhantomData))
    }
}
pub trait IntoArgs {
    fn into_args(self, py: Python) -> PyResult<Py<PyTuple>>;
}
impl IntoArgs for Bound<'_, PyTuple> {
    fn into_args(self, _: Python) -> PyResult<Py<PyTuple>> {
        Ok(self.0)
    }
}
impl IntoArgs for Py<PyTuple> {
    fn into_args(self, _: Python) -> PyResult<Py<PyTuple>> {
        Ok(self)
    }
}
impl IntoArgs for &Bound<'_, PyTuple> {
    fn into_args(self, py: Python) -> PyResult<Py<PyTuple>> {
        Ok(self.0.clone_ref(py))
    }
}
impl IntoArgs for () {
    fn into_args(self, py: Python) -> PyResult<Py<PyTuple>> {
        Ok(PyTuple::empty(py).0)
    }
}
macro_rules! tuples {
    ($(($($t:ident $n:tt),*))*) => {$(
        impl<$($t: IntoPy),*> IntoArgs for ($($t,)*) {
            fn into_args(self, py: Python) -> PyResult<Py<PyTuple>> {
                let list: Vec<Py<PyAny>> = vec![$(result(self.$n.into_py())?),*];
                Ok(PyTuple::new(py, list)?.0)
            }
        }
    )*};
}
tuples! { (A 0) (A 0, B 1) (A 0, B 1, C 2) }

// ------------------------------- classes --------------------------------
pub type Method = unsafe extern "C" fn(*mut PyObject, *mut PyObject) -> *mut PyObject;
pub trait PyClass: 'static {
    const NAME: &'static str;
    fn cell() -> &'static std::sync::OnceLock<usize>;
}
pub trait PyMethods {
    fn methods() -> Vec<(&'static str, Method)>;
}
#[repr(C)]
struct Instance<T> {
    base: PyObject,
    value: *mut T,
}
/// # Safety
/// the object must be one of that class
#[doc(hidden)]
pub unsafe fn inside<'a, T>(o: *mut PyObject) -> &'a T {
    unsafe { &*(*o.cast::<Instance<T>>()).value }
}
unsafe extern "C" fn dealloc<T>(o: *mut PyObject) {
    unsafe {
        let i = o.cast::<Instance<T>>();
        if !(*i).value.is_null() {
            drop(Box::from_raw((*i).value));
        }
        let t = (*o).ty;
        ffi::PyObject_Free(o.cast());
        ffi::Py_DecRef(t);
    }
}
fn type_of<T: PyClass + PyMethods>() -> PyResult<*mut PyObject> {
    if let Some(t) = T::cell().get() {
        return Ok(*t as *mut PyObject);
    }
    let mut slots = vec![ffi::PyTypeSlot { slot: 52, func: dealloc::<T> as *const c_void }];
    let mut methods = vec![];
    for (n, f) in T::methods() {
        match n {
            "__repr__" => slots.push(ffi::PyTypeSlot { slot: 66, func: f as *const c_void }),
            "__str__" => slots.push(ffi::PyTypeSlot { slot: 70, func: f as *const c_void }),
            _ => methods.push(ffi::PyMethodDef {
                name: CString::new(n).unwrap().into_raw(),
                call: f as *const c_void,
                flags: 4,
                doc: std::ptr::null(),
            }),
        }
    }
    methods.push(ffi::PyMethodDef { name: std::ptr::null(), call: std::ptr::null(), flags: 0, doc: std::ptr::null() });
    slots.push(ffi::PyTypeSlot { slot: 64, func: Box::leak(methods.into_boxed_slice()).as_ptr().cast() });
    slots.push(ffi::PyTypeSlot { slot: 0, func: std::ptr::null() });
    let name = CString::new(format!("builtins.{}", T::NAME)).unwrap().into_raw();
    let mut spec = ffi::PyTypeSpec {
        name,
        size: std::mem::size_of::<Instance<T>>() as c_int,
        item: 0,
        flags: (1 << 18) | (1 << 7),
        slots: Box::leak(slots.into_boxed_slice()).as_mut_ptr(),
    };
    let t = unsafe { ffi::PyType_FromSpec(&mut spec) };
    if t.is_null() {
        return Err(PyErr::fetch());
    }
    Ok(*T::cell().get_or_init(|| t as usize) as *mut PyObject)
}

// ------------------------------ functions -------------------------------
/// The arguments of a call, by parameter.
///
/// # Safety
/// the tuple and the dictionary must be those of a call
#[doc(hidden)]
pub unsafe fn arguments(
    function: &str,
    names: &[&str],
    needed: &[bool],
    args: *mut PyObject,
    kwargs: *mut PyObject,
) -> PyResult<Vec<Option<*mut PyObject>>> {
    type E = exceptions::PyTypeError;
    let mut given = vec![None; names.len()];
    unsafe {
        let n = ffi::PyTuple_Size(args) as usize;
        if n > names.len() {
            return Err(PyErr::new::<E, _>(format!("{function}() takes {} positional arguments but {n} were given", names.len())));
        }
        for (k, g) in given.iter_mut().enumerate().take(n) {
            *g = Some(ffi::PyTuple_GetItem(args, k as isize));
        }
        if !kwargs.is_null() {
            let (mut at, mut k, mut v) = (0, std::ptr::null_mut(), std::ptr::null_mut());
            while ffi::PyDict_Next(kwargs, &mut at, &mut k, &mut v) != 0 {
                let name = String::extract(k)?;
                let Some(x) = names.iter().position(|m| *m == name) else {
                    return Err(PyErr::new::<E, _>(format!("{function}() got an unexpected keyword argument '{name}'")));
                };
                if given[x].is_some() {
                    return Err(PyErr::new::<E, _>(format!("{function}() got multiple values for argument '{name}'")));
                }
                given[x] = Some(v);
            }
        }
    }
    for (k, g) in given.iter().enumerate() {
        if g.is_none() && needed[k] {
            return Err(PyErr::new::<E, _>(format!("{function}() missing 1 required positional argument: '{}'", names[k])));
        }
    }
    Ok(given)
}

pub type Function = unsafe extern "C" fn(*mut PyObject, *mut PyObject, *mut PyObject) -> *mut PyObject;
#[doc(hidden)]
pub fn function<'py>(name: &'static CStr, call: Function, m: &Bound<'py, PyModule>) -> PyResult<Bound<'py, PyCFunction>> {
    let def = Box::leak(Box::new(ffi::PyMethodDef { name: name.as_ptr(), call: call as *const c_void, flags: 1 | 2, doc: std::ptr::null() }));
    let _ = m;
    Ok(Bound(result(unsafe { ffi::PyCFunction_NewEx(def, std::ptr::null_mut(), std::ptr::null_mut()) })?, PhantomData))
}
#[macro_export]
macro_rules! wrap_pyfunction {
    ($($p:ident)::+, $m:expr) => {
        $crate::function($($p)::+::NAME, $($p)::+::wrapped, &$m)
    };
}
#[doc(hidden)]
pub fn module<'py>(_: Python<'py>, name: &str) -> PyResult<Bound<'py, PyModule>> {
    let def = Box::leak(Box::new(ffi::PyModuleDef {
        base: PyObject { refs: 1, ty: std::ptr::null_mut() },
        init: std::ptr::null(),
        index: 0,
        copy: std::ptr::null(),
        name: CString::new(name).unwrap().into_raw(),
        doc: std::ptr::null(),
        size: -1,
        rest: [std::ptr::null(); 5],
    }));
    Ok(Bound(result(unsafe { ffi::PyModule_Create2(def, 1013) })?, PhantomData))
}

pub mod prelude {
    pub use crate::wrap_pyfunction;
    pub use crate::{Bound, FromPyObject, Py, PyAny, PyErr, PyModule, PyResult, Python, pyclass, pyfunction, pymethods, pymodule};
}
