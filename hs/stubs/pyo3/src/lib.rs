//! The part of pyo3 the Python module uses, without an interpreter: Python objects
//! are plain values, exceptions are values with a class name.
use std::any::Any;
use std::cell::RefCell;
use std::marker::PhantomData;
use std::ops::Deref;
use std::rc::Rc;

#[derive(Clone, Copy)]
pub struct Python<'py>(PhantomData<&'py ()>);
impl<'py> Python<'py> {
    pub fn with_gil<F, R>(f: F) -> R
    where
        F: for<'a> FnOnce(Python<'a>) -> R,
    {
        f(Python(PhantomData))
    }
    pub unsafe fn assume_gil_acquired() -> Python<'py> {
        Python(PhantomData)
    }
    pub fn get_type<T: PyTypeInfo>(self) -> &'py types::PyType {
        Box::leak(Box::new(types::PyType(T::NAME)))
    }
    pub fn allow_threads<T>(self, f: impl FnOnce() -> T) -> T {
        f()
    }
    #[allow(non_snake_case)]
    pub fn None(self) -> PyObject {
        PyObject(Obj::None)
    }
    pub fn check_signals(self) -> PyResult<()> {
        Ok(())
    }
}

pub type PyResult<T> = Result<T, PyErr>;
#[derive(Clone, Debug)]
pub struct PyErr {
    pub class: &'static str,
    pub message: String,
}
static mut PENDING: Option<PyErr> = None;
impl PyErr {
    pub fn new<T: PyTypeInfo, A: ErrArgs>(a: A) -> PyErr {
        PyErr { class: T::NAME, message: a.text() }
    }
    pub fn restore(self, _: Python<'_>) {
        unsafe { PENDING = Some(self) }
    }
    #[allow(static_mut_refs)]
    pub fn occurred(_: Python<'_>) -> bool {
        unsafe { PENDING.is_some() }
    }
    pub fn fetch(_: Python<'_>) -> PyErr {
        #[allow(static_mut_refs)]
        unsafe { PENDING.take() }.unwrap_or(PyErr { class: "SystemError", message: String::new() })
    }
    pub fn take(_: Python<'_>) -> Option<PyErr> {
        #[allow(static_mut_refs)]
        unsafe { PENDING.take() }
    }
}
impl std::fmt::Display for PyErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}: {}", self.class, self.message)
    }
}
impl std::error::Error for PyErr {}
impl From<std::io::Error> for PyErr {
    fn from(e: std::io::Error) -> PyErr {
        PyErr { class: "PyOSError", message: e.to_string() }
    }
}
impl From<std::string::FromUtf8Error> for PyErr {
    fn from(e: std::string::FromUtf8Error) -> PyErr {
        PyErr { class: "PyUnicodeDecodeError", message: e.to_string() }
    }
}
pub trait ErrArgs {
    fn text(&self) -> String;
}
impl ErrArgs for String {
    fn text(&self) -> String {
        self.clone()
    }
}
impl ErrArgs for &str {
    fn text(&self) -> String {
        self.to_string()
    }
}
impl ErrArgs for (String,) {
    fn text(&self) -> String {
        self.0.clone()
    }
}
impl ErrArgs for () {
    fn text(&self) -> String {
        String::new()
    }
}
pub trait PyTypeInfo {
    const NAME: &'static str;
}
pub trait PyClass {
    const NAME: &'static str;
}

/// What a Python object is here.
#[derive(Clone)]
pub enum Obj {
    None,
    Bytes(Rc<[u8]>),
    Str(Rc<str>),
    Other(Rc<dyn Any>),
}
#[derive(Clone)]
pub struct PyObject(pub Obj);
pub type PyAny = PyObject;
impl PyObject {
    pub fn extract<'a, T: FromPyObject<'a>>(&'a self, _: Python<'_>) -> PyResult<T> {
        T::extract(self)
    }
}
pub trait FromPyObject<'a>: Sized {
    fn extract(o: &'a PyObject) -> PyResult<Self>;
}
fn type_error<T>() -> PyResult<T> {
    Err(PyErr { class: "PyTypeError", message: "wrong type".to_string() })
}
impl<'a> FromPyObject<'a> for &'a types::PyBytes {
    fn extract(o: &'a PyObject) -> PyResult<Self> {
        match &o.0 {
            Obj::Bytes(b) => Ok(Box::leak(Box::new(types::PyBytes(b.clone())))),
            _ => type_error(),
        }
    }
}
impl<'a> FromPyObject<'a> for &'a [u8] {
    fn extract(o: &'a PyObject) -> PyResult<Self> {
        match &o.0 {
            Obj::Bytes(b) => Ok(b),
            _ => type_error(),
        }
    }
}
impl<'a> FromPyObject<'a> for Vec<u8> {
    fn extract(o: &'a PyObject) -> PyResult<Self> {
        match &o.0 {
            Obj::Bytes(b) => Ok(b.to_vec()),
            _ => type_error(),
        }
    }
}
impl<'a> FromPyObject<'a> for String {
    fn extract(o: &'a PyObject) -> PyResult<Self> {
        match &o.0 {
            Obj::Str(b) => Ok(b.to_string()),
            _ => type_error(),
        }
    }
}
impl<'a> FromPyObject<'a> for &'a str {
    fn extract(o: &'a PyObject) -> PyResult<Self> {
        match &o.0 {
            Obj::Str(b) => Ok(b),
            _ => type_error(),
        }
    }
}
pub trait ToPyObject {
    fn to_object(&self, py: Python<'_>) -> PyObject;
}
impl ToPyObject for types::PyBytes {
    fn to_object(&self, _: Python<'_>) -> PyObject {
        PyObject(Obj::Bytes(self.0.clone()))
    }
}
impl ToPyObject for String {
    fn to_object(&self, _: Python<'_>) -> PyObject {
        PyObject(Obj::Str(self.as_str().into()))
    }
}
impl ToPyObject for str {
    fn to_object(&self, _: Python<'_>) -> PyObject {
        PyObject(Obj::Str(self.into()))
    }
}
pub trait IntoPy<T> {
    fn into_py(self, py: Python<'_>) -> T;
}
impl<S: ToPyObject> IntoPy<PyObject> for S {
    fn into_py(self, py: Python<'_>) -> PyObject {
        self.to_object(py)
    }
}
impl IntoPy<PyObject> for &types::PyBytes {
    fn into_py(self, py: Python<'_>) -> PyObject {
        self.to_object(py)
    }
}

/// An owned reference.
pub struct Py<T>(pub Rc<T>);
impl<T> Clone for Py<T> {
    fn clone(&self) -> Self {
        Py(self.0.clone())
    }
}
impl<T> Py<T> {
    pub fn as_ref<'a>(&'a self, _: Python<'a>) -> &'a T {
        &self.0
    }
}
impl From<&types::PyBytes> for Py<types::PyBytes> {
    fn from(b: &types::PyBytes) -> Self {
        Py(Rc::new(types::PyBytes(b.0.clone())))
    }
}
impl From<&types::PyBytes> for PyObject {
    fn from(b: &types::PyBytes) -> Self {
        PyObject(Obj::Bytes(b.0.clone()))
    }
}
pub struct PyRef<'a, T>(pub &'a T);
impl<'a, T> Deref for PyRef<'a, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.0
    }
}

pub mod types {
    use super::*;
    pub struct PyBytes(pub Rc<[u8]>);
    impl PyBytes {
        pub fn new<'p>(_: Python<'p>, s: &[u8]) -> &'p PyBytes {
            Box::leak(Box::new(PyBytes(s.into())))
        }
        pub fn as_bytes(&self) -> &[u8] {
            &self.0
        }
    }
    pub struct PyType(pub &'static str);
    #[derive(Default)]
    pub struct PyModule {
        pub names: RefCell<Vec<String>>,
    }
    impl PyModule {
        pub fn add_class<T: PyClass>(&self) -> PyResult<()> {
            self.names.borrow_mut().push(T::NAME.to_string());
            Ok(())
        }
        pub fn add<V>(&self, name: &str, _: V) -> PyResult<()> {
            self.names.borrow_mut().push(name.to_string());
            Ok(())
        }
    }
}
pub mod exceptions {
    use super::*;
    macro_rules! ex {
        ($($n:ident)*) => { $(
            pub struct $n;
            impl PyTypeInfo for $n {
                const NAME: &'static str = stringify!($n);
            }
            impl $n {
                pub fn new_err<A: ErrArgs>(a: A) -> PyErr {
                    PyErr::new::<$n, A>(a)
                }
            }
        )* };
    }
    ex!(PyException PyIOError PyOSError PyValueError PyTypeError PyRuntimeError PyKeyError PyIndexError PyUnicodeDecodeError PyUnicodeEncodeError PyMemoryError PyOverflowError PyNotImplementedError PyFileNotFoundError PyPermissionError);
}
#[macro_export]
macro_rules! create_exception {
    ($m:ident, $n:ident, $b:ty $(, $doc:expr)?) => {
        pub struct $n;
        impl $crate::PyTypeInfo for $n {
            const NAME: &'static str = stringify!($n);
        }
        impl $n {
            #[allow(dead_code)]
            pub fn new_err<A: $crate::ErrArgs>(a: A) -> $crate::PyErr {
                $crate::PyErr::new::<$n, A>(a)
            }
        }
    };
}
pub use pyo3_macros::*;
pub use types::{PyModule, PyType};
pub mod prelude {
    pub use crate::types::PyModule;
    pub use crate::{pyclass, pyfunction, pymethods, pymodule, FromPyObject, IntoPy, Py, PyAny, PyErr, PyObject, PyRef, PyResult, Python, ToPyObject};
}
