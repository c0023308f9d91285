//! Stand-in for the JavaScript values the web library exchanges with its caller.
use std::cell::RefCell;
use std::rc::Rc;

pub use wasm_bindgen_macro::wasm_bindgen;

/// Arrays are references, as in JavaScript.
#[derive(Clone, Debug)]
pub enum JsValue {
    Undefined,
    Null,
    Bool(bool),
    Number(f64),
    String(String),
    Array(Rc<RefCell<Vec<JsValue>>>),
    Bytes(Bytes),
}

/// A part of a shared piece of memory.
#[derive(Clone, Debug)]
pub struct Bytes {
    memory: Rc<RefCell<Vec<u8>>>,
    pub offset: usize,
    pub length: usize,
}

impl Bytes {
    pub fn new(bytes: Vec<u8>) -> Bytes {
        let length = bytes.len();
        Bytes { memory: Rc::new(RefCell::new(bytes)), offset: 0, length }
    }
    pub fn to_vec(&self) -> Vec<u8> {
        self.memory.borrow()[self.offset..self.offset + self.length].to_vec()
    }
    pub fn change(&self, f: impl FnOnce(&mut [u8])) {
        f(&mut self.memory.borrow_mut()[self.offset..self.offset + self.length])
    }
    pub fn part(&self, begin: usize, end: usize) -> Bytes {
        let end = end.min(self.length);
        let begin = begin.min(end);
        Bytes { memory: self.memory.clone(), offset: self.offset + begin, length: end - begin }
    }
}

impl Default for JsValue {
    fn default() -> JsValue {
        JsValue::Undefined
    }
}

impl JsValue {
    pub const UNDEFINED: JsValue = JsValue::Undefined;
    pub const NULL: JsValue = JsValue::Null;
    pub fn from_str(text: &str) -> JsValue {
        JsValue::String(text.to_string())
    }
    pub fn from_f64(number: f64) -> JsValue {
        JsValue::Number(number)
    }
    pub fn as_f64(&self) -> Option<f64> {
        match self {
            JsValue::Number(number) => Some(*number),
            _ => None,
        }
    }
    pub fn as_string(&self) -> Option<String> {
        match self {
            JsValue::String(text) => Some(text.clone()),
            _ => None,
        }
    }
    pub fn from_bool(value: bool) -> JsValue {
        JsValue::Bool(value)
    }
    pub fn as_bool(&self) -> Option<bool> {
        match self {
            JsValue::Bool(value) => Some(*value),
            _ => None,
        }
    }
    pub fn is_undefined(&self) -> bool {
        matches!(self, JsValue::Undefined)
    }
    pub fn is_null(&self) -> bool {
        matches!(self, JsValue::Null)
    }
    /// What storing the value in an array of bytes keeps of it.
    pub fn to_byte(&self) -> u8 {
        match self {
            JsValue::Bool(value) => *value as u8,
            JsValue::Number(value) if value.is_finite() => value.trunc().rem_euclid(256.) as u8,
            JsValue::String(text) => text.trim().parse::<f64>().map_or(0, |n| JsValue::Number(n).to_byte()),
            _ => 0,
        }
    }
}

impl<T: Into<JsValue> + Clone> From<&T> for JsValue {
    fn from(value: &T) -> JsValue {
        value.clone().into()
    }
}
impl From<bool> for JsValue {
    fn from(value: bool) -> JsValue {
        JsValue::Bool(value)
    }
}
impl From<String> for JsValue {
    fn from(value: String) -> JsValue {
        JsValue::String(value)
    }
}
impl From<&str> for JsValue {
    fn from(value: &str) -> JsValue {
        JsValue::String(value.to_string())
    }
}
macro_rules! numbers {
    ($($t:ty)*) => { $(impl From<$t> for JsValue {
        fn from(value: $t) -> JsValue {
            JsValue::Number(value as f64)
        }
    })* };
}
numbers!(u8 i8 u16 i16 u32 i32 usize isize f32 f64);

pub trait JsCast: AsRef<JsValue> + Into<JsValue> {
    fn instanceof(value: &JsValue) -> bool;
    fn unchecked_from_js(value: JsValue) -> Self;
    fn dyn_into<T: JsCast>(self) -> Result<T, Self> {
        if T::instanceof(self.as_ref()) {
            Ok(T::unchecked_from_js(self.into()))
        } else {
            Err(self)
        }
    }
    fn unchecked_into<T: JsCast>(self) -> T {
        T::unchecked_from_js(self.into())
    }
    fn has_type<T: JsCast>(&self) -> bool {
        T::instanceof(self.as_ref())
    }
    fn is_instance_of<T: JsCast>(&self) -> bool {
        T::instanceof(self.as_ref())
    }
}
impl AsRef<JsValue> for JsValue {
    fn as_ref(&self) -> &JsValue {
        self
    }
}
impl JsCast for JsValue {
    fn instanceof(_: &JsValue) -> bool {
        true
    }
    fn unchecked_from_js(value: JsValue) -> JsValue {
        value
    }
}

/// Message of an error thrown at the caller.
pub fn throw_str(text: &str) -> ! {
    panic!("{}", text)
}

pub trait UnwrapThrowExt<T>: Sized {
    fn unwrap_throw(self) -> T;
    fn expect_throw(self, message: &str) -> T;
}
impl<T> UnwrapThrowExt<T> for Option<T> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }
    fn expect_throw(self, message: &str) -> T {
        self.expect(message)
    }
}
impl<T, E: std::fmt::Debug> UnwrapThrowExt<T> for Result<T, E> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }
    fn expect_throw(self, message: &str) -> T {
        self.expect(message)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Clamped<T>(pub T);

pub mod prelude {
    pub use crate::{wasm_bindgen, Clamped, JsCast, JsValue, UnwrapThrowExt};
}
