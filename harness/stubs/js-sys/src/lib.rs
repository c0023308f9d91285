//! Stand-in for JavaScript's arrays.
use std::cell::RefCell;
use std::iter::FromIterator;
use std::ops::Deref;
use std::rc::Rc;
use wasm_bindgen::{JsCast, JsValue};

/// A reference to an array, as in JavaScript: clones share the contents.
#[derive(Clone, Debug)]
pub struct Array(JsValue);

impl Array {
    fn of(values: Vec<JsValue>) -> Array {
        Array(JsValue::Array(Rc::new(RefCell::new(values))))
    }
    fn cell(&self) -> &Rc<RefCell<Vec<JsValue>>> {
        match &self.0 {
            JsValue::Array(values) => values,
            other => panic!("TypeError: no array but {:?}", other),
        }
    }
    pub fn new() -> Array {
        Array::of(vec![])
    }
    pub fn new_with_length(length: u32) -> Array {
        Array::of(vec![JsValue::Undefined; length as usize])
    }
    pub fn from(value: &JsValue) -> Array {
        match value {
            JsValue::Array(values) => Array::of(values.borrow().clone()),
            JsValue::Bytes(bytes) => bytes.to_vec().into_iter().collect(),
            _ => Array::new(),
        }
    }
    pub fn is_array(value: &JsValue) -> bool {
        matches!(value, JsValue::Array(_))
    }
    pub fn push(&self, value: &JsValue) -> u32 {
        self.cell().borrow_mut().push(value.clone());
        self.length()
    }
    pub fn pop(&self) -> JsValue {
        self.cell().borrow_mut().pop().unwrap_or_default()
    }
    pub fn set(&self, index: u32, value: JsValue) {
        let mut values = self.cell().borrow_mut();
        if values.len() <= index as usize {
            values.resize(index as usize + 1, JsValue::Undefined);
        }
        values[index as usize] = value;
    }
    pub fn get(&self, index: u32) -> JsValue {
        self.cell().borrow().get(index as usize).cloned().unwrap_or_default()
    }
    pub fn at(&self, index: i32) -> JsValue {
        let index = if index < 0 { index + self.length() as i32 } else { index };
        if index < 0 { JsValue::Undefined } else { self.get(index as u32) }
    }
    pub fn length(&self) -> u32 {
        self.cell().borrow().len() as u32
    }
    pub fn to_vec(&self) -> Vec<JsValue> {
        self.cell().borrow().clone()
    }
    pub fn iter(&self) -> std::vec::IntoIter<JsValue> {
        self.to_vec().into_iter()
    }
    pub fn concat(&self, other: &Array) -> Array {
        Array::of(self.iter().chain(other.iter()).collect())
    }
    pub fn slice(&self, start: u32, end: u32) -> Array {
        Array::of(self.iter().take(end as usize).skip(start as usize).collect())
    }
    pub fn reverse(&self) -> Array {
        self.cell().borrow_mut().reverse();
        self.clone()
    }
    pub fn fill(&self, value: &JsValue, start: u32, end: u32) -> Array {
        let mut values = self.cell().borrow_mut();
        let end = (end as usize).min(values.len());
        values[(start as usize).min(end)..end].fill(value.clone());
        self.clone()
    }
    pub fn for_each(&self, f: &mut dyn FnMut(JsValue, u32, Array)) {
        self.iter().enumerate().for_each(|(i, value)| f(value, i as u32, self.clone()));
    }
    pub fn map(&self, f: &mut dyn FnMut(JsValue, u32, Array) -> JsValue) -> Array {
        Array::of(self.iter().enumerate().map(|(i, value)| f(value, i as u32, self.clone())).collect())
    }
}

impl Default for Array {
    fn default() -> Array {
        Array::new()
    }
}

impl IntoIterator for Array {
    type Item = JsValue;
    type IntoIter = std::vec::IntoIter<JsValue>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}

impl<A: Into<JsValue>> FromIterator<A> for Array {
    fn from_iter<I: IntoIterator<Item = A>>(values: I) -> Array {
        Array::of(values.into_iter().map(|value| value.into()).collect())
    }
}

impl<A: Into<JsValue>> Extend<A> for Array {
    fn extend<I: IntoIterator<Item = A>>(&mut self, values: I) {
        self.cell().borrow_mut().extend(values.into_iter().map(|value| value.into()));
    }
}

/// A reference to bytes, as in JavaScript: clones share the contents.
#[derive(Clone, Debug)]
pub struct Uint8Array(JsValue);

impl Uint8Array {
    fn of(bytes: Vec<u8>) -> Uint8Array {
        Uint8Array(JsValue::Bytes(wasm_bindgen::Bytes::new(bytes)))
    }
    fn cell(&self) -> &wasm_bindgen::Bytes {
        match &self.0 {
            JsValue::Bytes(bytes) => bytes,
            other => panic!("TypeError: no bytes but {:?}", other),
        }
    }
    pub fn new(value: &JsValue) -> Uint8Array {
        Uint8Array::of(match value {
            JsValue::Array(values) => values.borrow().iter().map(|value| value.to_byte()).collect(),
            JsValue::Bytes(bytes) => bytes.to_vec(),
            JsValue::Number(length) => vec![0; *length as usize],
            _ => vec![],
        })
    }
    pub fn new_with_length(length: u32) -> Uint8Array {
        Uint8Array::of(vec![0; length as usize])
    }
    pub fn new_from_slice(bytes: &[u8]) -> Uint8Array {
        Uint8Array::of(bytes.to_vec())
    }
    /// A copy: what the caller's memory holds later cannot be seen here.
    pub unsafe fn view(bytes: &[u8]) -> Uint8Array {
        Uint8Array::of(bytes.to_vec())
    }
    pub fn length(&self) -> u32 {
        self.cell().length as u32
    }
    pub fn byte_length(&self) -> u32 {
        self.length()
    }
    pub fn byte_offset(&self) -> u32 {
        self.cell().offset as u32
    }
    pub fn to_vec(&self) -> Vec<u8> {
        self.cell().to_vec()
    }
    pub fn copy_to(&self, bytes: &mut [u8]) {
        bytes.copy_from_slice(&self.to_vec());
    }
    pub fn copy_from(&self, bytes: &[u8]) {
        self.cell().change(|own| own.copy_from_slice(bytes));
    }
    pub fn get_index(&self, index: u32) -> u8 {
        self.to_vec().get(index as usize).copied().unwrap_or(0)
    }
    pub fn at(&self, index: i32) -> Option<u8> {
        let index = if index < 0 { index + self.length() as i32 } else { index };
        self.to_vec().get(usize::try_from(index).ok()?).copied()
    }
    pub fn set_index(&self, index: u32, value: u8) {
        self.cell().change(|own| {
            if let Some(byte) = own.get_mut(index as usize) {
                *byte = value;
            }
        });
    }
    pub fn set(&self, source: &JsValue, offset: u32) {
        let bytes = Uint8Array::new(source).to_vec();
        self.cell().change(|own| {
            assert!(offset as usize + bytes.len() <= own.len(), "RangeError: offset is out of bounds");
            own[offset as usize..offset as usize + bytes.len()].copy_from_slice(&bytes)
        });
    }
    pub fn slice(&self, begin: u32, end: u32) -> Uint8Array {
        Uint8Array::of(self.to_vec().into_iter().take(end as usize).skip(begin as usize).collect())
    }
    /// Shares the bytes, as in JavaScript.
    pub fn subarray(&self, begin: u32, end: u32) -> Uint8Array {
        Uint8Array(JsValue::Bytes(self.cell().part(begin as usize, end as usize)))
    }
    pub fn fill(&self, value: u8, start: u32, end: u32) -> Uint8Array {
        self.cell().change(|own| {
            let end = (end as usize).min(own.len());
            own[(start as usize).min(end)..end].fill(value)
        });
        self.clone()
    }
    pub fn for_each(&self, f: &mut dyn FnMut(u8, u32, Uint8Array)) {
        self.to_vec().into_iter().enumerate().for_each(|(i, value)| f(value, i as u32, self.clone()));
    }
}

impl Default for Uint8Array {
    fn default() -> Uint8Array {
        Uint8Array::of(vec![])
    }
}

impl From<&[u8]> for Uint8Array {
    fn from(bytes: &[u8]) -> Uint8Array {
        Uint8Array::of(bytes.to_vec())
    }
}

impl From<Vec<u8>> for Uint8Array {
    fn from(bytes: Vec<u8>) -> Uint8Array {
        Uint8Array::of(bytes)
    }
}

macro_rules! value {
    ($($t:ident $kind:ident)*) => { $(
        impl Deref for $t {
            type Target = JsValue;
            fn deref(&self) -> &JsValue {
                &self.0
            }
        }
        impl AsRef<JsValue> for $t {
            fn as_ref(&self) -> &JsValue {
                &self.0
            }
        }
        impl From<$t> for JsValue {
            fn from(array: $t) -> JsValue {
                array.0
            }
        }
        impl From<JsValue> for $t {
            fn from(value: JsValue) -> $t {
                $t(value)
            }
        }
        impl JsCast for $t {
            fn instanceof(value: &JsValue) -> bool {
                matches!(value, JsValue::$kind(_))
            }
            fn unchecked_from_js(value: JsValue) -> $t {
                $t(value)
            }
        }
    )* };
}
value!(Array Array Uint8Array Bytes);
