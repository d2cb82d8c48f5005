"""Declarations every derive has to accept (property C02). One line or block per declaration."""
import re

HELP = '''#![allow(warnings)]
pub type Result<T> = std::result::Result<T, String>;
pub mod mod1 {
    #[derive(%(der)s, Default)] %(crate)s pub struct M;
    pub mod mod2 { #[derive(%(der)s)] %(crate)s pub struct M2 { pub a: u8 } }
}
pub fn mk8() -> u8 { 3 }
pub const N4: usize = 4;
pub type T2 = u8;
pub type char_t = u8;
'''

PROXY = '''
#[derive(%(der)s)] %(crate)s pub struct Prx { a: u8 }
impl From<&%(c)s> for Prx { fn from(x: &%(c)s) -> Prx { Prx { a: x.a } } }
impl From<&Prx> for %(c)s { fn from(x: &Prx) -> %(c)s { %(c)s { a: x.a } } }
'''

SRC = r'''
pub struct A1;
pub struct A2 {}
pub struct A3();
pub struct A4(u8);
pub struct A5(u8,);
pub struct A6(pub u8, pub(crate) String);
pub struct A7(Vec<u8>, Option<String>, (u8, u16));
struct A8 { a: u8 }
pub(crate) struct A9 { pub a: u8, pub(crate) b: u16, c: String, }
pub struct A10 { a: Vec<Vec<Option<u8>>>, b: std::collections::HashMap<String, Vec<u8>>, c: [u8; 4], d: (u8, String), }
pub struct A11<T> { a: T }
pub struct A12<T, U> { a: T, b: Vec<U> }
pub struct A13<T: Clone> { a: T }
pub struct A14<const N: usize> { a: [u8; N] }
pub struct A15<T, const N: usize> { a: [T; N], b: u8 }
pub struct A16<T>(T);
pub struct A17<T, U>(T, Option<U>);
/// doc comment
pub struct A18 { /// field doc
 a: u8, // comment
 /* block */ b: u16 }
#[derive(Clone, Debug)] #[allow(dead_code)] pub struct A19 { #[allow(unused)] a: u8, #[cfg(not(nothing))] b: u8 }
pub struct A20 { a: std::option::Option<u8>, b: ::std::vec::Vec<u8>, c: core::option::Option<std::string::String> }
pub struct A21 { a: () , b: ((), u8) }
pub struct A22 { r#type: u8 }
pub struct A23 { a: Box<u8>, b: Option<Box<A8>> }
pub struct A24 { a: [[u8; 2]; 3] }
pub struct A25 { a: std::collections::BTreeMap<String, u8>, b: std::collections::BTreeSet<u8>, c: std::collections::LinkedList<u8>, d: std::collections::HashSet<u8> }
pub struct A26 { a: (u8, u16, String), b: (u8, u8, u8, u8) }
pub struct A27 { a: u8, b: i8, c: u16, d: i16, e: u32, f: i32, g: u64, h: i64, i: usize, j: f32, k: f64, l: bool, m: char_t }
pub struct A28 { d: std::time::Duration, e: std::time::SystemTime }
pub struct A29<T>{ a: Vec<T>, b: Option<T>, c: (T, T), d: [T; 2], e: std::collections::HashMap<String, T> }
pub struct A30 { a: Vec<[u8; 3]>, b: Option<(u8, String)>, c: Vec<(String, Vec<u8>)> }
pub struct A31 { d: u8, s: u8, o: u8, r: u8, i: u8, key: u8, v: u8, n: u8 }
pub struct A32<T>{ a: A11<T>, b: A11<A11<T>> }
pub struct A33<T> where T: Clone { a: T }
pub struct A34 { a: mod1::M, b: mod1::mod2::M2 }
pub struct A35 { a: crate::mod1::M, b: self::mod1::M }
pub struct A36<T: Clone + Default, U> { a: T, b: U }
pub struct A37 { pub a: u8, pub(in crate) b: u8, pub(self) c: u8 }
pub struct A38 { a: [u8; N4] }
pub struct A39 { a: [u8; 2 + 2] }
pub struct A40 { a: Vec<Vec<Vec<u8>>> }
pub struct A42<T = u8> { a: T }
pub enum B1 { A }
pub enum B2 { A, B, C, }
pub enum B3 { A(u8), B(u8, String), C(Vec<u8>,) }
pub enum B4 { A { a: u8 }, B { a: u8, b: String, }, }
pub enum B5 { A, B(u8), C { a: u8 }, D }
pub(crate) enum B6 { A, B(Option<u8>) }
enum B7 { A, B { a: Option<u8> } }
pub enum B8<T> { A(T), B { a: T }, C }
pub enum B9<T, U> { A(T, U), B { a: Vec<T>, b: U } }
pub enum B10 { /// doc
 A, /// doc
 B(u8), /// doc
 C { /// doc
 a: u8 } }
pub enum B11 { A(()), B((u8, u8)), C([u8; 3]) }
pub enum B12 { A = 1, B = 5 }
pub enum B13 { A(mod1::M), B(std::collections::HashMap<String, u8>) }
pub enum B14 { A(Box<B14>), B }
pub enum B15 { A(), B {}, C }
#[derive(Clone, Debug, PartialEq)] pub enum B16 { A, B(u8) }
pub enum B17 { #[allow(dead_code)] A, B(#[allow(dead_code)] u8) }
pub enum B18<T: Clone> { A(T) }
pub enum B19<const N: usize> { A([u8; N]), B }
pub enum B20 { A(u8, u8, u8, u8, u8) }
pub enum B21 { A { s: u8, d: u8, o: u8, r: u8, i: u8 } }
pub enum B22 { Ok(u8), Err(u8), Some(u8), None }
pub enum B23 { A { r#type: u8 } }
pub enum B24 { Self_, Type, r#Dyn }
#[repr(u8)] pub enum B25 { A, B }
#[nserde(default)] pub struct C1 { a: u8, b: String }
pub struct C2 { #[nserde(default)] a: u8, #[nserde(rename = "x")] b: u8, #[nserde(skip)] c: u8 }
pub struct C3 { #[nserde(rename = "a b")] a: u8, #[nserde(rename = "type")] b: u8 }
#[nserde(transparent)] pub struct C4(u8);
#[nserde(serialize_none_as_null)] pub struct C5 { a: Option<u8> }
pub struct C6 { #[nserde(default = "5")] a: u8, #[nserde(default_with = "mk8")] b: u8, #[nserde(default = "hi")] c: String }
#[nserde(proxy = "Prx")] pub struct C7 { a: u8 }
pub enum C8 { #[nserde(rename = "x")] A, #[nserde(rename = "y")] B(u8), #[nserde(rename = "z")] C { #[nserde(rename = "q")] a: u8 } }
pub struct C9 { #[nserde(default, rename = "x")] a: u8 }
pub struct C10 { #[nserde(default)] #[nserde(rename = "x")] a: u8 }
pub struct C11 { #[nserde(default)] a: Option<u8>, #[nserde(default = "3")] b: Option<u8> }
pub struct C12 { #[doc = "hey"] #[nserde(skip)] a: u8 }
pub enum C13 { A { #[nserde(default)] a: u8, #[nserde(skip)] b: u8 } }
pub struct C14(#[nserde(skip)] u8, u8);
#[nserde(transparent)] pub struct C15<T>(T);
#[nserde(transparent)] pub struct C16 { a: u8 }
pub struct C17<T> { #[nserde(default)] a: T2, #[nserde(rename = "k")] b: T }
pub enum B26 { A(u8, #[allow(dead_code)] String,), B((u8, u8,), Vec<(u8, u8,)>), C { #[allow(dead_code)] a: u8, /// doc
 b: u8, }, }
pub enum B27<T, const N: usize> { A([T; N]), B { b: T } }
pub enum B28<T> where T: Clone { A(T), B { b: T } }
pub enum B29 { A(crate::mod1::M, std::option::Option<u8>), B { a: [u8; N4], b: [u8; 1 + 1] } }
pub struct A43<const N: usize, T: Clone = u8>([T; N]);
pub struct A44 { a: [Option<(u8, String)>; 2], b: Vec<std::collections::BTreeMap<String, (u8, [u8; 2])>>, c: Box<[u8; 2]> }
pub struct A45<T>(pub T, pub(crate) Vec<T>, (T, T)) where T: Clone;
pub(in crate) struct A46 { pub(self) a: u8 }
pub struct A47 { _a: u8, __b: u8, r#fn: u8, r#match: Option<u8> }
pub struct A48<A, B, C> { a: A, b: Option<B>, c: Vec<C>, d: (A, B) }
#[nserde(default)] pub struct C18<T> { a: T2, b: Option<T>, c: Vec<T> }
pub enum C19<T> { #[nserde(rename = "one")] A(T), B { #[nserde(rename = "two")] a: T, #[nserde(default)] b: T2 } }
'''


def shapes(der, fmt, cr=''):
    """[(name, text)]: each text is a complete derived declaration"""
    out = []
    pend = ''
    for x in re.split(r'\n(?=(?:///|#\[|pub|struct|enum))', SRC.strip()):
        if x.startswith('///') or (x.startswith('#[') and not re.search(r'\b(struct|enum) ', x)):
            pend += x + '\n'
            continue
        t = pend + x
        pend = ''
        n = re.search(r'\b(?:struct|enum) (\w+)', t).group(1)
        if n == 'C7' and fmt == 'Ron':
            continue   # the README rules container proxies out for RON
        out.append((n, '#[derive(%s)]\n%s%s\n' % (der, cr + '\n' if cr else '', t)))
    return out
