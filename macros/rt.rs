//! What generated programs share: the number of the program to show, a log, and actions to trigger from outside.
#![allow(dead_code)]
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use vertigo::{transaction, DomElement, DomNode};

thread_local! {
    static NUMBER: Cell<u32> = const { Cell::new(0) };
    static LOG: RefCell<String> = const { RefCell::new(String::new()) };
    static POKES: RefCell<Vec<Rc<dyn Fn()>>> = const { RefCell::new(Vec::new()) };
}
pub fn number() -> u32 {
    NUMBER.get()
}
/// one line of the log
pub fn log(line: impl ToString) {
    let line = line.to_string().replace('\\', "\\\\").replace('\n', "\\n");
    LOG.with_borrow_mut(|l| {
        l.push_str(&line);
        l.push('\n');
    });
}
/// registers the next action
pub fn poke(f: impl Fn() + 'static) {
    POKES.with_borrow_mut(|p| p.push(Rc::new(f)));
}
pub fn page(root: DomNode) -> DomNode {
    DomElement::new("html").child(DomElement::new("head")).child(DomElement::new("body").child(root)).into()
}
#[no_mangle]
pub extern "C" fn vp_select(n: u32) {
    NUMBER.set(n);
}
#[no_mangle]
pub extern "C" fn vp_poke(n: u32) {
    let f = POKES.with_borrow(|p| p[n as usize].clone());
    transaction(|_| f());
}
#[no_mangle]
pub extern "C" fn vp_log() -> *const u8 {
    LOG.with_borrow(|l| l.as_ptr())
}
#[no_mangle]
pub extern "C" fn vp_log_len() -> usize {
    LOG.with_borrow(|l| l.len())
}
