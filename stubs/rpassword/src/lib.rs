//! Stand-in for the `rpassword` crate: prompts are answered by a per-thread
//! script; without a script a prompt fails (there is no terminal).
use std::cell::RefCell;
use std::io;

pub type Typist = Box<dyn FnMut(&str) -> io::Result<String>>;

thread_local! {
    static TYPIST: RefCell<Option<Typist>> = const { RefCell::new(None) };
}

pub fn mc_set_typist(t: Option<Typist>) -> Option<Typist> {
    TYPIST.with(|c| c.replace(t))
}

fn ask(prompt: &str) -> io::Result<String> {
    let mut t = TYPIST.with(|c| c.borrow_mut().take());
    let r = match t.as_mut() {
        Some(f) => f(prompt),
        None => Err(io::Error::new(io::ErrorKind::Other, "no terminal")),
    };
    if t.is_some() { TYPIST.with(|c| *c.borrow_mut() = t); }
    r
}

pub fn prompt_password(prompt: impl ToString) -> io::Result<String> { ask(&prompt.to_string()) }
pub fn read_password() -> io::Result<String> { ask("") }
