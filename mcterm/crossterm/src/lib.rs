//! The real crossterm, except that key events, the cursor position and the terminal mode come
//! from the explorer instead of a terminal.
pub use real::*;
use std::cell::RefCell;
use std::io;
use std::time::Duration;

pub struct Feed {
    /// The next event; called when the program has drawn what it has to draw.
    pub read: Box<dyn FnMut() -> io::Result<real::event::Event>>,
    pub position: Box<dyn FnMut() -> (u16, u16)>,
}

thread_local! {
    pub static FEED: RefCell<Option<Feed>> = RefCell::new(None);
}

pub fn set_feed(f: Option<Feed>) {
    FEED.with(|x| *x.borrow_mut() = f);
}

thread_local! {
    static TYPED: RefCell<Option<Vec<char>>> = RefCell::new(None);
}

/// The keys of a process of its own: those in STUB_KEYS (line feed: Enter, U+0004: Control-D,
/// U+0011: Up, U+0012: Down).
fn typed() -> real::Result<real::event::Event> {
    use real::event::{Event, KeyCode, KeyEvent, KeyModifiers};
    TYPED.with(|t| {
        let mut t = t.borrow_mut();
        let v = t.get_or_insert_with(|| {
            let mut v: Vec<char> = std::env::var("STUB_KEYS").unwrap_or_default().chars().collect();
            v.reverse();
            v
        });
        let key = |c, m| Ok(Event::Key(KeyEvent::new(c, m)));
        match v.pop() {
            Some('\n') => key(KeyCode::Enter, KeyModifiers::NONE),
            Some('\u{11}') => key(KeyCode::Up, KeyModifiers::NONE),
            Some('\u{12}') => key(KeyCode::Down, KeyModifiers::NONE),
            Some('\u{4}') => key(KeyCode::Char('d'), KeyModifiers::CONTROL),
            Some(c) => key(KeyCode::Char(c), KeyModifiers::NONE),
            // asked for more than was typed
            None => std::process::exit(97),
        }
    })
}

pub mod event {
    use super::*;
    pub use real::event::*;
    pub fn read() -> real::Result<Event> {
        FEED.with(|x| match x.borrow_mut().as_mut() {
            Some(f) => (f.read)(),
            None => typed(),
        })
    }
    pub fn poll(_: Duration) -> real::Result<bool> {
        Ok(true)
    }
}

pub mod cursor {
    use super::*;
    pub use real::cursor::*;
    pub fn position() -> real::Result<(u16, u16)> {
        Ok(FEED.with(|x| match x.borrow_mut().as_mut() {
            Some(f) => (f.position)(),
            None => (0, 0),
        }))
    }
}

pub mod terminal {
    pub use real::terminal::*;
    pub fn enable_raw_mode() -> real::Result<()> {
        Ok(())
    }
    pub fn disable_raw_mode() -> real::Result<()> {
        Ok(())
    }
    pub fn is_raw_mode_enabled() -> real::Result<bool> {
        Ok(true)
    }
    pub fn size() -> real::Result<(u16, u16)> {
        Ok((2000, 50))
    }
}
