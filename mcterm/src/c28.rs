//! C28: the line editor of rtf returns exactly the text its keys spell and shows it all the time.
use crate::engine::*;
use crate::screen::*;
use crate::term::{Error, Term};
use crossterm::event::{Event, KeyCode, KeyEvent, KeyModifiers};
use crossterm::{set_feed, Feed};
use std::cell::RefCell;
use std::rc::Rc;
use unicode_width::{UnicodeWidthChar, UnicodeWidthStr};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Key {
    C(char),
    Back,
    Left,
    Right,
    Up,
    Down,
    Enter,
    /// Control-D
    Eof,
    /// an event that changes nothing
    Other(u8),
}
use self::Key::*;

pub fn event(k: Key) -> Event {
    let key = |c, m| Event::Key(KeyEvent::new(c, m));
    match k {
        C(c) => key(KeyCode::Char(c), if c.is_uppercase() { KeyModifiers::SHIFT } else { KeyModifiers::NONE }),
        Back => key(KeyCode::Backspace, KeyModifiers::NONE),
        Left => key(KeyCode::Left, KeyModifiers::NONE),
        Right => key(KeyCode::Right, KeyModifiers::NONE),
        Up => key(KeyCode::Up, KeyModifiers::NONE),
        Down => key(KeyCode::Down, KeyModifiers::NONE),
        Enter => key(KeyCode::Enter, KeyModifiers::NONE),
        Eof => key(KeyCode::Char('d'), KeyModifiers::CONTROL),
        Other(0) => Event::Resize(90, 30),
        Other(1) => key(KeyCode::F(3), KeyModifiers::NONE),
        Other(2) => Event::FocusGained,
        Other(_) => key(KeyCode::Insert, KeyModifiers::NONE),
    }
}

/// The editor as its user understands it.
#[derive(Clone, Debug)]
struct Model {
    history: Vec<String>,
    text: Vec<char>,
    at: usize,
    h: usize,
}

enum Done {
    No,
    Line(String),
    Eof,
}

impl Model {
    fn begin(&mut self) {
        self.history.push(String::new());
        self.h = self.history.len() - 1;
        self.text.clear();
        self.at = 0;
    }
    fn show(&mut self, h: usize) {
        self.history[self.h] = self.text.iter().collect();
        self.h = h;
        self.text = self.history[h].chars().collect();
        self.at = self.text.len();
    }
    fn key(&mut self, k: Key) -> Done {
        match k {
            C(c) => {
                self.text.insert(self.at, c);
                self.at += 1;
            }
            Back => {
                if self.at > 0 {
                    self.at -= 1;
                    self.text.remove(self.at);
                }
            }
            Left => self.at = self.at.saturating_sub(1),
            Right => self.at = (self.at + 1).min(self.text.len()),
            Up => self.show(self.h.saturating_sub(1)),
            Down => self.show((self.h + 1).min(self.history.len() - 1)),
            Enter => {
                let t: String = self.text.iter().collect();
                self.at = self.text.len();
                if t.is_empty() {
                    self.history.pop();
                } else {
                    *self.history.last_mut().unwrap() = t.clone();
                }
                return Done::Line(t);
            }
            Eof => return Done::Eof,
            Other(_) => {}
        }
        Done::No
    }
    fn text(&self) -> String {
        self.text.iter().collect()
    }
    fn width(&self) -> usize {
        self.text[..self.at].iter().collect::<String>().width()
    }
}

fn history_file() -> std::path::PathBuf {
    std::path::PathBuf::from(std::env::var("XDG_CACHE_HOME").unwrap()).join("rtforth/history.txt")
}

pub fn home(wk: &Wk) {
    let d = std::env::current_dir().unwrap().join(&wk.scratch).join("cache");
    let _ = std::fs::create_dir_all(d.join("rtforth"));
    std::env::set_var("XDG_CACHE_HOME", &d);
}

fn set_history(lines: &[String], last_newline: bool) {
    let p = history_file();
    if lines.is_empty() {
        let _ = std::fs::remove_file(&p);
        return;
    }
    let mut t = lines.join("\n");
    if last_newline {
        t.push('\n');
    }
    std::fs::write(&p, t).unwrap();
}

struct Drive {
    keys: Vec<Key>,
    at: usize,
    screen: Screen,
    cap: Capture,
    model: Model,
    row: usize,
    wrong: Option<String>,
    checks: u64,
    line: Option<String>,
}

impl Drive {
    /// The program waits for a key: look at the screen, then give it one.
    fn read(&mut self) -> std::io::Result<Event> {
        let b = self.cap.take();
        self.screen.feed(&b);
        if self.at > 0 && self.line.is_none() {
            self.look();
        }
        self.line = None;
        if self.at >= self.keys.len() {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "the keys are used up"));
        }
        let k = self.keys[self.at];
        self.at += 1;
        match self.model.key(k) {
            Done::No => {}
            Done::Line(t) => self.line = Some(t),
            Done::Eof => self.line = Some("<eof>".into()),
        }
        Ok(event(k))
    }
    fn look(&mut self) {
        self.checks += 1;
        let want = self.model.text();
        let got = self.screen.text(self.row);
        if self.wrong.is_none() {
            // a combining character with nothing before it has no place on the screen
            let seen = want.trim_start_matches(|c: char| UnicodeWidthChar::width(c) == Some(0)).trim_end_matches(' ');
            if got != seen {
                self.wrong = Some(format!("the line shown is {:?}, the text is {:?} after {:?}", got, want, &self.keys[..self.at]));
            } else if (self.screen.row, self.screen.col) != (self.row, self.model.width()) {
                self.wrong = Some(format!(
                    "the cursor is at {:?}, its place in {:?} is {:?} after {:?}",
                    (self.screen.row, self.screen.col), want, (self.row, self.model.width()), &self.keys[..self.at]
                ));
            } else if !self.screen.odd.is_empty() {
                self.wrong = Some(format!("odd output {:?}", self.screen.odd));
            }
        }
    }
}

/// One session: a history file, then keys.  The last line is ended with Enter.
fn session(wk: &mut Wk, before: &[String], keys: Vec<Key>, newline: bool, key: String) -> CaseResult {
    home(wk);
    wk.note(&key);
    set_history(before, newline);
    let row = 3;
    let keep = before.len().saturating_sub(32);
    let model = Model { history: before[keep..].to_vec(), text: vec![], at: 0, h: 0 };
    let d = Rc::new(RefCell::new(Drive {
        keys: keys.clone(),
        at: 0,
        screen: Screen::new(row),
        cap: Capture::get(),
        model,
        row,
        wrong: None,
        checks: 0,
        line: None,
    }));
    d.borrow_mut().cap.take();
    let (a, b) = (d.clone(), d.clone());
    set_feed(Some(Feed {
        read: Box::new(move || a.borrow_mut().read()),
        position: Box::new(move || {
            let mut x = b.borrow_mut();
            let t = x.cap.take();
            x.screen.feed(&t);
            (x.screen.col as u16, x.screen.row as u16)
        }),
    }));
    let mut term = Term::new();
    let mut bad = None;
    let mut entered: Vec<String> = vec![];
    while d.borrow().at < keys.len() && bad.is_none() {
        d.borrow_mut().model.begin();
        d.borrow_mut().screen.col = 0;
        let r = term.read_line();
        let mut x = d.borrow_mut();
        let b = x.cap.take();
        x.screen.feed(&b);
        let want = x.line.clone();
        match (&r, want.as_deref()) {
            (Ok(s), Some(t)) if s == t => {
                x.look();
                if !s.is_empty() {
                    entered.push(s.clone());
                }
                // the program goes on at the next row
                x.row += 1;
                x.screen.row += 1;
            }
            (Err(Error::Eof), Some("<eof>")) => break,
            _ => bad = Some(format!("read_line gave {:?}, expected {:?} after {:?}", r, want, &keys[..x.at])),
        }
    }
    drop(term);
    set_feed(None);
    let x = d.borrow();
    let _ = x.cap.take();
    wk.trans(x.checks);
    wk.trace();
    wk.state(H::new().s(&key));
    for e in [bad, x.wrong.clone()] {
        if let Some(m) = e {
            return fail(key, m);
        }
    }
    // the history kept for later sessions
    let file = std::fs::read_to_string(history_file()).unwrap_or_default();
    let got: Vec<&str> = file.lines().collect();
    let all: Vec<&str> = x.model.history.iter().map(|s| s.as_str()).filter(|s| !s.is_empty()).collect();
    let n = got.len();
    if n > 32 || n < all.len().min(31) || got != all[all.len() - n.min(all.len())..] {
        return fail(key, format!("the history kept is {:?}, of {:?}", got, all));
    }
    Ok(())
}

const ALPHA: &[Key] = &[C('a'), C('\u{e9}'), C('\u{4e2d}'), Back, Left, Right, Up, Down, Enter, C(' ')];

fn all_keys(wk: &mut Wk, n: usize, i: u64) -> CaseResult {
    let hist = (i % 2) as usize * 2;
    let mut k: Vec<Key> = digits(i / 2, ALPHA.len() as u64, n).into_iter().map(|x| ALPHA[x]).collect();
    k.push(Enter);
    let key = format!("{} lines of history, keys {:?}", hist, k);
    let before: Vec<String> = ["1 .", "caf\u{e9} \u{4e2d}"][..hist].iter().map(|s| s.to_string()).collect();
    session(wk, &before, k, true, key)
}

pub fn digits(mut i: u64, base: u64, n: usize) -> Vec<usize> {
    (0..n)
        .map(|_| {
            let d = i % base;
            i /= base;
            d as usize
        })
        .collect()
}

/// Editing in a text of characters of every width.
fn editing(wk: &mut Wk, n: usize, i: u64) -> CaseResult {
    let texts = ["a\u{e9}\u{4e2d}z", "\u{1f600}\u{4e2d}\u{4e2d}", "e\u{301}x\u{301}", "abcdef"];
    let ops = [Back, Left, Right, C('b'), C('\u{4e2d}'), C('\u{1f600}'), C('\u{301}')];
    let t = texts[(i % 4) as usize];
    let back = (i / 4 % 7) as usize;
    let mut k: Vec<Key> = t.chars().map(C).collect();
    k.extend(std::iter::repeat(Left).take(back));
    let e: Vec<Key> = digits(i / 28, ops.len() as u64, n).into_iter().map(|x| ops[x]).collect();
    k.extend(&e);
    k.push(Enter);
    session(wk, &[], k, true, format!("{:?}, {} to the left, {:?}", t, back, e))
}

/// Histories of every length, in this session and the one before; with or without a last newline.
fn recall(wk: &mut Wk, i: u64) -> CaseResult {
    let n = (i % 40) as usize; // lines before
    let m = (i / 40 % 5) as usize * 9; // lines now
    let ups = (i / 200 % 50) as usize;
    let downs = [0usize, 1, 2, 7, 60][(i / 10000 % 5) as usize];
    let how = i / 50000;
    let before: Vec<String> = (0..n).map(|k| format!("old {}", k)).collect();
    let mut k = vec![];
    for j in 0..m {
        k.extend(format!("new{}", j).chars().map(C));
        k.push(Enter);
    }
    if how & 1 == 1 {
        k.extend("dr\u{e9}ft".chars().map(C));
    }
    k.extend(std::iter::repeat(Up).take(ups));
    k.extend(std::iter::repeat(Down).take(downs));
    k.push(C('!'));
    k.push(if how & 2 == 2 { Eof } else { Enter });
    session(wk, &before, k, i % 3 != 0, format!("{} lines before, {} now, {} up, {} down, draft {}, end {}", n, m, ups, downs, how & 1, how >> 1))
}

/// Several lines with recalled, changed and dropped entries.
fn lines(wk: &mut Wk, n: usize, i: u64) -> CaseResult {
    let parts: &[&[Key]] = &[
        &[C('x'), Enter],
        &[C('y'), Up],
        &[Up],
        &[Down],
        &[C('z')],
        &[Back],
        &[Enter],
        &[Up, Up, C('w')],
        &[Down, Enter],
    ];
    let mut k = vec![];
    for d in digits(i, parts.len() as u64, n) {
        k.extend_from_slice(parts[d]);
    }
    k.push(Enter);
    k.extend(&[Up, Enter, Up, Up, Enter]);
    let key = format!("{:?}", k);
    session(wk, &["p".to_string(), "q q".to_string()], k, true, key)
}

/// Every character is taken as it is.
fn characters(wk: &mut Wk, i: u64) -> CaseResult {
    let c = match char::from_u32(if i < 0x3000 { i as u32 } else { (i as u32 - 0x3000) * 61 + 0x3000 }) {
        Some(c) if !c.is_control() && c != '\u{ad}' => c,
        _ => return Ok(()),
    };
    session(wk, &[], vec![C('a'), C(c), C('b'), Left, Left, Right, Right, Back, Enter], true, format!("character U+{:04X}", c as u32))
}

/// Long lines, and events that change nothing.
fn long(wk: &mut Wk, i: u64) -> CaseResult {
    let n = (i % 300) as usize;
    let o = (i / 300) as usize;
    let mut k = vec![];
    for j in 0..n {
        k.push(C(['q', '\u{e9}', '\u{4e2d}'][(j + o) % 3]));
        if j % 50 == 49 {
            k.push(Other((j / 50 % 4) as u8));
        }
    }
    for _ in 0..n / 3 {
        k.push(Left);
    }
    k.extend(&[C('-'), Other((o % 4) as u8), Back, Back, Enter]);
    session(wk, &[], k, true, format!("{} characters, from {}", n, o))
}

pub fn property(t: bool) -> Property {
    let mut scopes = vec![];
    for n in 0..=(if t { 7 } else { 5 }) {
        scopes.push(Scope::new(&format!("all sequences of {} keys, with and without history", n), 2 * 10u64.pow(n as u32), 256, move |wk, i| {
            all_keys(wk, n, i)
        }));
    }
    for n in 1..=(if t { 5 } else { 4 }) {
        scopes.push(Scope::new(&format!("{} edits at every place of texts of wide and combining characters", n), 28 * 7u64.pow(n as u32), 256, move |wk, i| {
            editing(wk, n, i)
        }));
    }
    for n in 1..=(if t { 6 } else { 5 }) {
        scopes.push(Scope::new(&format!("{} groups of recalling, changing and entering", n), 9u64.pow(n as u32), 128, move |wk, i| lines(wk, n, i)));
    }
    scopes.push(Scope::new("histories of 0..39 old and 0..36 new lines, walked up and down", if t { 200_000 } else { 50_000 }, 64, recall));
    scopes.push(Scope::new("single characters", 0x3000 + 16000, 128, characters));
    scopes.push(Scope::new("lines of up to 299 characters", 900, 8, long));
    Property {
        id: "C28",
        assumptions: vec![
            "the terminal is wider than the line; key events and the cursor position come from a stand-in for the terminal".into(),
            "blanks at the end of the line cannot be seen; keys other than the documented ones are left open".into(),
        ],
        scopes,
    }
}
