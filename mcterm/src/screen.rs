//! What a user sees: a small terminal fed with everything the program writes to its output.
use std::io::Write;
use unicode_width::UnicodeWidthChar;

/// Standard output of this process, redirected to a pipe.
pub struct Capture {
    rd: i32,
}

static ONCE: std::sync::Once = std::sync::Once::new();
static RD: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(-1);

impl Capture {
    pub fn get() -> Capture {
        use std::sync::atomic::Ordering::SeqCst;
        ONCE.call_once(|| unsafe {
            let mut p = [0i32; 2];
            assert_eq!(libc::pipe(p.as_mut_ptr()), 0);
            libc::fcntl(p[0], libc::F_SETFL, libc::O_NONBLOCK);
            libc::fcntl(p[1], 1031 /* F_SETPIPE_SZ */, 1 << 20);
            let _ = std::io::stdout().flush();
            libc::dup2(p[1], 1);
            libc::close(p[1]);
            RD.store(p[0], SeqCst);
        });
        Capture { rd: RD.load(SeqCst) }
    }
    /// Everything written since the last call.
    pub fn take(&self) -> Vec<u8> {
        let _ = std::io::stdout().flush();
        let mut v = vec![];
        let mut b = [0u8; 65536];
        loop {
            let n = unsafe { libc::read(self.rd, b.as_mut_ptr() as *mut _, b.len()) };
            if n <= 0 {
                return v;
            }
            v.extend_from_slice(&b[..n as usize]);
            if (n as usize) < b.len() {
                return v;
            }
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Screen {
    /// Each cell holds a character with what combines with it; None: the right half of a wide one.
    pub rows: Vec<Vec<Option<String>>>,
    pub row: usize,
    pub col: usize,
    rest: Vec<u8>,
    pub odd: Vec<String>,
}

impl Screen {
    pub fn new(row: usize) -> Screen {
        Screen { row, ..Screen::default() }
    }
    fn line(&mut self) -> &mut Vec<Option<String>> {
        while self.rows.len() <= self.row {
            self.rows.push(vec![]);
        }
        let r = self.row;
        &mut self.rows[r]
    }
    fn put(&mut self, c: char) {
        let w = c.width().unwrap_or(0);
        let col = self.col;
        let l = self.line();
        while l.len() < col {
            l.push(Some(" ".into()));
        }
        if w == 0 {
            for x in l[..col].iter_mut().rev() {
                if let Some(s) = x {
                    s.push(c);
                    break;
                }
            }
            return;
        }
        while l.len() < col + w {
            l.push(Some(" ".into()));
        }
        // overwriting one half of a wide character blanks the other
        if l[col].is_none() && col > 0 {
            l[col - 1] = Some(" ".into());
        }
        if col + w < l.len() && l[col + w].is_none() {
            l[col + w] = Some(" ".into());
        }
        l[col] = Some(c.to_string());
        for k in 1..w {
            l[col + k] = None;
        }
        self.col += w;
    }
    pub fn feed(&mut self, b: &[u8]) {
        let mut v = std::mem::take(&mut self.rest);
        v.extend_from_slice(b);
        let s = match std::str::from_utf8(&v) {
            Ok(s) => s.to_string(),
            Err(e) => {
                let n = e.valid_up_to();
                let s = std::str::from_utf8(&v[..n]).unwrap().to_string();
                self.rest = v[n..].to_vec();
                s
            }
        };
        let c: Vec<char> = s.chars().collect();
        let mut i = 0;
        while i < c.len() {
            match c[i] {
                '\r' => self.col = 0,
                '\n' => {
                    self.row += 1;
                    self.line();
                }
                '\u{8}' => self.col = self.col.saturating_sub(1),
                '\u{1b}' => {
                    let mut j = i + 2;
                    if c.get(i + 1) == Some(&'[') {
                        while j < c.len() && !('@'..='~').contains(&c[j]) {
                            j += 1;
                        }
                        let t: String = c[i + 2..j.min(c.len())].iter().collect();
                        let n: Vec<usize> = t.trim_start_matches('?').split(';').map(|x| x.parse().unwrap_or(0)).collect();
                        let n0 = n[0].max(1);
                        let col = self.col;
                        match c.get(j) {
                            Some('H') | Some('f') => {
                                self.row = n0 - 1;
                                self.col = n.get(1).cloned().unwrap_or(1).max(1) - 1;
                            }
                            Some('G') => self.col = n0 - 1,
                            Some('C') => self.col += n0,
                            Some('D') => self.col = self.col.saturating_sub(n0),
                            Some('A') => self.row = self.row.saturating_sub(n0),
                            Some('B') => self.row += n0,
                            Some('K') => match n[0] {
                                0 => self.line().truncate(col),
                                1 => {
                                    let l = self.line();
                                    for x in l.iter_mut().take(col + 1) {
                                        *x = Some(" ".into());
                                    }
                                }
                                _ => self.line().clear(),
                            },
                            Some('J') => {
                                self.line().truncate(col);
                                let r = self.row;
                                self.rows.truncate(r + 1);
                            }
                            // appearance of the text and of the cursor
                            Some('m') | Some('h') | Some('l') => {}
                            x => self.odd.push(format!("ESC [ {} {:?}", t, x)),
                        }
                        i = j;
                    } else if matches!(c.get(i + 1), Some('7') | Some('8')) {
                        i += 1;
                    } else {
                        self.odd.push(format!("ESC {:?}", c.get(i + 1)));
                        i += 1;
                    }
                }
                x => self.put(x),
            }
            i += 1;
        }
    }
    /// The text of a row without blanks at its end.
    pub fn text(&self, row: usize) -> String {
        let s: String = self.rows.get(row).map(|l| l.iter().flatten().map(|x| x.as_str()).collect()).unwrap_or_default();
        s.trim_end_matches(' ').to_string()
    }
}
