//! C41: random key histories in the viewer on a terminal of any size.
use crate::data::*;
use crate::run::*;
use crate::harness;
use crossterm::event::{KeyCode, KeyEvent, KeyModifiers};
use fbm::*;
use planus_buffer_inspection::object_mapping::{Interpretation, Line};
use planus_buffer_inspection::{InspectableFlatbuffer, Object};
use planus_inspector::{ui, ActiveWindow, Inspector, ModalState, ViewState};
use ratatui::backend::TestBackend;
use ratatui::style::Modifier;
use ratatui::Terminal;

#[derive(Clone, Debug, PartialEq)]
struct View {
    byte: usize,
    /// root object, line, interpretation
    info: Option<(usize, usize, usize)>,
}

#[derive(Clone, Debug, PartialEq)]
enum Modal {
    None,
    GoTo(String),
    History(usize),
    Help,
    Interpretations(usize, usize),
    Other,
}

#[derive(Clone, Debug, PartialEq)]
struct Snap {
    view: View,
    stack: Vec<View>,
    modal: Modal,
    hex: bool,
    quit: bool,
    line_size: usize,
}

fn view(v: &ViewState) -> View {
    View { byte: v.byte_index, info: v.info_view_data.as_ref().map(|i| (i.root_object_index, i.lines.index(), i.interpretations.index())) }
}

fn snap(i: &Inspector) -> Snap {
    Snap {
        view: view(&i.view_state),
        stack: i.view_stack.iter().map(view).collect(),
        modal: match &i.modal {
            None => Modal::None,
            Some(ModalState::GoToByte { input }) => Modal::GoTo(input.clone()),
            Some(ModalState::ViewHistory { index }) => Modal::History(*index),
            Some(ModalState::HelpMenu) => Modal::Help,
            Some(ModalState::TreeView { state, .. }) => Modal::Interpretations(state.lines.index(), state.lines.len()),
            Some(_) => Modal::Other,
        },
        hex: matches!(i.active_window, ActiveWindow::HexView),
        quit: i.should_quit,
        line_size: i.hex_view_state.line_size,
    }
}

fn show(i: &Interpretation) -> (usize, Vec<usize>) {
    (i.root_object_index, i.lines.clone())
}

/// What is shown belongs to the byte at the cursor
fn well_formed(i: &Inspector, v: &ViewState) -> Result<(), String> {
    let fb = &i.buffer;
    if v.byte_index >= fb.buffer.len() {
        return Err(format!("the cursor is at byte {} of {}", v.byte_index, fb.buffer.len()));
    }
    let want: Vec<_> = i.object_mapping.get_interpretations(v.byte_index as u32, fb).iter().map(show).collect();
    let Some(info) = &v.info_view_data else {
        return match want.is_empty() {
            true => Ok(()),
            false => Err(format!("nothing is shown for byte {}, which is in {want:?}", v.byte_index)),
        };
    };
    let have: Vec<_> = info.interpretations.iter().map(show).collect();
    if have != want {
        return Err(format!("byte {} has the interpretations {want:?}, the viewer has {have:?}", v.byte_index));
    }
    let cur = &have[info.interpretations.index()];
    if cur.0 != info.root_object_index {
        return Err(format!("object {} is shown, the interpretation is {cur:?}", info.root_object_index));
    }
    let lines = i.object_mapping.line_tree(info.root_object_index, fb).flatten(fb);
    if lines.len() != info.lines.len() || lines.iter().zip(info.lines.iter()).any(|(a, b)| (&a.line, a.start, a.end, &a.object) != (&b.line, b.start, b.end, &b.object)) {
        return Err(format!("the lines shown are not those of object {}", info.root_object_index));
    }
    let l = info.lines.cur();
    if !cur.1.contains(&l.start_line_index) {
        return Err(format!("the line {:?} is selected, the interpretation is {cur:?}", l.line));
    }
    if v.byte_index < l.start as usize || v.byte_index >= l.end as usize {
        return Err(format!("the line {:?} ({}..{}) is selected, the cursor is at byte {}", l.line, l.start, l.end, v.byte_index));
    }
    Ok(())
}

struct Facts<'a> {
    len: usize,
    /// The selected line before the key
    line: Option<Line<'a>>,
    last_line: usize,
    interpretations: usize,
    /// Offset and object an offset under the cursor leads to
    target: Option<(usize, Object<'a>)>,
    /// Object shown before contains the new byte
    hex_line: Option<(usize, usize)>,
}

/// Compares what a key did with what it has to do
fn step(b: &Snap, a: &Snap, key: KeyEvent, f: &Facts, i: &Inspector) -> Result<(), String> {
    let ctrl = key.modifiers.contains(KeyModifiers::CONTROL);
    let fail = |w: String| Err(w);
    let keep = |what: &str, b: &Snap, a: &Snap| if b.view == a.view && b.stack == a.stack { Ok(()) } else { Err(format!("{what} changed what is shown")) };
    // Quit
    let quits = match key.code {
        KeyCode::Char('q') => true,
        KeyCode::Char('c') => ctrl,
        KeyCode::Esc => b.modal == Modal::None && b.stack.is_empty(),
        _ => false,
    };
    if a.quit != quits {
        return fail(format!("quitting is {}", a.quit));
    }
    if quits {
        return Ok(());
    }
    if a.modal == Modal::Other {
        return fail("an unknown dialog".into());
    }
    // Dialogs
    let goto = match &b.modal {
        Modal::GoTo(s) => Some(s.clone()),
        _ => None,
    };
    let digit = match key.code {
        KeyCode::Char(c) if c.is_ascii_hexdigit() => Some(c.to_ascii_lowercase()),
        _ => None,
    };
    let open = |m: &Modal, want: Modal| if *m == want { Ok(()) } else { Err(format!("the dialog is {m:?}, it should be {want:?}")) };
    match key.code {
        KeyCode::Char('g') => {
            keep("g", b, a)?;
            return open(&a.modal, if goto.is_some() { Modal::None } else { Modal::GoTo(String::new()) });
        }
        KeyCode::Char('h') => {
            keep("h", b, a)?;
            return open(&a.modal, if matches!(b.modal, Modal::History(_)) { Modal::None } else { Modal::History(b.stack.len()) });
        }
        KeyCode::Char('?') => {
            keep("?", b, a)?;
            return open(&a.modal, if b.modal == Modal::Help { Modal::None } else { Modal::Help });
        }
        KeyCode::Char('i') => {
            keep("i", b, a)?;
            return match b.view.info {
                None => open(&a.modal, b.modal.clone()),
                Some(_) if matches!(b.modal, Modal::Interpretations(..)) => open(&a.modal, Modal::None),
                Some((_, _, n)) => open(&a.modal, Modal::Interpretations(n, f.interpretations)),
            };
        }
        KeyCode::Char('c') => {
            if goto.is_some() {
                keep("the digit c", b, a)?;
            }
            if b.stack != a.stack || b.view.byte != a.view.byte {
                return fail("c moved the cursor".into());
            }
            if goto.is_none() {
                let want = b.view.info.map(|x| (x.2 + 1) % f.interpretations);
                let have = a.view.info.map(|x| x.2);
                if want != have {
                    return fail(format!("c went to interpretation {have:?}, the next one is {want:?}"));
                }
            }
        }
        KeyCode::Tab => {
            keep("Tab", b, a)?;
            let want = if b.hex { b.view.info.is_none() } else { true };
            return if a.hex == want { open(&a.modal, b.modal.clone()) } else { fail(format!("Tab left the hex view {}", a.hex)) };
        }
        _ => (),
    }
    if b.modal != Modal::None {
        if key.code == KeyCode::Esc {
            keep("Esc", b, a)?;
            return open(&a.modal, Modal::None);
        }
        return match &b.modal {
            Modal::GoTo(s) => match (key.code, digit) {
                (_, Some(d)) => {
                    keep("a digit", b, a)?;
                    open(&a.modal, Modal::GoTo(if s.len() < 16 { format!("{s}{d}") } else { s.clone() }))
                }
                (KeyCode::Backspace, _) => {
                    keep("Backspace", b, a)?;
                    open(&a.modal, Modal::GoTo(s.chars().take(s.len().saturating_sub(1)).collect()))
                }
                (KeyCode::Enter, _) if s.is_empty() => Ok(()),
                (KeyCode::Enter, _) => {
                    open(&a.modal, Modal::None)?;
                    let want = u64::from_str_radix(s, 16).unwrap().min(f.len as u64 - 1) as usize;
                    if a.view.byte != want {
                        return fail(format!("0x{s} goes to byte {}, it should be {want}", a.view.byte));
                    }
                    if !a.hex {
                        return fail("the hex view is not active".into());
                    }
                    let mut st = b.stack.clone();
                    st.push(b.view.clone());
                    if a.stack != st {
                        return fail(format!("the history is {:?}, it should be {st:?}", a.stack));
                    }
                    Ok(())
                }
                _ => {
                    keep("the key", b, a)?;
                    open(&a.modal, b.modal.clone())
                }
            },
            Modal::History(n) => match key.code {
                KeyCode::Enter => {
                    open(&a.modal, Modal::None)?;
                    if *n == b.stack.len() {
                        return keep("Enter", b, a);
                    }
                    if a.view != b.stack[*n] || a.stack != b.stack[..*n] {
                        return fail(format!("entry {n} of the history is {:?}, {:?} is shown with the history {:?}", b.stack[*n], a.view, a.stack));
                    }
                    Ok(())
                }
                c => {
                    if !matches!(c, KeyCode::Char('c')) {
                        keep("the key", b, a)?;
                    }
                    let n = match c {
                        KeyCode::Up => n.saturating_sub(1),
                        KeyCode::Down => (n + 1).min(b.stack.len()),
                        _ => *n,
                    };
                    open(&a.modal, Modal::History(n))
                }
            },
            Modal::Interpretations(n, total) => match key.code {
                KeyCode::Enter => {
                    open(&a.modal, Modal::None)?;
                    let mut st = b.stack.clone();
                    st.push(b.view.clone());
                    if a.stack != st || a.view.byte != b.view.byte || a.view.info.map(|x| x.2) != Some(*n) {
                        return fail(format!("interpretation {n} was chosen, {:?} is shown with the history {:?}", a.view, a.stack));
                    }
                    Ok(())
                }
                c => {
                    if !matches!(c, KeyCode::Char('c')) {
                        keep("the key", b, a)?;
                    }
                    let n = match c {
                        KeyCode::Up => n.saturating_sub(1),
                        KeyCode::Down => (n + 1).min(total - 1),
                        _ => *n,
                    };
                    open(&a.modal, Modal::Interpretations(n, *total))
                }
            },
            _ => {
                if !matches!(key.code, KeyCode::Char('c')) {
                    keep("the key", b, a)?;
                }
                open(&a.modal, b.modal.clone())
            }
        };
    }
    open(&a.modal, Modal::None)?;
    match key.code {
        KeyCode::Char(_) => {
            if key.code != KeyCode::Char('c') {
                keep("the key", b, a)?;
            }
            return Ok(());
        }
        KeyCode::Enter => {
            return match &f.target {
                None => keep("Enter", b, a),
                Some((at, o)) => {
                    let mut st = b.stack.clone();
                    st.push(b.view.clone());
                    let info = i.view_state.info_view_data.as_ref();
                    if a.stack != st || a.view.byte != *at || info.is_none_or(|x| x.lines[0].object != *o || x.lines.index() != 0) {
                        return fail(format!("the offset leads to {o:?}, {:?} is shown with the history {:?}", a.view, a.stack));
                    }
                    Ok(())
                }
            }
        }
        KeyCode::Esc | KeyCode::Backspace => {
            return match b.stack.split_last() {
                None => keep("the key", b, a),
                Some((v, rest)) if a.view == *v && a.stack == rest => Ok(()),
                Some((v, _)) => fail(format!("{v:?} was shown before, now it is {:?} with the history {:?}", a.view, a.stack)),
            }
        }
        _ => (),
    }
    if a.stack != b.stack || a.hex != b.hex {
        return fail("moving changed the history or the active view".into());
    }
    if b.hex {
        let at = b.view.byte;
        let last = f.len - 1;
        let (s, e) = f.hex_line.unwrap_or((at, at + 1));
        let want = match key.code {
            KeyCode::Left if ctrl => s.saturating_sub(1),
            KeyCode::Right if ctrl => e.min(last),
            KeyCode::Left => at.saturating_sub(1),
            KeyCode::Right => (at + 1).min(last),
            KeyCode::Up => at.checked_sub(b.line_size).unwrap_or(at),
            KeyCode::Down => if at + b.line_size <= last { at + b.line_size } else { at },
            KeyCode::PageUp => at.saturating_sub(8 * b.line_size),
            KeyCode::PageDown => (at + 8 * b.line_size).min(last),
            KeyCode::Home => 0,
            KeyCode::End => last,
            _ => at,
        };
        if a.view.byte != want {
            return fail(format!("the cursor went from byte {at} to byte {}, it should be at {want}", a.view.byte));
        }
        if want == at {
            return keep("the key", b, a);
        }
        // The object stays where it can
        let (Some(x), Some(y)) = (b.view.info, a.view.info) else { return Ok(()) };
        let v = i.view_state.info_view_data.as_ref().unwrap();
        if y.0 != x.0 && v.interpretations.iter().any(|i| i.root_object_index == x.0) {
            return fail(format!("object {} was left for object {}, which shares the byte", x.0, y.0));
        }
        let deepest = *v.interpretations.cur().lines.last().unwrap();
        if y.1 != deepest {
            return fail(format!("line {} is selected, the innermost one at the byte is {deepest}", y.1));
        }
        return Ok(());
    }
    let (Some((root, at, _)), Some(l)) = (b.view.info, &f.line) else { return keep("the key", b, a) };
    let last = f.last_line;
    let want = match key.code {
        KeyCode::Left => l.parent_line_index,
        KeyCode::Right => if l.start_line_index != l.end_line_index { l.start_line_index + 1 } else { at },
        KeyCode::Up if ctrl && l.start_line_index != at => l.start_line_index,
        KeyCode::Down if ctrl && l.end_line_index != at => l.end_line_index,
        KeyCode::Up => at.saturating_sub(1),
        KeyCode::Down => (at + 1).min(last),
        KeyCode::PageUp => at.saturating_sub(5),
        KeyCode::PageDown => (at + 5).min(last),
        KeyCode::Home => 0,
        KeyCode::End => last,
        _ => at,
    };
    let Some((r, have, _)) = a.view.info else { return fail("nothing is shown any more".into()) };
    if (r, have) != (root, want) {
        return fail(format!("line {have} of object {r} is selected, it should be line {want} of object {root}"));
    }
    if want == at {
        return keep("the key", b, a);
    }
    let start = i.view_state.info_view_data.as_ref().unwrap().lines.cur().start as usize;
    if a.view.byte != start {
        return fail(format!("the cursor is at byte {}, the line starts at {start}", a.view.byte));
    }
    Ok(())
}

type Screen = Vec<Vec<(String, bool)>>;

fn screen(t: &Terminal<TestBackend>) -> Screen {
    let b = t.backend().buffer();
    (0..b.area.height).map(|y| (0..b.area.width).map(|x| (b[(x, y)].symbol().to_string(), b[(x, y)].modifier.contains(Modifier::UNDERLINED))).collect()).collect()
}

/// The rows in the frame with a title: columns and text
fn frame(s: &Screen, title: &str) -> Option<Vec<Vec<(String, bool)>>> {
    let text = |y: usize| -> Vec<char> { s[y].iter().map(|c| c.0.chars().next().unwrap_or(' ')).collect() };
    let t: Vec<char> = title.chars().collect();
    for y in 0..s.len() {
        let row = text(y);
        let Some(x) = row.windows(t.len()).position(|w| w == t) else { continue };
        let l = (0..x).rev().find(|i| row[*i] == '╭')?;
        let r = (x..row.len()).find(|i| row[*i] == '╮')?;
        let mut out = vec![];
        for line in s.iter().skip(y + 1) {
            if line[l].0 != "│" {
                break;
            }
            out.push(line[l + 1..r].to_vec());
        }
        return Some(out);
    }
    None
}

fn text(row: &[(String, bool)]) -> String {
    row.iter().map(|c| c.0.as_str()).collect::<String>().trim_end().to_string()
}

struct Seen {
    hex_bytes: u64,
    lines: u64,
    dialogs: u64,
}

/// What a terminal of a normal size shows
fn look(s: &Screen, i: &Inspector, seen: &mut Seen) -> Result<(), String> {
    let digits = i.hex_view_state.max_offset_hex_digits;
    match &i.modal {
        Some(ModalState::GoToByte { input }) => {
            let Some(f) = frame(s, " Go to offset ") else { return Err("the dialog is not shown".into()) };
            let want = format!("0x{input}");
            if f.first().is_none_or(|l| text(l) != want) {
                return Err(format!("the dialog does not show {want:?}: {:?}", f.first().map(|l| text(l))));
            }
            seen.dialogs += 1;
            return Ok(());
        }
        Some(ModalState::ViewHistory { index }) => {
            let Some(f) = frame(s, " History ") else { return Err("the dialog is not shown".into()) };
            for (n, v) in i.view_stack.iter().chain([&i.view_state]).enumerate().take(f.len()) {
                let want = format!("{:0digits$x}", v.byte_index);
                let t = text(&f[n]);
                // Long entries are wrapped
                if n == 0 && !t.starts_with(&want) {
                    return Err(format!("entry {n} of the history shows {t:?}, it should show {want}"));
                }
                if n == 0 && f[0][0].1 != (*index == 0) {
                    return Err("the selected entry is not marked".into());
                }
            }
            seen.dialogs += 1;
            return Ok(());
        }
        Some(ModalState::TreeView { state, .. }) => {
            let Some(f) = frame(s, " Interpretations ") else { return Err("the dialog is not shown".into()) };
            let sel: Vec<usize> = (0..f.len()).filter(|y| f[*y].iter().any(|c| c.1)).collect();
            let want = state.lines.cur().node.text.clone();
            let [y] = sel[..] else { return Err(format!("the lines {sel:?} are marked, {want:?} is selected")) };
            let t = text(&f[y]);
            if !want.is_ascii() || !want.trim_end().starts_with(&t) || t.is_empty() {
                return if want.is_ascii() { Err(format!("the line {t:?} is marked, {want:?} is selected")) } else { Ok(()) };
            }
            let Some(f) = frame(s, " Preview ") else { return Err("the preview is not shown".into()) };
            let info = state.lines.cur().node.view_state.as_ref().and_then(|v| v.info_view_data.as_ref());
            let Some(info) = info else { return Err("there is no preview".into()) };
            let l = info.lines.cur();
            let want: String = format!("{}{}", " ".repeat(l.indentation), l.line).chars().take(f.first().map_or(0, |r| r.len())).collect();
            let star = matches!(l.object, Object::Offset(_));
            if want.is_ascii() && !f.iter().any(|r| text(r).trim_end() == want.trim_end() || star && text(r).starts_with('*') && text(r)[1..] == *want.trim_end()[1.min(want.trim_end().len())..].to_string()) {
                let all: Vec<String> = f.iter().map(|r| text(r)).collect();
                return Err(format!("the preview {all:?} does not show {want:?}"));
            }
            seen.dialogs += 1;
            return Ok(());
        }
        Some(ModalState::HelpMenu) => {
            let Some(f) = frame(s, " Help ") else { return Err("the help is not shown".into()) };
            if !f.iter().any(|l| text(l).contains("Tab")) {
                return Err("the help is empty".into());
            }
            seen.dialogs += 1;
            return Ok(());
        }
        _ => (),
    }
    let buf = i.buffer.buffer;
    let cur = i.view_state.byte_index;
    let hex_active = matches!(i.active_window, ActiveWindow::HexView);
    // Bytes
    let Some(f) = frame(s, " Hex view ") else { return Err("the hex view is not shown".into()) };
    let mut next = None;
    let mut cursor = false;
    for row in &f {
        let t = text(row);
        if t.is_empty() {
            next = Some(usize::MAX);
            continue;
        }
        let Ok(addr) = usize::from_str_radix(t.split(' ').next().unwrap(), 16) else { return Err(format!("the row {t:?}")) };
        if next.is_some_and(|n| n != addr) {
            return Err(format!("the row {t:?} should start at {next:?}"));
        }
        let mut col = digits;
        let mut at = addr;
        let shown: Vec<&str> = t.split_whitespace().skip(1).collect();
        for h in shown {
            // Where the byte is in its row
            while col < row.len() && row[col].0 == " " {
                col += 1;
            }
            if buf.get(at).is_none_or(|b| format!("{b:02x}") != h) {
                return Err(format!("byte {at} is shown as {h}, it is {:?}", buf.get(at)));
            }
            let mark = row[col].1 && row[col + 1].1;
            if mark != (hex_active && at == cur) {
                return Err(format!("byte {at} is {} as the cursor, which is at {cur}", if mark { "marked" } else { "not marked" }));
            }
            cursor |= at == cur;
            col += 2;
            at += 1;
            seen.hex_bytes += 1;
        }
        next = Some(at);
        if at == buf.len() {
            next = Some(usize::MAX);
        }
    }
    if !f.is_empty() && !cursor {
        return Err(format!("byte {cur} is not in the hex view"));
    }
    // Lines
    let Some(f) = frame(s, " Object view ") else { return Err("the object view is not shown".into()) };
    let Some(info) = &i.view_state.info_view_data else {
        return match f.iter().any(|r| !text(r).is_empty()) {
            true => Err("an object is shown for padding".into()),
            false => Ok(()),
        };
    };
    let first = info.first_line_shown;
    let at = info.lines.index();
    if !f.is_empty() && !(first..first + f.len()).contains(&at) {
        return Err(format!("line {at} is not shown, the first one is {first}"));
    }
    for (k, row) in f.iter().enumerate() {
        let Some(l) = info.lines.get(first + k) else {
            if !text(row).is_empty() {
                return Err(format!("the row {:?} after the last line", text(row)));
            }
            continue;
        };
        if !l.line.chars().all(|c| (' '..'\x7f').contains(&c)) {
            continue;
        }
        let star = matches!(l.object, Object::Offset(_));
        let want: String = format!("{}{}", " ".repeat(l.indentation), l.line).chars().take(row.len()).collect();
        let mut have = text(row);
        if star {
            if !have.starts_with('*') {
                return Err(format!("the offset {have:?} is not marked"));
            }
            have = have.replacen('*', &want[..1.min(want.len())], 1);
        }
        if have.trim_end() != want.trim_end() {
            return Err(format!("the row {have:?} should be {want:?}"));
        }
        let mark = row.iter().any(|c| c.1);
        if mark != (!hex_active && first + k == at) {
            return Err(format!("the row {have:?} is {}", if mark { "marked" } else { "not marked" }));
        }
        seen.lines += 1;
    }
    // Numbers
    let Some(f) = frame(s, " Info view ") else { return Err("the info view is not shown".into()) };
    let all: Vec<String> = f.iter().map(|r| text(r)).collect();
    let l = info.lines.cur();
    let o = &info.lines[0];
    let mut want = vec![format!("Cursor {cur:0digits$x}"), format!("Inner  {:0digits$x}-{:0digits$x}", l.start, l.end - 1)];
    if f.len() >= 12 {
        want.push(format!("Outer  {:0digits$x}-{:0digits$x}", o.start, o.end - 1));
        if info.interpretations.len() > 1 {
            want.push(format!("Interpretation: {}/{}", info.interpretations.index() + 1, info.interpretations.len()));
        }
    }
    for w in want {
        if !all.contains(&w) {
            return Err(format!("the info view shows {all:?}, it should show {w:?}"));
        }
    }
    Ok(())
}

/// Bytes where much can happen: several objects, or an offset to follow
struct Spots {
    many: Vec<usize>,
    offsets: Vec<usize>,
}
fn spots(r: &mut Rng, i: &Inspector) -> Spots {
    let n = i.buffer.buffer.len();
    let mut s = Spots { many: vec![], offsets: vec![] };
    for _ in 0..n.min(160) {
        let at = r.below(n);
        let all = i.object_mapping.get_interpretations(at as _, &i.buffer);
        if all.len() > 1 {
            s.many.push(at);
        }
        let offset = all.iter().any(|x| {
            let l = i.object_mapping.line_tree(x.root_object_index, &i.buffer).flatten(&i.buffer);
            x.lines.last().is_some_and(|k| matches!(l[*k].object, Object::Offset(_)))
        });
        if offset {
            s.offsets.push(at);
        }
    }
    s
}

fn key(r: &mut Rng, i: &Inspector, sp: &Spots, plan: &mut Vec<KeyEvent>) -> KeyEvent {
    if let Some(k) = plan.pop() {
        return k;
    }
    let plain = |c| KeyEvent::new(c, KeyModifiers::NONE);
    let moves = [KeyCode::Up, KeyCode::Down, KeyCode::Left, KeyCode::Right, KeyCode::PageUp, KeyCode::PageDown, KeyCode::Home, KeyCode::End];
    match r.below(24) {
        0..=9 => KeyEvent::new(*r.pick(&moves[..6]), if r.chance(1, 5) { KeyModifiers::CONTROL } else { KeyModifiers::NONE }),
        10 => plain(*r.pick(&moves)),
        11 | 12 => plain(KeyCode::Enter),
        13 | 14 => plain(KeyCode::Tab),
        15 => plain(KeyCode::Backspace),
        16 => plain(KeyCode::Char('c')),
        17 => plain(KeyCode::Char(*r.pick(&['g', 'h', 'i', '?']))),
        18 => {
            // A dialog, some moves in it, and its end
            plan.push(plain(*r.pick(&[KeyCode::Enter, KeyCode::Enter, KeyCode::Esc])));
            for _ in 0..r.below(4) {
                plan.push(plain(*r.pick(&[KeyCode::Up, KeyCode::Down, KeyCode::Down, KeyCode::Right])));
            }
            plain(KeyCode::Char(*r.pick(&['h', 'i'])))
        }
        19 | 20 => {
            // Go to an address
            let n = i.buffer.buffer.len();
            let s = match r.below(12) {
                7..=9 if !sp.many.is_empty() => {
                    // Look at some of the objects there
                    for _ in 0..r.below(3) {
                        let c = *r.pick(&[KeyCode::Char('c'), KeyCode::Char('c'), KeyCode::Tab, KeyCode::Up, KeyCode::Down]);
                        plan.push(plain(c));
                    }
                    plan.push(plain(KeyCode::Char('c')));
                    if r.chance(1, 3) {
                        plan.push(plain(*r.pick(&[KeyCode::Enter, KeyCode::Enter, KeyCode::Esc])));
                        for _ in 0..r.below(4) {
                            plan.push(plain(*r.pick(&[KeyCode::Up, KeyCode::Down, KeyCode::Down])));
                        }
                        plan.push(plain(KeyCode::Char('i')));
                    }
                    format!("{:x}", r.pick(&sp.many))
                }
                10 | 11 if !sp.offsets.is_empty() => {
                    plan.push(plain(KeyCode::Enter));
                    format!("{:x}", r.pick(&sp.offsets))
                }
                0 => String::new(),
                1 => format!("{:x}", n - 1 + r.below(3)),
                2 => format!("{:x}", r.next()),
                3 => format!("{:018x}", r.below(n)),
                _ => format!("{:x}", r.below(n)),
            };
            let s = if r.chance(1, 3) { s.to_uppercase() } else { s };
            plan.push(plain(if r.chance(1, 8) { KeyCode::Esc } else { KeyCode::Enter }));
            plan.extend(s.chars().rev().map(|c| plain(KeyCode::Char(c))));
            plain(KeyCode::Char('g'))
        }
        21 => plain(KeyCode::Char(*r.pick(&['x', 'a', '0', 'z', ' ', 'Q', 'é', '\u{0}']))),
        22 if r.chance(1, 30) => plain(KeyCode::Char('q')),
        22 if r.chance(1, 30) => KeyEvent::new(KeyCode::Char('c'), KeyModifiers::CONTROL),
        22 => plain(*r.pick(&[KeyCode::F(1), KeyCode::Delete, KeyCode::Insert, KeyCode::BackTab, KeyCode::Null, KeyCode::Menu])),
        _ => match i.view_stack.is_empty() && i.modal.is_none() && !r.chance(1, 40) {
            true => plain(KeyCode::Enter),
            false => plain(KeyCode::Esc),
        },
    }
}

pub fn viewer(ctx: &mut Ctx, mut r: Rng) -> Res {
    let Some((d, ds, root)) = make(ctx, &mut r)? else { return Ok(()) };
    let fb = InspectableFlatbuffer { declarations: &ds, buffer: &d.buf };
    let mut log: Vec<String> = vec![];
    let fail = |k: &str, log: &[String], m: String| {
        let from = log.len().saturating_sub(60);
        Err(Viol { key: k.into(), msg: d.show(format!("{m}\nafter {} keys, the last ones {}", log.len(), log[from..].join(" "))) })
    };
    let mut i = match quiet(|| Inspector::new(fb, root)) {
        Ok(i) => i,
        Err(p) => return fail("panic", &log, format!("opening the viewer panicked: {p}")),
    };
    let size = |r: &mut Rng, normal: bool| -> (u16, u16) {
        if normal {
            return (60 + r.below(150) as u16, 20 + r.below(60) as u16);
        }
        match r.below(8) {
            0 => (1 + r.below(12) as u16, 1 + r.below(60) as u16),
            1 => (1 + r.below(200) as u16, 1 + r.below(8) as u16),
            2 => (1 + r.below(8) as u16, 1 + r.below(8) as u16),
            _ => (1 + r.below(120) as u16, 1 + r.below(50) as u16),
        }
    };
    let normal = r.chance(1, 2);
    let (mut w, mut h) = size(&mut r, normal);
    log.push(format!("[{w}x{h}]"));
    let mut t = Terminal::new(TestBackend::new(w, h)).unwrap();
    let mut cycles = 0;
    let mut seen = Seen { hex_bytes: 0, lines: 0, dialogs: 0 };
    let mut plan = vec![];
    let sp = match quiet(|| spots(&mut r, &i)) {
        Ok(x) => x,
        Err(p) => return fail("panic", &log, format!("looking at a byte panicked: {p}")),
    };
    let mut last: Option<Screen> = None;
    let (mut keys, mut draws, mut looked, mut follows, mut deep, mut most) = (0, 0, 0, 0, 0, 0);
    let steps = 20 + r.below(if ctx.thorough { 400 } else { 120 });
    for n in 0..=steps {
        // Draw
        if let Err(p) = quiet(|| t.draw(|f| ui::draw(f, &mut i)).map(|_| ())) {
            return fail("panic", &log, format!("drawing on {w}x{h} panicked: {p}"));
        }
        draws += 1;
        let s = screen(&t);
        if let Some(l) = &last {
            if *l != s {
                return fail("stale", &log, "the last key asked for no drawing, but the screen is another one".into());
            }
        }
        // Wide characters cover parts of what is drawn next to them
        let plain = s.iter().flatten().all(|c| c.0.chars().all(|c| (' '..'\x7f').contains(&c) || "╭╮╰╯│─".contains(c)));
        if plain && w >= 60 && h >= 20 && (i.modal.is_none() || w >= 100 && h >= 26) {
            if let Err(e) = look(&s, &i, &mut seen) {
                let all: Vec<String> = s.iter().map(|r| text(r)).collect();
                return fail("screen", &log, format!("{e}\n{}", all.join("\n")));
            }
            looked += 1;
        }
        let before = snap(&i);
        if n == steps || before.quit {
            break;
        }
        let info = i.view_state.info_view_data.as_ref();
        let f = Facts {
            len: d.buf.len(),
            line: info.map(|x| x.lines.cur().clone()),
            last_line: info.map_or(0, |x| x.lines.len() - 1),
            interpretations: info.map_or(0, |x| x.interpretations.len()),
            target: info.and_then(|x| match &x.lines.cur().object {
                Object::Offset(o) => o.follow_offset(&fb).ok().map(|o| (o.offset() as usize, o)),
                _ => None,
            }),
            hex_line: info.map(|x| (x.lines.cur().start as usize, x.lines.cur().end as usize)),
        };
        let k = key(&mut r, &i, &sp, &mut plan);
        log.push(format!("{}{:?}", if k.modifiers.contains(KeyModifiers::CONTROL) { "^" } else { "" }, k.code));
        let redraw = match quiet(|| i.on_key(k)) {
            Ok(x) => x,
            Err(p) => return fail("panic", &log, format!("the key panicked: {p}")),
        };
        keys += 1;
        let after = snap(&i);
        if after.quit {
            match step(&before, &after, k, &f, &i) {
                Ok(()) => break,
                Err(e) => return fail("step", &log, e),
            }
        }
        match quiet(|| step(&before, &after, k, &f, &i).and_then(|()| well_formed(&i, &i.view_state)).map_err(|e| format!("{e}\nbefore {before:?}\nafter {after:?}"))) {
            Ok(Ok(())) => (),
            Ok(Err(e)) => return fail("step", &log, e),
            Err(p) => harness!("{p}"),
        }
        follows += (k.code == KeyCode::Enter && before.modal == Modal::None && f.target.is_some()) as u64;
        cycles += matches!((before.view.info, after.view.info), (Some(x), Some(y)) if x.2 != y.2 && k.code == KeyCode::Char('c')) as u64;
        most = most.max(f.interpretations as u64);
        deep = deep.max(after.stack.len() as u64);
        last = (!redraw).then_some(s);
        if r.chance(1, 25) {
            (w, h) = size(&mut r, normal);
            log.push(format!("[{w}x{h}]"));
            t.backend_mut().resize(w, h);
            last = None;
        }
    }
    let st = &mut ctx.st;
    st.seen(&log.join(" "));
    st.add("sessions", 1);
    st.add("keys", keys);
    st.add("screens_drawn", draws);
    st.add("screens_read", looked);
    st.add("screen_bytes_compared", seen.hex_bytes);
    st.add("screen_lines_compared", seen.lines);
    st.add("dialogs_read", seen.dialogs);
    st.add("offsets_followed", follows);
    st.add("interpretations_cycled", cycles);
    st.max("max_interpretations", most);
    st.max("max_history_depth", deep);
    st.sample(|| log.join(" "));
    Ok(())
}
