//! C20 text input, C21 option lists, C22 buttons and switches.
use crossterm::style::Color;
use mc::probe::*;
use mc::*;
use std::cell::RefCell;
use std::collections::{HashMap, VecDeque};
use std::rc::Rc;
use tcss::parser::parse_stylesheet;
use tcss::types::Theme;
use textual::style_resolver::{resolve_dirty_styles, resolve_styles, InheritedContext};
use textual::testing::build_combined_css;
use textual::tree::{clear_all_active, clear_all_hover, collect_pending_actions_mut, WidgetTree};
use textual::widget::app_widget::AppWidget;
use textual::widget::button::Button;
use textual::widget::input::Input;
use textual::widget::option_list::{OptionItem, OptionList};
use textual::widget::screen::Screen;
use textual::widget::switch::Switch;
use textual::widget::Widget;
use textual::{Canvas, KeyCode, KeyModifiers, MouseButton, MouseEvent, MouseEventKind, Region, Size};
use unicode_segmentation::UnicodeSegmentation;

fn theme() -> Theme {
    Theme::standard_themes().get("textual-dark").cloned().unwrap()
}

fn ev(kind: MouseEventKind, x: u16, y: u16) -> MouseEvent {
    MouseEvent { kind, column: x, row: y, modifiers: KeyModifiers::NONE }
}

thread_local! {
    static SHEETS: RefCell<HashMap<String, Rc<tcss::parser::StyleSheet>>> = RefCell::new(HashMap::new());
    static THEME: Theme = theme();
}

struct Ui {
    tree: WidgetTree<Msg>,
    sheet: Rc<tcss::parser::StyleSheet>,
    theme: Theme,
    w: u16,
    h: u16,
}

impl Ui {
    fn new(kids: Vec<W1>, css: &str, w: u16, h: u16) -> Ui {
        let mut tree = WidgetTree::new(Box::new(AppWidget::new(vec![Box::new(Screen::new(kids)) as W1])));
        tree.root_mut().on_resize(Size::new(w, h));
        let text = build_combined_css(tree.root_mut(), css);
        let sheet = SHEETS.with(|s| s.borrow_mut().entry(text).or_insert_with_key(|t| Rc::new(parse_stylesheet(t).expect("css"))).clone());
        tree.root_mut().clear_focus();
        tree.root_mut().focus_nth(0);
        tree.update_focus(0);
        let theme = THEME.with(|t| t.clone());
        resolve_styles(tree.root_mut(), &sheet, &theme, &mut VecDeque::new());
        Ui { tree, sheet, theme, w, h }
    }
    fn restyle(&mut self) {
        let ctx = InheritedContext::from_theme(&self.theme);
        resolve_dirty_styles(self.tree.root_mut(), &self.sheet, &self.theme, &mut VecDeque::new(), false, &ctx);
    }
    fn paint(&mut self) -> Canvas {
        self.restyle();
        let mut c = Canvas::new(self.w, self.h);
        self.tree.root().render(&mut c, Region::from_u16(0, 0, self.w, self.h));
        c
    }
    /// What the event loop does with a mouse event.
    fn mouse(&mut self, kind: MouseEventKind, x: u16, y: u16) -> Vec<String> {
        let mut out = vec![];
        if kind == MouseEventKind::Moved {
            clear_all_hover(self.tree.root_mut());
        }
        if let Some((m, s)) = self.tree.root_mut().on_mouse_with_sender(ev(kind, x, y), Region::from_u16(0, 0, self.w, self.h)) {
            out.push(format!("{m} from {}", s.id.as_deref().unwrap_or("-")));
        }
        if matches!(kind, MouseEventKind::Up(_)) {
            clear_all_active(self.tree.root_mut());
        }
        out.extend(collect_pending_actions_mut(self.tree.root_mut()).into_iter().map(|a| format!("action {a}")));
        out
    }
    fn key(&mut self, k: KeyCode) -> Vec<String> {
        let mut out = vec![];
        match k {
            KeyCode::Tab => {
                self.tree.focus_next();
            }
            KeyCode::BackTab => {
                self.tree.focus_previous();
            }
            _ => {}
        }
        if let Some(m) = self.tree.dispatch_key(k) {
            let s = self.tree.focused_sender_info();
            out.push(format!("{m} from {}", s.id.as_deref().unwrap_or("-")));
        }
        out.extend(collect_pending_actions_mut(self.tree.root_mut()).into_iter().map(|a| format!("action {a}")));
        out
    }
}

fn row_of(c: &Canvas, w: u16, y: u16) -> String {
    (0..w as usize).map(|x| c.cell_at(y as usize * w as usize + x).symbol.clone()).collect()
}

// ---- C20 ----

/// A text and a position in it that is never inside of a character.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Editor {
    text: String,
    at: usize,
    focused: bool,
    disabled: bool,
}

impl Editor {
    fn stops(&self) -> Vec<usize> {
        let mut v: Vec<usize> = self.text.grapheme_indices(true).map(|(i, _)| i).collect();
        v.push(self.text.len());
        v
    }
    /// The first stop that is not before `byte`.
    fn settle(&mut self, byte: usize) {
        self.at = *self.stops().iter().find(|s| **s >= byte).unwrap();
    }
    fn index(&self) -> usize {
        self.stops().iter().position(|s| *s == self.at).unwrap()
    }
    fn key(&mut self, k: KeyCode) {
        if self.disabled {
            return;
        }
        let stops = self.stops();
        let i = self.index();
        match k {
            KeyCode::Char(c) => {
                self.text.insert(self.at, c);
                let to = self.at + c.len_utf8();
                self.settle(to);
            }
            KeyCode::Backspace if i > 0 => {
                self.text.replace_range(stops[i - 1]..self.at, "");
                self.at = stops[i - 1];
                // What follows may now belong to the character before the cursor.
                let to = self.at;
                self.settle(to);
            }
            KeyCode::Delete if i + 1 < stops.len() => {
                self.text.replace_range(self.at..stops[i + 1], "");
                let to = self.at;
                self.settle(to);
            }
            KeyCode::Left if i > 0 => self.at = stops[i - 1],
            KeyCode::Right if i + 1 < stops.len() => self.at = stops[i + 1],
            KeyCode::Home => self.at = 0,
            KeyCode::End => self.at = self.text.len(),
            _ => {}
        }
    }
}

#[derive(Clone, Copy, Debug)]
enum InOp {
    Key(KeyCode),
    Value(&'static str),
    Cursor(usize),
    Focus(bool),
    Disable(bool),
}

const KEYS: &[InOp] = &[
    InOp::Key(KeyCode::Char('a')),
    InOp::Key(KeyCode::Char('[')),
    InOp::Key(KeyCode::Char('\\')),
    InOp::Key(KeyCode::Char('世')),
    InOp::Key(KeyCode::Char('\u{301}')),
    InOp::Key(KeyCode::Char(' ')),
    InOp::Key(KeyCode::Backspace),
    InOp::Key(KeyCode::Delete),
    InOp::Key(KeyCode::Left),
    InOp::Key(KeyCode::Right),
    InOp::Key(KeyCode::Home),
    InOp::Key(KeyCode::End),
    InOp::Key(KeyCode::Up),
    InOp::Key(KeyCode::Enter),
    InOp::Value("x[b]é🇬🇧"),
    InOp::Value(""),
    InOp::Cursor(1),
    InOp::Cursor(9),
    InOp::Focus(false),
    InOp::Focus(true),
    InOp::Disable(true),
    InOp::Disable(false),
];

/// Characters that join with their neighbours.
const JOINERS: &[InOp] = &[
    InOp::Key(KeyCode::Char('\u{1F468}')),
    InOp::Key(KeyCode::Char('\u{200D}')),
    InOp::Key(KeyCode::Char('\u{1F3FB}')),
    InOp::Key(KeyCode::Char('\u{1F1EC}')),
    InOp::Key(KeyCode::Char('\u{1100}')),
    InOp::Key(KeyCode::Char('\u{1161}')),
    InOp::Key(KeyCode::Char('\u{308}')),
    InOp::Key(KeyCode::Char('e')),
    InOp::Key(KeyCode::Backspace),
    InOp::Key(KeyCode::Delete),
    InOp::Key(KeyCode::Left),
    InOp::Key(KeyCode::Right),
    InOp::Key(KeyCode::Home),
];

const CURSOR_BG: Color = Color::Rgb { r: 0xe0, g: 0xe0, b: 0xe0 };

/// The cells of one line of text.
fn cells_of(text: &str) -> Vec<String> {
    let mut v = vec![];
    for g in text.graphemes(true) {
        let w = unicode_display_width::width(g) as usize;
        if w == 0 {
            continue;
        }
        v.push(g.to_string());
        for _ in 1..w {
            v.push(String::new());
        }
    }
    v
}

fn input_looks(i: &Input<Msg>, m: &Editor, placeholder: &str) -> Result<(), String> {
    const W: u16 = 40;
    let mut c = Canvas::new(W, 1);
    i.render(&mut c, Region::from_u16(0, 0, W, 1));
    let (before, under, after) = if m.text.is_empty() && !placeholder.is_empty() {
        if m.focused {
            let g = placeholder.graphemes(true).next().unwrap();
            (String::new(), g.to_string(), placeholder[g.len()..].to_string())
        } else {
            (placeholder.to_string(), String::new(), String::new())
        }
    } else if !m.focused {
        (m.text.clone(), String::new(), String::new())
    } else {
        let rest = &m.text[m.at..];
        let g = rest.graphemes(true).next().unwrap_or("");
        (m.text[..m.at].to_string(), if g.is_empty() { " ".into() } else { g.to_string() }, rest[g.len()..].to_string())
    };
    // A character that has no width of its own at the start of the line, or under the cursor, can't be shown
    // on its own: only the text is compared.
    let b = cells_of(&before);
    let u = cells_of(&under);
    let mut want: Vec<(String, bool)> = b.into_iter().map(|s| (s, false)).collect();
    want.extend(u.into_iter().map(|s| (s, true)));
    want.extend(cells_of(&after).into_iter().map(|s| (s, false)));
    want.truncate(W as usize);
    while want.len() < W as usize {
        want.push((" ".into(), false));
    }
    for (x, (s, cur)) in want.iter().enumerate() {
        let cell = c.cell_at(x);
        let got = &cell.symbol;
        ensure!(got == s || s.is_empty(), "column {x} shows {got:?} instead of {s:?}: row {:?}", row_of(&c, W, 0));
        let inv = cell.bg == Some(CURSOR_BG);
        ensure!(inv == *cur || s.is_empty(), "column {x} ({s:?}) is {}shown as the cursor: row {:?}", if inv { "" } else { "not " }, row_of(&c, W, 0));
    }
    Ok(())
}

fn input_run(ops: &[InOp], start: usize, w: &mut mc::W) -> Result<(), String> {
    let placeholder = ["", "type [here]", "世界"][start];
    let mut i = Input::<Msg>::new().with_id("i");
    if !placeholder.is_empty() {
        i = i.with_placeholder(placeholder);
    }
    i.set_style(Default::default());
    i.set_focus(true);
    let mut m = Editor { text: String::new(), at: 0, focused: true, disabled: false };
    for (n, op) in ops.iter().enumerate() {
        w.step();
        match *op {
            InOp::Key(k) => {
                let said = i.on_event(k);
                ensure!(said.is_none(), "key {k:?} produced a message");
                m.key(k);
            }
            InOp::Value(v) => {
                let idx = m.index();
                i.set_value(v);
                m.text = v.into();
                let stops = m.stops();
                m.at = stops[idx.min(stops.len() - 1)];
            }
            InOp::Cursor(c) => {
                i.set_cursor(c);
                let stops = m.stops();
                m.at = stops[c.min(stops.len() - 1)];
            }
            InOp::Focus(f) => {
                i.set_focus(f);
                m.focused = f;
            }
            InOp::Disable(d) => {
                i.set_disabled(d);
                m.disabled = d;
            }
        }
        ensure!(i.value() == m.text, "after step {n}: the value is {:?}, expected {:?}", i.value(), m.text);
        ensure!(i.cursor() == m.index(), "after step {n}: the cursor is at {} of {:?}, expected {}", i.cursor(), m.text, m.index());
        ensure!(i.is_focused() == m.focused && i.is_disabled() == m.disabled && i.is_focusable() == !m.disabled, "after step {n}: flags differ");
        let narrow = !m.text.graphemes(true).any(|g| g.starts_with(['\u{301}', '\u{308}', '\u{200D}']));
        if narrow {
            input_looks(&i, &m, placeholder).map_err(|e| format!("after step {n} ({op:?}), value {:?}, cursor {}: {e}", m.text, m.index()))?;
        }
        w.state(&m);
    }
    w.outcome(&(m.text, m.at));
    Ok(())
}

fn c20(ctx: &Ctx) {
    ctx.assume("the value fits in the width of the widget: long values wrap");
    ctx.note("reference", "a string with a byte position that only stops between user-perceived characters".into());
    let depth = ctx.pick(4, 5);
    for (name, set, d) in [("editing", KEYS, depth), ("joining characters", JOINERS, ctx.pick(4, 6))] {
        let starts = if name == "editing" { 3 } else { 1 };
        let n = seq_count(set.len() as u64, d) * starts;
        ctx.explore(
            &format!("{name}: all sequences of up to {d} of {} operations", set.len()),
            n,
            move |i| format!("placeholder {} ops {:?}", i % starts, seq_at(i / starts, set.len() as u64, d).iter().map(|k| set[*k]).collect::<Vec<_>>()),
            move |i, w| {
                let ops: Vec<InOp> = seq_at(i / starts, set.len() as u64, d).iter().map(|k| set[*k]).collect();
                input_run(&ops, (i % starts) as usize, w)
            },
        );
    }
}

// ---- C21 ----

const LISTS: &[&[(&str, bool)]] = &[
    &[("ant", false), ("bee", false), ("cat", false)],
    &[("ant", true), ("bee", false), ("cat", true), ("dog", false), ("eel", true)],
    &[("a1\na2", false), ("b1", true), ("c1\nc2\nc3", false), ("d1", false)],
    &[("ant", true), ("bee", true)],
    &[],
    &[("only", false)],
    &[("[b]x[/b]", false), ("y\\[", false)],
];

const LIST_CSS: &[&str] = &[
    "",
    "#l { border: solid white; }",
    "#l { padding: 1 2; border-top: solid white; }",
    "#l { height: 4; overflow-y: auto; }",
    "#l { margin: 1; width: 12; } .option-list--option { padding: 1 0 0 0; }",
];

#[derive(Clone, Copy, Debug, PartialEq)]
enum ListOp {
    Up,
    Down,
    /// Click the row that shows the n-th item (press and release).
    Click(usize),
    /// Press on an item and release on another.
    Slide(usize, usize),
    Items(usize),
    Select(usize),
    Wheel(bool),
    Other,
}

const LIST_OPS: &[ListOp] = &[
    ListOp::Up,
    ListOp::Down,
    ListOp::Click(0),
    ListOp::Click(1),
    ListOp::Click(2),
    ListOp::Click(3),
    ListOp::Slide(0, 2),
    ListOp::Items(0),
    ListOp::Items(1),
    ListOp::Items(3),
    ListOp::Items(4),
    ListOp::Items(5),
    ListOp::Select(0),
    ListOp::Select(2),
    ListOp::Select(7),
    ListOp::Wheel(true),
    ListOp::Wheel(false),
    ListOp::Other,
];

/// The items and the chosen one.
#[derive(Clone, Debug, Hash, PartialEq)]
struct ListM {
    list: usize,
    sel: usize,
}

impl ListM {
    fn items(&self) -> &'static [(&'static str, bool)] {
        LISTS[self.list]
    }
    fn fix(&mut self) {
        let it = self.items();
        if it.is_empty() {
            self.sel = 0;
            return;
        }
        self.sel = self.sel.min(it.len() - 1);
        if it[self.sel].1 {
            let next = (self.sel + 1..it.len()).find(|i| !it[*i].1);
            let prev = (0..self.sel).rev().find(|i| !it[*i].1);
            self.sel = next.or(prev).unwrap_or(self.sel);
        }
    }
}

fn with_list<R>(ui: &mut Ui, f: impl FnOnce(&mut OptionList<Msg>) -> R) -> R {
    ui.tree.query_one_as::<OptionList<Msg>, _, _>("#l", f).expect("the list")
}

/// Cells (x, y) of the first character of each line of each item, where it is on screen.
fn shown_lines(c: &Canvas, w: u16, h: u16, items: &[(&str, bool)]) -> Vec<Vec<(u16, u16)>> {
    let rows: Vec<(String, Vec<usize>)> = (0..h as usize)
        .map(|y| {
            let mut text = String::new();
            let mut starts = vec![];
            for x in 0..w as usize {
                starts.push(text.len());
                text.push_str(&c.cell_at(y * w as usize + x).symbol);
            }
            (text, starts)
        })
        .collect();
    let find = |line: &str| {
        rows.iter().enumerate().find_map(|(y, (text, starts))| {
            let at = text.find(line)?;
            Some((starts.iter().position(|s| *s == at)? as u16, y as u16))
        })
    };
    items.iter().map(|(t, _)| t.split('\n').filter_map(find).collect()).collect()
}

const HI: Color = Color::Rgb { r: 1, g: 2, b: 3 };

fn list_run(start: usize, css: usize, ops: &[ListOp], w: &mut mc::W) -> Result<(), String> {
    const CW: u16 = 24;
    const CH: u16 = 14;
    let items = |i: usize| LISTS[i].iter().map(|(t, d)| OptionItem::new(*t).disabled(*d)).collect::<Vec<_>>();
    let list = OptionList::<Msg>::new(vec![]).with_id("l").with_items_with_state(items(start));
    let style = format!(".option-list--option-highlighted {{ background: rgb(1,2,3); }} {}", LIST_CSS[css]);
    let mut ui = Ui::new(vec![Box::new(list)], &style, CW, CH);
    let mut m = ListM { list: start, sel: 0 };
    m.fix();
    for n in 0..=ops.len() {
        // Look
        let c = ui.paint();
        let shown = shown_lines(&c, CW, CH, m.items());
        let at = format!("after {:?} (items {:?})", &ops[..n], m.items());
        let (sel, text, all) = with_list(&mut ui, |l| (l.selected_index(), l.selected().map(str::to_string), l.items().to_vec()));
        ensure!(all == m.items().iter().map(|i| i.0.to_string()).collect::<Vec<_>>(), "{at}: items are {all:?}");
        ensure!(sel == m.sel, "{at}: item {sel} is selected, expected {}", m.sel);
        ensure!(text.as_deref() == m.items().get(m.sel).map(|i| i.0), "{at}: selected() is {text:?}");
        let scrolls = LIST_CSS[css].contains("overflow");
        for (i, lines) in shown.iter().enumerate() {
            ensure!(scrolls || lines.len() == m.items()[i].0.split('\n').count(), "{at}: item {i} is not shown");
            for (x, y) in lines {
                let hi = c.cell_at(*y as usize * CW as usize + *x as usize).bg == Some(HI);
                let want = i == m.sel && !m.items()[i].1;
                ensure!(hi == want, "{at}: item {i} is {}highlighted", if hi { "" } else { "not " });
            }
        }
        let pending = with_list(&mut ui, |l| l.take_pending_selection());
        // What a click should have chosen is checked where the click is made.
        ensure!(pending.is_none(), "{at}: {pending:?} was chosen");
        w.state(&(&m, css));
        if n == ops.len() {
            break;
        }
        // Act
        w.step();
        let mut chosen = None;
        match ops[n] {
            ListOp::Up | ListOp::Down => {
                let k = if ops[n] == ListOp::Up { KeyCode::Up } else { KeyCode::Down };
                let said = ui.key(k);
                ensure!(said.is_empty(), "{at}: {k:?} produced {said:?}");
                let it = m.items();
                let next = if k == KeyCode::Up { (0..m.sel.min(it.len())).rev().find(|i| !it[*i].1) } else { (m.sel + 1..it.len()).find(|i| !it[*i].1) };
                m.sel = next.unwrap_or(m.sel);
            }
            ListOp::Click(_) | ListOp::Slide(..) => {
                let (a, b) = match ops[n] {
                    ListOp::Click(i) => (i, i),
                    ListOp::Slide(a, b) => (a, b),
                    _ => unreachable!(),
                };
                let (Some(pa), Some(pb)) = (shown.get(a).and_then(|l| l.last()), shown.get(b).and_then(|l| l.last())) else { continue };
                ui.mouse(MouseEventKind::Down(MouseButton::Left), pa.0, pa.1);
                let early = with_list(&mut ui, |l| l.take_pending_selection());
                ensure!(early.is_none(), "{at}: pressing the button already chose {early:?}");
                let said = ui.mouse(MouseEventKind::Up(MouseButton::Left), pb.0, pb.1);
                ensure!(said.is_empty(), "{at}: a click produced {said:?}");
                if !m.items()[b].1 {
                    m.sel = b;
                    chosen = Some(b);
                }
            }
            ListOp::Items(i) => {
                let it = items(i);
                with_list(&mut ui, |l| l.set_items_with_state(it));
                m.list = i;
                m.fix();
            }
            ListOp::Select(i) => {
                with_list(&mut ui, |l| l.set_selected(i));
                m.sel = i;
                m.fix();
            }
            ListOp::Wheel(down) => {
                let said = ui.mouse(if down { MouseEventKind::ScrollDown } else { MouseEventKind::ScrollUp }, 3, 2);
                ensure!(said.is_empty(), "{at}: the wheel produced {said:?}");
            }
            ListOp::Other => {
                for k in [KeyCode::Left, KeyCode::Char('x'), KeyCode::Tab] {
                    let said = ui.key(k);
                    ensure!(said.is_empty(), "{at}: {k:?} produced {said:?}");
                }
                for y in 0..CH {
                    ui.mouse(MouseEventKind::Moved, 2, y);
                    ui.mouse(MouseEventKind::Up(MouseButton::Right), 2, y);
                }
            }
        }
        let pending = with_list(&mut ui, |l| l.take_pending_selection());
        ensure!(pending == chosen, "{at} then {:?}: {pending:?} was chosen, expected {chosen:?}", ops[n]);
    }
    w.outcome(&(m, css));
    Ok(())
}

fn c21(ctx: &Ctx) {
    ctx.assume("a click is a press and a release of the left button; what counts is where it is released");
    let some: &'static [usize] = &[1, 2];
    let all: &'static [usize] = &[0, 1, 2, 3, 4, 5, 6];
    for (lists, styles, depth) in [(all, all, ctx.pick(2, 3)), (some, some, ctx.pick(3, 4))] {
        let styles = &styles[..styles.len().min(LIST_CSS.len())];
        let n = seq_count(LIST_OPS.len() as u64, depth) * (lists.len() * styles.len()) as u64;
        let at = move |i: u64| {
            let mut x = Mix(i);
            let s = *x.of(lists);
            let c = *x.of(styles) + if styles.len() == 2 { 1 } else { 0 };
            let ops: Vec<ListOp> = seq_at(x.0, LIST_OPS.len() as u64, depth).iter().map(|k| LIST_OPS[*k]).collect();
            (s, c, ops)
        };
        ctx.explore(
            &format!("{} lists x {} styles x all sequences of up to {depth} operations", lists.len(), styles.len()),
            n,
            move |i| format!("{:?}", at(i)),
            move |i, w| {
                let (s, c, ops) = at(i);
                list_run(s, c, &ops, w)
            },
        );
    }
}

// ---- C22 ----

const HOLDERS: &[&str] = &["Vertical", "Grid", "ScrollableContainer", "Horizontal", "VerticalScroll", "ItemGrid", "Container"];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum At {
    A,
    S,
    B,
    /// Where nothing is.
    Out,
}

#[derive(Clone, Copy, Debug)]
enum PressOp {
    Down(At),
    Up(At),
    Drag(At),
    Move(At),
    Enter,
    Space,
    Tab,
    Disable(At, bool),
    Loading(bool),
}

fn press_ops() -> Vec<PressOp> {
    use At::*;
    let mut v = vec![];
    for p in [A, S, B, Out] {
        v.push(PressOp::Down(p));
        v.push(PressOp::Up(p));
    }
    v.extend([PressOp::Drag(Out), PressOp::Drag(B), PressOp::Move(A), PressOp::Enter, PressOp::Space, PressOp::Tab]);
    v.extend([PressOp::Disable(A, true), PressOp::Disable(A, false), PressOp::Disable(S, true), PressOp::Disable(B, true), PressOp::Disable(B, false), PressOp::Loading(true), PressOp::Loading(false)]);
    v
}

fn press_run(holder: &'static str, ops: &[PressOp], w: &mut mc::W) -> Result<(), String> {
    const CW: u16 = 60;
    const CH: u16 = 16;
    let a: W1 = Box::new(Button::<Msg>::new("AAA").with_id("a").with_message("a".to_string()));
    let s: W1 = Box::new(Switch::new(false, |v: bool| format!("s={v}")).with_id("s"));
    let b: W1 = Box::new(Button::<Msg>::new("BBB").with_id("b").with_action("go"));
    let root = container(holder, "k", vec![a, s, b]);
    let mut ui = Ui::new(vec![root], "#k { height: 12; grid-size: 2; }", CW, CH);
    let mut on = false;
    let mut loading = false;
    let mut dis = [false; 3];
    let mut pressed: Option<At> = None;
    let mut focus = Some(At::A);
    let c = ui.paint();
    for (n, op) in ops.iter().enumerate() {
        w.step();
        let find = |g: &str| {
            (0..CW as usize * CH as usize).find(|i| (0..g.len()).all(|k| c.cell_at(i + k).symbol == g[k..k + 1])).map(|i| ((i % CW as usize) as u16, (i / CW as usize) as u16))
        };
        let place = |p: At| match p {
            At::A => find("AAA"),
            At::B => find("BBB"),
            At::S => find("["),
            At::Out => Some((CW - 1, CH - 1)),
        };
        let live = |p: At, dis: &[bool; 3], loading: bool| match p {
            At::A => !dis[0],
            At::S => !dis[1] && !loading,
            At::B => !dis[2],
            At::Out => false,
        };
        let mut want: Vec<String> = vec![];
        let mut fire = |p: At| match p {
            At::A => want.push("a from a".into()),
            At::B => want.push("action go".into()),
            At::S => {
                on = !on;
                want.push(format!("s={on} from s"));
            }
            At::Out => {}
        };
        let place = |p: At| place(p).ok_or(format!("{p:?} is not on the screen"));
        let got = match *op {
            PressOp::Down(p) => {
                if pressed.is_some() {
                    continue;
                }
                let (x, y) = place(p)?;
                if live(p, &dis, loading) {
                    pressed = Some(p);
                }
                ui.mouse(MouseEventKind::Down(MouseButton::Left), x, y)
            }
            PressOp::Up(p) => {
                let (x, y) = place(p)?;
                if pressed == Some(p) && live(p, &dis, loading) {
                    fire(p);
                }
                pressed = None;
                ui.mouse(MouseEventKind::Up(MouseButton::Left), x, y)
            }
            PressOp::Drag(p) => {
                let (x, y) = place(p)?;
                ui.mouse(MouseEventKind::Drag(MouseButton::Left), x, y)
            }
            PressOp::Move(p) => {
                // A move without a drag: no button is held, so there was a release that got lost.
                if pressed.is_some() {
                    continue;
                }
                let (x, y) = place(p)?;
                ui.mouse(MouseEventKind::Moved, x, y)
            }
            PressOp::Enter | PressOp::Space => {
                if let Some(p) = focus {
                    if live(p, &dis, loading) {
                        fire(p);
                    }
                }
                ui.key(if matches!(op, PressOp::Enter) { KeyCode::Enter } else { KeyCode::Char(' ') })
            }
            PressOp::Tab => {
                let order: Vec<At> = [At::A, At::S, At::B].into_iter().filter(|p| live(*p, &dis, loading)).collect();
                let got = ui.key(KeyCode::Tab);
                focus = match focus.and_then(|f| order.iter().position(|p| *p == f)) {
                    Some(i) => Some(order[(i + 1) % order.len()]),
                    // Where Tab goes from a widget that was disabled meanwhile is not this property's concern.
                    None => order.iter().copied().find(|p| ui.tree.focused_sender_info().id.as_deref() == Some(match p { At::A => "a", At::S => "s", _ => "b" })),
                };
                got
            }
            PressOp::Disable(p, d) => {
                let id = match p { At::A => "#a", At::S => "#s", _ => "#b" };
                ui.tree.query_one(id, |x| x.set_disabled(d));
                dis[match p { At::A => 0, At::S => 1, _ => 2 }] = d;
                vec![]
            }
            PressOp::Loading(l) => {
                ui.tree.query_one("#s", |x| x.set_loading(l));
                loading = l;
                vec![]
            }
        };
        ensure!(got == want, "step {n} {op:?}: got {got:?}, expected {want:?}");
        // A second look: nothing is left over.
        let left = collect_pending_actions_mut(ui.tree.root_mut());
        ensure!(left.is_empty(), "step {n} {op:?}: left over {left:?}");
        if n + 1 < ops.len() {
            ui.restyle();
            w.state(&(holder, on, loading, dis, pressed, focus));
            continue;
        }
        let c = ui.paint();
        let text: String = (0..CH).map(|y| row_of(&c, CW, y)).collect();
        ensure!(loading || text.contains(if on { "  ON " } else { " OFF " }), "step {n} {op:?}: the switch does not show {on}");
        w.state(&(holder, on, loading, dis, pressed, focus));
    }
    w.outcome(&(holder, on, pressed));
    Ok(())
}

fn c22(ctx: &Ctx) {
    ctx.assume("one mouse button at a time; a move event without a drag means that no button is held");
    let ops = press_ops();
    for (hs, d) in [(HOLDERS, 3), (&HOLDERS[..ctx.pick(1, 3)], 4)] {
        if hs.is_empty() {
            continue;
        }
        let ops = ops.clone();
        let n = seq_count(ops.len() as u64, d) * hs.len() as u64;
        let at = move |i: u64| {
            let mut x = Mix(i);
            let h = *x.of(hs);
            (h, seq_at(x.0, ops.len() as u64, d).iter().map(|k| ops[*k]).collect::<Vec<_>>())
        };
        let at2 = at.clone();
        ctx.explore(
            &format!("{} containers x all sequences of up to {d} operations on two buttons and a switch", hs.len()),
            n,
            move |i| format!("{:?}", at2(i)),
            move |i, w| {
                let (h, ops) = at(i);
                press_run(h, &ops, w)
            },
        );
    }
}

fn main() {
    main_with(&[("C20", c20), ("C21", c21), ("C22", c22)]);
}
