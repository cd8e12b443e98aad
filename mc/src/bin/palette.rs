//! C23 the command palette, under a scheduler that decides when providers answer.
use async_trait::async_trait;
use crossterm::style::Color;
use mc::probe::*;
use mc::*;
use std::cell::RefCell;
use std::collections::{HashMap, VecDeque};
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tcss::parser::parse_stylesheet;
use tcss::types::Theme;
use textual::command::{DiscoveryHit, Hit, Provider};
use textual::style_resolver::{resolve_dirty_styles, resolve_styles, InheritedContext};
use textual::testing::build_combined_css;
use textual::tree::{clear_all_active, collect_pending_actions_mut, WidgetTree};
use textual::widget::app_widget::AppWidget;
use textual::widget::button::Button;
use textual::widget::screen::Screen;
use textual::{App, AppContext, Canvas, CommandPalette, CommandPaletteEvent, EventContext, KeyCode, KeyModifiers, MessageEnvelope, MouseButton, MouseEvent, MouseEventKind, Region, Size, Widget};
use tokio::sync::{mpsc, oneshot};

const W: u16 = 60;
const H: u16 = 24;
const HI: Color = Color::Rgb { r: 1, g: 2, b: 3 };
const NONE: &str = "No matches found";

/// Name, score, help: of the two providers.
const COMMANDS: [&[(&str, u32, Option<&str>)]; 2] = [
    &[("apple", 5, None), ("bamba", 3, Some("[help] one")), ("cress", 9, None)],
    &[("abbey", 3, Some("two")), ("berry", 7, None)],
];

/// The jobs providers are working on, in the order in which they were given.
#[derive(Default)]
struct Jobs {
    waiting: Vec<(usize, String, oneshot::Sender<()>)>,
    log: Vec<String>,
}

type Shared = Arc<Mutex<Jobs>>;

struct Gated {
    n: usize,
    jobs: Shared,
}

impl Gated {
    async fn gate(&self, query: &str) {
        let (tx, rx) = oneshot::channel();
        self.jobs.lock().unwrap().waiting.push((self.n, query.to_string(), tx));
        let _ = rx.await;
    }
}

fn action_of(name: &str) -> String {
    format!("run:{name}")
}

#[async_trait]
impl Provider for Gated {
    async fn startup(&mut self) {
        self.jobs.lock().unwrap().log.push(format!("startup {}", self.n));
    }
    async fn shutdown(&mut self) {
        self.jobs.lock().unwrap().log.push(format!("shutdown {}", self.n));
    }
    async fn search(&mut self, query: &str) -> Vec<Hit> {
        self.gate(query).await;
        COMMANDS[self.n]
            .iter()
            .filter(|c| c.0.contains(query))
            .map(|c| Hit { score: c.1 as f32, match_display: c.0.to_string(), action: action_of(c.0), text: c.0.to_string(), help: c.2.map(str::to_string) })
            .collect()
    }
    async fn discover(&mut self) -> Vec<DiscoveryHit> {
        self.gate("").await;
        COMMANDS[self.n].iter().map(|c| DiscoveryHit { display: c.0.to_string(), action: action_of(c.0), text: c.0.to_string(), help: c.2.map(str::to_string) }).collect()
    }
}

/// What the list has to show once the providers have answered `query` in the given order.
fn results(query: &str, order: &[usize]) -> Vec<String> {
    let q = query.trim();
    let mut all: Vec<(u32, &str)> = vec![];
    for p in order {
        all.extend(COMMANDS[*p].iter().filter(|c| c.0.contains(q)).map(|c| (if q.is_empty() { 0 } else { c.1 }, c.0)));
    }
    all.sort_by_key(|c| std::cmp::Reverse(c.0));
    all.into_iter().map(|c| c.1.to_string()).collect()
}

fn lines(name: &str) -> u16 {
    1 + COMMANDS.iter().flat_map(|p| p.iter()).filter(|c| c.0 == name && c.2.is_some()).count() as u16
}

/// Answers at once, with more commands than the list has room for.
struct Long;

fn long_names(query: &str) -> Vec<String> {
    (0..23).map(|i| format!("{}{i:02}", ["ant", "bee", "cow", "dog", "asp"][i % 5])).filter(|n| n.contains(query)).collect()
}

/// Every third command has a second line.
fn long_help(name: &str) -> Option<String> {
    let n = &name[3..];
    (n.parse::<usize>().unwrap() % 3 == 0).then(|| format!("help{n}"))
}

#[async_trait]
impl Provider for Long {
    async fn search(&mut self, query: &str) -> Vec<Hit> {
        long_names(query).into_iter().map(|n| Hit { score: 1.0, match_display: n.clone(), action: action_of(&n), help: long_help(&n), text: n }).collect()
    }
    async fn discover(&mut self) -> Vec<DiscoveryHit> {
        long_names("").into_iter().map(|n| DiscoveryHit { display: n.clone(), action: action_of(&n), help: long_help(&n), text: n }).collect()
    }
}

struct PApp {
    long: bool,
    jobs: Shared,
    actions: Vec<String>,
    events: Vec<String>,
}

impl App for PApp {
    type Message = Msg;
    fn command_providers(&self) -> Vec<Box<dyn Provider>> {
        if self.long {
            return vec![Box::new(Long)];
        }
        (0..2).map(|n| Box::new(Gated { n, jobs: self.jobs.clone() }) as Box<dyn Provider>).collect()
    }
    fn on_action(&mut self, action: &str, _ctx: &mut EventContext<Msg>) -> bool {
        if action.starts_with("run:") {
            self.actions.push(action.to_string());
            return true;
        }
        false
    }
}

thread_local! {
    static SHEET: RefCell<HashMap<String, Rc<tcss::parser::StyleSheet>>> = RefCell::new(HashMap::new());
    static THEME: Theme = Theme::standard_themes().get("textual-dark").cloned().unwrap();
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Op {
    A,
    B,
    Back,
    Down,
    Up,
    Enter,
    Esc,
    Open,
    /// A provider answers.
    Answer(usize),
    Tick,
    /// 600 ms pass.
    Wait,
    Click(usize),
    Outside,
    /// More than 250 ms of wall-clock time pass.
    Sleep,
}

struct Ui {
    app: PApp,
    tree: WidgetTree<Msg>,
    sheet: Rc<tcss::parser::StyleSheet>,
    theme: Theme,
    tx: mpsc::UnboundedSender<MessageEnvelope<Msg>>,
    _rx: mpsc::UnboundedReceiver<MessageEnvelope<Msg>>,
}

impl Ui {
    fn new() -> Ui {
        Ui::with(false, true)
    }
    fn with(long: bool, run_on_select: bool) -> Ui {
        let kids: Vec<W1> = vec![Box::new(Button::<Msg>::new("one").with_id("one")), Box::new(Button::<Msg>::new("two").with_id("two").with_message("two".into()))];
        let mut tree = WidgetTree::new(Box::new(AppWidget::new(vec![Box::new(Screen::new(kids)) as W1, Box::new(CommandPalette::<Msg>::new_with_run_on_select(run_on_select))])));
        tree.root_mut().on_resize(Size::new(W, H));
        let css = build_combined_css(tree.root_mut(), "CommandList > .option-list--option-highlighted { background: rgb(1,2,3); }");
        let sheet = SHEET.with(|s| s.borrow_mut().entry(css).or_insert_with_key(|t| Rc::new(parse_stylesheet(t).expect("css"))).clone());
        tree.root_mut().clear_focus();
        tree.root_mut().focus_nth(0);
        tree.update_focus(0);
        let theme = THEME.with(|t| t.clone());
        resolve_styles(tree.root_mut(), &sheet, &theme, &mut VecDeque::new());
        let (tx, rx) = mpsc::unbounded_channel();
        tree.focus_next();
        Ui { app: PApp { long, jobs: Shared::default(), actions: vec![], events: vec![] }, tree, sheet, theme, tx, _rx: rx }
    }
    fn palette<R>(&mut self, f: impl FnOnce(&mut CommandPalette<Msg>) -> R) -> R {
        self.tree.query_one_as::<CommandPalette<Msg>, _, _>("CommandPalette", f).expect("palette")
    }
    fn drain(&mut self) {
        self.palette(|p| p.drain_updates());
        self.palette(|p| p.tick());
        let events = self.palette(|p| p.take_events());
        for e in events {
            self.app.events.push(match e {
                CommandPaletteEvent::Opened => "opened".into(),
                CommandPaletteEvent::Closed { option_selected } => format!("closed {option_selected}"),
                CommandPaletteEvent::OptionHighlighted(h) => format!("highlight {} {} {}", h.index, h.text, h.action),
            });
        }
    }
    fn act(&mut self, action: &str) {
        let mut ctx = EventContext::new(AppContext::new(self.tx.clone()), &mut self.tree);
        self.app.dispatch_action(action, &mut ctx);
    }
    fn after(&mut self) {
        let actions = collect_pending_actions_mut(self.tree.root_mut());
        for a in actions {
            self.act(&a);
        }
        if let Some(f) = self.palette(|p| p.take_restore_focus()) {
            self.tree.set_focus_index(f);
        }
        self.drain();
    }
    fn key(&mut self, k: KeyCode) -> bool {
        let said = self.tree.dispatch_key(k).is_some();
        self.after();
        said
    }
    fn mouse(&mut self, kind: MouseEventKind, x: u16, y: u16) {
        let region = Region::from_u16(0, 0, W, H);
        let e = MouseEvent { kind, column: x, row: y, modifiers: KeyModifiers::NONE };
        if self.palette(|p| p.is_open()) {
            self.palette(|p| p.on_mouse_with_sender(e, region));
        } else {
            self.tree.root_mut().on_mouse_with_sender(e, region);
        }
        if matches!(kind, MouseEventKind::Up(_)) {
            clear_all_active(self.tree.root_mut());
        }
        self.after();
    }
    fn paint(&mut self) -> Canvas {
        let ctx = InheritedContext::from_theme(&self.theme);
        resolve_dirty_styles(self.tree.root_mut(), &self.sheet, &self.theme, &mut VecDeque::new(), false, &ctx);
        let mut c = Canvas::new(W, H);
        self.tree.root().render(&mut c, Region::from_u16(0, 0, W, H));
        c
    }
    /// Names in the list from top to bottom: name, place, highlighted.
    fn look(&mut self) -> Vec<(String, u16, u16, bool)> {
        let c = self.paint();
        let names: Vec<&str> = COMMANDS.iter().flat_map(|p| p.iter().map(|c| c.0)).chain([NONE]).collect();
        let mut out = vec![];
        for y in 0..H {
            let row: Vec<&str> = (0..W as usize).map(|x| c.cell_at(y as usize * W as usize + x).symbol.as_str()).collect();
            for x in 0..W as usize {
                for n in &names {
                    if n.len() <= row.len() - x && (0..n.len()).all(|k| row[x + k] == &n[k..k + 1]) {
                        out.push((n.to_string(), x as u16, y, c.cell_at(y as usize * W as usize + x).bg == Some(HI)));
                    }
                }
            }
        }
        out
    }
    fn query_text(&mut self) -> String {
        let c = self.paint();
        (0..H)
            .map(|y| (0..W as usize).map(|x| c.cell_at(y as usize * W as usize + x).symbol.as_str()).collect::<String>())
            .find(|r| r.contains('🔎'))
            .map(|r| r.split('🔎').nth(1).unwrap_or("").trim_matches([' ', '▏', '▕', '│']).to_string())
            .unwrap_or_default()
    }
}

impl Ui {
    /// The lines of the list from top to bottom: text, column, row, highlighted.
    fn window(&mut self) -> Vec<(String, u16, u16, bool)> {
        let c = self.paint();
        let mut out = vec![];
        for y in 0..H {
            let row: Vec<&str> = (0..W as usize).map(|x| c.cell_at(y as usize * W as usize + x).symbol.as_str()).collect();
            let text = row.concat();
            let Some(word) = text.split([' ', '▏', '▕', '│', '▁', '▂', '▃', '▄', '▅', '▆', '▇', '█', '▔']).find(|w| {
                let n = w.trim_end_matches(|c: char| c.is_ascii_digit());
                w.len() == n.len() + 2 && ["ant", "bee", "cow", "dog", "asp", "help"].contains(&n)
            }) else {
                continue;
            };
            let x = (0..W as usize).find(|x| row[*x..].concat().starts_with(word)).unwrap();
            out.push((word.to_string(), x as u16, y, c.cell_at(y as usize * W as usize + x).bg == Some(HI)));
        }
        out
    }
}

async fn settle() {
    for _ in 0..12 {
        tokio::task::yield_now().await;
    }
}

#[derive(Clone, Debug, Hash)]
struct Model {
    open: bool,
    query: String,
    /// Providers that answered the current query, in order; the results may still be on their way.
    answered: Vec<usize>,
    /// The results have been taken over by the palette.
    drained: usize,
    /// What the list showed when the current query was entered.
    before: Vec<String>,
    moved: bool,
    waited: bool,
}

async fn run(ops: &[Op], w: &mut mc::W) -> Result<(), String> {
    let mut ui = Ui::new();
    ensure!(ui.tree.focused_sender_info().id.as_deref() == Some("two"), "setup: focus");
    let mut m = Model { open: false, query: String::new(), answered: vec![], drained: 0, before: vec![], moved: false, waited: false };
    let (mut opened, mut closed) = (0, 0);
    let mut shown: Vec<(String, u16, u16, bool)> = vec![];
    for (n, op) in std::iter::once(&Op::Open).chain(ops).enumerate() {
        w.step();
        let at = format!("step {n} {op:?}");
        let lit = shown.iter().position(|s| s.3);
        let was_open = m.open;
        let mut ran: Option<String> = None;
        let (mut opens, mut closes): (usize, Option<bool>) = (0, None);
        let fresh = |m: &mut Model, q: String, shown: &[(String, u16, u16, bool)]| {
            m.query = q;
            m.answered.clear();
            m.drained = 0;
            m.before = shown.iter().map(|s| s.0.clone()).collect();
            m.moved = false;
            m.waited = false;
        };
        // Actions the screen promises
        match *op {
            Op::A | Op::B | Op::Back => {
                let before = m.query.clone();
                let mut q = before.clone();
                match op {
                    Op::A => q.push('a'),
                    Op::B => q.push('b'),
                    _ => {
                        q.pop();
                    }
                }
                let said = ui.key(match op { Op::A => KeyCode::Char('a'), Op::B => KeyCode::Char('b'), _ => KeyCode::Backspace });
                ensure!(!said, "{at}: the key produced a message");
                if was_open && q != before {
                    fresh(&mut m, q, &shown);
                }
            }
            Op::Down | Op::Up => {
                ui.key(if *op == Op::Down { KeyCode::Down } else { KeyCode::Up });
                m.moved |= was_open;
            }
            Op::Enter | Op::Click(_) => {
                let target = match *op {
                    Op::Enter => {
                        let said = ui.key(KeyCode::Enter);
                        ensure!(said != was_open, "{at}: Enter went to the wrong widget");
                        lit
                    }
                    Op::Click(i) => {
                        let Some((_, x, y, _)) = shown.get(i).cloned() else { continue };
                        ui.mouse(MouseEventKind::Down(MouseButton::Left), x, y);
                        // New results may have come in: what counts is what is there at the release.
                        shown = ui.look();
                        ui.mouse(MouseEventKind::Up(MouseButton::Left), x, y);
                        shown.iter().position(|s| s.2 <= y && y < s.2 + lines(&s.0))
                    }
                    _ => unreachable!(),
                };
                if let (true, Some(i)) = (was_open, target) {
                    if shown[i].0 != NONE {
                        ran = Some(action_of(&shown[i].0));
                        closes = Some(true);
                    }
                }
            }
            Op::Esc => {
                ui.key(KeyCode::Esc);
                if was_open {
                    closes = Some(false);
                }
            }
            Op::Outside => {
                ui.mouse(MouseEventKind::Down(MouseButton::Left), W - 1, 0);
                if was_open {
                    closes = Some(false);
                }
                ui.mouse(MouseEventKind::Up(MouseButton::Left), W - 1, 0);
            }
            Op::Open => {
                ui.act("app.command_palette");
                ui.drain();
                let q = if was_open { m.query.clone() } else { String::new() };
                fresh(&mut m, q, &shown);
                if !was_open {
                    m.before.clear();
                    opens = 1;
                    m.open = true;
                }
            }
            Op::Answer(p) => {
                settle().await;
                // The latest job of the provider that is still wanted.
                let job = {
                    let mut j = ui.app.jobs.lock().unwrap();
                    j.waiting.retain(|(_, _, tx)| !tx.is_closed());
                    let at = j.waiting.iter().position(|(q, _, _)| *q == p);
                    at.map(|i| j.waiting.remove(i))
                };
                match job {
                    Some((_, q, tx)) => {
                        ensure!(m.open && q == m.query.trim(), "{at}: a provider is still working on {q:?}");
                        ensure!(!m.answered.contains(&p), "{at}: provider {p} was asked twice");
                        let _ = tx.send(());
                        m.answered.push(p);
                    }
                    None => {
                        ensure!(!m.open || m.answered.contains(&p), "{at}: provider {p} was not asked for {:?}", m.query);
                        continue;
                    }
                }
                settle().await;
            }
            Op::Tick => {
                settle().await;
                ui.drain();
            }
            Op::Wait => {
                for _ in 0..6 {
                    tokio::time::advance(Duration::from_millis(100)).await;
                    settle().await;
                    ui.drain();
                }
                m.waited = m.answered.len() == 2 && m.drained == 2;
            }
            Op::Sleep => std::thread::sleep(Duration::from_millis(260)),
        }
        // Every operation but these two ends with the palette taking over what has arrived.
        if m.open && !matches!(op, Op::Answer(_) | Op::Sleep) {
            m.drained = m.answered.len();
        }
        if let Some(sel) = closes {
            m.open = false;
            m.query.clear();
            let ev: Vec<&String> = ui.app.events.iter().filter(|e| e.starts_with("closed")).collect();
            ensure!(ev.len() == closed + 1 && *ev[closed] == format!("closed {sel}"), "{at}: events {:?}", ui.app.events);
            closed += 1;
        }
        opened += opens;
        let count = |p: &str| ui.app.events.iter().filter(|e| e.starts_with(p)).count();
        ensure!(count("opened") == opened && count("closed") == closed, "{at}: {opened} openings and {closed} closings expected: {:?}", ui.app.events);
        ensure!(ui.app.actions == ran.iter().cloned().collect::<Vec<_>>(), "{at}: the list showed {shown:?}; actions {:?} ran, expected {ran:?}", ui.app.actions);
        ui.app.actions.clear();
        ensure!(ui.palette(|p| p.is_open()) == m.open, "{at}: open is {}", !m.open);
        let focus = ui.tree.focused_sender_info().id.unwrap_or_default();
        ensure!(focus == if m.open { "--command-palette" } else { "two" }, "{at}: the focus is on {focus:?}");
        // The screen
        let prev = shown.iter().position(|s| s.3);
        let old: Vec<String> = shown.iter().map(|s| s.0.clone()).collect();
        shown = ui.look();
        let list: Vec<String> = shown.iter().map(|s| s.0.clone()).collect();
        if !m.open {
            ensure!(list.is_empty(), "{at}: the closed palette shows {list:?}");
            w.state(&m);
            continue;
        }
        let text = ui.query_text();
        let text = text.trim();
        ensure!(text == m.query || (m.query.is_empty() && text.starts_with("Search for commands")), "{at}: the query reads {text:?} instead of {:?}", m.query);
        let done = results(&m.query, &m.answered[..m.drained]);
        let none = vec![NONE.to_string()];
        if m.drained == 2 {
            let empty = done.is_empty() && !m.query.trim().is_empty();
            ensure!(list == done || (empty && list == none), "{at}: query {:?} shows {list:?} instead of {done:?}", m.query);
            ensure!(!(empty && m.waited) || list == none, "{at}: no matches, but {list:?} is shown");
        } else {
            ensure!(list == m.before || (m.drained > 0 && list == done), "{at}: query {:?} before all results are in shows {list:?}: neither {:?} nor {done:?}", m.query, m.before);
        }
        let lit: Vec<usize> = (0..shown.len()).filter(|i| shown[*i].3).collect();
        ensure!(lit.len() == usize::from(!list.is_empty() && list != none), "{at}: {} entries of {list:?} are highlighted", lit.len());
        if let (Some(h), true) = (lit.first(), list == old) {
            if let (Op::Down | Op::Up, Some(p)) = (op, prev) {
                let want = if *op == Op::Down { (p + 1).min(list.len() - 1) } else { p.saturating_sub(1) };
                ensure!(*h == want, "{at}: the highlight went from {p} to {h} of {list:?}");
            }
        }
        if let (Some(h), true, false) = (lit.first(), m.drained == 2, m.moved) {
            ensure!(*h == 0, "{at}: entry {h} of {list:?} is highlighted instead of the first");
        }
        // The last highlight reported is the one on screen.
        if let Some(h) = lit.first() {
            if m.drained == 2 {
                let said = ui.app.events.iter().rev().find(|e| e.starts_with("highlight")).cloned().unwrap_or_default();
                ensure!(said == format!("highlight {h} {} {}", list[*h], action_of(&list[*h])), "{at}: {:?} is highlighted, reported was {said:?}", list[*h]);
            }
        }
        w.state(&(&m, &list, &lit));
    }
    w.outcome(&(&m, shown.len()));
    // Closing shuts every provider down that was started.
    if m.open {
        ui.key(KeyCode::Esc);
    }
    settle().await;
    let log = ui.app.jobs.lock().unwrap().log.clone();
    let ups = log.iter().filter(|l| l.starts_with("startup")).count();
    ensure!(ups >= 2 * opened, "{ups} startups for {opened} openings");
    ensure!(log.iter().filter(|l| l.starts_with("shutdown")).count() == 2 * (closed + usize::from(m.open)), "provider log {log:?} after {closed} closings");
    Ok(())
}

#[derive(Clone, Copy, Debug)]
enum Long2 {
    Down(usize),
    Up(usize),
    /// On a line of the list, counted from the top or from the bottom.
    Click(isize),
    Enter,
    A,
    Back,
}

/// A list that does not show all of its commands at once.
async fn run_long(ops: &[Long2], w: &mut mc::W) -> Result<(), String> {
    let mut ui = Ui::with(true, true);
    ui.act("app.command_palette");
    settle().await;
    ui.drain();
    let lines = |q: &str| -> Vec<(usize, String)> { long_names(q).into_iter().enumerate().flat_map(|(i, n)| std::iter::once((i, n.clone())).chain(long_help(&n).map(|h| (i, h)))).collect() };
    let (mut query, mut at, mut high) = (String::new(), 0usize, 0usize);
    let mut view = ui.window();
    for (n, op) in std::iter::once(None).chain(ops.iter().map(Some)).enumerate() {
        w.step();
        let step = format!("step {n} {op:?}");
        let was_at = at;
        let mut ran = None;
        let count = long_names(&query).len();
        match op {
            None => {}
            Some(Long2::Down(k)) => {
                (0..*k).for_each(|_| drop(ui.key(KeyCode::Down)));
                at = (at + k).min(count - 1);
            }
            Some(Long2::Up(k)) => {
                (0..*k).for_each(|_| drop(ui.key(KeyCode::Up)));
                at = at.saturating_sub(*k);
            }
            Some(Long2::Click(i)) => {
                let i = if *i < 0 { view.len() as isize + i } else { *i }.clamp(0, view.len() as isize - 1) as usize;
                let (line, x, y, _) = view[i].clone();
                ui.mouse(MouseEventKind::Down(MouseButton::Left), x, y);
                ui.mouse(MouseEventKind::Up(MouseButton::Left), x, y);
                ran = long_names(&query).into_iter().find(|n| n[3..] == line[line.len() - 2..]);
                ensure!(ran.is_some(), "{step}: setup");
            }
            Some(Long2::Enter) => {
                ui.key(KeyCode::Enter);
                ran = long_names(&query).get(at).cloned();
            }
            Some(Long2::A) => {
                ui.key(KeyCode::Char('a'));
                query.push('a');
                at = 0;
            }
            Some(Long2::Back) => {
                ui.key(KeyCode::Backspace);
                if query.pop().is_some() {
                    at = 0;
                }
            }
        }
        settle().await;
        ui.drain();
        ensure!(ui.app.actions == ran.iter().map(|n| action_of(n)).collect::<Vec<_>>(), "{step}: of {view:?} with entry {was_at} highlighted, actions {:?} ran, expected {ran:?}", ui.app.actions);
        ensure!(ui.palette(|p| p.is_open()) == ran.is_none(), "{step}: open is {}", ran.is_some());
        if ran.is_some() {
            w.outcome(&ran);
            return Ok(());
        }
        view = ui.window();
        let all = lines(&query);
        if query.len() > 1 {
            break;
        }
        if high == 0 {
            high = view.len();
            ensure!(high > 5 && high < all.len(), "setup: {high} lines are shown of {}", all.len());
        }
        ensure!(!view.is_empty(), "{step}: the list is empty");
        ensure!(view.len() == high.min(all.len()), "{step}: {} lines of {} are shown, with room for {high}", view.len(), all.len());
        let top = all.iter().position(|l| l.1 == view[0].0).ok_or(format!("{step}: {:?} does not belong to the results", view[0]))?;
        for (k, v) in view.iter().enumerate() {
            ensure!(all.get(top + k).is_some_and(|l| l.1 == v.0) && v.2 == view[0].2 + k as u16, "{step}: line {k} of the list is {v:?}, expected {:?}", all.get(top + k));
            ensure!(v.3 == (all[top + k].0 == at), "{step}: entry {at} has to be highlighted, {v:?} is wrong");
        }
        w.state(&(&query, at, top));
    }
    ui.key(KeyCode::Esc);
    settle().await;
    ensure!(ui.app.actions.is_empty(), "actions {:?} ran on closing", ui.app.actions);
    Ok(())
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Go {
    A,
    B,
    Back,
    Down,
    Enter,
    Button,
    Click(usize),
    Answer(usize),
    Wait,
    Esc,
    /// More than 250 ms of wall-clock time pass: results are then shown before all are there.
    Sleep,
}

/// Choosing first puts the command into the input; Enter or the button then runs it.
async fn run_go(ops: &[Go], w: &mut mc::W) -> Result<(), String> {
    let mut ui = Ui::with(false, false);
    ui.act("app.command_palette");
    settle().await;
    ui.drain();
    let mut query = String::new();
    let mut chosen: Option<String> = None;
    let mut shown = ui.look();
    for (n, op) in ops.iter().enumerate() {
        w.step();
        let at = format!("step {n} {op:?}");
        let lit = shown.iter().position(|s| s.3).map(|i| shown[i].0.clone());
        let (mut ran, mut esc) = (None, false);
        let mut typed: Option<String> = None;
        let mut submit = |chosen: &mut Option<String>, ran: &mut Option<String>| match (&lit, &chosen) {
            (Some(l), _) => {
                *chosen = Some(l.clone());
                typed = Some(l.clone());
            }
            (None, Some(c)) if shown.is_empty() => *ran = Some(c.clone()),
            _ => {}
        };
        match *op {
            Go::A | Go::B | Go::Back => {
                let mut q = query.clone();
                match op {
                    Go::A => q.push('a'),
                    Go::B => q.push('b'),
                    _ => drop(q.pop()),
                }
                ui.key(match op { Go::A => KeyCode::Char('a'), Go::B => KeyCode::Char('b'), _ => KeyCode::Backspace });
                if q != query {
                    chosen = None;
                    query = q;
                }
            }
            Go::Down => drop(ui.key(KeyCode::Down)),
            Go::Enter => {
                ui.key(KeyCode::Enter);
                submit(&mut chosen, &mut ran);
            }
            Go::Button => {
                let c = ui.paint();
                let Some(i) = (0..W as usize * H as usize).find(|i| c.cell_at(*i).symbol == "\u{25b6}") else { return Err(format!("{at}: no button is shown")) };
                let (x, y) = ((i % W as usize) as u16, (i / W as usize) as u16);
                ui.mouse(MouseEventKind::Down(MouseButton::Left), x, y);
                ui.mouse(MouseEventKind::Up(MouseButton::Left), x, y);
                submit(&mut chosen, &mut ran);
            }
            Go::Click(i) => {
                let Some((name, x, y, _)) = shown.get(i).cloned() else { continue };
                ui.mouse(MouseEventKind::Down(MouseButton::Left), x, y);
                ui.mouse(MouseEventKind::Up(MouseButton::Left), x, y);
                if name != NONE {
                    chosen = Some(name.clone());
                    typed = Some(name);
                }
            }
            Go::Answer(p) => {
                let job = {
                    let mut j = ui.app.jobs.lock().unwrap();
                    j.waiting.retain(|(_, _, tx)| !tx.is_closed());
                    let at = j.waiting.iter().position(|(q, _, _)| *q == p);
                    at.map(|i| j.waiting.remove(i))
                };
                if let Some((_, _, tx)) = job {
                    let _ = tx.send(());
                }
            }
            Go::Wait => {
                for _ in 0..6 {
                    tokio::time::advance(Duration::from_millis(100)).await;
                    settle().await;
                    ui.drain();
                }
            }
            Go::Esc => {
                ui.key(KeyCode::Esc);
                esc = true;
            }
            Go::Sleep => std::thread::sleep(Duration::from_millis(260)),
        }
        if let Some(t) = typed {
            query = t;
        }
        settle().await;
        ui.drain();
        ensure!(ui.app.actions == ran.iter().map(|n| action_of(n)).collect::<Vec<_>>(), "{at}: the list showed {shown:?} with {chosen:?} chosen; actions {:?} ran, expected {ran:?}", ui.app.actions);
        ensure!(ui.palette(|p| p.is_open()) == !(esc || ran.is_some()), "{at}: open is {}", esc || ran.is_some());
        if esc || ran.is_some() {
            let want = format!("closed {}", ran.is_some());
            ensure!(ui.app.events.last() == Some(&want), "{at}: {:?} was announced, expected {want:?}", ui.app.events.last());
            w.outcome(&ran);
            return Ok(());
        }
        let text = ui.query_text();
        let text = text.trim().trim_end_matches("\u{25b6}").trim();
        ensure!(text.starts_with(&query) && (query.is_empty() || text.len() == query.len()), "{at}: the query reads {text:?} instead of {query:?}");
        shown = ui.look();
        // The name in the input is not in the list
        shown.retain(|s| !(chosen.as_ref() == Some(&s.0) && !s.3 && s.2 < 6));
        ensure!(chosen.is_none() || shown.is_empty(), "{at}: {chosen:?} is chosen and {shown:?} is listed");
        w.state(&(&query, &chosen, &shown));
    }
    ui.key(KeyCode::Esc);
    settle().await;
    Ok(())
}

fn drive(ops: &[Op], w: &mut mc::W) -> Result<(), String> {
    paused(run(ops, w))
}

fn paused(f: impl std::future::Future<Output = Result<(), String>>) -> Result<(), String> {
    tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap().block_on(f)
}

fn c23(ctx: &Ctx) {
    ctx.assume("two providers with five commands; a query of at most a few characters");
    use Op::*;
    let all: &'static [Op] = &[A, B, Back, Down, Up, Enter, Esc, Open, Answer(0), Answer(1), Tick, Wait, Click(0), Click(2), Outside];
    let core: &'static [Op] = &[A, Enter, Esc, Open, Answer(0), Answer(1), Tick, Down];
    // From a list that is shown
    let late: &'static [Op] = &[A, B, Back, Down, Enter, Answer(0), Answer(1), Tick, Wait, Click(1)];
    const NO: &[Op] = &[];
    const FULL: &[Op] = &[Answer(1), Answer(0), Tick, Down, Down];
    for (name, prefix, set, depth) in [
        ("all operations", NO, all, ctx.pick(3, 4)),
        ("answers, closing and reopening", NO, core, ctx.pick(4, 6)),
        ("a new query while the old results are shown", FULL, late, ctx.pick(4, 5)),
    ] {
        let at = move |i: u64| -> Vec<Op> { prefix.iter().copied().chain(seq_at(i, set.len() as u64, depth).iter().map(|k| set[*k])).collect() };
        ctx.explore(&format!("{name}: all sequences of up to {depth} of {}", set.len()), seq_count(set.len() as u64, depth), move |i| format!("{:?}", at(i)), move |i, w| drive(&at(i), w));
    }
    let slow: &'static [Op] = &[A, Down, Enter, Answer(0), Answer(1), Tick];
    let depth = ctx.pick(3, 4);
    let at = move |i: u64| -> Vec<Op> { FULL[..3].iter().copied().chain([A, Sleep]).chain(seq_at(i, slow.len() as u64, depth).iter().map(|k| slow[*k])).collect() };
    ctx.explore_on(32, &format!("results that arrive slowly: all sequences of up to {depth} of {}", slow.len()), seq_count(slow.len() as u64, depth), move |i| format!("{:?}", at(i)), move |i, w| drive(&at(i), w));
    use Long2 as L;
    let scroll: &'static [L] = &[L::Down(1), L::Down(7), L::Down(40), L::Up(1), L::Up(7), L::Click(0), L::Click(4), L::Click(-1), L::Enter, L::A, L::Back];
    let depth = ctx.pick(3, 4);
    let at = move |i: u64| -> Vec<L> { seq_at(i, scroll.len() as u64, depth).iter().map(|k| scroll[*k]).collect() };
    ctx.explore(&format!("more commands than fit: all sequences of up to {depth} of {}", scroll.len()), seq_count(scroll.len() as u64, depth), move |i| format!("{:?}", at(i)), move |i, w| paused(run_long(&at(i), w)));
    let go: &'static [Go] = &[Go::A, Go::B, Go::Back, Go::Down, Go::Enter, Go::Button, Go::Click(1), Go::Answer(0), Go::Answer(1), Go::Wait, Go::Esc];
    let depth = ctx.pick(4, 5);
    let at = move |i: u64| -> Vec<Go> { seq_at(i, go.len() as u64, depth).iter().map(|k| go[*k]).collect() };
    ctx.explore(&format!("choosing before running: all sequences of up to {depth} of {}", go.len()), seq_count(go.len() as u64, depth), move |i| format!("{:?}", at(i)), move |i, w| paused(run_go(&at(i), w)));
    const HALF: &[Go] = &[Go::A, Go::B, Go::Sleep, Go::Answer(1), Go::Enter];
    let late: &'static [Go] = &[Go::Answer(0), Go::Wait, Go::Enter, Go::Button, Go::Down, Go::A];
    let depth = ctx.pick(3, 4);
    let at = move |i: u64| -> Vec<Go> { HALF.iter().copied().chain(seq_at(i, late.len() as u64, depth).iter().map(|k| late[*k])).collect() };
    ctx.explore_on(32, &format!("choosing before the search has ended: all sequences of up to {depth} of {}", late.len()), seq_count(late.len() as u64, depth), move |i| format!("{:?}", at(i)), move |i, w| paused(run_go(&at(i), w)));
    ctx.assume("lists of commands longer than the screen: what is out of sight cannot be scrolled to (option lists do not scroll); keys, Enter and clicks act on the entries all the same");
}

fn main() {
    main_with(&[("C23", c23)]);
}
