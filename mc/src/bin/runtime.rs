//! C25 posted messages, C26 the event loop, C27 the terminal, C33 key bindings: the real `App::run` on a pseudo terminal.
use mc::pty::*;
use mc::term::TCell;
use mc::*;
use std::cell::RefCell;
use std::collections::{HashMap, VecDeque};
use std::fs::File;
use std::io::{BufRead, Write};
use std::os::fd::FromRawFd;
use std::rc::Rc;
use std::time::Duration;
use tcss::parser::parse_stylesheet;
use tcss::types::Theme;
use textual::style_resolver::resolve_styles;
use textual::testing::build_combined_css;
use textual::tree::{clear_all_active, clear_all_hover, collect_pending_actions_mut, WidgetTree};
use textual::widget::app_widget::AppWidget;
use textual::*;
use tokio::sync::mpsc;

type Wi = Box<dyn Widget<String>>;
type Res = std::result::Result<(), String>;

// ---- the app of C26 ----

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Kind {
    /// Widgets own their state and the app changes them.
    Lasting,
    /// The app owns the state and the tree is rebuilt.
    Rebuilt,
    /// The app decides which widget has the focus.
    Focusing,
}
const APP_KINDS: [Kind; 3] = [Kind::Lasting, Kind::Rebuilt, Kind::Focusing];

struct TApp {
    kind: Kind,
    log: Vec<String>,
    n: usize,
    hidden: bool,
    hot: bool,
    label: String,
    disabled: bool,
    sw: bool,
    focus: usize,
    child: Option<File>,
}

impl TApp {
    fn new(kind: Kind, child: bool) -> TApp {
        let child = child.then(|| unsafe { File::from_raw_fd(LOG) });
        TApp { kind, log: vec![], n: 0, hidden: false, hot: false, label: "one".into(), disabled: false, sw: false, focus: 0, child }
    }
    fn add(&mut self, s: String) {
        self.n += 1;
        self.log.push(s);
        if self.log.len() > 4 {
            self.log.remove(0);
        }
    }
    fn text(&self) -> String {
        format!("{} {}", self.n, self.log.join(" "))
    }
    /// Brings the widgets in line with the state.
    fn show(&mut self, ctx: &mut EventContext<String>) {
        if self.kind == Kind::Rebuilt {
            return;
        }
        let text = self.text();
        ctx.query_one_as::<Static<String>, _, _>("#log", |s| s.update(text));
        ctx.query("#log").set_class(self.hot, "hot");
        ctx.query("#box").set_class(self.hidden, "gone");
        ctx.query("#b1").set_disabled(self.disabled);
        let label = self.label.clone();
        ctx.query_one_as::<Button<String>, _, _>("#b1", |b| b.set_label(label));
    }
}

const CSS: &str = "
#log { height: 1; width: 38; background: rgb(10,10,10); }
#log.hot { background: rgb(90,0,0); }
#row { height: 3; width: 38; }
Button { width: 12; height: 3; min-width: 1; border: none; background: rgb(20,20,20); }
Button:hover { background: rgb(0,90,0); }
Button:focus { color: rgb(1,200,1); }
Button:disabled { background: rgb(50,50,50); }
#box { height: 3; width: 38; }
#box.gone { display: none; }
#in { width: 20; height: 1; border: none; background: rgb(5,5,60); }
#link { height: 1; width: 38; }
#in:focus { background: rgb(60,5,60); }
Screen.-narrow #wide { display: none; }
Screen.-wide #wide { width: 38; height: 1; background: rgb(1,2,3); }
Screen.-short #b2 { background: rgb(70,70,0); }
";

impl App for TApp {
    type Message = String;
    const CSS: &'static str = CSS;

    fn compose(&self) -> Vec<Wi> {
        let mut log = Static::<String>::new(self.text()).with_markup(false).with_id("log");
        let b1 = Button::new(self.label.clone()).with_id("b1").with_message("one".to_string()).with_disabled(self.disabled);
        if self.hot {
            log = log.with_classes("hot");
        }
        let sw: Wi = Box::new(Switch::new(self.sw, |on| format!("sw={on}")).with_id("sw"));
        let mut inner = Container::new(vec![sw]).with_id("box");
        if self.hidden {
            inner = inner.with_classes("gone");
        }
        vec![
            Box::new(log),
            Box::new(Horizontal::new(vec![Box::new(b1) as Wi, Box::new(Button::new("two").with_id("b2").with_message("two".to_string()))]).with_id("row")),
            Box::new(inner),
            Box::new(Input::<String>::new().with_id("in")),
            Box::new(Static::<String>::new("a [@click=tick]link[/] here").with_id("link")),
            Box::new(Static::<String>::new("wide enough").with_id("wide")),
            // Changes what its button says on the way up
            mc::probe::Probe::new(&mc::probe::new_log()).id("rel").size(5, 1).glyph('r').react(mc::probe::React::Replace).kids(vec![Box::new(Button::new("kid").with_id("kid").with_message("kid".to_string()))]).boxed(),
        ]
    }

    fn handle_message(&mut self, e: MessageEnvelope<String>, ctx: &mut EventContext<String>) {
        let m = e.message.clone();
        if let Some(f) = &mut self.child {
            let _ = writeln!(f, "message {m}");
        }
        self.add(format!("{}:{}", e.sender_id.as_deref().unwrap_or("-"), m));
        match m.as_str() {
            "one" => self.hot = !self.hot,
            "two" => self.hidden = !self.hidden,
            "p" => self.label += "+",
            "c2" => ctx.post("c1".to_string()),
            "c1" => ctx.post("c0".to_string()),
            "shut" => drop(ctx.query_one_as::<CommandPalette<String>, _, _>("CommandPalette", |p| p.close())),
            _ => {}
        }
        if let Some(v) = m.strip_prefix("sw=") {
            self.sw = v == "true";
        }
        self.show(ctx);
    }

    fn on_key(&mut self, key: KeyCode, ctx: &mut EventContext<String>) {
        if key == KeyCode::F(5) {
            if let Some(f) = &mut self.child {
                let _ = writeln!(f, "sync");
            }
            return;
        }
        self.add(format!("{key:?}").replace("Char", ""));
        match key {
            KeyCode::Char('h') => self.hidden = !self.hidden,
            KeyCode::Char('d') => self.disabled = !self.disabled,
            KeyCode::Char('f') => {
                ctx.focus_by_id("in");
            }
            KeyCode::Char('t') => ctx.set_timer(Duration::from_millis(2), "late".to_string()),
            KeyCode::Char('c') => ctx.post("c2".to_string()),
            KeyCode::Char('n') => self.focus = (self.focus + 1) % 4,
            KeyCode::Char('q') => self.request_quit(),
            _ => {}
        }
        self.show(ctx);
    }

    fn on_action(&mut self, action: &str, ctx: &mut EventContext<String>) -> bool {
        if action == "tick" || action == "tock" {
            self.add(action.to_string());
            self.hot = !self.hot;
            self.show(ctx);
            return true;
        }
        false
    }

    fn on_command_palette_event(&mut self, e: CommandPaletteEvent, ctx: &mut EventContext<String>) {
        match e {
            CommandPaletteEvent::Opened => self.add("open".into()),
            CommandPaletteEvent::Closed { option_selected } => self.add(format!("closed {option_selected}")),
            _ => return,
        }
        self.show(ctx);
    }

    fn command_palette_commands(&self) -> Vec<(String, String, Option<String>)> {
        vec![("alpha".into(), "tick".into(), None), ("beta".into(), "tock".into(), None)]
    }

    fn focus_index(&self) -> usize {
        if self.kind == Kind::Focusing {
            self.focus
        } else {
            0
        }
    }

    fn needs_recompose(&self) -> bool {
        self.kind == Kind::Rebuilt
    }

    fn on_mount(&mut self, ctx: &mut MountContext<String>) {
        if self.child.is_some() {
            post_lines(ctx.sender());
        }
    }
}

/// Posts every line that comes in from outside.
fn post_lines(sender: mpsc::UnboundedSender<MessageEnvelope<String>>) {
    std::thread::spawn(move || {
        let f = unsafe { File::from_raw_fd(CTL) };
        for l in std::io::BufReader::new(f).lines() {
            let Ok(l) = l else { return };
            let _ = sender.send(MessageEnvelope::new(l, Some("ext"), "Thread"));
        }
    });
}

// ---- what the screen has to show: the loop, restated ----

thread_local! {
    static SHEETS: RefCell<HashMap<String, Rc<tcss::parser::StyleSheet>>> = RefCell::new(HashMap::new());
    static THEME: Theme = Theme::standard_themes().get("textual-dark").cloned().unwrap();
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Ev {
    Key(KeyCode),
    Ctrl(char),
    Mouse(MouseEventKind, u16, u16),
    Resize(u16, u16),
    Post(&'static str),
}

impl Ev {
    fn bytes(&self) -> Vec<u8> {
        match *self {
            Ev::Key(k) => match k {
                KeyCode::Tab => b"\t".to_vec(),
                KeyCode::BackTab => b"\x1b[Z".to_vec(),
                KeyCode::Enter => b"\r".to_vec(),
                KeyCode::Esc => b"\x1b".to_vec(),
                KeyCode::Backspace => b"\x7f".to_vec(),
                KeyCode::Up => b"\x1b[A".to_vec(),
                KeyCode::Down => b"\x1b[B".to_vec(),
                KeyCode::F(5) => b"\x1b[15~".to_vec(),
                KeyCode::Char(c) => c.to_string().into_bytes(),
                k => panic!("{k:?}"),
            },
            Ev::Ctrl(c) => vec![c as u8 & 0x1f],
            Ev::Mouse(k, x, y) => {
                let (b, e) = match k {
                    MouseEventKind::Moved => (35, 'M'),
                    MouseEventKind::Down(MouseButton::Left) => (0, 'M'),
                    MouseEventKind::Up(MouseButton::Left) => (0, 'm'),
                    MouseEventKind::Drag(MouseButton::Left) => (32, 'M'),
                    MouseEventKind::ScrollUp => (64, 'M'),
                    MouseEventKind::ScrollDown => (65, 'M'),
                    k => panic!("{k:?}"),
                };
                format!("\x1b[<{b};{};{}{e}", x + 1, y + 1).into_bytes()
            }
            Ev::Resize(..) | Ev::Post(_) => vec![],
        }
    }
}

struct Model<A> {
    app: A,
    /// The tooltip that is shown, and where the mouse was.
    tip: Option<(String, (i32, i32))>,
    /// The tooltip under the mouse at the last move, and whether it is to come much later.
    over: Option<(String, (i32, i32))>,
    waiting: bool,
    tree: WidgetTree<String>,
    tx: mpsc::UnboundedSender<MessageEnvelope<String>>,
    rx: mpsc::UnboundedReceiver<MessageEnvelope<String>>,
    cols: u16,
    rows: u16,
    last_focus: usize,
}

async fn settle() {
    for _ in 0..30 {
        tokio::task::yield_now().await;
    }
}

impl<A: App<Message = String>> Model<A> {
    fn new(app: A, cols: u16, rows: u16) -> Model<A> {
        let (tx, rx) = mpsc::unbounded_channel();
        let tree = WidgetTree::new(Box::new(AppWidget::new(vec![])));
        let mut m = Model { app, tip: None, over: None, waiting: false, tree, tx, rx, cols, rows, last_focus: 0 };
        m.rebuild();
        m
    }
    fn rebuild(&mut self) {
        self.tip = None;
        let screen = Screen::new(self.app.compose());
        self.tree = WidgetTree::new(Box::new(AppWidget::new(vec![Box::new(screen) as Wi, Box::new(Tooltip::new()), Box::new(CommandPalette::new())])));
        self.tree.root_mut().on_resize(Size::new(self.cols, self.rows));
        self.focus();
    }
    fn focus(&mut self) {
        let i = self.app.focus_index();
        self.tree.root_mut().clear_focus();
        self.tree.root_mut().focus_nth(i);
        self.tree.update_focus(i);
        self.last_focus = i;
    }
    fn palette<R>(&mut self, f: impl FnOnce(&mut CommandPalette<String>) -> R) -> R {
        self.tree.query_one_as::<CommandPalette<String>, _, _>("CommandPalette", f).expect("palette")
    }
    fn app<R>(&mut self, f: impl FnOnce(&mut A, &mut EventContext<String>) -> R) -> R {
        f(&mut self.app, &mut EventContext::new(AppContext::new(self.tx.clone()), &mut self.tree))
    }
    fn drain(&mut self) {
        self.palette(|p| p.drain_updates());
        self.palette(|p| p.tick());
        for e in self.palette(|p| p.take_events()) {
            self.app(|a, c| a.on_command_palette_event(e, c));
        }
    }
    /// The app and the palette have had their say.
    async fn finish(&mut self) {
        for a in collect_pending_actions_mut(self.tree.root_mut()) {
            self.app(|app, c| app.dispatch_action(&a, c));
        }
        if let Some(f) = self.palette(|p| p.take_restore_focus()) {
            self.tree.set_focus_index(f);
        }
        self.drain();
        if self.app.needs_recompose() {
            self.rebuild();
        }
        self.refocus();
    }
    fn refocus(&mut self) {
        if self.app.focus_index() != self.last_focus {
            self.focus();
        }
        self.style();
        if self.tree.with_focused(|w| w.is_focusable()) != Some(true) || !self.reachable() {
            self.tree.set_focus_index(0);
        }
    }
    /// Whether the focused widget and all that it is in are displayed.
    fn reachable(&mut self) -> bool {
        let path = self.tree.focus_path().indices().to_vec();
        let mut w: &mut dyn Widget<String> = self.tree.root_mut();
        for i in path {
            let Some(c) = w.get_child_mut(i) else { return false };
            if c.get_style().display == tcss::types::Display::None {
                return false;
            }
            w = c;
        }
        true
    }
    fn style(&mut self) {
        let css = build_combined_css(self.tree.root_mut(), A::CSS);
        let sheet = SHEETS.with(|s| s.borrow_mut().entry(css).or_insert_with_key(|t| Rc::new(parse_stylesheet(t).expect("css"))).clone());
        THEME.with(|t| resolve_styles(self.tree.root_mut(), &sheet, t, &mut VecDeque::new()));
    }
    fn open(&mut self) -> bool {
        self.palette(|p| p.is_open())
    }
    async fn event(&mut self, e: Ev) {
        match e {
            Ev::Ctrl('p') => {
                self.app(|a, c| a.dispatch_action("app.command_palette", c));
                self.finish().await;
            }
            Ev::Ctrl(c) => panic!("{c}"),
            Ev::Key(k) => {
                let open = self.open();
                if !open {
                    match k {
                        KeyCode::Tab => drop(self.tree.focus_next()),
                        KeyCode::BackTab => drop(self.tree.focus_previous()),
                        _ => {}
                    }
                }
                if let Some(m) = self.tree.dispatch_key(k) {
                    let s = self.tree.focused_sender_info();
                    let env = self.tree.bubble_message(MessageEnvelope::new(m, s.id.as_deref(), s.type_name));
                    self.app(|a, c| a.handle_message(env, c));
                }
                if !open {
                    self.app(|a, c| a.on_key(k, c));
                }
                self.finish().await;
            }
            Ev::Mouse(kind, x, y) => {
                let e = MouseEvent { kind, column: x, row: y, modifiers: KeyModifiers::NONE };
                let region = Region::from_u16(0, 0, self.cols, self.rows);
                if kind == MouseEventKind::Moved {
                    clear_all_hover(self.tree.root_mut());
                }
                let r = if self.open() { self.palette(|p| p.on_mouse_with_sender(e, region)) } else { self.tree.root_mut().on_mouse_with_sender(e, region) };
                if matches!(kind, MouseEventKind::Up(_)) {
                    clear_all_active(self.tree.root_mut());
                }
                if let Some((m, s)) = r {
                    let env = MessageEnvelope::new(m, s.id.as_deref(), s.type_name);
                    self.app(|a, c| a.handle_message(env, c));
                }
                self.finish().await;
                // A tooltip goes with any mouse event but a move that changes nothing. The next one
                // comes after a while, which is to say either at once or not in our lifetime.
                if kind == MouseEventKind::Moved {
                    let here = textual::find_hovered_tooltip_mut(self.tree.root_mut()).map(|t| (t, (x as i32, y as i32)));
                    if here != self.over {
                        self.tip = None;
                        self.waiting = false;
                    }
                    if here.is_some() && !self.waiting {
                        match self.app.tooltip_delay() < Duration::from_secs(1) {
                            true => self.tip = here.clone(),
                            false => self.waiting = true,
                        }
                    }
                    self.over = here;
                } else {
                    self.tip = None;
                }
            }
            Ev::Resize(c, r) => {
                self.cols = c;
                self.rows = r;
                self.tree.root_mut().on_resize(Size::new(c, r));
                self.refocus();
            }
            Ev::Post(p) => {
                let _ = self.tx.send(MessageEnvelope::new(p.to_string(), Some("ext"), "Thread"));
            }
        }
        // Whatever was posted, and whatever providers and timers have to say
        for _ in 0..20 {
            settle().await;
            tokio::time::sleep(Duration::from_millis(60)).await;
            self.drain();
            let mut any = false;
            while let Ok(env) = self.rx.try_recv() {
                any = true;
                self.app(|a, c| a.handle_message(env, c));
                self.finish().await;
            }
            if !any {
                break;
            }
        }
        self.refocus();
    }
    fn cells(&mut self) -> Vec<TCell> {
        let tip = self.tip.clone();
        self.tree.query_one_as::<Tooltip<String>, _, _>("Tooltip", |t| match &tip {
            Some((text, _)) => t.show(text),
            None => t.hide(),
        });
        self.style();
        self.tree.query_one_as::<Tooltip<String>, _, _>("Tooltip", |t| match tip {
            Some((_, (x, y))) => {
                // Centered below the mouse, but not beyond the left edge
                let w = t.desired_size().width as i32;
                t.set_position((x - w / 2).max(0), y + 1);
            }
            None => (),
        });
        self.style();
        let mut c = Canvas::new(self.cols, self.rows);
        self.tree.root().render(&mut c, Region::from_u16(0, 0, self.cols, self.rows));
        cells_of(&c, self.cols as usize, self.rows as usize)
    }
}

/// Processes, terminals and clocks are involved: what counts is what happens again.
fn again(mut f: impl FnMut() -> Res) -> Res {
    match f() {
        Ok(()) => Ok(()),
        Err(_) => f(),
    }
}

fn child_args(parts: &[String]) -> Vec<String> {
    ["child".to_string()].iter().chain(parts).cloned().collect()
}

fn settled(s: &mut Session, want: &[TCell], at: &str) -> Res {
    let ok = s.wait(PATIENCE, |s| s.bad.is_some() || difference(&s.term, want).is_none());
    if let Some(b) = &s.bad {
        return Err(format!("{at}: {b}"));
    }
    if !ok {
        if let Ok(Some(st)) = s.child.try_wait() {
            return Err(format!("{at}: the app ended with {st}"));
        }
        return Err(format!("{at}: {}", difference(&s.term, want).unwrap()));
    }
    Ok(())
}

/// Sends events to the app and compares what it shows with what the model shows.
async fn follow<A: App<Message = String>>(mut m: Model<A>, child: &[String], evs: &[Ev], burst: bool, w: &mut mc::W) -> std::result::Result<Model<A>, String> {
    m.refocus();
    let mut s = Session::start(&child_args(child), m.cols, m.rows, |_| {});
    settled(&mut s, &m.cells(), "at the start")?;
    for (n, e) in evs.iter().enumerate() {
        w.step();
        let at = format!("after event {n} {e:?}");
        match *e {
            Ev::Resize(c, r) => s.resize(c, r),
            Ev::Post(p) => s.post(p),
            e => s.send(&e.bytes()),
        }
        m.event(*e).await;
        if burst && n + 1 < evs.len() {
            continue;
        }
        let want = m.cells();
        settled(&mut s, &want, &at)?;
        w.state(&(child, hash_of(&want)));
        if !m.open() {
            // Nothing else is under way: what comes next finds the same screen.
            let before = s.said.iter().filter(|l| *l == "sync").count();
            s.send(&Ev::Key(KeyCode::F(5)).bytes());
            ensure!(s.wait(PATIENCE, |s| s.said.iter().filter(|l| *l == "sync").count() > before), "{at}: the app does not answer keys any more");
            m.event(Ev::Key(KeyCode::F(5))).await;
            settled(&mut s, &m.cells(), &format!("{at}, a moment later"))?;
        }
    }
    Ok(m)
}

async fn c26_case(kind: Kind, evs: &[Ev], burst: bool, w: &mut mc::W) -> Res {
    let child = ["loop".to_string(), APP_KINDS.iter().position(|k| *k == kind).unwrap().to_string()];
    let m = follow(Model::new(TApp::new(kind, false), 100, 24), &child, evs, burst, w).await?;
    w.outcome(&m.app.text());
    Ok(())
}

// ---- C35 tooltips ----

struct Tips {
    child: Option<File>,
    again: std::cell::Cell<bool>,
    delay: Duration,
}

impl App for Tips {
    type Message = String;
    const CSS: &'static str = "Screen { layout: horizontal; } #one, #two, #none { width: 10; height: 3; } #tall { width: 10; height: 12; } #row { width: 20; height: 3; }";
    fn compose(&self) -> Vec<Wi> {
        let tip = |id: &str, text: Option<&str>| -> Wi {
            let mut s = Static::<String>::new(id).with_id(id);
            s.set_tooltip(text.map(str::to_string));
            Box::new(s)
        };
        vec![
            tip("one", Some("the first")),
            Box::new(Horizontal::new(vec![tip("two", Some("the second\nof two lines")), tip("none", None)]).with_id("row")),
            tip("tall", Some("[tall]")),
        ]
    }
    fn needs_recompose(&self) -> bool {
        self.again.replace(false)
    }
    fn tooltip_delay(&self) -> Duration {
        self.delay
    }
    fn on_key(&mut self, key: KeyCode, _ctx: &mut EventContext<String>) {
        match (key, &mut self.child) {
            (KeyCode::F(5), Some(f)) => {
                let _ = writeln!(f, "sync");
            }
            (KeyCode::Char('x'), _) => self.delay = Duration::from_secs(3600) - self.delay,
            (KeyCode::Char('r'), _) => self.again.set(true),
            _ => (),
        }
    }
    fn on_mount(&mut self, ctx: &mut MountContext<String>) {
        if self.child.is_some() {
            post_lines(ctx.sender());
        }
    }
}

impl Tips {
    fn new(slow: bool, child: bool) -> Tips {
        Tips { again: false.into(), child: child.then(|| unsafe { File::from_raw_fd(LOG) }), delay: Duration::from_secs(if slow { 3600 } else { 0 }) }
    }
}

async fn c35_case(slow: bool, evs: &[Ev], w: &mut mc::W) -> Res {
    let m = Model::new(Tips::new(slow, false), 60, 16);
    let m = follow(m, &["tips".into(), (slow as u8).to_string()], evs, false, w).await?;
    w.outcome(&m.tip);
    Ok(())
}

fn c35(ctx: &Ctx) {
    use MouseEventKind::Moved;
    ctx.assume("a screen that is right is reached within 25 seconds");
    let dn = MouseEventKind::Down(MouseButton::Left);
    let up = MouseEventKind::Up(MouseButton::Left);
    let evs: &'static [Ev] = vec![Ev::Mouse(Moved, 2, 1), Ev::Mouse(Moved, 3, 1), Ev::Mouse(Moved, 12, 2), Ev::Mouse(Moved, 22, 0), Ev::Mouse(Moved, 32, 9), Ev::Mouse(Moved, 55, 5), Ev::Mouse(dn, 2, 1), Ev::Mouse(up, 2, 1), Ev::Mouse(MouseEventKind::ScrollDown, 12, 2), Ev::Key(KeyCode::Char('x')), Ev::Key(KeyCode::Char('r')), Ev::Resize(70, 18), Ev::Post("p")].leak();
    let run = |slow: bool, evs: Vec<Ev>, w: &mut mc::W| {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
        again(|| rt.block_on(c35_case(slow, &evs, w)))
    };
    let n = evs.len() as u64;
    let depth = ctx.pick(3, 4);
    let at = move |i: u64| seq_at(i, n, depth).iter().map(|k| evs[*k]).collect::<Vec<_>>();
    ctx.explore_on(48, &format!("shown at once: all sequences of up to {depth} of {n} events"), seq_count(n, depth), move |i| format!("{:?}", at(i)), move |i, w| run(false, at(i), w));
    let at = move |i: u64| seq_at(i, n, 2).iter().map(|k| evs[*k]).collect::<Vec<_>>();
    ctx.explore_on(48, &format!("shown much later: all sequences of up to 2 of {n} events"), seq_count(n, 2), move |i| format!("{:?}", at(i)), move |i, w| run(true, at(i), w));
}

fn c26(ctx: &Ctx) {
    use KeyCode::*;
    use MouseEventKind::{Moved, ScrollDown};
    let dn = MouseEventKind::Down(MouseButton::Left);
    let up = MouseEventKind::Up(MouseButton::Left);
    ctx.assume("a screen that is right is reached within 25 seconds");
    let keys: Vec<Ev> = [Tab, BackTab, Enter, Char('h'), Char('d'), Char('f'), Char('t'), Char('c'), Char('n'), Char('x')].map(Ev::Key).to_vec();
    let mouse: Vec<Ev> = vec![Ev::Mouse(Moved, 3, 2), Ev::Mouse(dn, 3, 2), Ev::Mouse(up, 3, 2), Ev::Mouse(Moved, 15, 2), Ev::Mouse(dn, 15, 2), Ev::Mouse(up, 15, 2), Ev::Mouse(dn, 3, 8), Ev::Mouse(up, 3, 8), Ev::Mouse(ScrollDown, 3, 5)];
    let other: Vec<Ev> = vec![Ev::Resize(60, 12), Ev::Resize(100, 24), Ev::Post("p"), Ev::Post("one"), Ev::Post("two"), Ev::Post("c2")];
    let palette: Vec<Ev> = vec![Ev::Ctrl('p'), Ev::Key(Enter), Ev::Key(Esc), Ev::Key(Char('a')), Ev::Key(Down), Ev::Key(Tab), Ev::Post("one"), Ev::Post("shut"), Ev::Resize(60, 20), Ev::Mouse(dn, 3, 2), Ev::Mouse(up, 3, 2)];
    let all: &'static [Ev] = [keys.clone(), mouse, other].concat().leak();
    let palette: &'static [Ev] = palette.leak();
    let run = |kind: Kind, evs: Vec<Ev>, burst: bool, w: &mut mc::W| {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
        rt.block_on(c26_case(kind, &evs, burst, w))
    };
    let depth = ctx.pick(2, 3);
    for kind in APP_KINDS {
        let at = move |i: u64| seq_at(i, all.len() as u64, depth).iter().map(|k| all[*k]).collect::<Vec<_>>();
        ctx.explore_on(24, &format!("{kind:?}: all sequences of up to {depth} of {} events", all.len()), seq_count(all.len() as u64, depth), move |i| format!("{:?}", at(i)), move |i, w| again(|| run(kind, at(i), false, w)));
    }
    let depth = ctx.pick(3, 4);
    for kind in APP_KINDS {
        let depth = if kind == Kind::Lasting { depth } else { depth - 1 };
        let at = move |i: u64| [Ev::Key(Tab), Ev::Ctrl('p')].into_iter().chain(seq_at(i, palette.len() as u64, depth).iter().map(|k| palette[*k])).collect::<Vec<_>>();
        ctx.explore_on(24, &format!("the command palette, {kind:?}: all sequences of up to {depth} of {} events", palette.len()), seq_count(palette.len() as u64, depth), move |i| format!("{:?}", at(i)), move |i, w| again(|| run(kind, at(i), false, w)));
    }
    // Many events at once: read together, handled one by one.
    let burst: &'static [Ev] = [Ev::Key(Tab), Ev::Key(Enter), Ev::Key(Char('h')), Ev::Key(Char('d')), Ev::Key(Char('f')), Ev::Key(Char('n')), Ev::Mouse(Moved, 3, 2), Ev::Mouse(dn, 3, 2), Ev::Mouse(up, 3, 2), Ev::Mouse(up, 15, 2)].to_vec().leak();
    let depth = ctx.pick(3, 4);
    let at = move |i: u64| seq_at(i, burst.len() as u64, depth).iter().map(|k| burst[*k]).collect::<Vec<_>>();
    ctx.explore_on(24, &format!("bursts: all sequences of up to {depth} of {} events sent at once", burst.len()), seq_count(burst.len() as u64, depth), move |i| format!("{:?}", at(i)), move |i, w| again(|| run(if i % 4 == 0 { Kind::Focusing } else { Kind::Lasting }, at(i), true, w)));
}


// ---- C42 breakpoints ----

type Bps = &'static [Breakpoint];
const BPS: [(Bps, Bps); 6] = [
    (&[(0, "-narrow"), (80, "-wide")], &[(0, "-short"), (24, "-tall")]),
    (&[(0, "-ha"), (40, "-hb"), (60, "-hc")], &[(10, "-va"), (20, "-vb")]),
    // The last one that matches counts, whatever the order they are given in.
    (&[(40, "-hb"), (0, "-ha"), (60, "-hc")], &[(20, "-vb"), (10, "-va")]),
    (&[], &[(0, "-va")]),
    (&[(10, "-both"), (41, "-hb")], &[(10, "-both"), (24, "-vb")]),
    (&[(40, "-ha"), (40, "-hb")], &[]),
];
const BP_CLASSES: [&str; 11] = ["-narrow", "-wide", "-short", "-tall", "-ha", "-hb", "-hc", "-va", "-vb", "-both", "-none"];

fn bp_last(l: Bps, n: u16) -> Option<&'static str> {
    let mut c = None;
    for (t, name) in l {
        if n >= *t {
            c = Some(*name);
        }
    }
    c
}

/// The classes that show on a screen of a size.
fn bp_shown(set: usize, cols: u16, rows: u16) -> Vec<&'static str> {
    let on = [bp_last(BPS[set].0, cols), bp_last(BPS[set].1, rows)];
    BP_CLASSES.into_iter().filter(|c| on.contains(&Some(c))).collect()
}

const BP_CSS: &str = "Screen { layout: horizontal; overflow: hidden; } Static { width: 1; height: 1; display: none; }\
    .-narrow #x0 { display: block; } .-wide #x1 { display: block; } .-short #x2 { display: block; } .-tall #x3 { display: block; }\
    .-ha #x4 { display: block; } .-hb #x5 { display: block; } .-hc #x6 { display: block; } .-va #x7 { display: block; } .-vb #x8 { display: block; }\
    .-both #x9 { display: block; } .-none #x10 { display: block; }";

struct Bp {
    set: usize,
    again: std::cell::Cell<bool>,
}

impl Bp {
    fn new(set: usize) -> Bp {
        Bp { set, again: false.into() }
    }
}

impl App for Bp {
    type Message = String;
    const CSS: &'static str = BP_CSS;
    fn compose(&self) -> Vec<Wi> {
        (0..BP_CLASSES.len()).map(|i| Box::new(Static::<String>::new(((b'a' + i as u8) as char).to_string()).with_id(format!("x{i}"))) as Wi).collect()
    }
    fn horizontal_breakpoints(&self) -> &'static [(u16, &'static str)] {
        BPS[self.set].0
    }
    fn vertical_breakpoints(&self) -> &'static [(u16, &'static str)] {
        BPS[self.set].1
    }
    fn needs_recompose(&self) -> bool {
        self.again.replace(false)
    }
    fn on_key(&mut self, key: KeyCode, _ctx: &mut EventContext<String>) {
        if key == KeyCode::Char('r') {
            self.again.set(true);
            say("again");
        }
    }
}

fn bp_text(set: usize, cols: u16, rows: u16) -> String {
    bp_shown(set, cols, rows).iter().map(|c| (b'a' + BP_CLASSES.iter().position(|x| x == c).unwrap() as u8) as char).collect()
}

const BP_SIZES: [(u16, u16); 9] = [(20, 5), (39, 9), (40, 10), (41, 19), (59, 20), (60, 23), (79, 24), (80, 24), (81, 9)];

/// The app on a terminal whose size changes; `BP_SIZES.len()` builds the tree anew.
fn bp_case(set: usize, ops: &[usize], w: &mut mc::W) -> Res {
    let (mut cols, mut rows) = (50u16, 12u16);
    let mut s = Session::start(&child_args(&["bp".into(), set.to_string()]), cols, rows, |_| {});
    for step in 0..=ops.len() {
        if step > 0 {
            w.step();
            match BP_SIZES.get(ops[step - 1]) {
                Some(&(c, r)) => {
                    (cols, rows) = (c, r);
                    s.resize(c, r);
                }
                None => {
                    let n = s.said.len();
                    s.send(b"r");
                    ensure!(s.wait(PATIENCE, |s| s.said.len() > n), "after {:?} the app does not answer keys any more", &ops[..step]);
                }
            }
        }
        let want = bp_text(set, cols, rows);
        ensure!(s.wait(PATIENCE, |s| s.bad.is_some() || s.text().trim() == want), "after {:?} at {cols} x {rows} the screen shows {:?}, expected {want:?} ({:?}) {:?}", &ops[..step], s.text().trim(), bp_shown(set, cols, rows), s.bad);
    }
    w.outcome(&(set, cols, rows));
    Ok(())
}

fn c42(ctx: &Ctx) {
    ctx.assume("a screen that is right is reached within 25 seconds");
    // In process: every history of sizes, restyled only where something changed.
    let ws = [1u16, 9, 10, 39, 40, 41, 59, 60, 79, 80, 81, 300];
    let hs = [1u16, 9, 10, 19, 20, 23, 24, 25, 100];
    let one = (ws.len() * hs.len()) as u64;
    let depth = ctx.pick(2u32, 2);
    ctx.explore(
        &format!("all histories of up to {depth} of {one} sizes"),
        BPS.len() as u64 * seq_count(one, depth),
        move |i| {
            let mut m = Mix(i);
            format!("breakpoints {} sizes {:?}", m.pick(BPS.len() as u64), seq_at(m.0, one, depth).iter().map(|k| (ws[k % ws.len()], hs[k / ws.len()])).collect::<Vec<_>>())
        },
        move |i, w| {
            let mut m = Mix(i);
            let set = m.pick(BPS.len() as u64);
            let app = Bp::new(set);
            thread_local! {
                static SHEET: RefCell<Option<Rc<tcss::parser::StyleSheet>>> = const { RefCell::new(None) };
                static DARK: Theme = Theme::standard_themes().get("textual-dark").cloned().unwrap();
            }
            let screen = Screen::new(app.compose()).with_horizontal_breakpoints(BPS[set].0).with_vertical_breakpoints(BPS[set].1);
            let mut tree = WidgetTree::new(Box::new(AppWidget::new(vec![Box::new(screen) as Wi])) as Wi);
            let sheet = SHEET.with(|s| s.borrow_mut().get_or_insert_with(|| Rc::new(parse_stylesheet(&build_combined_css(tree.root_mut(), BP_CSS)).unwrap())).clone());
            for k in seq_at(m.0, one, depth) {
                let (c, r) = (ws[k % ws.len()], hs[k / ws.len()]);
                w.step();
                tree.root_mut().on_resize(Size::new(c, r));
                DARK.with(|theme| {
                    let mut anc = VecDeque::new();
                    textual::style_resolver::resolve_dirty_styles(tree.root_mut(), &sheet, theme, &mut anc, false, &textual::style_resolver::InheritedContext::from_theme(theme));
                });
                let mut canvas = Canvas::new(c, r);
                tree.root_mut().render(&mut canvas, Region::from_u16(0, 0, c, r));
                let want = bp_text(set, c, r);
                let want: String = want.chars().take(c as usize).collect();
                ensure!(canvas.row_str(0).trim() == want, "at {c} x {r} the screen shows {:?}, expected {want:?} ({:?})", canvas.row_str(0).trim(), bp_shown(set, c, r));
                let mut classes = vec![];
                tree.root_mut().for_each_child(&mut |s| classes = s.get_meta().classes);
                classes.sort();
                classes.dedup();
                let mut expected = bp_shown(set, c, r);
                expected.sort();
                ensure!(classes == expected, "at {c} x {r} the screen has the classes {classes:?}, expected {expected:?}");
                w.state(&(set, want));
            }
            w.outcome(&set);
            Ok(())
        },
    );
    let n = BP_SIZES.len() as u64 + 1;
    let depth = ctx.pick(2u32, 3);
    let total = seq_count(n, depth) * BPS.len() as u64;
    let at = move |i: u64| (i % BPS.len() as u64, seq_at(i / BPS.len() as u64, n, depth));
    ctx.explore_on(48, &format!("a running app: all sequences of up to {depth} of {n} events"), total, move |i| format!("breakpoints {} {:?}", at(i).0, at(i).1.iter().map(|k| BP_SIZES.get(*k)).collect::<Vec<_>>()), move |i, w| again(|| bp_case(at(i).0 as usize, &at(i).1, w)));
}


// ---- C43 actions ----

/// What can be clicked, by row; the first is the icon of the header.
const ACTIONS: [&str; 9] = ["app.command_palette", "quit", "app.quit", "bell", "app.bell", "own", "command_palette", "nonsense", "app.own(1, 'x')"];

struct Acts<const PALETTE: bool> {
    /// Which actions the app takes for itself: none, all, its own, all but its own.
    takes: usize,
}

fn acts_takes(takes: usize, action: &str) -> bool {
    match takes {
        0 => false,
        1 => true,
        2 => action.contains("own"),
        _ => !action.contains("own"),
    }
}

impl<const PALETTE: bool> App for Acts<PALETTE> {
    type Message = String;
    const ENABLE_COMMAND_PALETTE: bool = PALETTE;
    const CSS: &'static str = "Static { height: 1; }";
    fn compose(&self) -> Vec<Wi> {
        let mut v: Vec<Wi> = vec![Box::new(Header::<String>::new("head"))];
        for a in &ACTIONS[1..] {
            v.push(Box::new(Static::<String>::new(format!("- [@click={a}]here[/] -"))));
        }
        v.push(Box::new(Button::new("press").with_message("pressed".to_string())));
        v
    }
    fn on_action(&mut self, action: &str, _ctx: &mut EventContext<String>) -> bool {
        say(&format!("action {action}"));
        acts_takes(self.takes, action)
    }
    fn handle_message(&mut self, e: MessageEnvelope<String>, _ctx: &mut EventContext<String>) {
        say(&format!("message {}", e.message));
    }
    fn on_key(&mut self, key: KeyCode, _ctx: &mut EventContext<String>) {
        if let KeyCode::Char(c) = key {
            say(&format!("key {c}"));
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Act {
    Click(usize),
    /// Beside the link, in its row.
    Miss(usize),
    Press,
    Key,
}

fn acts_case(palette: bool, takes: usize, ops: &[Act], w: &mut mc::W) -> Res {
    let mut s = Session::start(&child_args(&["acts".into(), (palette as u8).to_string(), takes.to_string()]), 50, 14, |_| {});
    ensure!(s.wait(PATIENCE, |s| s.text().contains("press")), "the app does not show: {:?}", s.text());
    let (mut said, mut bells): (Vec<String>, usize) = (vec![], 0);
    for op in ops {
        w.step();
        let click = |s: &mut Session, x: u16, y: u16| {
            for k in [MouseEventKind::Down(MouseButton::Left), MouseEventKind::Up(MouseButton::Left)] {
                s.send(&Ev::Mouse(k, x, y).bytes());
            }
        };
        let mut act = None;
        match *op {
            Act::Click(k) => {
                click(&mut s, if k == 0 { 1 } else { 4 }, k as u16);
                said.push(format!("action {}", ACTIONS[k]));
                act = (!acts_takes(takes, ACTIONS[k])).then(|| ACTIONS[k].trim_start_matches("app."));
            }
            Act::Miss(k) => click(&mut s, 30, k as u16),
            Act::Press => {
                click(&mut s, 3, ACTIONS.len() as u16 + 1);
                said.push("message pressed".into());
            }
            Act::Key => {
                s.send(b"j");
                said.push("key j".into());
            }
        }
        match act {
            Some("quit") => {
                let end = s.ended(PATIENCE);
                ensure!(end == Some(Some(0)), "after {op:?} the app ended with {end:?}");
                ensure!(s.said == said && s.bells == bells, "the app saw {:?}, expected {said:?}; {} bells, expected {bells}", s.said, s.bells);
                return Ok(());
            }
            Some("bell") => {
                bells += 1;
                ensure!(s.wait(PATIENCE, |s| s.bells == bells), "{} bells rang, expected {bells}", s.bells);
            }
            Some("command_palette") if palette => {
                ensure!(s.wait(PATIENCE, |s| s.text().contains("Search for commands")), "the palette does not open: {}", s.text());
                ensure!(s.said == said && s.bells == bells, "the app saw {:?}, expected {said:?}", s.said);
                return Ok(());
            }
            _ => {}
        }
        // Nothing else comes of it.
        s.send(b"z");
        said.push("key z".into());
        ensure!(s.wait(PATIENCE, |s| s.said.len() >= said.len()), "after {op:?} the app saw {:?}, expected {said:?}", s.said);
        ensure!(s.said == said && s.bells == bells, "after {op:?} the app saw {:?}, expected {said:?}; {} bells, expected {bells}", s.said, s.bells);
        ensure!(!s.text().contains("Search for commands"), "after {op:?} the palette is open");
        w.state(&(palette, takes, &said));
    }
    w.outcome(&said);
    Ok(())
}

fn c43(ctx: &Ctx) {
    ctx.assume("an app that does what it should does it within 25 seconds");
    let mut all: Vec<Act> = (0..ACTIONS.len()).map(Act::Click).collect();
    all.extend([Act::Miss(0), Act::Miss(1), Act::Press, Act::Key]);
    let all: &'static [Act] = all.leak();
    let n = all.len() as u64;
    // The longest sequences are run for two of the apps.
    let depth = ctx.pick(3u32, 4);
    let mut cases = vec![];
    for (p, t) in [(true, 0), (true, 2), (true, 1), (true, 3), (false, 0), (false, 1), (false, 2), (false, 3)] {
        let d = if p && t % 2 == 0 { depth } else { depth - 1 };
        cases.extend((0..seq_count(n, d)).map(|k| (p, t, k)));
    }
    let cases: &'static [(bool, usize, u64)] = cases.leak();
    let at = move |i: u64| {
        let (p, t, k) = cases[i as usize];
        (p, t, seq_at(k, n, depth).iter().map(|k| all[*k]).collect::<Vec<_>>())
    };
    let name = move |i: u64| {
        let (p, t, ops) = at(i);
        format!("palette {p}, the app takes {}: {:?}", ["nothing", "everything", "its own", "all but its own"][t], ops)
    };
    ctx.explore_on(48, &format!("all sequences of up to {depth} of {n} events"), cases.len() as u64, name, move |i, w| {
        let (p, t, ops) = at(i);
        again(|| acts_case(p, t, &ops, w))
    });
}


// ---- C25 posted messages ----

struct Poster {
    out: File,
}

impl Poster {
    fn say(&mut self, s: String) {
        let _ = writeln!(self.out, "{s}");
    }
}

impl App for Poster {
    type Message = String;
    fn compose(&self) -> Vec<Wi> {
        vec![Box::new(Button::new("press").with_id("b").with_message("pressed".to_string()))]
    }
    fn on_mount(&mut self, ctx: &mut MountContext<String>) {
        ctx.post("m0".to_string());
        ctx.post("m1".to_string());
        // Two threads, each with a queue of its own
        let mut queues = HashMap::new();
        for name in ["A", "B"] {
            let (tx, rx) = std::sync::mpsc::channel::<String>();
            let sender = ctx.sender();
            std::thread::spawn(move || {
                for l in rx {
                    let _ = sender.send(MessageEnvelope::new(l, Some(name), "Thread"));
                }
            });
            queues.insert(name.to_string(), tx);
        }
        std::thread::spawn(move || {
            let f = unsafe { File::from_raw_fd(CTL) };
            for l in std::io::BufReader::new(f).lines() {
                let Ok(l) = l else { return };
                let _ = queues[&l[..1]].send(l);
            }
        });
    }
    fn handle_message(&mut self, e: MessageEnvelope<String>, ctx: &mut EventContext<String>) {
        let m = e.message;
        self.say(format!("got {m} from {}", e.sender_id.as_deref().unwrap_or("-")));
        // A message of its own for every message of a thread
        if m.starts_with('A') {
            ctx.post(format!("re-{m}"));
        }
    }
    fn on_key(&mut self, key: KeyCode, ctx: &mut EventContext<String>) {
        let KeyCode::Char(c) = key else { return };
        self.say(format!("key {c}"));
        match c {
            'q' => self.request_quit(),
            'k' => {
                ctx.post("k0".to_string());
                ctx.post("k1".to_string());
            }
            't' => ctx.set_timer(Duration::from_millis(3), "timer".to_string()),
            _ => {}
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Po {
    A,
    B,
    Keys,
    Timer,
    Press,
    Plain,
    Settle,
}

fn c25_case(ops: &[Po], times: usize, w: &mut mc::W) -> Res {
    let mut s = Session::start(&child_args(&["post".into()]), 40, 10, |_| {});
    // The order in which each source sends
    let mut want: HashMap<&str, Vec<String>> = HashMap::new();
    want.insert("mount", vec!["got m0 from -".into(), "got m1 from -".into()]);
    ensure!(s.wait(PATIENCE, |s| s.said.len() >= 2), "the messages posted while mounting did not arrive: {:?}", s.said);
    let (mut a, mut b) = (0, 0);
    for op in ops {
        w.step();
        for _ in 0..times {
            match op {
                Po::A => {
                    s.post(&format!("A{a}"));
                    want.entry("A").or_default().push(format!("got A{a} from A"));
                    want.entry("re").or_default().push(format!("got re-A{a} from -"));
                    a += 1;
                }
                Po::B => {
                    s.post(&format!("B{b}"));
                    want.entry("B").or_default().push(format!("got B{b} from B"));
                    b += 1;
                }
                Po::Keys => {
                    s.send(b"k");
                    want.entry("terminal").or_default().push("key k".into());
                    want.entry("k").or_default().extend(["got k0 from -".to_string(), "got k1 from -".into()]);
                }
                Po::Timer => {
                    s.send(b"t");
                    want.entry("terminal").or_default().push("key t".into());
                    want.entry("timer").or_default().push("got timer from -".into());
                }
                Po::Press => {
                    s.send(b"\r");
                    want.entry("terminal").or_default().push("got pressed from b".into());
                }
                Po::Plain => {
                    s.send(b"x");
                    want.entry("terminal").or_default().push("key x".into());
                }
                Po::Settle => {
                    let n = want.values().map(|v| v.len()).sum::<usize>();
                    s.wait(PATIENCE, |s| s.said.len() >= n);
                }
            }
        }
    }
    let n = want.values().map(|v| v.len()).sum::<usize>();
    s.wait(PATIENCE, |s| s.said.len() >= n);
    // Something may come that should not.
    s.send(b"q");
    want.entry("terminal").or_default().push("key q".into());
    let code = s.ended(PATIENCE);
    ensure!(code == Some(Some(0)), "the app ended with {code:?} after {:?}", s.said);
    let source = |l: &str| match l.split(' ').nth(1).unwrap() {
        _ if l.starts_with("key") => "terminal",
        "pressed" => "terminal",
        m if m.starts_with("re-") => "re",
        m if m.starts_with('A') => "A",
        m if m.starts_with('B') => "B",
        m if m.starts_with('k') => "k",
        m if m.starts_with('m') => "mount",
        _ => "timer",
    };
    for (k, v) in &want {
        let have: Vec<&String> = s.said.iter().filter(|l| source(l) == *k).collect();
        ensure!(have == v.iter().collect::<Vec<_>>(), "what came from {k}: {have:?}, not {v:?}");
    }
    let n = want.values().map(|v| v.len()).sum::<usize>();
    ensure!(s.said.len() == n, "{} lines, not {n}: {:?}", s.said.len(), s.said);
    ensure!(s.bad.is_none(), "{:?}", s.bad);
    w.state(&s.said);
    w.outcome(&s.said.len());
    Ok(())
}

fn c25(ctx: &Ctx) {
    let ops: &'static [Po] = &[Po::A, Po::B, Po::Keys, Po::Timer, Po::Press, Po::Plain, Po::Settle];
    ctx.assume("what has to arrive does within 25 seconds");
    ctx.note("schedules", "messages, keys and timers are fired at once and race; every order that comes up has to keep the order of each source".into());
    let depth = ctx.pick(4, 5);
    let at = move |i: u64| seq_at(i, ops.len() as u64, depth).iter().map(|k| ops[*k]).collect::<Vec<_>>();
    ctx.explore_on(24, &format!("all sequences of up to {depth} of {} sources", ops.len()), seq_count(ops.len() as u64, depth), move |i| format!("{:?}", at(i)), move |i, w| again(|| c25_case(&at(i), 1, w)));
    let at = move |i: u64| [ops[i as usize / 7], ops[i as usize % 7]];
    ctx.explore_on(24, "floods: each pair of sources, 60 at a time", 49, move |i| format!("{:?}", at(i)), move |i, w| again(|| c25_case(&at(i), 60, w)));
}

// ---- C27 the terminal ----

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Exit {
    Key,
    Esc,
    Message,
    Action,
    Palette,
    AtOnce,
    BadCss,
    Cancel,
    PanicCompose,
    PanicMount,
    PanicKey,
    PanicMessage,
    PanicAction,
    PanicRender,
    PanicWidgetKey,
    PanicMouse,
    PanicRecompose,
    PanicResize,
    PanicQuit,
    PanicPaletteEvent,
}
use Exit::*;
const EXITS: [Exit; 20] = [Key, Esc, Message, Action, Palette, AtOnce, BadCss, Cancel, PanicCompose, PanicMount, PanicKey, PanicMessage, PanicAction, PanicRender, PanicWidgetKey, PanicMouse, PanicRecompose, PanicResize, PanicQuit, PanicPaletteEvent];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Runner {
    Run,
    RunInRuntime,
    AsyncCurrent,
    AsyncMulti,
    /// The panic, if any, is caught and the terminal looked at before the process ends.
    Caught,
    /// A second run after the first.
    Twice,
}
const RUNNERS: [Runner; 6] = [Runner::Run, Runner::RunInRuntime, Runner::AsyncCurrent, Runner::AsyncMulti, Runner::Caught, Runner::Twice];

struct Bomb {
    exit: Exit,
    inner: Static<String>,
    armed: std::rc::Rc<std::cell::Cell<bool>>,
}

impl Widget<String> for Bomb {
    fn render(&self, canvas: &mut Canvas, region: Region) {
        if self.exit == PanicRender && self.armed.get() {
            panic!("render");
        }
        self.inner.render(canvas, region);
    }
    fn desired_size(&self) -> Size {
        self.inner.desired_size()
    }
    fn get_meta(&self) -> tcss::WidgetMeta {
        self.inner.get_meta()
    }
    fn set_style(&mut self, s: tcss::ComputedStyle) {
        self.inner.set_style(s)
    }
    fn get_style(&self) -> tcss::ComputedStyle {
        self.inner.get_style()
    }
    fn is_dirty(&self) -> bool {
        self.inner.is_dirty()
    }
    fn mark_dirty(&mut self) {
        self.inner.mark_dirty()
    }
    fn mark_clean(&mut self) {
        self.inner.mark_clean()
    }
    fn is_focusable(&self) -> bool {
        true
    }
    fn on_event(&mut self, key: KeyCode) -> Option<String> {
        if key == KeyCode::Char('!') && self.exit == PanicWidgetKey {
            panic!("widget key");
        }
        None
    }
    fn on_mouse(&mut self, e: MouseEvent, _r: Region) -> Option<String> {
        if self.exit == PanicMouse && matches!(e.kind, MouseEventKind::Down(_)) {
            panic!("mouse");
        }
        None
    }
    fn on_resize(&mut self, _s: Size) {
        if self.exit == PanicResize && self.armed.get() {
            panic!("resize");
        }
    }
}

fn say(s: &str) {
    let mut f = std::mem::ManuallyDrop::new(unsafe { File::from_raw_fd(LOG) });
    let _ = writeln!(f, "{s}");
}

macro_rules! leaver {
    ($name:ident, $css:expr) => {
        struct $name {
            exit: Exit,
            armed: std::rc::Rc<std::cell::Cell<bool>>,
            quit: bool,
            rebuild: bool,
        }
        impl $name {
            fn new(exit: Exit) -> Self {
                $name { exit, armed: Default::default(), quit: false, rebuild: false }
            }
        }
        impl App for $name {
            type Message = String;
            const CSS: &'static str = $css;
            fn compose(&self) -> Vec<Wi> {
                if self.exit == PanicCompose || self.exit == PanicRecompose && self.rebuild {
                    panic!("compose");
                }
                vec![
                    Box::new(Bomb { exit: self.exit, inner: Static::new("ready [@click=quit]leave[/]"), armed: self.armed.clone() }),
                    Box::new(Static::<String>::new("[@click=boom]boom[/] [@click=app.quit]leave[/]")),
                ]
            }
            fn on_mount(&mut self, ctx: &mut MountContext<String>) {
                if self.exit == PanicMount {
                    panic!("mount");
                }
                if self.exit == AtOnce {
                    self.request_quit();
                }
                post_lines(ctx.sender());
            }
            fn handle_message(&mut self, e: MessageEnvelope<String>, _ctx: &mut EventContext<String>) {
                match e.message.as_str() {
                    "quit" => self.request_quit(),
                    "boom" => panic!("message"),
                    "cancel" => CANCEL.notify_one(),
                    "arm" => self.armed.set(true),
                    "rebuild" => self.rebuild = true,
                    _ => {}
                }
            }
            fn on_key(&mut self, key: KeyCode, _ctx: &mut EventContext<String>) {
                match key {
                    KeyCode::Char('q') | KeyCode::Esc => self.request_quit(),
                    KeyCode::Char('z') => say("sync"),
                    KeyCode::Char('!') if self.exit == PanicKey => panic!("key"),
                    KeyCode::Char('!') if self.exit == PanicQuit => self.armed.set(true),
                    _ => {}
                }
            }
            fn on_action(&mut self, action: &str, _ctx: &mut EventContext<String>) -> bool {
                if action == "boom" {
                    panic!("action");
                }
                false
            }
            fn on_command_palette_event(&mut self, _e: CommandPaletteEvent, _ctx: &mut EventContext<String>) {
                if self.exit == PanicPaletteEvent {
                    panic!("palette");
                }
            }
            fn needs_recompose(&self) -> bool {
                self.rebuild
            }
            fn request_quit(&mut self) {
                self.quit = true;
            }
            fn reset_quit(&mut self) {
                self.quit = false;
            }
            fn should_quit(&self) -> bool {
                if self.exit == PanicQuit && self.armed.get() {
                    panic!("should_quit");
                }
                self.quit
            }
        }
    };
}
leaver!(Leaver, "");
leaver!(BadLeaver, "Static { color: ");

/// Told when the future that runs the app is to be dropped.
static CANCEL: tokio::sync::Notify = tokio::sync::Notify::const_new();

fn leave<A: App<Message = String>>(mut a: A, exit: Exit, runner: Runner) -> i32 {
    let code = |r: textual::Result<()>| r.is_err() as i32;
    let cancel = exit == Cancel;
    async fn limited<A: App<Message = String>>(a: &mut A, cancel: bool) -> i32 {
        if cancel {
            return tokio::select! {
                r = a.run_async() => r.is_err() as i32,
                _ = CANCEL.notified() => 7,
            };
        }
        a.run_async().await.is_err() as i32
    }
    match runner {
        Runner::Run => code(a.run()),
        Runner::RunInRuntime => {
            let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
            rt.block_on(async { code(a.run()) })
        }
        Runner::AsyncCurrent => tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(limited(&mut a, cancel)),
        Runner::AsyncMulti => tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap().block_on(limited(&mut a, cancel)),
        Runner::Caught => {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| code(a.run())));
            say("left");
            // Until the terminal has been looked at
            let _ = std::io::Read::read(&mut unsafe { File::from_raw_fd(CTL) }, &mut [0u8; 1]);
            std::thread::sleep(Duration::from_secs(30));
            r.unwrap_or(101)
        }
        Runner::Twice => {
            let one = code(a.run());
            say("left");
            one + 2 * code(a.run())
        }
    }
}

fn c27_case(exit: Exit, runner: Runner, modes: usize, prelude: usize, w: &mut mc::W) -> Res {
    if exit == Cancel && !matches!(runner, Runner::AsyncCurrent | Runner::AsyncMulti) {
        return Ok(());
    }
    let panics = format!("{exit:?}").starts_with("Panic");
    if runner == Runner::Twice && (panics || exit == BadCss || exit == Message) {
        return Ok(());
    }
    let exit_no = EXITS.iter().position(|e| *e == exit).unwrap();
    let runner_no = RUNNERS.iter().position(|e| *e == runner).unwrap();
    let mut s = Session::start(&child_args(&["leave".into(), exit_no.to_string(), runner_no.to_string()]), 60, 24, |t| match modes {
        0 => {}
        1 => t.c_lflag &= !libc::ECHO,
        2 => unsafe { libc::cfmakeraw(t) },
        _ => {
            t.c_lflag &= !(libc::ISIG | libc::ICANON);
            t.c_oflag &= !libc::OPOST;
            t.c_cc[libc::VMIN] = 3;
        }
    });
    let before = s.initial.clone();
    let screen = s.term.cells.clone();
    let click = |s: &mut Session, x: u16, y: u16| {
        s.send(format!("\x1b[<0;{};{}M", x + 1, y + 1).as_bytes());
        // What is typed after the app has left would be echoed.
        if s.wait(Duration::from_millis(300), |s| s.modes.is_empty()) {
            return;
        }
        s.send(format!("\x1b[<0;{};{}m", x + 1, y + 1).as_bytes());
    };
    let rounds = if runner == Runner::Twice { 2 } else { 1 };
    for round in 0..rounds {
        w.step();
        let early = matches!(exit, AtOnce | BadCss | PanicCompose | PanicMount);
        if !early {
            ensure!(s.wait(PATIENCE, |s| s.text().contains("ready") && String::from_utf8_lossy(&s.raw).matches("[?1049h").count() > round), "round {round}: the app did not start: {:?}", s.text());
            ensure!(s.line_modes() != before || modes == 2, "the terminal is not in raw mode");
            ensure!(s.modes.contains(&u32::MAX) && s.modes.contains(&1006), "the modes while the app runs: {:?}", s.modes);
            if round > 0 {
                // crossterm loses the first key now and then when its event stream is a second one.
                let have = s.said.len();
                for _ in 0..100 {
                    s.send(b"z");
                    if s.wait(Duration::from_millis(250), |s| s.said.len() > have) {
                        break;
                    }
                }
                ensure!(s.said.len() > have, "the app does not see keys in its second run");
            }
            match prelude {
                0 => {}
                1 => {
                    let have = s.said.len();
                    s.send(b"xy\x1b[<35;3;1M\x1b[<64;3;1Mz");
                    ensure!(s.wait(PATIENCE, |s| s.said.len() > have), "the app does not see keys");
                }
                _ => {
                    s.resize(70, 25);
                    ensure!(s.wait(PATIENCE, |s| s.text().contains("ready")), "the app did not draw after a resize: {:?}", s.text());
                }
            }
            match exit {
                Key => s.send(b"q"),
                Esc => s.send(b"\x1b"),
                Message => s.post("quit"),
                Action => {
                    s.send(b"\x1b[<35;6;2M");
                    click(&mut s, 6, 1)
                }
                Palette => {
                    s.send(b"\x10");
                    ensure!(s.wait(PATIENCE, |s| s.text().contains("Quit")), "the palette shows no commands: {:?}", s.text());
                    s.send(b"quit");
                    ensure!(s.wait(PATIENCE, |s| s.text().contains("Quit") && !["Keys", "Maximize", "Screenshot", "Theme"].iter().any(|c| s.text().contains(c))), "the palette does not search: {:?}", s.text());
                    s.send(b"\r");
                }
                Cancel => s.post("cancel"),
                PanicKey | PanicWidgetKey | PanicQuit => s.send(b"!"),
                PanicMessage => s.post("boom"),
                PanicAction => {
                    s.send(b"\x1b[<35;2;2M");
                    click(&mut s, 1, 1)
                }
                PanicRender => s.post("arm"),
                PanicMouse => s.send(b"\x1b[<0;2;1M"),
                PanicRecompose => s.post("rebuild"),
                PanicResize => {
                    s.post("arm");
                    std::thread::sleep(Duration::from_millis(30));
                    // As often as it takes: the message may come late.
                    for k in 0..2000 {
                        if s.modes.is_empty() || matches!(s.child.try_wait(), Ok(Some(_))) {
                            break;
                        }
                        s.resize(60 + k % 2, 20);
                        s.pump(10);
                        s.bad = None;
                    }
                }
                PanicPaletteEvent => s.send(b"\x10"),
                AtOnce | BadCss | PanicCompose | PanicMount => unreachable!(),
            }
        }
        if runner == Runner::Twice {
            ensure!(s.wait(PATIENCE, |s| s.said.iter().filter(|l| *l == "left").count() == 1), "round {round}: the app did not end");
            if round == 1 {
                break;
            }
        }
    }
    if runner == Runner::Caught {
        ensure!(s.wait(PATIENCE, |s| s.said.contains(&"left".to_string())), "the app did not end");
        s.pump(0);
    } else {
        let want = match exit {
            Cancel => 7,
            BadCss => 1,
            _ if panics => 101,
            _ => 0,
        };
        let code = s.ended(PATIENCE);
        ensure!(code == Some(Some(want)), "the process ended with {code:?}, not {want}");
    }
    ensure!(s.line_modes() == before, "the line modes are {:?}, not {before:?} as before", s.line_modes());
    ensure!(s.modes.is_empty(), "modes of the terminal that are left on: {:?}", s.modes);
    ensure!(s.bad.is_none(), "{:?}", s.bad);
    ensure!(s.term.cells == screen, "the screen is {:?} afterwards", s.text());
    w.state(&(exit, runner, modes, prelude));
    w.outcome(&String::from_utf8_lossy(&s.raw).into_owned());
    Ok(())
}

fn c27(ctx: &Ctx) {
    ctx.assume("the process is not killed and the terminal does not go away");
    let preludes = ctx.pick(2u64, 3);
    let modes = ctx.pick(2u64, 4);
    let n = EXITS.len() as u64 * RUNNERS.len() as u64 * preludes * modes;
    let at = move |i: u64| {
        let mut m = Mix(i);
        (*m.of(&EXITS), *m.of(&RUNNERS), m.pick(modes) * if modes == 2 { 3 } else { 1 }, m.pick(preludes))
    };
    ctx.explore_on(24, "every way out, by every way in, from every line mode", n, move |i| format!("{:?}", at(i)), move |i, w| {
        let (e, r, m, p) = at(i);
        again(|| c27_case(e, r, m, p, w))
    });
}

// ---- C33 key bindings ----

macro_rules! bound {
    ($(($name:ident, $binding:expr, $on:expr)),*) => {
        $(struct $name { out: File, again: std::cell::Cell<bool> }
        impl App for $name {
            type Message = String;
            const COMMAND_PALETTE_BINDING: &'static str = $binding;
            const ENABLE_COMMAND_PALETTE: bool = $on;
            fn on_key(&mut self, key: KeyCode, _ctx: &mut EventContext<String>) {
                self.again.set(key == KeyCode::Char('q'));
                let _ = writeln!(self.out, "key {key:?}");
            }
            fn needs_recompose(&self) -> bool {
                self.again.replace(false)
            }
            fn on_command_palette_event(&mut self, e: CommandPaletteEvent, _ctx: &mut EventContext<String>) {
                if matches!(e, CommandPaletteEvent::Opened) {
                    let _ = writeln!(self.out, "open");
                }
            }
        })*
        const BINDINGS: &[(&str, bool)] = &[$(($binding, $on)),*];
        fn run_bound(i: usize) -> i32 {
            let mut k = 0;
            $(if k == i {
                return $name { out: unsafe { File::from_raw_fd(LOG) }, again: false.into() }.run().is_err() as i32;
            }
            k += 1;)*
            98 + k as i32
        }
    };
}
bound!(
    (B0, "ctrl+p", true), (B1, "ctrl+p", false), (B2, "CTRL+P", true), (B3, "alt+x", true), (B4, "ctrl+a, alt+b", true), (B5, "escape", true), (B6, "x", true),
    (B7, "control + up", true), (B8, "enter", true), (B9, "pageup,space", true), (B10, "ctrl+alt+k", true), (B11, "meta+home,end", true), (B12, "", true), (B13, "ctrl", true),
    (B14, "backtab", true), (B15, "shift+up", true), (B16, "ctrl+nosuchkey, left", true), (B17, "tab", true), (B18, "esc,down , right,pagedown", true)
);

/// Bytes, and what they mean: the key and whether control, alt and shift are held.
const PRESSES: &[(&[u8], &str, [bool; 3])] = &[
    (b"\x10", "p", [true, false, false]),
    (b"p", "p", [false, false, false]),
    (b"P", "p", [false, false, true]),
    (b"\x1bp", "p", [false, true, false]),
    (b"\x01", "a", [true, false, false]),
    (b"a", "a", [false, false, false]),
    (b"\x1bb", "b", [false, true, false]),
    (b"b", "b", [false, false, false]),
    (b"x", "x", [false, false, false]),
    (b"X", "x", [false, false, true]),
    (b"\x18", "x", [true, false, false]),
    (b"\x1bx", "x", [false, true, false]),
    (b"\x1b", "escape", [false, false, false]),
    (b"\r", "enter", [false, false, false]),
    (b"\t", "tab", [false, false, false]),
    (b"\x1b[Z", "backtab", [false, false, true]),
    (b" ", "space", [false, false, false]),
    (b"\x1b[A", "up", [false, false, false]),
    (b"\x1b[1;5A", "up", [true, false, false]),
    (b"\x1b[1;2A", "up", [false, false, true]),
    (b"\x1b[1;6A", "up", [true, false, true]),
    (b"\x1b[1;7A", "up", [true, true, false]),
    (b"\x1b[B", "down", [false, false, false]),
    (b"\x1b[C", "right", [false, false, false]),
    (b"\x1b[D", "left", [false, false, false]),
    (b"\x1b[H", "home", [false, false, false]),
    (b"\x1b[1;3H", "home", [false, true, false]),
    (b"\x1b[F", "end", [false, false, false]),
    (b"\x1b[1;5F", "end", [true, false, false]),
    (b"\x1b[5~", "pageup", [false, false, false]),
    (b"\x1b[6~", "pagedown", [false, false, false]),
    (b"\x1b\x0b", "k", [true, true, false]),
    (b"\x0b", "k", [true, false, false]),
    (b"\x1bk", "k", [false, true, false]),
];

/// A binding is a list of alternatives; each names one key and the modifiers that have to be held.
/// Shift may be held in addition: it is part of how some keys are typed.
fn opens(binding: &str, key: &str, held: [bool; 3]) -> bool {
    binding.split(',').any(|alt| {
        let alt = alt.to_lowercase();
        let parts: Vec<&str> = alt.split('+').map(str::trim).filter(|p| !p.is_empty()).collect();
        let mut need = [false; 3];
        let mut name = None;
        for p in parts {
            match p {
                "ctrl" | "control" => need[0] = true,
                "alt" | "meta" => need[1] = true,
                "shift" => need[2] = true,
                "esc" => name = Some("escape"),
                p => name = Some(p),
            }
        }
        name == Some(key) && need[0] == held[0] && need[1] == held[1] && (!need[2] || held[2])
    })
}

fn c33_case(b: usize, rebuilt: bool, seq: &[usize], w: &mut mc::W) -> Res {
    let (binding, on) = BINDINGS[b];
    let mut s = Session::start(&child_args(&["bind".into(), b.to_string()]), 60, 20, |_| {});
    ensure!(s.wait(PATIENCE, |s| s.modes.contains(&1006)), "the app did not start");
    if rebuilt {
        s.send(b"q");
        ensure!(s.wait(PATIENCE, |s| s.said == ["key Char('q')"]), "the app saw {:?}", s.said);
    }
    for (n, k) in seq.iter().enumerate() {
        w.step();
        let (bytes, key, held) = PRESSES[*k];
        let have = s.said.len();
        s.send(bytes);
        ensure!(s.wait(PATIENCE, |s| s.said.len() > have), "press {n} of {key} {held:?}: nothing happened");
        let want = on && opens(binding, key, held);
        ensure!((s.said[have] == "open") == want, "binding {binding:?} ({on}), press {n} of {key} with control, alt, shift {held:?}: {:?}", &s.said[have..]);
        w.outcome(&(b, want));
        if want {
            // It opens once, and the app does not get the key as well.
            ensure!(s.said[have..] == ["open"], "{:?}", &s.said[have..]);
            break;
        }
    }
    ensure!(s.bad.is_none(), "{:?}", s.bad);
    w.state(&(b, seq));
    Ok(())
}

fn c33(ctx: &Ctx) {
    let n = PRESSES.len() as u64;
    let depth = ctx.pick(1, 2);
    let total = seq_count(n, depth);
    let at = move |i: u64| ((i / 2 / total) as usize, i % 2 == 1, seq_at(i / 2 % total, n, depth));
    let show = move |i: u64| {
        let (b, rebuilt, seq) = at(i);
        format!("{:?} {}{:?}", BINDINGS[b], if rebuilt { "built anew, " } else { "" }, seq.iter().map(|k| (PRESSES[*k].1, PRESSES[*k].2)).collect::<Vec<_>>())
    };
    ctx.explore_on(24, &format!("each of {} bindings, all sequences of up to {depth} of {n} presses, with and without building the tree anew before", BINDINGS.len()), 2 * total * BINDINGS.len() as u64, show, move |i, w| {
        let (b, rebuilt, seq) = at(i);
        again(|| c33_case(b, rebuilt, &seq, w))
    });
}

fn child(args: &[String]) -> i32 {
    match args[0].as_str() {
        "loop" => {
            let mut a = TApp::new(APP_KINDS[args[1].parse::<usize>().unwrap()], true);
            a.run().is_err() as i32
        }
        "tips" => Tips::new(args[1] == "1", true).run().is_err() as i32,
        "bp" => Bp::new(args[1].parse().unwrap()).run().is_err() as i32,
        "acts" if args[1] == "1" => Acts::<true> { takes: args[2].parse().unwrap() }.run().is_err() as i32,
        "acts" => Acts::<false> { takes: args[2].parse().unwrap() }.run().is_err() as i32,
        "post" => Poster { out: unsafe { File::from_raw_fd(LOG) } }.run().is_err() as i32,
        "leave" => {
            let (e, r) = (EXITS[args[1].parse::<usize>().unwrap()], RUNNERS[args[2].parse::<usize>().unwrap()]);
            if e == BadCss {
                return leave(BadLeaver::new(e), e, r);
            }
            leave(Leaver::new(e), e, r)
        }
        "bind" => run_bound(args[1].parse().unwrap()),
        _ => 99,
    }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.first().map(String::as_str) == Some("child") {
        std::process::exit(child(&args[1..]));
    }
    main_with(&[("C25", c25), ("C26", c26), ("C27", c27), ("C33", c33), ("C35", c35), ("C42", c42), ("C43", c43)]);
}
