//! C44 a wrapped widget behaves as the widget inside, and a label as the text it is.
use crossterm::event::{KeyModifiers, MouseButton, MouseEvent, MouseEventKind};
use mc::probe::*;
use mc::*;
use std::hash::{Hash, Hasher};
use tcss::types::border::{Border, BorderEdge, BorderKind};
use tcss::types::geometry::Spacing;
use tcss::types::{Display, Layout as Flow, Overflow, RgbaColor};
use tcss::{ComputedStyle, StyleOverride, WidgetMeta, WidgetStates};
use textual::layouts::{GridLayout, Layout};
use textual::widget::button::Button;
use textual::widget::placeholder::{reset_placeholder_counter, Placeholder, PlaceholderVariant};
use textual::widget::ruler::Ruler;
use textual::widget::switch::Switch;
use textual::widget::{SenderInfo, Widget};
use textual::{
    impl_widget_delegation, Canvas, Container, Header, Horizontal, Input, KeyCode, Label, LabelVariant, LoadingIndicator,
    MessageEnvelope, OptionList, Region, Size, Static, Tooltip, Vertical,
};

// ---------------------------------------------------------------- wrappers
pub struct Wrap<M> {
    inner: Box<dyn Widget<M>>,
}
impl_widget_delegation!(Wrap<M> => inner);

pub struct WrapCss<M> {
    inner: Box<dyn Widget<M>>,
}
impl_widget_delegation!(WrapCss<M> => inner, type_name = "WrapCss", default_css = |_: &Self| "WrapCss { width: 3; }");

pub struct WrapText<M> {
    base: Static<M>,
}
impl_widget_delegation!(WrapText<M> => base, type_name = "WrapText");

// ---------------------------------------------------------------- a widget whose every answer depends on all it was told
#[derive(Default)]
struct Spy {
    h: u64,
    pending: std::cell::Cell<u32>,
    over: StyleOverride,
    style: ComputedStyle,
    kid: Option<W1>,
}
const NAMES: [&str; 3] = ["", "ping", "pong"];
impl Spy {
    fn told<T: Hash>(&mut self, t: T) {
        let mut s = std::collections::hash_map::DefaultHasher::new();
        self.h.hash(&mut s);
        t.hash(&mut s);
        self.h = s.finish();
        self.pending.set(self.pending.get() + 1);
    }
    fn bit(&self, n: u32) -> bool {
        self.h >> n & 1 == 1
    }
    fn name(&self, n: u32) -> Option<&'static str> {
        let s = NAMES[(self.h >> n) as usize % 3];
        (!s.is_empty()).then_some(s)
    }
}
impl Widget<Msg> for Spy {
    fn render(&self, canvas: &mut Canvas, region: Region) {
        canvas.put_str(region.x, region.y, &format!("{:x}", self.h), None, None, Default::default());
    }
    fn desired_size(&self) -> Size {
        Size::new((self.h % 7) as u16, (self.h % 5) as u16)
    }
    fn intrinsic_height_for_width(&self, width: u16) -> u16 {
        (self.h % 11) as u16 + width
    }
    fn content_height_for_scroll(&self, w: u16, h: u16) -> u16 {
        (self.h % 13) as u16 + 3 * w + h
    }
    fn content_width_for_scroll(&self, w: u16) -> u16 {
        (self.h % 17) as u16 + w
    }
    fn for_each_child(&mut self, f: &mut dyn FnMut(&mut dyn Widget<Msg>)) {
        if let Some(k) = &mut self.kid {
            f(k.as_mut());
            f(k.as_mut());
        }
    }
    fn on_resize(&mut self, size: Size) {
        self.told(("resize", size.width, size.height));
    }
    fn get_state(&self) -> WidgetStates {
        WidgetStates::from_bits_truncate((self.h >> 3) as _)
    }
    fn get_meta(&self) -> WidgetMeta {
        WidgetMeta { type_name: "Spy", type_names: vec!["Spy"], id: self.name(1).map(|s| s.into()), classes: vec![format!("c{}", self.h % 3)], states: self.get_state() }
    }
    fn default_css(&self) -> &'static str {
        NAMES[(self.h >> 9) as usize % 3]
    }
    fn set_style(&mut self, style: ComputedStyle) {
        self.told(format!("{style:?}"));
        self.style = style;
    }
    fn get_style(&self) -> ComputedStyle {
        self.style.clone()
    }
    fn set_inline_style(&mut self, style: StyleOverride) {
        self.told(format!("{style:?}"));
        self.over = style;
    }
    fn tooltip(&self) -> Option<String> {
        self.name(2).map(|s| s.into())
    }
    fn set_tooltip(&mut self, t: Option<String>) {
        self.told(("tooltip", t));
    }
    fn inline_style(&self) -> Option<&StyleOverride> {
        self.bit(4).then_some(&self.over)
    }
    fn clear_inline_style(&mut self) {
        self.told("clear inline");
    }
    fn pre_layout(&mut self, layout: &mut dyn Layout) {
        self.told("pre layout");
        if let Some(g) = layout.as_grid_mut() {
            g.min_column_width = Some((self.h % 9) as u16);
        }
    }
    fn set_focus(&mut self, f: bool) {
        self.told(("focus", f));
    }
    fn is_focused(&self) -> bool {
        self.bit(5)
    }
    fn is_dirty(&self) -> bool {
        self.bit(6)
    }
    fn mark_dirty(&mut self) {
        self.told("dirty");
    }
    fn mark_clean(&mut self) {
        self.told("clean");
    }
    fn on_event(&mut self, key: KeyCode) -> Option<Msg> {
        self.told(format!("{key:?}"));
        self.name(7).map(|s| s.into())
    }
    fn on_mouse(&mut self, e: MouseEvent, r: Region) -> Option<Msg> {
        self.told(format!("{e:?} {r:?}"));
        self.name(8).map(|s| s.into())
    }
    fn on_mouse_with_sender(&mut self, e: MouseEvent, r: Region) -> Option<(Msg, SenderInfo)> {
        self.told(format!("sender {e:?} {r:?}"));
        self.name(9).map(|s| (s.into(), SenderInfo { id: Some("spy".into()), type_name: "Spy" }))
    }
    fn blocks_mouse_events(&self) -> bool {
        self.bit(10)
    }
    fn set_hover(&mut self, h: bool) -> bool {
        self.told(("hover", h));
        self.bit(11)
    }
    fn set_active(&mut self, a: bool) -> bool {
        self.told(("active", a));
        self.bit(12)
    }
    fn clear_hover(&mut self) {
        self.told("clear hover");
    }
    fn take_pending_action(&self) -> Option<String> {
        let n = self.pending.replace(0);
        (n > 0).then(|| format!("{n} {:x}", self.h))
    }
    fn is_focusable(&self) -> bool {
        self.bit(13)
    }
    fn is_visible(&self) -> bool {
        self.bit(14)
    }
    fn participates_in_layout(&self) -> bool {
        self.bit(15)
    }
    fn set_visible(&mut self, v: bool) {
        self.told(("visible", v));
    }
    fn is_loading(&self) -> bool {
        self.bit(16)
    }
    fn set_loading(&mut self, l: bool) {
        self.told(("loading", l));
    }
    fn is_disabled(&self) -> bool {
        self.bit(17)
    }
    fn set_disabled(&mut self, d: bool) {
        self.told(("disabled", d));
    }
    fn count_focusable(&self) -> usize {
        (self.h >> 18) as usize % 4
    }
    fn clear_focus(&mut self) {
        self.told("clear focus");
    }
    fn focus_nth(&mut self, n: usize) -> bool {
        self.told(("nth", n));
        self.bit(19)
    }
    fn child_count(&self) -> usize {
        (self.h >> 20) as usize % 3
    }
    fn get_child_mut(&mut self, i: usize) -> Option<&mut (dyn Widget<Msg> + '_)> {
        self.told(("child", i));
        match &mut self.kid {
            Some(k) if i < 2 => Some(k.as_mut()),
            _ => None,
        }
    }
    fn handle_message(&mut self, e: &mut MessageEnvelope<Msg>) -> Option<Msg> {
        self.told(("message", e.message.clone()));
        if self.bit(21) {
            e.stop();
        }
        self.name(22).map(|s| s.into())
    }
    fn id(&self) -> Option<&str> {
        self.name(1)
    }
    fn set_border_title(&mut self, t: &str) {
        self.told(("title", t));
    }
    fn set_border_subtitle(&mut self, t: &str) {
        self.told(("subtitle", t));
    }
    fn border_title(&self) -> Option<&str> {
        self.name(23)
    }
    fn border_subtitle(&self) -> Option<&str> {
        self.name(24)
    }
    fn add_class(&mut self, c: &str) {
        self.told(("add", c));
    }
    fn remove_class(&mut self, c: &str) {
        self.told(("remove", c));
    }
    fn has_class(&self, c: &str) -> bool {
        (self.h >> 25) as usize % 3 == c.len() % 3
    }
    fn set_classes(&mut self, c: &str) {
        self.told(("set", c));
    }
    fn classes(&self) -> Vec<String> {
        vec![format!("{:x}", self.h >> 40)]
    }
}

// ---------------------------------------------------------------- what is wrapped
const TEXT: &str = "[bold]ab[/] [@click=go]link[/] cd";

fn kids() -> Vec<W1> {
    vec![Box::new(Button::new("B").with_id("b").with_message("pressed".to_string())), Box::new(Static::new("[@click=in]x[/]")), Box::new(Input::new().with_id("i"))]
}

const SUBJECTS: &[&str] = &[
    "Spy", "Static", "Static plain", "Label", "Button", "Button action", "Input", "Switch", "OptionList", "Placeholder", "Container", "Vertical", "Horizontal",
    "Grid", "ItemGrid", "ScrollableContainer", "VerticalScroll", "HorizontalScroll", "Header", "LoadingIndicator", "Ruler", "Tooltip",
];

fn subject(kind: &str) -> W1 {
    match kind {
        "Spy" => Box::new(Spy { kid: Some(Probe::new(&new_log()).id("kid").boxed()), ..Default::default() }),
        "Static" => Box::new(Static::new(TEXT).with_id("s").with_classes("k l")),
        "Static plain" => Box::new(Static::new(TEXT).with_markup(false)),
        "Label" => Box::new(Label::new(TEXT).with_id("s").with_variant(LabelVariant::Success)),
        "Button" => Box::new(Button::new("Go").with_id("g").with_message("go".to_string())),
        "Button action" => Box::new(Button::new("Go").with_action("app.bell").with_variant("primary")),
        "Input" => Box::new(Input::new().with_placeholder("type").with_id("i")),
        "Switch" => Box::new(Switch::new(false, |v| format!("switch {v}")).with_id("w")),
        "OptionList" => Box::new(OptionList::new(vec!["one".into(), "two".into(), "three".into()]).with_id("o")),
        "Placeholder" => Box::new(Placeholder::new().with_variant(PlaceholderVariant::Size)),
        "Header" => Box::new(Header::new("Title").with_subtitle("sub")),
        "LoadingIndicator" => Box::new(LoadingIndicator::new().with_id("l")),
        "Ruler" => Box::new(Ruler::new(vec![])),
        "Tooltip" => Box::new(Tooltip::new()),
        k => container(k, "c", kids()),
    }
}

/// Pairs of widgets that differ by nothing but the wrapper, and whether their names may differ.
fn pairs() -> Vec<(String, bool, bool, Box<dyn Fn() -> (W1, W1) + Send + Sync>)> {
    let mut out: Vec<(String, bool, bool, Box<dyn Fn() -> (W1, W1) + Send + Sync>)> = Vec::new();
    for k in SUBJECTS {
        let k: &'static str = k;
        let new = move || {
            reset_placeholder_counter();
            let a = subject(k);
            reset_placeholder_counter();
            (a, subject(k))
        };
        out.push((format!("{k} in a box"), true, true, Box::new(move || { let (a, b) = new(); (a, Box::new(b)) })));
        out.push((format!("{k} in a wrapper"), false, true, Box::new(move || { let (a, b) = new(); (a, Box::new(Wrap { inner: b })) })));
        out.push((format!("{k} in a wrapper with its own style"), false, false, Box::new(move || { let (a, b) = new(); (a, Box::new(WrapCss { inner: b })) })));
    }
    let text = || Static::new(TEXT).with_id("s").with_classes("k l").with_border_title("t");
    out.push(("Static in a wrapper of its own type".into(), false, true, Box::new(move || (Box::new(text()), Box::new(WrapText { base: text() })))));
    out.push((
        "Static and Label".into(),
        false,
        false,
        Box::new(move || (Box::new(text()), Box::new(Label::new(TEXT).with_id("s").with_classes("k l").with_border_title("t")))),
    ));
    out.push(("Container and Vertical".into(), false, false, Box::new(|| (Box::new(Container::new(kids()).with_id("c").with_layout(Flow::Vertical)), Box::new(Vertical::new(kids()).with_id("c"))))));
    out.push(("Container and Horizontal".into(), false, false, Box::new(|| (Box::new(Container::new(kids()).with_id("c").with_layout(Flow::Horizontal)), Box::new(Horizontal::new(kids()).with_id("c"))))));
    out
}

// ---------------------------------------------------------------- what is done and seen
const REGION: (i32, i32, i32, i32) = (1, 0, 14, 6);

fn mouse(kind: MouseEventKind, column: u16, row: u16) -> MouseEvent {
    MouseEvent { kind, column, row, modifiers: KeyModifiers::NONE }
}

fn style(n: usize) -> ComputedStyle {
    let mut s = ComputedStyle::default();
    let edge = BorderEdge { kind: BorderKind::Round, color: None };
    match n {
        0 => {}
        1 => {
            s.border = Border { top: edge.clone(), right: edge.clone(), bottom: edge.clone(), left: edge };
            s.padding = Spacing::all(tcss::types::geometry::Scalar { value: 1.0, unit: tcss::types::geometry::Unit::Cells });
            s.background = Some(RgbaColor { r: 10, g: 20, b: 30, a: 1.0, ..Default::default() });
        }
        2 => s.display = Display::None,
        3 => {
            s.layout = Flow::Horizontal;
            s.overflow_x = Overflow::Scroll;
            s.overflow_y = Overflow::Auto;
        }
        _ => s.visibility = tcss::types::Visibility::Hidden,
    }
    s
}

const OPS: usize = 50;

fn op(w: &mut dyn Widget<Msg>, n: usize) -> String {
    use MouseEventKind::*;
    let r = Region::new(REGION.0, REGION.1, REGION.2, REGION.3);
    let left = MouseButton::Left;
    let over = StyleOverride { background: Some(RgbaColor { r: 1, g: 2, b: 3, a: 1.0, ..Default::default() }), ..Default::default() };
    macro_rules! say {
        ($e:expr) => {
            format!("{:?}", $e)
        };
    }
    match n {
        0..=4 => say!(w.set_style(style(n))),
        5 => say!(w.set_inline_style(over)),
        6 => say!(w.clear_inline_style()),
        7 => say!(w.set_tooltip(Some("tip".into()))),
        8 => say!(w.set_tooltip(None)),
        9 => say!(w.set_focus(true)),
        10 => say!(w.set_focus(false)),
        11 => say!(w.mark_dirty()),
        12 => say!(w.mark_clean()),
        13 => say!(w.on_event(KeyCode::Enter)),
        14 => say!(w.on_event(KeyCode::Char('a'))),
        15 => say!(w.on_event(KeyCode::Down)),
        16 => say!(w.on_event(KeyCode::Left)),
        17 => say!(w.on_mouse(mouse(Down(left), 2, 0), r)),
        18 => say!(w.on_mouse(mouse(Up(left), 2, 0), r)),
        19 => say!(w.on_mouse_with_sender(mouse(Down(left), 5, 0), r).map(|m| (m.0, m.1.id))),
        20 => say!(w.on_mouse_with_sender(mouse(Up(left), 5, 0), r).map(|m| (m.0, m.1.id))),
        21 => say!(w.on_mouse_with_sender(mouse(Down(left), 3, 1), r).map(|m| (m.0, m.1.id))),
        22 => say!(w.on_mouse(mouse(Moved, 5, 0), r)),
        23 => say!(w.on_mouse(mouse(Moved, 3, 1), r)),
        24 => say!(w.on_mouse(mouse(ScrollDown, 3, 1), r)),
        25 => say!(w.set_hover(true)),
        26 => say!(w.set_hover(false)),
        27 => say!(w.set_active(true)),
        28 => say!(w.set_active(false)),
        29 => say!(w.clear_hover()),
        30 => say!(w.set_visible(false)),
        31 => say!(w.set_visible(true)),
        32 => say!(w.set_loading(true)),
        33 => say!(w.set_loading(false)),
        34 => say!(w.set_disabled(true)),
        35 => say!(w.set_disabled(false)),
        36 => say!(w.clear_focus()),
        37 => say!(w.focus_nth(0)),
        38 => say!(w.focus_nth(1)),
        39 => say!(w.get_child_mut(0).map(|c| (c.set_hover(true), c.set_focus(true), c.id().map(String::from)))),
        40 => say!(w.get_child_mut(1).map(|c| c.set_visible(false))),
        41 => {
            let mut e = MessageEnvelope::new("hello".to_string(), Some("x"), "Y");
            let m = w.handle_message(&mut e);
            say!((m, e.message.clone(), e.is_bubbling()))
        }
        42 => say!(w.set_border_title("top")),
        43 => say!(w.set_border_subtitle("low")),
        44 => say!(w.add_class("k")),
        45 => say!(w.remove_class("k")),
        46 => say!(w.toggle_class("m")),
        47 => say!((w.set_class(true, "l"), w.set_class(false, "k"))),
        48 => say!(w.set_classes("m n")),
        _ => {
            let mut g = GridLayout::new();
            w.pre_layout(&mut g);
            w.on_resize(Size::new(9, 4));
            say!(g)
        }
    }
}

/// Everything the interface tells of a widget.
fn seen(w: &mut dyn Widget<Msg>, names: bool, css: bool) -> Vec<(&'static str, String)> {
    let mut canvas = Canvas::new(17, 8);
    w.render(&mut canvas, Region::new(REGION.0, REGION.1, REGION.2, REGION.3));
    let mut drawn = String::new();
    for i in 0..17 * 8 {
        let c = canvas.cell_at(i);
        if c.symbol != " " || c.bg.is_some() {
            drawn += &format!("{i}{}{}{:?}{:?}{:?};", c.symbol, c.width, c.fg, c.bg, c.attrs);
        }
    }
    let meta = w.get_meta();
    let mut v = vec![
        ("what it draws", drawn),
        ("desired_size", format!("{:?}", w.desired_size())),
        ("intrinsic_height_for_width", format!("{:?}", [3, 10, 40].map(|n| w.intrinsic_height_for_width(n)))),
        ("content_height_for_scroll", format!("{:?}", [(3, 2), (20, 5)].map(|n| w.content_height_for_scroll(n.0, n.1)))),
        ("content_width_for_scroll", format!("{:?}", [3, 20].map(|n| w.content_width_for_scroll(n)))),
        ("get_meta", format!("{:?} {:?} {:?}", meta.id, meta.classes, meta.states)),
        ("get_state", format!("{:?}", w.get_state())),
        ("get_style", format!("{:?}", w.get_style())),
        ("inline_style", format!("{:?}", w.inline_style())),
        ("tooltip", format!("{:?}", w.tooltip())),
        ("is_focused", w.is_focused().to_string()),
        ("is_dirty", w.is_dirty().to_string()),
        ("blocks_mouse_events", w.blocks_mouse_events().to_string()),
        ("is_focusable", w.is_focusable().to_string()),
        ("is_visible", w.is_visible().to_string()),
        ("participates_in_layout", w.participates_in_layout().to_string()),
        ("is_loading", w.is_loading().to_string()),
        ("is_disabled", w.is_disabled().to_string()),
        ("count_focusable", w.count_focusable().to_string()),
        ("child_count", w.child_count().to_string()),
        ("id", format!("{:?}", w.id())),
        ("sender_info", format!("{:?}", w.sender_info().id)),
        ("border_title", format!("{:?}", w.border_title())),
        ("border_subtitle", format!("{:?}", w.border_subtitle())),
        ("has_class", format!("{:?}", ["k", "l", "m", "nn"].map(|c| w.has_class(c)))),
        ("classes", format!("{:?}", w.classes())),
        ("take_pending_action", format!("{:?}", [w.take_pending_action(), w.take_pending_action()])),
    ];
    let mut kids = Vec::new();
    w.for_each_child(&mut |c| kids.push((c.id().map(String::from), c.type_name(), c.get_state(), c.is_visible(), c.take_pending_action())));
    v.push(("for_each_child", format!("{kids:?}")));
    if names {
        v.push(("its names", format!("{} {:?} {}", meta.type_name, meta.type_names, w.type_name())));
    }
    if css {
        v.push(("default_css", w.default_css().into()));
    }
    v
}

fn same(a: &mut dyn Widget<Msg>, b: &mut dyn Widget<Msg>, names: bool, css: bool, after: &dyn Fn() -> String) -> Result<Vec<(&'static str, String)>, String> {
    let (x, y) = (seen(a, names, css), seen(b, names, css));
    for (p, q) in x.iter().zip(&y) {
        ensure!(p.1 == q.1, "after {}: {} is {} of the one inside, {} of the one outside", after(), p.0, p.1, q.1);
    }
    Ok(x)
}

fn c44(ctx: &Ctx) {
    let pairs = pairs();
    let depth = ctx.pick(2, 3);
    let n = seq_count(OPS as u64, depth);
    let per = OPS as u64 * OPS as u64;
    ctx.note("operations", OPS.into());
    ctx.note("pairs", pairs.len().into());
    ctx.note("depth", depth.into());
    // One case: all sequences that begin alike.
    let block = n.div_ceil(per);
    ctx.explore(
        "a widget and the same one wrapped",
        pairs.len() as u64 * block,
        |i| format!("{} (part {})", pairs[(i / block) as usize].0, i % block),
        |i, w| {
            let (_, names, css, make) = &pairs[(i / block) as usize];
            let part = i % block;
            for s in part * per..((part + 1) * per).min(n) {
                let ops = seq_at(s, OPS as u64, depth);
                let (mut a, mut b) = make();
                let mut last = same(a.as_mut(), b.as_mut(), *names, *css, &|| "nothing".into())?;
                for (k, o) in ops.iter().enumerate() {
                    w.step();
                    let (x, y) = (op(a.as_mut(), *o), op(b.as_mut(), *o));
                    ensure!(x == y, "operations {:?}: the last returned {x} inside and {y} outside", &ops[..=k]);
                    // Shorter sequences have been compared on their own.
                    if k + 1 == ops.len() {
                        last = same(a.as_mut(), b.as_mut(), *names, *css, &|| format!("operations {:?}", &ops[..=k]))?;
                    } else {
                        seen(a.as_mut(), false, false);
                        seen(b.as_mut(), false, false);
                    }
                }
                w.state(&last);
            }
            Ok(())
        },
    );
    senders(ctx);
    ctx.assume("A wrapper's own type name, type names and (where it is given one) default CSS are its own; a label names Static among its types. Downcasting (as_any) is not part of what is delegated.");
}

/// A mouse event does the same and gives the same message whether or not its sender is asked for.
fn senders(ctx: &Ctx) {
    use MouseEventKind::*;
    let left = MouseButton::Left;
    // Where a border, a scrollbar, the first and the second child are, and outside.
    let at: &[(u16, u16)] = if ctx.thorough() { &[(3, 1), (5, 0), (2, 3), (14, 2), (7, 5), (0, 7)] } else { &[(3, 1), (4, 0), (14, 2), (2, 5)] };
    let mut events: Vec<(MouseEventKind, (u16, u16), bool)> = vec![];
    for &p in at {
        events.push((Down(left), p, false));
        events.push((Moved, p, false));
        events.push((if p.0 % 2 == 0 { Up(left) } else { Drag(left) }, p, false));
    }
    for k in [ScrollDown, ScrollUp, ScrollRight, ScrollLeft] {
        events.push((k, (3, 1), false));
        if ctx.thorough() || k == ScrollDown { events.push((k, (4, 3), true)) }
    }
    let kinds: Vec<&'static str> = SUBJECTS.iter().copied().filter(|k| *k != "Spy").chain(["Screen", "CommandPalette", "ScrollableContainer of containers", "Screen of containers", "Center", "Middle"]).collect();
    let make = |k: &'static str| -> W1 {
        let deep = || -> Vec<W1> { vec![container("Vertical", "v", kids()), container("ScrollableContainer", "z", kids()), Box::new(OptionList::new((0..9).map(|n| format!("option {n}")).collect()))] };
        match k {
            "Screen" => Box::new(textual::widget::screen::Screen::new(kids())),
            "Screen of containers" => Box::new(textual::widget::screen::Screen::new(deep())),
            "ScrollableContainer of containers" => container("ScrollableContainer", "c", deep()),
            "CommandPalette" => Box::new(textual::CommandPalette::new()),
            "Center" => Box::new(textual::containers::Center::from_child(Box::new(Button::new("B").with_id("b").with_message("pressed".to_string())))),
            "Middle" => Box::new(textual::containers::Middle::from_child(Box::new(Button::new("B").with_id("b").with_message("pressed".to_string())))),
            k => subject(k),
        }
    };
    let looks: &[usize] = if ctx.thorough() { &[0, 1, 3] } else { &[1, 3] };
    let depth = ctx.pick(3, 4);
    let n = seq_count(events.len() as u64, depth);
    let block = events.len() as u64 * events.len() as u64;
    let parts = n.div_ceil(block);
    let total = kinds.len() as u64 * looks.len() as u64 * parts;
    let (events, kinds) = (&events, &kinds);
    let dec = |i: u64| {
        let mut m = Mix(i);
        (m.pick(kinds.len() as u64), *m.of(looks), m.0)
    };
    ctx.explore("asked for the sender and not", total, |i| { let (k, l, p) = dec(i); format!("{} look {l} (part {p})", kinds[k]) }, |i, w| {
        let (k, l, part) = dec(i);
        for s in part * block..((part + 1) * block).min(n) {
            let ops = seq_at(s, events.len() as u64, depth);
            reset_placeholder_counter();
            let mut a = make(kinds[k]);
            reset_placeholder_counter();
            let mut b = make(kinds[k]);
            let mut c = Canvas::new(17, 8);
            let r = Region::new(REGION.0, REGION.1, REGION.2, REGION.3);
            for t in [&mut a, &mut b] {
                t.set_style(style(l));
                t.on_resize(Size::new(17, 8));
                t.render(&mut c, r);
            }
            for (d, o) in ops.iter().enumerate() {
                w.step();
                let (kind, (x, y), shift) = events[*o];
                let e = MouseEvent { kind, column: x, row: y, modifiers: if shift { KeyModifiers::SHIFT } else { KeyModifiers::NONE } };
                let (p, q) = (a.on_mouse(e, r), b.on_mouse_with_sender(e, r).map(|m| m.0));
                ensure!(p == q, "{:?}: the message is {p:?}, with the sender asked for {q:?}", ops[..=d].iter().map(|o| events[*o]).collect::<Vec<_>>());
                a.render(&mut c, r);
                b.render(&mut c, r);
            }
            same(a.as_mut(), b.as_mut(), true, false, &|| format!("{:?}, without and with asking for the sender,", ops.iter().map(|o| events[*o]).collect::<Vec<_>>()))?;
        }
        w.state(&i);
        Ok(())
    });
}

fn main() {
    main_with(&[("C44", c44)])
}
