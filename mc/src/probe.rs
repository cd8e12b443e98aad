//! A widget written for the explorers: it has every capability of the `Widget` trait and
//! records what it is asked to do. Also builders for the real containers.
use std::cell::RefCell;
use std::rc::Rc;
use tcss::types::Display;
use tcss::{ComputedStyle, StyleOverride, WidgetMeta, WidgetStates};
use textual::widget::{Widget, SenderInfo};
use textual::{Canvas, KeyCode, MessageEnvelope, MouseEvent, Region, Size};
use textual::{Center, Container, Grid, Horizontal, HorizontalScroll, ItemGrid, Middle, ScrollableContainer, Vertical, VerticalScroll};

pub type Msg = String;
pub type W1 = Box<dyn Widget<Msg>>;
pub type Log = Rc<RefCell<Vec<String>>>;

/// What a probe does with a message that bubbles through it.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum React {
    Pass,
    Replace,
    Stop,
    ReplaceStop,
}

pub struct Probe {
    pub id: Option<String>,
    pub ty: &'static str,
    pub kids: Vec<W1>,
    pub focusable: bool,
    pub focused: bool,
    pub hovered: bool,
    pub visible: bool,
    pub disabled: bool,
    pub style: ComputedStyle,
    pub inline: StyleOverride,
    pub classes: Vec<String>,
    pub dirty: bool,
    pub title: Option<String>,
    pub react: React,
    pub size: Size,
    pub glyph: char,
    /// Answer mouse events with a message.
    pub answers: bool,
    pub log: Log,
}

impl Probe {
    pub fn new(log: &Log) -> Self {
        Probe {
            id: None,
            ty: "Probe",
            kids: vec![],
            focusable: false,
            focused: false,
            hovered: false,
            visible: true,
            disabled: false,
            style: ComputedStyle::default(),
            inline: StyleOverride::default(),
            classes: vec![],
            dirty: true,
            title: None,
            react: React::Pass,
            size: Size::new(1, 1),
            glyph: '?',
            answers: false,
            log: log.clone(),
        }
    }
    pub fn id(mut self, id: &str) -> Self {
        self.id = Some(id.into());
        self
    }
    pub fn ty(mut self, ty: &'static str) -> Self {
        self.ty = ty;
        self
    }
    pub fn kids(mut self, kids: Vec<W1>) -> Self {
        self.kids = kids;
        self
    }
    pub fn focusable(mut self, f: bool) -> Self {
        self.focusable = f;
        self
    }
    pub fn react(mut self, r: React) -> Self {
        self.react = r;
        self
    }
    pub fn size(mut self, w: u16, h: u16) -> Self {
        self.size = Size::new(w, h);
        self
    }
    pub fn glyph(mut self, c: char) -> Self {
        self.glyph = c;
        self
    }
    pub fn answers(mut self) -> Self {
        self.answers = true;
        self
    }
    pub fn boxed(self) -> W1 {
        Box::new(self)
    }
    fn name(&self) -> &str {
        self.id.as_deref().unwrap_or("-")
    }
    fn say(&self, s: String) {
        self.log.borrow_mut().push(s);
    }
}

impl Widget<Msg> for Probe {
    fn render(&self, canvas: &mut Canvas, region: Region) {
        // Not logged: rendering takes place after every operation.
        for y in 0..region.height {
            for x in 0..region.width {
                canvas.put_char(region.x + x, region.y + y, self.glyph, None, None, Default::default());
            }
        }
    }
    fn desired_size(&self) -> Size {
        self.size
    }
    fn for_each_child(&mut self, f: &mut dyn FnMut(&mut dyn Widget<Msg>)) {
        for k in &mut self.kids {
            f(k.as_mut())
        }
    }
    fn child_count(&self) -> usize {
        self.kids.len()
    }
    fn get_child_mut(&mut self, index: usize) -> Option<&mut (dyn Widget<Msg> + '_)> {
        match self.kids.get_mut(index) {
            Some(k) => Some(k.as_mut()),
            None => None,
        }
    }
    fn get_state(&self) -> WidgetStates {
        let mut s = WidgetStates::empty();
        if self.focused {
            s |= WidgetStates::FOCUS;
        }
        if self.hovered {
            s |= WidgetStates::HOVER;
        }
        if self.disabled {
            s |= WidgetStates::DISABLED;
        }
        s
    }
    fn get_meta(&self) -> WidgetMeta {
        WidgetMeta {
            type_name: self.ty,
            type_names: vec![self.ty, "Widget", "DOMNode"],
            id: self.id.clone(),
            classes: self.classes.clone(),
            states: self.get_state(),
        }
    }
    fn set_style(&mut self, style: ComputedStyle) {
        self.style = style;
    }
    fn get_style(&self) -> ComputedStyle {
        self.style.clone()
    }
    fn set_inline_style(&mut self, style: StyleOverride) {
        self.inline = style;
        self.dirty = true;
    }
    fn inline_style(&self) -> Option<&StyleOverride> {
        (!self.inline.is_empty()).then_some(&self.inline)
    }
    fn clear_inline_style(&mut self) {
        self.inline = StyleOverride::default();
        self.dirty = true;
    }
    fn set_focus(&mut self, f: bool) {
        if self.focused != f {
            self.focused = f;
            self.dirty = true;
        }
    }
    fn is_focused(&self) -> bool {
        self.focused
    }
    fn is_dirty(&self) -> bool {
        self.dirty
    }
    fn mark_dirty(&mut self) {
        self.dirty = true;
    }
    fn mark_clean(&mut self) {
        self.dirty = false;
    }
    fn on_event(&mut self, key: KeyCode) -> Option<Msg> {
        self.say(format!("key:{}:{key:?}", self.name()));
        None
    }
    fn on_mouse(&mut self, event: MouseEvent, region: Region) -> Option<Msg> {
        let inside = region.contains_point(event.column as i32, event.row as i32);
        self.say(format!("mouse:{}:{}", self.name(), if inside { "in" } else { "out" }));
        if !inside {
            return None;
        }
        if matches!(event.kind, textual::MouseEventKind::Moved) {
            self.set_hover(true);
        }
        self.answers.then(|| format!("hit:{}", self.name()))
    }
    fn on_mouse_with_sender(&mut self, event: MouseEvent, region: Region) -> Option<(Msg, SenderInfo)> {
        let s = self.sender_info();
        self.on_mouse(event, region).map(|m| (m, s))
    }
    fn set_hover(&mut self, h: bool) -> bool {
        let c = self.hovered != h;
        if c {
            self.hovered = h;
            self.dirty = true;
        }
        c
    }
    fn clear_hover(&mut self) {
        self.set_hover(false);
    }
    fn is_focusable(&self) -> bool {
        self.focusable && self.visible && !self.disabled
    }
    fn is_visible(&self) -> bool {
        self.visible
    }
    fn set_visible(&mut self, v: bool) {
        if self.visible != v {
            self.visible = v;
            self.dirty = true;
        }
    }
    fn is_disabled(&self) -> bool {
        self.disabled
    }
    fn set_disabled(&mut self, d: bool) {
        if self.disabled != d {
            self.disabled = d;
            self.dirty = true;
        }
    }
    fn count_focusable(&self) -> usize {
        self.is_focusable() as usize
            + self.kids.iter().filter(|k| k.participates_in_layout()).map(|k| k.count_focusable()).sum::<usize>()
    }
    fn clear_focus(&mut self) {
        self.set_focus(false);
        for k in &mut self.kids {
            k.clear_focus();
        }
    }
    fn focus_nth(&mut self, mut n: usize) -> bool {
        if self.is_focusable() {
            if n == 0 {
                self.set_focus(true);
                return true;
            }
            n -= 1;
        }
        for k in self.kids.iter_mut().filter(|k| k.participates_in_layout()) {
            let c = k.count_focusable();
            if n < c {
                return k.focus_nth(n);
            }
            n -= c;
        }
        false
    }
    fn handle_message(&mut self, e: &mut MessageEnvelope<Msg>) -> Option<Msg> {
        self.say(format!("msg:{}:{}", self.name(), e.message));
        if matches!(self.react, React::Stop | React::ReplaceStop) {
            e.stop();
        }
        matches!(self.react, React::Replace | React::ReplaceStop).then(|| format!("{}>{}", e.message, self.name()))
    }
    fn id(&self) -> Option<&str> {
        self.id.as_deref()
    }
    fn type_name(&self) -> &'static str {
        self.ty
    }
    fn set_border_title(&mut self, t: &str) {
        self.title = Some(t.into());
    }
    fn border_title(&self) -> Option<&str> {
        self.title.as_deref()
    }
    fn as_any(&self) -> Option<&dyn std::any::Any> {
        Some(self)
    }
    fn as_any_mut(&mut self) -> Option<&mut dyn std::any::Any> {
        Some(self)
    }
    fn add_class(&mut self, class: &str) {
        if !self.has_class(class) {
            self.classes.push(class.into());
            self.dirty = true;
        }
    }
    fn remove_class(&mut self, class: &str) {
        self.classes.retain(|c| c != class);
        self.dirty = true;
    }
    fn has_class(&self, class: &str) -> bool {
        self.classes.iter().any(|c| c == class)
    }
    fn set_classes(&mut self, classes: &str) {
        self.classes = classes.split_whitespace().map(String::from).collect();
        self.dirty = true;
    }
    fn classes(&self) -> Vec<String> {
        self.classes.clone()
    }
}

/// The containers that take any number of children.
pub const KINDS: &[&str] = &[
    "Container", "Vertical", "Horizontal", "Grid", "ItemGrid", "ScrollableContainer", "VerticalScroll", "HorizontalScroll",
];

pub fn container(kind: &str, id: &str, kids: Vec<W1>) -> W1 {
    match kind {
        "Container" => Box::new(Container::new(kids).with_id(id)),
        "Vertical" => Box::new(Vertical::new(kids).with_id(id)),
        "Horizontal" => Box::new(Horizontal::new(kids).with_id(id)),
        "Grid" => Box::new(Grid::new(kids).with_id(id)),
        "ItemGrid" => Box::new(ItemGrid::new(kids).with_id(id)),
        "ScrollableContainer" => Box::new(ScrollableContainer::new(kids).with_id(id)),
        "VerticalScroll" => Box::new(VerticalScroll::new(kids).with_id(id)),
        "HorizontalScroll" => Box::new(HorizontalScroll::new(kids).with_id(id)),
        "Center" => Box::new(Center::new(kids)),
        "Middle" => Box::new(Middle::new(kids)),
        k => panic!("container {k}"),
    }
}

/// Take a widget out of the layout (`display: none`), or put it back.
pub fn set_display(w: &mut dyn Widget<Msg>, shown: bool) {
    let mut s = w.get_style();
    s.display = if shown { Display::Block } else { Display::None };
    w.set_style(s);
}

/// Visit the widget at `path`.
pub fn at<R>(root: &mut dyn Widget<Msg>, path: &[usize], f: impl FnOnce(&mut dyn Widget<Msg>) -> R) -> R {
    match path.split_first() {
        None => f(root),
        Some((&i, rest)) => at(root.get_child_mut(i).expect("child"), rest, f),
    }
}

pub fn new_log() -> Log {
    Rc::new(RefCell::new(Vec::new()))
}
