//! C11 incremental restyling, C34 rendering is a function of the state.
use mc::probe::*;
use mc::*;
use std::collections::VecDeque;
use tcss::parser::{parse_stylesheet, StyleSheet};
use tcss::types::Theme;
use tcss::{ComputedStyle, StyleOverride};
use textual::style_resolver::{resolve_dirty_styles, resolve_styles, InheritedContext};
use textual::testing::build_combined_css;
use textual::tree::WidgetTree;
use textual::widget::app_widget::AppWidget;
use textual::widget::button::Button;
use textual::widget::input::Input;
use textual::widget::label::Label;
use textual::widget::loading_indicator::LoadingIndicator;
use textual::widget::option_list::OptionList;
use textual::widget::placeholder::{reset_placeholder_counter, Placeholder, PlaceholderVariant};
use textual::widget::screen::Screen;
use textual::widget::static_widget::Static;
use textual::widget::switch::Switch;
use textual::widget::tooltip::Tooltip;
use textual::widget::Widget;
use textual::{Canvas, KeyCode, Region, Size};

type Sw = Switch<Msg, fn(bool) -> Msg>;

const LEAVES: &[&str] = &["Static", "Label", "Button", "Input", "Switch", "OptionList", "Placeholder", "LoadingIndicator", "Probe"];

fn leaf(kind: &str, id: &str, log: &Log) -> W1 {
    match kind {
        "Static" => Box::new(Static::<Msg>::new("some [b]text[/] here").with_id(id)),
        "Label" => Box::new(Label::<Msg>::new("label").with_id(id)),
        "Button" => Box::new(Button::<Msg>::new("press").with_id(id)),
        "Input" => Box::new(Input::<Msg>::new().with_placeholder("type").with_id(id)),
        "Switch" => Box::new(Sw::new(false, |v| format!("{v}")).with_id(id)),
        "OptionList" => Box::new(OptionList::<Msg>::new(vec!["one".into(), "two words".into(), "three".into()]).with_id(id)),
        "Placeholder" => Box::new(Placeholder::new().with_id(id)),
        "LoadingIndicator" => Box::new(LoadingIndicator::<Msg>::new().with_id(id)),
        _ => Probe::new(log).id(id).focusable(true).size(6, 2).glyph('p').boxed(),
    }
}

const CSS: &str = "
#k1 { background: #203040; height: auto; min-height: 6; }
#k1.k { background: rgba(200, 10, 10, 0.5); color: #aabbcc; padding: 1; }
.k Static { color: red; }
.k > Label { background: blue 40%; }
.k { text-style: bold; color: #00ff00; }
.k Switch { background-tint: white 20%; }
.k :focus { color: yellow; }
#k1:disabled Button { color: magenta; }
:focus { background: green; }
:hover { border: solid white; }
:disabled { text-opacity: 40%; width: 9; }
:active { text-style: italic; }
Screen.-narrow Button { min-width: 3; }
Screen.-narrow #d { display: none; }
Screen.-tall #a { margin: 1 2; }
.h { visibility: hidden; }
.n { display: none; }
.auto { color: auto 80%; }
#k2 { height: 5; width: 100%; }
#k2.k { layout: horizontal; align: center middle; }
#d { dock: bottom; height: 2; }
#d.k { dock: top; }
Input { height: 3; }
";

const H: &[(u16, &str)] = &[(0, "-narrow"), (40, "-wide")];
const V: &[(u16, &str)] = &[(0, "-short"), (14, "-tall")];

#[derive(Clone)]
struct Scene {
    k1: &'static str,
    k2: &'static str,
    wrap: &'static str,
    leaves: [&'static str; 4],
}

impl Scene {
    fn build(&self, log: &Log) -> WidgetTree<Msg> {
        reset_placeholder_counter();
        let k1 = container(
            self.k1,
            "k1",
            vec![leaf(self.leaves[0], "a", log), container(self.wrap, "w", vec![leaf(self.leaves[1], "b", log)])],
        );
        let k2 = container(self.k2, "k2", vec![leaf(self.leaves[2], "c", log)]);
        let screen = Screen::new(vec![k1, k2, leaf(self.leaves[3], "d", log)])
            .with_horizontal_breakpoints(H)
            .with_vertical_breakpoints(V);
        let root = AppWidget::new(vec![Box::new(screen) as W1, Box::new(Tooltip::<Msg>::new())]);
        let mut tree = WidgetTree::new(Box::new(root) as W1);
        tree.root_mut().on_resize(Size::new(50, 12));
        tree
    }
    fn name(&self) -> String {
        format!("{}[{}, {}[{}]], {}[{}], {}", self.k1, self.leaves[0], self.wrap, self.leaves[1], self.k2, self.leaves[2], self.leaves[3])
    }
}

const PATHS: [&[usize]; 8] = [&[0], &[0, 0], &[0, 0, 0], &[0, 0, 1], &[0, 0, 1, 0], &[0, 1], &[0, 1, 0], &[0, 2]];
const NAMES: [&str; 8] = ["screen", "k1", "a", "w", "b", "k2", "c", "d"];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
    Class(usize, &'static str),
    Inline(usize),
    Disabled(usize),
    Visible(usize),
    Hover(usize),
    Active(usize),
    Loading(usize),
    /// Through the widget's own type: new content, variant, value, items.
    Typed(usize),
    Typed2(usize),
    Next,
    Prev,
    Key(KeyCode),
    Resize(u16, u16),
}

fn inline() -> StyleOverride {
    let mut s = ComputedStyle::default();
    s.color = Some(tcss::types::RgbaColor::rgb(1, 2, 3));
    let mut o = StyleOverride::default();
    o.color = s.color.clone();
    o.background = Some(tcss::types::RgbaColor::rgb(9, 9, 90));
    o
}

fn apply(tree: &mut WidgetTree<Msg>, op: Op, size: &mut (u16, u16)) {
    match op {
        Op::Class(i, c) => at(tree.root_mut(), PATHS[i], |w| w.toggle_class(c)),
        Op::Inline(i) => at(tree.root_mut(), PATHS[i], |w| {
            if w.inline_style().is_some() {
                w.clear_inline_style()
            } else {
                w.set_inline_style(inline())
            }
        }),
        Op::Disabled(i) => at(tree.root_mut(), PATHS[i], |w| w.set_disabled(!w.is_disabled())),
        Op::Visible(i) => at(tree.root_mut(), PATHS[i], |w| w.set_visible(!w.is_visible())),
        Op::Hover(i) => at(tree.root_mut(), PATHS[i], |w| {
            let h = w.get_state().contains(tcss::WidgetStates::HOVER);
            w.set_hover(!h);
        }),
        Op::Active(i) => at(tree.root_mut(), PATHS[i], |w| {
            let h = w.get_state().contains(tcss::WidgetStates::ACTIVE);
            w.set_active(!h);
        }),
        Op::Loading(i) => at(tree.root_mut(), PATHS[i], |w| w.set_loading(!w.is_loading())),
        Op::Typed(i) => at(tree.root_mut(), PATHS[i], |w| typed(w, false)),
        Op::Typed2(i) => at(tree.root_mut(), PATHS[i], |w| typed(w, true)),
        Op::Next => {
            tree.focus_next();
        }
        Op::Prev => {
            tree.focus_previous();
        }
        Op::Key(k) => {
            tree.dispatch_key(k);
        }
        Op::Resize(w, h) => {
            *size = (w, h);
            tree.root_mut().on_resize(Size::new(w, h));
        }
    }
}

fn typed(w: &mut dyn Widget<Msg>, second: bool) {
    let Some(any) = w.as_any_mut() else { return };
    if let Some(s) = any.downcast_mut::<Static<Msg>>() {
        if second {
            s.add_class("k");
        } else {
            s.update("[red]other[/] words\nand a second line");
        }
    } else if let Some(s) = any.downcast_mut::<Label<Msg>>() {
        if second {
            s.set_border_title("title");
        } else {
            s.update("a longer label than before");
        }
    } else if let Some(s) = any.downcast_mut::<Button<Msg>>() {
        if second {
            s.set_compact(true);
        } else {
            s.set_variant("error");
            s.set_label("longer label");
        }
    } else if let Some(s) = any.downcast_mut::<Input<Msg>>() {
        if second {
            s.clear_placeholder();
        } else {
            s.set_value("value");
        }
    } else if let Some(s) = any.downcast_mut::<Sw>() {
        if second {
            s.tick_spinner();
        } else {
            s.set_value(true);
        }
    } else if let Some(s) = any.downcast_mut::<OptionList<Msg>>() {
        if second {
            s.set_selected(1);
        } else {
            s.set_items(vec!["alpha".into(), "beta".into()]);
        }
    } else if let Some(s) = any.downcast_mut::<Placeholder>() {
        s.set_variant(if second { PlaceholderVariant::Text } else { PlaceholderVariant::Size });
    } else if let Some(s) = any.downcast_mut::<LoadingIndicator<Msg>>() {
        if second {
            s.tick();
        } else {
            s.set_visible(false);
        }
    } else if let Some(p) = any.downcast_mut::<Probe>() {
        p.size = Size::new(3, 1);
    }
}

fn ops(structural: bool) -> Vec<Op> {
    let mut v = vec![];
    for i in [1, 2, 4, 5, 7] {
        v.push(Op::Class(i, "k"));
    }
    v.push(Op::Class(1, "n"));
    v.push(Op::Class(2, "h"));
    v.push(Op::Class(5, "h"));
    v.push(Op::Class(6, "n"));
    v.push(Op::Class(4, "auto"));
    for i in [0, 1, 3, 6] {
        v.push(Op::Inline(i));
    }
    for i in [2, 4, 7] {
        v.push(Op::Disabled(i));
    }
    for i in [2, 4] {
        v.push(Op::Visible(i));
    }
    for i in [2, 7] {
        v.push(Op::Hover(i));
    }
    v.push(Op::Active(2));
    v.push(Op::Loading(2));
    v.push(Op::Next);
    v.push(Op::Prev);
    v.push(Op::Resize(30, 12));
    v.push(Op::Resize(50, 15));
    for i in [2, 4, 6] {
        v.push(Op::Typed(i));
        v.push(Op::Typed2(i));
    }
    if structural {
        v.push(Op::Key(KeyCode::Char('x')));
        v.push(Op::Key(KeyCode::Down));
        v.push(Op::Key(KeyCode::Enter));
    }
    v
}

fn theme() -> Theme {
    Theme::standard_themes().get("textual-dark").cloned().unwrap()
}

fn incremental(tree: &mut WidgetTree<Msg>, sheet: &StyleSheet, theme: &Theme) {
    let mut anc = VecDeque::new();
    resolve_dirty_styles(tree.root_mut(), sheet, theme, &mut anc, false, &InheritedContext::from_theme(theme));
}

fn full(tree: &mut WidgetTree<Msg>, sheet: &StyleSheet, theme: &Theme) {
    let mut anc = VecDeque::new();
    resolve_styles(tree.root_mut(), sheet, theme, &mut anc);
}

/// What the cascade and inheritance say about every visible widget, computed from the tree as it
/// is now, without the resolver under test and without any state kept between restyles.
fn by_definition(
    w: &mut dyn Widget<Msg>,
    sheet: &StyleSheet,
    theme: &Theme,
    above: &[tcss::parser::cascade::WidgetMeta],
    from: Option<(Option<tcss::types::RgbaColor>, bool, tcss::types::Visibility, Option<tcss::types::RgbaColor>)>,
    out: &mut Vec<ComputedStyle>,
) {
    if !w.is_visible() {
        return;
    }
    let (color, auto, vis, back) = from.unwrap_or_else(|| {
        let c = theme.get_color("foreground").or_else(|| theme.get_color("text"));
        (c, false, tcss::types::Visibility::Visible, None)
    });
    let meta = w.get_meta();
    let mut s = tcss::parser::cascade::compute_style(&meta, above, sheet, theme);
    if s.color.is_none() && color.is_some() {
        s.color = color;
        s.auto_color = auto;
    }
    if !s.visibility_set {
        s.visibility = vis;
    }
    s.inherited_background = back.clone();
    if let Some(i) = w.inline_style() {
        i.apply_to(&mut s);
    }
    let behind = match (s.background.clone(), back) {
        (Some(b), under) => {
            let b = match under {
                Some(u) if b.a < 1.0 => b.blend_over(&u),
                _ => b,
            };
            Some(match &s.background_tint {
                Some(t) => b.tint(t),
                None => b,
            })
        }
        (None, under) => under,
    };
    let next = Some((s.color.clone(), s.auto_color, s.visibility, behind));
    out.push(s);
    let mut line = vec![meta];
    line.extend_from_slice(above);
    w.for_each_child(&mut |c| by_definition(c, sheet, theme, &line, next.clone(), out));
}

/// The style of every widget that is visible along with its ancestors.
fn styles(w: &mut dyn Widget<Msg>, path: &mut Vec<usize>, out: &mut Vec<(Vec<usize>, ComputedStyle)>) {
    if !w.is_visible() {
        return;
    }
    out.push((path.clone(), w.get_style()));
    let mut i = 0;
    w.for_each_child(&mut |c| {
        path.push(i);
        i += 1;
        styles(c, path, out);
        path.pop();
    });
}

fn snapshot(tree: &mut WidgetTree<Msg>) -> Vec<(Vec<usize>, ComputedStyle)> {
    let mut v = vec![];
    styles(tree.root_mut(), &mut vec![], &mut v);
    v
}

fn name_of(path: &[usize]) -> String {
    match PATHS.iter().position(|p| *p == path) {
        Some(i) => NAMES[i].into(),
        None => format!("{path:?}"),
    }
}

fn diff(a: &ComputedStyle, b: &ComputedStyle) -> String {
    let (a, b) = (format!("{a:#?}"), format!("{b:#?}"));
    a.lines().zip(b.lines()).filter(|(x, y)| x != y).take(3).map(|(x, y)| format!("{} / {}", x.trim(), y.trim())).collect::<Vec<_>>().join("; ")
}

fn scenes(thorough: bool) -> Vec<Scene> {
    let n = if thorough { 72 } else { 9 };
    (0..n)
        .map(|i| {
            let l = |k: usize| LEAVES[(i + k) % LEAVES.len()];
            Scene {
                k1: KINDS[i % KINDS.len()],
                k2: KINDS[(i * 3 + i / 8 + 1) % KINDS.len()],
                wrap: ["Center", "Middle"][i % 2],
                leaves: [l(0), l(2), l(4), l(7)],
            }
        })
        .collect()
}

fn c11(ctx: &Ctx) {
    let theme = theme();
    let ops = ops(true);
    let a = ops.len() as u64;
    let depth = 3u32;
    for sc in scenes(ctx.thorough()) {
        let sheet = {
            let mut t = sc.build(&new_log());
            parse_stylesheet(&build_combined_css(t.root_mut(), CSS)).expect("css")
        };
        // After which of the earlier steps a restyle takes place.
        let masks = 1u64 << (depth - 1);
        let dec = |i: u64| {
            let mut x = Mix(i);
            let s: Vec<Op> = (0..depth).map(|_| ops[x.pick(a)]).collect();
            (s, x.pick(masks) as u64)
        };
        ctx.explore(
            &format!("restyle {}", sc.name()),
            a.pow(depth) * masks,
            |i| {
                let (s, m) = dec(i);
                format!("{}: {s:?} restyles {m:b}", sc.name())
            },
            |i, w| {
                let (s, m) = dec(i);
                let log = new_log();
                let mut tree = sc.build(&log);
                full(&mut tree, &sheet, &theme);
                let mut size = (50, 12);
                for (k, op) in s.iter().enumerate() {
                    w.step();
                    apply(&mut tree, *op, &mut size);
                    if k + 1 == s.len() || m >> k & 1 == 1 {
                        incremental(&mut tree, &sheet, &theme);
                    }
                }
                let got = snapshot(&mut tree);
                let mut defined = vec![];
                by_definition(tree.root_mut(), &sheet, &theme, &[], None, &mut defined);
                ensure!(got.len() == defined.len(), "{} styled widgets, {} by definition", got.len(), defined.len());
                for ((p, g), e) in got.iter().zip(&defined) {
                    ensure!(g == e, "style of {} after the restyle / by the rules: {}", name_of(p), diff(g, e));
                }
                full(&mut tree, &sheet, &theme);
                let want = snapshot(&mut tree);
                ensure!(got.len() == want.len(), "{} styled widgets, expected {}", got.len(), want.len());
                for ((p, g), (q, e)) in got.iter().zip(&want) {
                    ensure!(p == q, "widgets differ");
                    ensure!(g == e, "style of {} after the restyle / when styled afresh: {}", name_of(p), diff(g, e));
                }
                w.state(&(s, sc.name()));
                Ok(())
            },
        );
    }
    inheritance(ctx, &theme);
}

/// Colour, visibility and background pass from parent to child: every chain of four widgets.
fn inheritance(ctx: &Ctx, theme: &Theme) {
    const RULES: &[(&str, &str)] = &[
        ("none", ""),
        ("col", "color: #102030;"),
        ("auto", "color: auto 60%;"),
        ("hid", "visibility: hidden;"),
        ("vis", "visibility: visible;"),
        ("bg", "background: #405060;"),
        ("half", "background: rgba(250, 100, 0, 0.5);"),
        ("tint", "background: #405060; background-tint: white 50%;"),
        ("tintonly", "background-tint: red 20%;"),
        ("halftint", "background: rgba(0, 200, 0, 0.25); background-tint: blue 50%;"),
    ];
    let css: String = RULES.iter().map(|(n, d)| format!(".{n} {{ {d} }}\n")).collect();
    let sheet = parse_stylesheet(&css).expect("css");
    let n = RULES.len() as u64;
    let depth = 4usize;
    // Each level has a rule, and one level may have an inline colour too.
    let total = n.pow(depth as u32) * (depth as u64 + 1);
    let dec = |i: u64| {
        let mut x = Mix(i);
        let s: Vec<usize> = (0..depth).map(|_| x.pick(n)).collect();
        (s, x.pick(depth as u64 + 1))
    };
    ctx.explore(
        "inheritance",
        total,
        |i| {
            let (s, l) = dec(i);
            format!("{:?} inline at {l}", s.iter().map(|&k| RULES[k].0).collect::<Vec<_>>())
        },
        |i, w| {
            let (s, l) = dec(i);
            let log = new_log();
            let mut node: Option<W1> = None;
            for k in (0..depth).rev() {
                let mut p = Probe::new(&log).kids(node.take().into_iter().collect());
                p.classes = vec![RULES[s[k]].0.into()];
                if k == l {
                    p.inline = inline();
                }
                node = Some(p.boxed());
            }
            let mut tree = WidgetTree::new(node.unwrap());
            full(&mut tree, &sheet, theme);
            let mut color = theme.get_color("foreground").or_else(|| theme.get_color("text"));
            let mut auto = false;
            let mut hidden = false;
            let mut bg: Option<tcss::types::RgbaColor> = None;
            w.steps(depth as u64);
            for k in 0..depth {
                let own = {
                    let meta = at(tree.root_mut(), &vec![0; k], |w| w.get_meta());
                    tcss::parser::cascade::compute_style(&meta, &[], &sheet, theme)
                };
                let got = at(tree.root_mut(), &vec![0; k], |w| w.get_style());
                if own.color.is_some() {
                    color = own.color.clone();
                    auto = own.auto_color;
                } else if own.auto_color {
                    auto = true;
                }
                match RULES[s[k]].0 {
                    "hid" => hidden = true,
                    "vis" => hidden = false,
                    _ => {}
                }
                ensure!(
                    (got.visibility == tcss::types::Visibility::Hidden) == hidden,
                    "level {k}: hidden {}, expected {hidden}",
                    !hidden
                );
                ensure!(got.inherited_background == bg, "level {k}: background behind it {:?}, expected {bg:?}", got.inherited_background);
                if k == l {
                    color = inline().color;
                    ensure!(got.color == color && got.background == inline().background, "level {k}: inline style lost");
                } else {
                    ensure!(got.color == color && got.auto_color == auto, "level {k}: colour {:?} {}, expected {color:?} {auto}", got.color, got.auto_color);
                    ensure!(got.background == own.background, "level {k}: background {:?}", got.background);
                }
                auto = got.auto_color;
                let b = got.background.clone();
                bg = match (b, bg.clone()) {
                    (Some(b), p) => {
                        let c = match p {
                            Some(p) if b.a < 1.0 => {
                                let f = |x: u8, y: u8| (x as f32 * b.a + y as f32 * (1.0 - b.a)).round();
                                let m = b.blend_over(&p);
                                for (m, e) in [(m.r, f(b.r, p.r)), (m.g, f(b.g, p.g)), (m.b, f(b.b, p.b))] {
                                    ensure!((m as f32 - e).abs() <= 1.0, "blend {m} expected {e}");
                                }
                                m
                            }
                            _ => b,
                        };
                        Some(match &own.background_tint {
                            Some(t) => c.tint(t),
                            None => c,
                        })
                    }
                    (None, p) => p,
                };
            }
            w.state(&(s, l));
            Ok(())
        },
    );
}

fn paint(tree: &mut WidgetTree<Msg>, size: (u16, u16)) -> Canvas {
    let mut c = Canvas::new(size.0, size.1);
    tree.root().render(&mut c, Region::from_u16(0, 0, size.0, size.1));
    c
}

fn same(a: &Canvas, b: &Canvas) -> Result<(), String> {
    let (w, h) = a.size();
    for i in 0..w as usize * h as usize {
        let (x, y) = (a.cell_at(i), b.cell_at(i));
        ensure!(x == y, "cell {},{} is {x:?}, expected {y:?}\n{}\n--\n{}", i % w as usize, i / w as usize, a.to_snapshot(), b.to_snapshot());
    }
    Ok(())
}

fn c34(ctx: &Ctx) {
    let theme = theme();
    let ops = ops(true);
    let a = ops.len() as u64;
    let plan: Vec<(Scene, u32)> = if ctx.thorough() {
        let all = scenes(true);
        let deep = all.iter().take(4).map(|s| (s.clone(), 3u32));
        all.iter().map(|s| (s.clone(), 2u32)).chain(deep).collect()
    } else {
        scenes(true).into_iter().take(18).map(|s| (s, 2u32)).collect()
    };
    for (sc, depth) in plan {
        let sheet = {
            let mut t = sc.build(&new_log());
            parse_stylesheet(&build_combined_css(t.root_mut(), CSS)).expect("css")
        };
        let dec = |i: u64| {
            let mut x = Mix(i);
            (0..depth).map(|_| ops[x.pick(a)]).collect::<Vec<Op>>()
        };
        ctx.explore(
            &format!("repaint {} depth {depth}", sc.name()),
            a.pow(depth),
            |i| format!("{}: {:?}", sc.name(), dec(i)),
            |i, w| {
                let s = dec(i);
                // What the event loop does: restyle what changed and paint, after every step.
                let mut tree = sc.build(&new_log());
                let mut size = (50, 12);
                full(&mut tree, &sheet, &theme);
                paint(&mut tree, size);
                for op in &s {
                    w.step();
                    apply(&mut tree, *op, &mut size);
                    incremental(&mut tree, &sheet, &theme);
                    paint(&mut tree, size);
                }
                let got = paint(&mut tree, size);
                // The same history never painted nor restyled in part.
                let mut fresh = sc.build(&new_log());
                let mut size = (50, 12);
                full(&mut fresh, &sheet, &theme);
                for op in &s {
                    apply(&mut fresh, *op, &mut size);
                    full(&mut fresh, &sheet, &theme);
                }
                let want = paint(&mut fresh, size);
                same(&got, &want)?;
                w.outcome(&got.to_snapshot());
                w.state(&(s, sc.name()));
                Ok(())
            },
        );
    }
}

fn main() {
    main_with(&[("C11", c11), ("C34", c34)]);
}
