//! C15 focus, C16 key dispatch and bubbling, C17 widget queries.
use mc::probe::*;
use mc::*;
use textual::tree::WidgetTree;
use textual::widget::app_widget::AppWidget;
use textual::widget::button::Button;
use textual::widget::command_palette::CommandPalette;
use textual::widget::input::Input;
use textual::widget::label::Label;
use textual::widget::loading_indicator::LoadingIndicator;
use textual::widget::option_list::OptionList;
use textual::widget::placeholder::Placeholder;
use textual::widget::screen::Screen;
use textual::widget::static_widget::Static;
use textual::widget::switch::Switch;
use textual::widget::tooltip::Tooltip;
use textual::widget::Widget;
use textual::{AppContext, EventContext, KeyCode, MessageEnvelope, MountContext};

/// The same request made of the tree, of a handler's context and of a mount handler's context.
macro_rules! via {
    ($way:expr, $tree:expr, $q:ident => $e:expr) => {
        match $way {
            0 => {
                let $q = &mut $tree;
                #[allow(clippy::let_and_return)]
                let r = $e;
                r
            }
            1 => {
                let mut c = EventContext::new(AppContext::new(tokio::sync::mpsc::unbounded_channel().0), &mut $tree);
                let $q = &mut c;
                #[allow(clippy::let_and_return)]
                let r = $e;
                r
            }
            _ => {
                let mut c = MountContext::new(AppContext::new(tokio::sync::mpsc::unbounded_channel().0), &mut $tree);
                let $q = &mut c;
                #[allow(clippy::let_and_return)]
                let r = $e;
                r
            }
        }
    };
}
const WAYS: [&str; 3] = ["the tree", "an event context", "a mount context"];

/// All ordered trees with `n` nodes, as parent arrays in preorder.
fn shapes(n: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    fn go(p: &mut Vec<usize>, n: usize, out: &mut Vec<Vec<usize>>) {
        if p.len() == n {
            out.push(p.clone());
            return;
        }
        // The next node in preorder hangs off any node of the rightmost path.
        let mut a = p.len() - 1;
        loop {
            p.push(a);
            go(p, n, out);
            p.pop();
            if a == 0 {
                break;
            }
            a = p[a];
        }
    }
    go(&mut vec![0], n, &mut out);
    out
}

fn paths_of(shape: &[usize]) -> Vec<Vec<usize>> {
    let mut paths: Vec<Vec<usize>> = vec![vec![]];
    let mut kids = vec![0usize; shape.len()];
    for i in 1..shape.len() {
        let p = shape[i];
        let mut path = paths[p].clone();
        path.push(kids[p]);
        kids[p] += 1;
        paths.push(path);
    }
    paths
}

fn build(shape: &[usize], node: &dyn Fn(usize) -> Probe) -> W1 {
    fn go(shape: &[usize], i: usize, node: &dyn Fn(usize) -> Probe) -> Probe {
        let kids = (i + 1..shape.len()).filter(|&j| shape[j] == i).map(|j| go(shape, j, node).boxed()).collect();
        node(i).kids(kids)
    }
    go(shape, 0, node).boxed()
}

// ---------------------------------------------------------------------------
// C15

#[derive(Clone, Hash, PartialEq, Eq, Debug)]
struct Node {
    parent: usize,
    path: Vec<usize>,
    id: String,
    can_focus: bool,
    /// A leaf of the model whose real children are not looked at.
    opaque: bool,
    shown: bool,
    visible: bool,
    enabled: bool,
}

#[derive(Clone, Hash, PartialEq, Eq, Debug)]
struct Model {
    nodes: Vec<Node>,
    focus: Option<usize>,
    /// Where Tab continues from: the widget that was focused last.
    pos: Vec<usize>,
}

impl Model {
    fn takes_part(&self, mut i: usize) -> bool {
        loop {
            if !self.nodes[i].shown || !self.nodes[i].visible {
                return false;
            }
            if i == 0 {
                return true;
            }
            i = self.nodes[i].parent;
        }
    }
    fn order(&self) -> Vec<usize> {
        (0..self.nodes.len())
            .filter(|&i| self.nodes[i].can_focus && self.nodes[i].enabled && self.takes_part(i))
            .collect()
    }
    fn set(&mut self, i: usize) {
        self.focus = Some(i);
        self.pos = self.nodes[i].path.clone();
    }
}

#[derive(Clone, Debug)]
enum Op {
    Next,
    Prev,
    Nth(usize),
    ById(String),
    Display(usize),
    Visible(usize),
    Enabled(usize),
}

fn apply(tree: &mut WidgetTree<Msg>, m: &mut Model, op: &Op) -> Result<bool, String> {
    let order = m.order();
    match op {
        Op::Next | Op::Prev => {
            let (got, want) = if matches!(op, Op::Next) {
                (
                    tree.focus_next(),
                    (!order.is_empty()).then(|| order.iter().position(|&i| m.nodes[i].path > m.pos).unwrap_or(0)),
                )
            } else {
                (
                    tree.focus_previous(),
                    (!order.is_empty())
                        .then(|| order.iter().rposition(|&i| m.nodes[i].path < m.pos).unwrap_or(order.len() - 1)),
                )
            };
            ensure!(got == want, "{op:?} returned {got:?}, expected {want:?}");
            if let Some(k) = want {
                m.set(order[k]);
                return Ok(true);
            }
        }
        Op::Nth(n) => {
            let got = if n % 2 == 0 { tree.set_focus_index(*n) } else { EventContext::new(AppContext::new(tokio::sync::mpsc::unbounded_channel().0), tree).set_focus_index(*n) };
            ensure!(got == (*n < order.len()), "set_focus_index({n}) returned {got} with {} focusable", order.len());
            if order.is_empty() {
                m.focus = None;
                m.pos = vec![];
            } else if *n < order.len() {
                m.set(order[*n]);
                return Ok(true);
            }
        }
        Op::ById(id) => {
            let got = EventContext::new(AppContext::new(tokio::sync::mpsc::unbounded_channel().0), tree).focus_by_id(id);
            let want = order.iter().copied().find(|&i| m.nodes[i].id == *id);
            ensure!(got == want.is_some(), "focus_by_id({id:?}) returned {got}");
            if let Some(i) = want {
                m.set(i);
                return Ok(true);
            }
        }
        Op::Display(i) => {
            m.nodes[*i].shown ^= true;
            let s = m.nodes[*i].shown;
            at(tree.root_mut(), &m.nodes[*i].path, |w| set_display(w, s));
        }
        Op::Visible(i) => {
            m.nodes[*i].visible ^= true;
            let s = m.nodes[*i].visible;
            at(tree.root_mut(), &m.nodes[*i].path, |w| w.set_visible(s));
        }
        Op::Enabled(i) => {
            m.nodes[*i].enabled ^= true;
            let s = m.nodes[*i].enabled;
            at(tree.root_mut(), &m.nodes[*i].path, |w| w.set_disabled(!s));
        }
    }
    Ok(false)
}

fn focused_widgets(w: &mut dyn Widget<Msg>, path: &mut Vec<usize>, opaque: &[Vec<usize>], out: &mut Vec<Vec<usize>>) {
    if w.is_focused() {
        out.push(path.clone());
    }
    if opaque.contains(path) {
        return;
    }
    for i in 0..w.child_count() {
        path.push(i);
        if let Some(c) = w.get_child_mut(i) {
            focused_widgets(c, path, opaque, out);
        }
        path.pop();
    }
}

fn check_focus(tree: &mut WidgetTree<Msg>, m: &Model, after_move: bool) -> Result<(), String> {
    let order = m.order();
    let n = tree.focusable_count();
    ensure!(n == order.len(), "focusable_count is {n}, {} widgets can take focus", order.len());
    let opaque: Vec<Vec<usize>> = m.nodes.iter().filter(|n| n.opaque).map(|n| n.path.clone()).collect();
    let mut got = vec![];
    focused_widgets(tree.root_mut(), &mut vec![], &opaque, &mut got);
    let want: Vec<Vec<usize>> = m.focus.iter().map(|&i| m.nodes[i].path.clone()).collect();
    ensure!(got == want, "widgets that show focus: {got:?}, expected {want:?}");
    if let Some(i) = m.focus {
        let id = tree.with_focused(|w| w.id().map(String::from)).flatten();
        ensure!(id.as_deref() == Some(m.nodes[i].id.as_str()), "keys go to {id:?}, focus is on {}", m.nodes[i].id);
        let s = tree.focused_sender_info();
        ensure!(s.id == id, "sender is {:?}, focus is on {id:?}", s.id);
        if after_move {
            let k = order.iter().position(|&j| j == i);
            let by = EventContext::new(AppContext::new(tokio::sync::mpsc::unbounded_channel().0), tree).current_focus_index();
            ensure!(
                Some(tree.current_focus_index()) == k && Some(by) == k,
                "current_focus_index is {}, focus is on number {k:?}",
                tree.current_focus_index()
            );
        }
    }
    Ok(())
}

fn run_ops(tree: &mut WidgetTree<Msg>, m: &mut Model, ops: &[&Op], w: &mut W) -> Result<(), String> {
    for (k, op) in ops.iter().enumerate() {
        w.step();
        apply(tree, m, op)
            .and_then(|moved| check_focus(tree, m, moved))
            .map_err(|e| format!("step {k} {op:?}: {e}"))?;
        w.state(m);
    }
    Ok(())
}

fn leaf(kind: usize, id: &str, log: &Log) -> W1 {
    match kind % 4 {
        0 => Box::new(Switch::new(false, |v| format!("switch {v}")).with_id(id)),
        1 => Box::new(Input::<Msg>::new().with_id(id)),
        2 => Box::new(Button::<Msg>::new("b").with_id(id)),
        _ => Probe::new(log).id(id).focusable(true).boxed(),
    }
}

/// App > Screen > K1 [ L1, Wrap [ L2 ], Static ], L3, K2 [ L4 ], beside a tooltip and the command palette.
fn real_tree(k1: usize, k2: usize, wrap: usize, rot: usize, log: &Log) -> (W1, Model) {
    let wrapped = container(["Center", "Middle"][wrap % 2], "", vec![leaf(rot + 1, "l2", log)]);
    let a = container(
        KINDS[k1],
        "k1",
        vec![leaf(rot, "l1", log), wrapped, Box::new(Static::<Msg>::new("x").with_id("s"))],
    );
    let b = container(KINDS[k2], "k2", vec![leaf(rot + 3, "l4", log)]);
    let screen = Screen::new(vec![a, leaf(rot + 2, "l3", log), b]);
    let root = AppWidget::new(vec![
        Box::new(screen) as W1,
        Box::new(Tooltip::<Msg>::new()),
        Box::new(CommandPalette::<Msg>::new()),
    ]);
    let n = |parent: usize, path: &[usize], id: &str, can_focus: bool| Node {
        parent,
        path: path.to_vec(),
        id: id.into(),
        can_focus,
        opaque: false,
        shown: true,
        visible: true,
        enabled: true,
    };
    let mut nodes = vec![
        n(0, &[], "", false),
        n(0, &[0], "", false),
        n(1, &[0, 0], "k1", false),
        n(2, &[0, 0, 0], "l1", true),
        n(2, &[0, 0, 1], "", false),
        n(4, &[0, 0, 1, 0], "l2", true),
        n(1, &[0, 1], "l3", true),
        n(1, &[0, 2], "k2", false),
        n(7, &[0, 2, 0], "l4", true),
        n(0, &[2], "--command-palette", true),
    ];
    nodes[9].opaque = true;
    nodes[9].visible = false;
    (Box::new(root), Model { nodes, focus: None, pos: vec![] })
}

fn real_ops(rot: usize) -> Vec<Op> {
    let mut v = vec![
        Op::Next,
        Op::Prev,
        Op::Nth(0),
        Op::Nth(2),
        Op::Nth(9),
        Op::ById("l2".into()),
        Op::ById("l4".into()),
        Op::ById("k1".into()),
        Op::Display(2),
        Op::Display(3),
        Op::Display(4),
        Op::Display(5),
        Op::Display(7),
        Op::Enabled(6),
        Op::Enabled(8),
        Op::Visible(9),
        Op::ById("--command-palette".into()),
    ];
    // Buttons and inputs cannot be made invisible at run time.
    for (i, off) in [(3usize, 0usize), (5, 1), (8, 3)] {
        if !matches!((rot + off) % 4, 1 | 2) {
            v.push(Op::Visible(i));
        }
    }
    v
}

fn c15(ctx: &Ctx) {
    // Every small tree of probes, every choice of focusable nodes, every operation sequence.
    let n = ctx.pick(4usize, 5);
    let depth = 4u32;
    for n in 2..=n {
        let shapes = shapes(n);
        let depth = if n == 5 { 4 } else { ctx.pick(depth, 5) };
        let ops = |n: usize| {
            let mut v = vec![Op::Next, Op::Prev, Op::Nth(0), Op::Nth(1), Op::ById(format!("n{}", n - 1))];
            for i in 1..n {
                if i % 2 == 0 {
                    v.push(Op::Display(i));
                } else {
                    v.push(Op::Visible(i));
                }
                v.push(Op::Enabled(i));
            }
            v
        };
        let ops = ops(n);
        let a = ops.len() as u64;
        // The root itself is never focusable: the runtime's root is the app.
        let masks = 1u64 << (n - 1);
        let total = shapes.len() as u64 * masks * a.pow(depth);
        let dec = |i: u64| {
            let mut x = Mix(i);
            let seq: Vec<usize> = (0..depth).map(|_| x.pick(a)).collect();
            let mask = x.pick(masks) as u64;
            (x.pick(shapes.len() as u64), mask, seq)
        };
        ctx.explore(
            &format!("focus on trees of {n}"),
            total,
            |i| {
                let (s, mask, seq) = dec(i);
                format!("parents {:?} focusable mask {mask:b} ops {:?}", shapes[s], seq.iter().map(|&k| &ops[k]).collect::<Vec<_>>())
            },
            |i, w| {
                let (s, mask, seq) = dec(i);
                let shape = &shapes[s];
                let log = new_log();
                let can = |i: usize| i > 0 && mask >> (i - 1) & 1 == 1;
                let root = build(shape, &|i| Probe::new(&log).id(&format!("n{i}")).focusable(can(i)));
                let mut tree = WidgetTree::new(root);
                let paths = paths_of(shape);
                let mut m = Model {
                    nodes: (0..n)
                        .map(|i| Node {
                            parent: shape[i],
                            path: paths[i].clone(),
                            id: format!("n{i}"),
                            can_focus: can(i),
                            opaque: false,
                            shown: true,
                            visible: true,
                            enabled: true,
                        })
                        .collect(),
                    focus: None,
                    pos: vec![],
                };
                let seq: Vec<&Op> = seq.iter().map(|&k| &ops[k]).collect();
                run_ops(&mut tree, &mut m, &seq, w)
            },
        );
    }
    // The real containers, leaves, screen, app and palette.
    let configs: Vec<(usize, usize, usize, usize)> = if ctx.thorough() {
        (0..64).map(|i| (i % 8, i / 8, i % 2, (i + i / 8) % 4)).collect()
    } else {
        (0..8).map(|i| (i, (i + 3) % 8, i % 2, i % 4)).collect()
    };
    let depth = 4u32;
    for &(k1, k2, wrap, rot) in &configs {
        let ops = real_ops(rot);
        let a = ops.len() as u64;
        let seq = |i: u64| {
            let mut x = Mix(i);
            (0..depth).map(|_| &ops[x.pick(a)]).collect::<Vec<_>>()
        };
        ctx.explore(
            &format!("focus in {}/{}", KINDS[k1], KINDS[k2]),
            a.pow(depth),
            |i| format!("{} {} wrap {wrap} leaves {rot}: {:?}", KINDS[k1], KINDS[k2], seq(i)),
            |i, w| {
                let log = new_log();
                let (root, mut m) = real_tree(k1, k2, wrap, rot, &log);
                let mut tree = WidgetTree::new(root);
                run_ops(&mut tree, &mut m, &seq(i), w)
            },
        );
    }
    ctx.assume("the root of the tree (the app) is not itself focusable");
}

// ---------------------------------------------------------------------------
// C16

fn c16(ctx: &Ctx) {
    const REACTS: [React; 4] = [React::Pass, React::Replace, React::Stop, React::ReplaceStop];
    // Probe trees: every shape, every reaction of every node, every focusable node.
    for n in 2..=ctx.pick(5usize, 6) {
        let shapes = shapes(n);
        let total = shapes.len() as u64 * 4u64.pow(n as u32);
        let dec = |i: u64| {
            let mut x = Mix(i);
            let r: Vec<React> = (0..n).map(|_| *x.of(&REACTS)).collect();
            (x.pick(shapes.len() as u64), r)
        };
        ctx.explore(
            &format!("bubbling in trees of {n}"),
            total,
            |i| {
                let (s, r) = dec(i);
                format!("parents {:?} reactions {r:?}", shapes[s])
            },
            |i, w| {
                let (s, r) = dec(i);
                let shape = &shapes[s];
                let log = new_log();
                let root = build(shape, &|i| Probe::new(&log).id(&format!("n{i}")).focusable(i > 0).react(r[i]));
                let mut tree = WidgetTree::new(root);
                for f in 1..n {
                    ensure!(tree.set_focus_index(f - 1), "focus n{f}");
                    let up: Vec<usize> = ancestors(shape, f);
                    bubble(&mut tree, &log, &format!("n{f}"), &up.iter().map(|&a| (format!("n{a}"), r[a])).collect::<Vec<_>>(), w)?;
                }
                Ok(())
            },
        );
    }
    // Probes between the real containers.
    // App > Screen > P0 [ C(kind) [ P1 [ P2, P3 ], Q1 ], P4 ]
    let kinds: Vec<&str> = KINDS.iter().copied().chain(["Center", "Middle"]).collect();
    let total = 4u64.pow(5) * kinds.len() as u64 * 3;
    let dec = |i: u64| {
        let mut x = Mix(i);
        let r: Vec<React> = (0..5).map(|_| *x.of(&REACTS)).collect();
        let f = x.pick(3);
        (r, f, *x.of(&kinds))
    };
    ctx.explore(
        "bubbling through real containers",
        total,
        |i| format!("{:?}", dec(i)),
        |i, w| {
            let (r, f, kind) = dec(i);
            let log = new_log();
            let p = |k: usize| Probe::new(&log).id(&format!("p{k}")).react(r[k]);
            let single = kind == "Center" || kind == "Middle";
            let mut kids = vec![p(1).kids(vec![p(2).focusable(true).boxed(), p(3).focusable(true).boxed()]).boxed()];
            if !single {
                kids.push(Probe::new(&log).id("q").react(r[4]).boxed());
            }
            let c = container(kind, "c", kids);
            let screen = Screen::new(vec![
                p(0).kids(vec![c, p(4).focusable(true).boxed()]).boxed(),
                Probe::new(&log).id("aside").react(r[3]).boxed(),
            ]);
            let root = AppWidget::new(vec![
                Box::new(screen) as W1,
                Box::new(Tooltip::<Msg>::new()),
                Box::new(CommandPalette::<Msg>::new()),
            ]);
            let mut tree = WidgetTree::new(Box::new(root) as W1);
            ensure!(tree.set_focus_index(f), "focus {f}");
            let (id, up) = match f {
                0 => ("p2", vec![1, 0]),
                1 => ("p3", vec![1, 0]),
                _ => ("p4", vec![0]),
            };
            bubble(&mut tree, &log, id, &up.iter().map(|&a| (format!("p{a}"), r[a])).collect::<Vec<_>>(), w)
        },
    );
    // With nothing focused, a key is never shown to a widget that is out of the layout.
    let total = 1u64 << 6;
    ctx.explore(
        "keys without focus",
        total * KINDS.len() as u64,
        |i| format!("hidden mask {:b} in {}", i % 64, KINDS[(i / 64) as usize]),
        |i, w| {
            let hidden = i % 64;
            let kind = KINDS[(i / 64) as usize];
            let log = new_log();
            let p = |k: usize| Probe::new(&log).id(&format!("p{k}")).boxed();
            let mut root = AppWidget::new(vec![
                Box::new(Screen::new(vec![container(kind, "c", vec![p(0), p(1)]), p(2)])) as W1,
                Box::new(Tooltip::<Msg>::new()),
                p(3),
            ]);
            let paths: [&[usize]; 6] = [&[0, 0, 0], &[0, 0, 1], &[0, 1], &[2], &[0, 0], &[0]];
            for (k, path) in paths.iter().enumerate() {
                if hidden >> k & 1 == 1 {
                    at(&mut root, path, |w| set_display(w, false));
                }
            }
            let mut tree = WidgetTree::new(Box::new(root) as W1);
            w.step();
            tree.dispatch_key(KeyCode::Char('x'));
            for k in 0..4 {
                let gone = (0..6).any(|h| hidden >> h & 1 == 1 && paths[k].starts_with(paths[h]));
                let seen = log.borrow().iter().any(|l| l.starts_with(&format!("key:p{k}:")));
                ensure!(!(gone && seen), "p{k} is out of the layout but was given the key");
            }
            w.outcome(&*log.borrow());
            Ok(())
        },
    );
}

fn ancestors(shape: &[usize], mut i: usize) -> Vec<usize> {
    let mut v = vec![];
    while i != 0 {
        i = shape[i];
        v.push(i);
    }
    v
}

/// Send a key and a message from the focused widget `id`, with `up` the widgets above it.
fn bubble(tree: &mut WidgetTree<Msg>, log: &Log, id: &str, up: &[(String, React)], w: &mut W) -> Result<(), String> {
    w.steps(2);
    log.borrow_mut().clear();
    tree.dispatch_key(KeyCode::Char('k'));
    let got = std::mem::take(&mut *log.borrow_mut());
    ensure!(got == vec![format!("key:{id}:Char('k')")], "key with focus on {id} went to {got:?}");
    let s = tree.focused_sender_info();
    ensure!(s.id.as_deref() == Some(id) && s.type_name == "Probe", "sender {s:?}");
    let out = tree.bubble_message(MessageEnvelope::new("m".to_string(), s.id.as_deref(), s.type_name));
    let mut want = vec![];
    let mut msg = "m".to_string();
    let mut stopped = false;
    for (a, r) in up {
        want.push(format!("msg:{a}:{msg}"));
        if matches!(r, React::Replace | React::ReplaceStop) {
            msg = format!("{msg}>{a}");
        }
        if matches!(r, React::Stop | React::ReplaceStop) {
            stopped = true;
            break;
        }
    }
    let got = std::mem::take(&mut *log.borrow_mut());
    ensure!(got == want, "message from {id} was seen as {got:?}, expected {want:?}");
    ensure!(out.message == msg, "the app gets {:?}, expected {msg:?}", out.message);
    ensure!(out.is_bubbling() == !stopped, "bubbling {} after the way up", out.is_bubbling());
    ensure!(out.sender_id.as_deref() == Some(id) && out.sender_type == "Probe", "sender changed to {:?} {:?}", out.sender_id, out.sender_type);
    w.outcome(&(got, msg));
    Ok(())
}

// ---------------------------------------------------------------------------
// C17

const TYPES: [&str; 2] = ["Aa", "Bb"];
const IDS: [Option<&str>; 3] = [None, Some("x"), Some("y")];
const SELECTORS: &[(&str, Option<&str>, Option<&str>)] = &[
    ("#x", None, Some("x")),
    ("#y", None, Some("y")),
    ("#z", None, Some("z")),
    ("Aa", Some("Aa"), None),
    ("Bb", Some("Bb"), None),
    ("Cc", Some("Cc"), None),
    ("Aa#x", Some("Aa"), Some("x")),
    ("Bb#y", Some("Bb"), Some("y")),
    (" Bb#x ", Some("Bb"), Some("x")),
    ("", None, None),
];

fn c17(ctx: &Ctx) {
    for n in 1..=ctx.pick(5usize, 6) {
        let shapes = shapes(n);
        let total = shapes.len() as u64 * 6u64.pow(n as u32);
        let dec = |i: u64| {
            let mut x = Mix(i);
            let labels: Vec<(usize, usize)> = (0..n).map(|_| (x.pick(2), x.pick(3))).collect();
            (x.pick(shapes.len() as u64), labels)
        };
        ctx.explore(
            &format!("queries on trees of {n}"),
            total,
            |i| {
                let (s, l) = dec(i);
                format!("parents {:?} labels {:?}", shapes[s], l.iter().map(|&(t, d)| (TYPES[t], IDS[d])).collect::<Vec<_>>())
            },
            |i, w| {
                let (s, l) = dec(i);
                (0..3).try_for_each(|way| query_all(&shapes[s], &l, way, w).map_err(|e| format!("asked of {}: {e}", WAYS[way])))
            },
        );
    }
    // Every real widget, inside every real container, found and changed through a query.
    let all: Vec<&str> = KINDS
        .iter()
        .copied()
        .chain(["Static", "Label", "Button", "Input", "OptionList", "Placeholder", "LoadingIndicator", "Switch"])
        .collect();
    let total = (all.len() * KINDS.len()) as u64;
    ctx.explore(
        "queries on real widgets",
        total,
        |i| format!("{} in {}", all[i as usize % all.len()], KINDS[i as usize / all.len()]),
        |i, w| {
            let kind = all[i as usize % all.len()];
            let host = KINDS[i as usize / all.len()];
            let log = new_log();
            let make = |id: &str| -> W1 {
                match kind {
                    "Static" => Box::new(Static::<Msg>::new("x").with_id(id)),
                    "Label" => Box::new(Label::<Msg>::new("x").with_id(id)),
                    "Button" => Box::new(Button::<Msg>::new("x").with_id(id)),
                    "Input" => Box::new(Input::<Msg>::new().with_id(id)),
                    "OptionList" => Box::new(OptionList::<Msg>::new(vec!["a".into()]).with_id(id)),
                    "Placeholder" => Box::new(Placeholder::new().with_id(id)),
                    "LoadingIndicator" => Box::new(LoadingIndicator::<Msg>::new().with_id(id)),
                    "Switch" => Box::new(Switch::new(false, |v| format!("{v}")).with_id(id)),
                    k => container(k, id, vec![Probe::new(&log).boxed()]),
                }
            };
            let host_w = container(host, "host", vec![make("t"), Probe::new(&log).id("p").boxed(), make("u")]);
            let root = AppWidget::new(vec![Box::new(Screen::new(vec![host_w, make("v")])) as W1, Box::new(Tooltip::<Msg>::new())]);
            let mut tree = WidgetTree::new(Box::new(root) as W1);
            let ids = |tree: &mut WidgetTree<Msg>, sel: &str| {
                let mut v = vec![];
                tree.query(sel).for_each(|w| v.push(w.id().unwrap_or("-").to_string()));
                v
            };
            let mut want: Vec<String> = ["t", "u", "v"].map(String::from).to_vec();
            if kind == host {
                want.insert(0, "host".into());
            }
            w.steps(8);
            let two = |a: Option<bool>, b: Option<bool>| a == Some(true) && b == Some(true);
            ensure!(
                two(
                    EventContext::new(AppContext::new(tokio::sync::mpsc::unbounded_channel().0), &mut tree).screen_mut(|s| s.type_name() == "Screen" && s.child_count() == 2),
                    MountContext::new(AppContext::new(tokio::sync::mpsc::unbounded_channel().0), &mut tree).screen_mut(|s| s.type_name() == "Screen" && s.child_count() == 2)
                ),
                "screen_mut does not give the screen"
            );
            ensure!(ids(&mut tree, kind) == want, "query {kind:?} found {:?}, expected {want:?}", ids(&mut tree, kind));
            for id in ["host", "t", "p", "u", "v"] {
                ensure!(ids(&mut tree, &format!("#{id}")) == [id], "query #{id} found {:?}", ids(&mut tree, &format!("#{id}")));
            }
            ensure!(ids(&mut tree, &format!("{kind}#u")) == ["u"], "query {kind}#u");
            ensure!(
                tree.query_one(&format!("{kind}#v"), |w| w.type_name()) == Some(kind),
                "query_one {kind}#v"
            );
            ensure!(tree.with_widget_by_id("t", |w| w.sender_info().type_name) == Some(kind), "with_widget_by_id t");
            // Grid, ItemGrid and Switch have no classes.
            if !matches!(kind, "Grid" | "ItemGrid" | "Switch") {
                let has = |tree: &mut WidgetTree<Msg>, c: &str| {
                    ["t", "u", "v", "p"].map(|id| {
                        tree.query_one(&format!("#{id}"), |w| (w.has_class(c), w.classes().iter().any(|k| k == c), w.get_meta().classes.iter().any(|k| k == c)))
                    })
                };
                let same = |v: [bool; 4]| v.map(|b| Some((b, b, b)));
                let sel = kind.to_string();
                w.steps(5);
                tree.query(&sel).filter(|w| w.id() != Some("host")).add_class("k");
                ensure!(has(&mut tree, "k") == same([true, true, true, false]), "after add_class on {kind}: {:?}", has(&mut tree, "k"));
                tree.query(&format!("{kind}#u")).remove_class("k");
                ensure!(has(&mut tree, "k") == same([true, false, true, false]), "after remove_class on {kind}#u: {:?}", has(&mut tree, "k"));
                tree.query(&sel).filter(|w| w.id() != Some("host")).toggle_class("k");
                ensure!(has(&mut tree, "k") == same([false, true, false, false]), "after toggle_class on {kind}: {:?}", has(&mut tree, "k"));
                tree.query("#t").set_class(true, "j");
                tree.query("#u").set_class(false, "k");
                ensure!(has(&mut tree, "k") == same([false; 4]) && has(&mut tree, "j") == same([true, false, false, false]), "after set_class on {kind}");
                tree.query("#t").for_each(|w| w.set_classes("a  b"));
                ensure!(has(&mut tree, "j") == same([false; 4]) && has(&mut tree, "b") == same([true, false, false, false]), "after set_classes on {kind}");
            }
            for id in ["t", "u", "v", "p"] {
                tree.with_widget_by_id(id, |w| w.mark_clean());
            }
            tree.query(&format!("{kind}#t")).mark_dirty();
            let got = ["t", "u", "v"].map(|id| tree.with_widget_by_id(id, |w| w.is_dirty()));
            ensure!(got == [Some(true), Some(false), Some(false)], "mark_dirty on {kind}#t: {got:?}");
            if matches!(kind, "Static" | "Label" | "Button" | "Input" | "Switch") {
                tree.query(kind).filter(|w| w.id() != Some("u")).set_disabled(true);
                let got = ["t", "u", "v"].map(|id| tree.with_widget_by_id(id, |w| w.is_disabled()));
                ensure!(got == [Some(true), Some(false), Some(true)], "set_disabled on {kind}: {got:?}");
            }
            if matches!(kind, "Static" | "Label" | "Container" | "Vertical" | "Horizontal") {
                tree.query(&format!("{kind}#t")).for_each(|w| w.set_border_title("T"));
                let got = ["t", "u"].map(|id| tree.with_widget_by_id(id, |w| w.border_title().map(String::from)).flatten());
                ensure!(got == [Some("T".into()), None], "set_border_title on {kind}: {got:?}");
            }
            Ok(())
        },
    );
}

fn query_all(shape: &[usize], l: &[(usize, usize)], way: usize, w: &mut W) -> Result<(), String> {
    let n = shape.len();
    let log = new_log();
    // The title of a node is its number: that is how the test names it.
    let mk = || {
        let root = build(shape, &|i| {
            let mut p = Probe::new(&log).ty(TYPES[l[i].0]);
            p.id = IDS[l[i].1].map(String::from);
            p.title = Some(format!("{i}"));
            p
        });
        WidgetTree::new(root)
    };
    let num = |w: &dyn Widget<Msg>| w.border_title().unwrap().parse::<usize>().unwrap();
    let mut tree = mk();
    for &(sel, ty, id) in SELECTORS {
        w.steps(12);
        let want: Vec<usize> = (0..n)
            .filter(|&i| (ty.is_some() || id.is_some()) && ty.is_none_or(|t| t == TYPES[l[i].0]) && id.is_none_or(|d| IDS[l[i].1] == Some(d)))
            .collect();
        let mut got = vec![];
        via!(way, tree, q => q.query(sel).for_each(|w| got.push(num(w))));
        ensure!(got == want, "{sel:?}: for_each visits {got:?}, expected {want:?}");
        let c = via!(way, tree, q => q.query(sel).count());
        ensure!(c == want.len(), "{sel:?}: count {c}, expected {}", want.len());
        let f = via!(way, tree, q => q.query(sel).first(|w| num(w)));
        ensure!(f == want.first().copied(), "{sel:?}: first {f:?}, expected {:?}", want.first());
        let f = via!(way, tree, q => q.query(sel).last(|w| num(w)));
        ensure!(f == want.last().copied(), "{sel:?}: last {f:?}, expected {:?}", want.last());
        let f = via!(way, tree, q => q.query_one(sel, |w| num(w)));
        ensure!(f == want.first().copied(), "{sel:?}: query_one {f:?}, expected {:?}", want.first());
        let f = via!(way, tree, q => q.query_one_as::<Probe, _, _>(sel, |p| p.title.clone().unwrap().parse::<usize>().unwrap()));
        ensure!(f == want.first().copied(), "{sel:?}: query_one_as {f:?}, expected {:?}", want.first());
        let f = via!(way, tree, q => q.query_one_as::<String, _, _>(sel, |_| ()));
        ensure!(f.is_none(), "{sel:?}: query_one_as found a widget of another type");
        // One filter, and two.
        let odd: Vec<usize> = want.iter().copied().filter(|i| i % 2 == 1).collect();
        let mut got = vec![];
        via!(way, tree, q => q.query(sel).filter(|w| num(w) % 2 == 1).for_each(|w| got.push(num(w))));
        ensure!(got == odd, "{sel:?} filter odd: {got:?}, expected {odd:?}");
        let first = via!(way, tree, q => q.query(sel).filter(|w| num(w) % 2 == 1).first(|w| num(w)));
        let last = via!(way, tree, q => q.query(sel).filter(|w| num(w) % 2 == 1).last(|w| num(w)));
        let count = via!(way, tree, q => q.query(sel).filter(|w| num(w) % 2 == 1).count());
        let f = (first, last, count);
        ensure!(f == (odd.first().copied(), odd.last().copied(), odd.len()), "{sel:?} filter odd: first/last/count {f:?}, expected {odd:?}");
        for swap in [false, true] {
            let both: Vec<usize> = odd.iter().copied().filter(|&i| i > 1).collect();
            let mut got = vec![];
            via!(way, tree, q => {
                let q = q.query(sel);
                let mut q = if swap {
                    q.filter(move |w| num(w) > 1).filter(move |w| num(w) % 2 == 1)
                } else {
                    q.filter(move |w| num(w) % 2 == 1).filter(move |w| num(w) > 1)
                };
                q.for_each(|w| got.push(num(w)))
            });
            ensure!(got == both, "{sel:?} with two filters: {got:?}, expected {both:?}");
        }
        // Bulk changes touch the matches and nothing else.
        let mut t2 = mk();
        via!(way, t2, q => q.query(sel).add_class("k"));
        via!(way, t2, q => q.query(sel).filter(|w| num(w) % 2 == 1).set_visible(false));
        via!(way, t2, q => q.query(sel).filter(|w| num(w) % 2 == 0).set_disabled(true));
        via!(way, t2, q => q.query(sel).filter(|w| num(w) == 0).remove_class("k"));
        let paths = paths_of(shape);
        for i in 0..n {
            let hit = want.contains(&i);
            let got = at(t2.root_mut(), &paths[i], |w| (w.has_class("k"), w.is_visible(), w.is_disabled()));
            let exp = (hit && i != 0, !(hit && i % 2 == 1), hit && i % 2 == 0);
            ensure!(got == exp, "{sel:?}: node {i} (class, visible, disabled) is {got:?}, expected {exp:?}");
        }
        w.outcome(&(sel, want));
    }
    for (t, name) in TYPES.iter().enumerate() {
        let want = (0..n).find(|&i| l[i].0 == t);
        let got = via!(way, tree, q => q.with_widget_by_type(name, |w| num(w)));
        ensure!(got == want, "with_widget_by_type({name}) {got:?}, expected {want:?}");
    }
    for d in ["x", "y", "z"] {
        let want = (0..n).find(|&i| IDS[l[i].1] == Some(d));
        let got = via!(way, tree, q => q.with_widget_by_id(d, |w| num(w)));
        ensure!(got == want, "with_widget_by_id({d}) {got:?}, expected {want:?}");
    }
    w.state(&(shape, l));
    Ok(())
}

fn main() {
    main_with(&[("C15", c15), ("C16", c16), ("C17", c17)]);
}
