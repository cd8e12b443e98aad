//! C41 the ui! macro builds exactly the tree that is written.
//! The programs in programs.rs (all of some families, see gen_ui.py) are expanded by the macro of /repo when this is compiled.
#![allow(unused_variables, unused_parens, clippy::all)]
use mc::*;
use std::cell::Cell;
use std::fmt::Debug;
use textual::widget::Widget;
use textual::{ui, widget, Canvas, Region, Size};

mod programs;

pub type Msg = ();

/// A widget that records how it was made.
pub struct Rec {
    kind: &'static str,
    args: Vec<String>,
    calls: Vec<(&'static str, String)>,
    kids: Option<Vec<Box<dyn Widget<Msg>>>>,
}

impl Rec {
    pub fn of(kind: &'static str, args: Vec<String>) -> Rec {
        Rec { kind, args, calls: vec![], kids: None }
    }
    fn call(mut self, name: &'static str, v: impl Debug) -> Rec {
        self.calls.push((name, format!("{v:?}")));
        self
    }
    pub fn with_id(self, v: impl Debug) -> Rec {
        self.call("id", v)
    }
    pub fn with_classes(self, v: impl Debug) -> Rec {
        self.call("classes", v)
    }
    pub fn with_n(self, v: impl Debug) -> Rec {
        self.call("n", v)
    }
    fn tell(&self) -> String {
        let calls: String = self.calls.iter().map(|(n, v)| format!(".{n}={v}")).collect();
        let kids = self.kids.as_ref().map(|k| format!("{{{}}}", tell(k))).unwrap_or_default();
        format!("{}({}){calls}{kids}", self.kind, self.args.join("|"))
    }
}

fn tell(v: &[Box<dyn Widget<Msg>>]) -> String {
    v.iter().map(|w| w.as_any().and_then(|a| a.downcast_ref::<Rec>()).map(Rec::tell).unwrap_or("?".into())).collect::<Vec<_>>().join(" ")
}

impl Widget<Msg> for Rec {
    fn render(&self, _: &mut Canvas, _: Region) {}
    fn desired_size(&self) -> Size {
        Size::new(1, 1)
    }
    fn as_any(&self) -> Option<&dyn std::any::Any> {
        Some(self)
    }
}

macro_rules! kinds {
    ($($name:ident($($a:ident),*);)*) => {$(
        pub struct $name;
        impl $name {
            #[allow(clippy::new_ret_no_self)]
            pub fn new($($a: impl Debug),*) -> Rec {
                Rec::of(stringify!($name), vec![$(format!("{:?}", $a)),*])
            }
        }
    )*};
}
kinds! { L0(); L1(a); L2(a, b); }

pub struct C0;
impl C0 {
    pub fn new(kids: Vec<Box<dyn Widget<Msg>>>) -> Rec {
        Rec { kids: Some(kids), ..Rec::of("C0", vec![]) }
    }
}
pub struct C1;
impl C1 {
    pub fn new(a: impl Debug, kids: Vec<Box<dyn Widget<Msg>>>) -> Rec {
        Rec { kids: Some(kids), ..Rec::of("C1", vec![format!("{a:?}")]) }
    }
}
pub struct C2;
impl C2 {
    pub fn new(a: impl Debug, b: impl Debug, kids: Vec<Box<dyn Widget<Msg>>>) -> Rec {
        Rec { kids: Some(kids), ..Rec::of("C2", vec![format!("{a:?}"), format!("{b:?}")]) }
    }
}
pub struct F1;
impl F1 {
    pub fn new(f: impl Fn(i32) -> i32) -> Rec {
        Rec::of("F1", vec![f(10).to_string()])
    }
}

pub mod m {
    pub const X: i32 = 5;
    pub fn f(a: i32, b: i32) -> (i32, i32) {
        (a, b)
    }
}

#[derive(Debug)]
pub struct P {
    pub x: i32,
}

pub fn s(n: i32) -> Vec<Box<dyn Widget<Msg>>> {
    (0..n).map(|i| Box::new(Rec::of("S", vec![i.to_string()])) as Box<dyn Widget<Msg>>).collect()
}

thread_local! {
    static TICKS: Cell<usize> = const { Cell::new(0) };
}
pub struct Tick;
impl Debug for Tick {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("tick")
    }
}
pub fn tick() -> Tick {
    TICKS.with(|t| t.set(t.get() + 1));
    Tick
}

fn c41(ctx: &Ctx) {
    let all = programs::PROGRAMS;
    ctx.explore(
        "every program of the families",
        all.len() as u64,
        |i| format!("ui! {{ {} }}", all[i as usize].0),
        |i, w| {
            let (src, want, f) = all[i as usize];
            w.step();
            TICKS.with(|t| t.set(0));
            let got = tell(&f());
            ensure!(got == want, "it builds {got}, written is {want}");
            let (ticks, n) = (TICKS.with(|t| t.get()), src.matches("tick()").count());
            ensure!(ticks == n, "its {n} calls are made {ticks} times");
            w.state(&src);
            w.outcome(&got);
            Ok(())
        },
    );
}

fn main() {
    main_with(&[("C41", c41)]);
}
