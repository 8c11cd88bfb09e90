//! What the pictures of a program must show, before it runs and of its execution.
use crate::case::*;
use crate::laws::{viol, Viol};
use crate::real::{law, log, Log};
use dam::simulation::{DotConvertible, Executed, Initialized};
use graphviz_rust::dot_structures::*;
use std::collections::{BTreeMap, BTreeSet};

/// A context in a picture.
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone)]
struct Item {
    id: usize,
    label: String,
    /// The clock shown, if any.
    time: Option<u64>,
    parts: Vec<Item>,
}

#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone)]
struct Arrow {
    from: usize,
    to: usize,
    label: String,
    numbers: Vec<u64>,
}

#[derive(Debug, PartialEq, Eq, Clone)]
struct Picture {
    items: Vec<Item>,
    arrows: Vec<Arrow>,
}

fn numbers(s: &str) -> Vec<u64> {
    s.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).filter_map(|x| x.parse().ok()).collect()
}

fn text(i: &Id) -> String {
    match i {
        Id::Html(s) | Id::Escaped(s) | Id::Plain(s) | Id::Anonymous(s) => s.trim_matches('"').to_string(),
    }
}

fn attr(l: &[Attribute], name: &str) -> Option<String> {
    l.iter().find(|a| text(&a.0) == name).map(|a| text(&a.1))
}

/// The context a node or cluster stands for.
fn whose(i: &Id) -> Result<usize, String> {
    let t = text(i);
    match numbers(&t)[..] {
        [n] => Ok(n as usize),
        _ => Err(format!("a node is called {t:?}")),
    }
}

fn vertex(v: &Vertex) -> Result<usize, String> {
    match v {
        Vertex::N(n) => whose(&n.0),
        Vertex::S(s) => Err(format!("an arrow ends in {s:?}")),
    }
}

fn item(s: &Stmt) -> Result<Option<Item>, String> {
    Ok(match s {
        Stmt::Node(n) => Some(Item {
            id: whose(&n.id.0)?,
            label: attr(&n.attributes, "label").ok_or("a node has no label")?,
            time: attr(&n.attributes, "tooltip").and_then(|t| numbers(&t).first().copied()),
            parts: vec![],
        }),
        Stmt::Subgraph(g) => {
            let mut own: Vec<Attribute> = vec![];
            for s in &g.stmts {
                match s {
                    Stmt::Attribute(a) => own.push(a.clone()),
                    Stmt::GAttribute(GraphAttributes::Graph(l)) => own.extend(l.iter().cloned()),
                    _ => {}
                }
            }
            let mut parts = vec![];
            for s in &g.stmts {
                parts.extend(item(s)?);
            }
            parts.sort();
            Some(Item {
                id: whose(&g.id)?,
                label: attr(&own, "label").ok_or("a cluster has no label")?,
                time: attr(&own, "tooltip").and_then(|t| numbers(&t).first().copied()),
                parts,
            })
        }
        _ => None,
    })
}

fn arrows(stmts: &[Stmt], out: &mut Vec<Arrow>) -> Result<(), String> {
    for s in stmts {
        match s {
            Stmt::Subgraph(g) => arrows(&g.stmts, out)?,
            Stmt::Edge(e) => {
                let EdgeTy::Pair(a, b) = &e.ty else { return Err(format!("an arrow is {e:?}")) };
                out.push(Arrow {
                    from: vertex(a)?,
                    to: vertex(b)?,
                    label: attr(&e.attributes, "label").unwrap_or_default(),
                    numbers: attr(&e.attributes, "tooltip").map(|t| numbers(&t)).unwrap_or_default(),
                });
            }
            _ => {}
        }
    }
    Ok(())
}

fn read(g: &Graph) -> Result<Picture, String> {
    let Graph::DiGraph { stmts, .. } = g else { return Err("it has no directions".into()) };
    let mut p = Picture { items: vec![], arrows: vec![] };
    for s in stmts {
        p.items.extend(item(s)?);
    }
    arrows(stmts, &mut p.arrows)?;
    p.items.sort();
    p.arrows.sort();
    Ok(p)
}

/// The picture of `x`, which is the same every time.
fn picture(x: &impl DotConvertible) -> Result<Picture, String> {
    let g = x.to_dot();
    let p = read(&g)?;
    if read(&x.to_dot())? != p {
        return Err("it differs from one call to the next".into());
    }
    if p.items.len() + p.arrows.len() < 12 {
        // its text has to say the same
        TEXTS.with(|t| t.borrow_mut().push((x.to_dot_string(), p.clone())));
    }
    Ok(p)
}

thread_local! {
    /// Texts of pictures, which are read when the simulation is over (the parser wants a stack of its own).
    static TEXTS: std::cell::RefCell<Vec<(String, Picture)>> = Default::default();
}

pub fn texts() -> Vec<Viol> {
    let all = TEXTS.with(|t| std::mem::take(&mut *t.borrow_mut()));
    let check = |(s, p): &(String, Picture)| {
        let q = graphviz_rust::parse(s).map_err(|e| format!("the text of a picture is no graph: {e} in {s}"))?;
        match read(&q)? == *p {
            true => Ok(()),
            false => Err(format!("the text of a picture shows something else: {s}")),
        }
    };
    all.iter().filter_map(|x| check(x).err()).map(|e| viol("dot", e)).collect()
}

struct Known<'a> {
    p: &'a Prog,
    l: Log,
    /// What stands for parts of a PMU: the PMU's context.
    inner: BTreeMap<usize, usize>,
    seen: BTreeSet<usize>,
}

impl Known<'_> {
    fn once(&mut self, id: usize) -> Result<(), String> {
        self.seen.insert(id).then_some(()).ok_or(format!("context {id} appears twice"))
    }

    fn label(&self, it: &Item, name: Option<&str>) -> Result<(), String> {
        if !numbers(&it.label).contains(&(it.id as u64)) || name.is_some_and(|n| !it.label.contains(n)) {
            return Err(format!("context {} ({name:?}) is labelled {:?}", it.id, it.label));
        }
        Ok(())
    }

    /// Context `i` of the program; `ran` if this is about its execution.
    fn context(&mut self, it: &Item, i: usize, ran: bool) -> Result<(), String> {
        self.once(it.id)?;
        self.label(it, Some(&self.l.names[i]))?;
        let c = &self.p.ctxs[i];
        if matches!(c, Ctx::Pmu { .. }) {
            if it.parts.len() != 2 {
                return Err(format!("PMU {i} has the parts {:?}", it.parts));
            }
            for k in &it.parts {
                self.once(k.id)?;
                self.label(k, None)?;
                if self.l.ids.contains(&k.id) || !k.parts.is_empty() {
                    return Err(format!("a part of PMU {i} is {k:?}"));
                }
                self.inner.insert(k.id, i);
            }
            self.parts(it, ran)?;
        } else if !it.parts.is_empty() {
            return Err(format!("context {i} has the parts {:?}", it.parts));
        }
        if ran && !c.library() && it.time != Some(self.l.fin[i]) {
            return Err(format!("context {i} ended at {} and is shown with {:?}", self.l.fin[i], it.time));
        }
        Ok(())
    }

    fn group(&mut self, it: &Item, g: usize, ran: bool) -> Result<(), String> {
        self.once(it.id)?;
        self.label(it, Some("Composite"))?;
        let p = self.p;
        let mut want: BTreeMap<usize, Result<usize, usize>> = BTreeMap::new();
        for i in (0..p.ctxs.len()).filter(|i| p.nest.get(*i) == Some(&Some(g))) {
            want.insert(self.l.ids[i], Ok(i));
        }
        for h in (0..p.gnest.len()).filter(|h| p.gnest[*h] == Some(g)) {
            if let Some(id) = self.l.gids[h] {
                want.insert(id, Err(h));
            }
        }
        for k in &it.parts {
            match want.remove(&k.id) {
                Some(Ok(i)) => self.context(k, i, ran)?,
                Some(Err(h)) => self.group(k, h, ran)?,
                None => return Err(format!("composite {g} has a part {k:?}")),
            }
        }
        if !want.is_empty() {
            return Err(format!("composite {g} lacks {want:?}"));
        }
        self.parts(it, ran)
    }

    /// The clock of what has parts is that of one of them (which one is open, as they all have ended).
    fn parts(&self, it: &Item, ran: bool) -> Result<(), String> {
        if ran && !it.parts.iter().any(|k| k.time == it.time) {
            return Err(format!("the clock shown is that of no part: {it:?}"));
        }
        Ok(())
    }
}

fn times(it: &Item, out: &mut Vec<Option<u64>>) {
    out.push(it.time);
    it.parts.iter().for_each(|k| times(k, out));
}

/// `failed`: the identifiers of the contexts that are not shown, as they failed.
fn judge(prog: usize, p: &Prog, pic: &Picture, failed: &[usize], ran: bool) -> Result<Vec<Option<u64>>, String> {
    let mut k = Known { p, l: log(prog, |l| l.clone()), inner: BTreeMap::new(), seen: BTreeSet::new() };
    let mut want: BTreeMap<usize, Result<usize, usize>> = BTreeMap::new();
    for i in 0..p.ctxs.len() {
        let id = k.l.units[i];
        if !failed.contains(&id) {
            want.insert(id, p.root(i).map_or(Ok(i), Err));
        }
    }
    let mut t = vec![];
    for it in &pic.items {
        match want.remove(&it.id) {
            Some(Ok(i)) => k.context(it, i, ran)?,
            Some(Err(g)) => k.group(it, g, ran)?,
            None => return Err(format!("it shows {it:?}, which is none of the contexts expected")),
        }
        times(it, &mut t);
    }
    if !want.is_empty() {
        return Err(format!("contexts are missing: {:?}", want.keys()));
    }
    let ends = p.ends();
    let mut chans: BTreeMap<u64, Ch> = BTreeMap::new();
    for (c, s) in p.chans.iter().enumerate() {
        if !s.void {
            chans.insert(numbers(&k.l.chan_ids[c])[0], c);
        }
    }
    for a in &pic.arrows {
        let n = numbers(&a.label);
        let Some(c) = (n.len() == 1).then(|| chans.remove(&n[0])).flatten() else {
            return Err(format!("it shows {a:?}, which is no channel, or not the first time"));
        };
        let s = &p.chans[c];
        let spec: Vec<u64> = if s.plain {
            s.cap.iter().map(|x| *x as u64).chain([1, 1]).collect()
        } else {
            s.cap.iter().map(|x| *x as u64).chain([s.lat, s.resp]).collect()
        };
        if a.numbers != spec {
            return Err(format!("ch{c} ({s:?}) is shown as {:?}", a.numbers));
        }
        for (e, at, what) in [(ends[c].0, a.from, "begins"), (ends[c].1, a.to, "ends")] {
            let i = e.ok_or("no such end")?;
            let ok = match &p.ctxs[i] {
                // a part of a PMU; unknown ones if that PMU is not shown
                Ctx::Pmu { .. } => match k.inner.get(&at) {
                    Some(j) => *j == i,
                    None => failed.contains(&k.l.units[i]) && !k.l.ids.contains(&at),
                },
                _ => at == k.l.ids[i],
            };
            if !ok {
                return Err(format!("ch{c} {what} at context {at} instead of {} (context {i})", k.l.ids[i]));
            }
        }
    }
    if !chans.is_empty() {
        return Err(format!("channels are missing: {:?}", chans.values()));
    }
    Ok(t)
}

pub fn initialized(prog: usize, p: &Prog, x: &Initialized<'_>) {
    if let Err(e) = picture(x).and_then(|pic| judge(prog, p, &pic, &[], false)) {
        law("dot", format!("the picture of the program: {e}"));
    }
}

pub fn executed(prog: usize, p: &Prog, x: &Executed<'_>) {
    let failed: Vec<usize> = x.run_failures(|f| {
        f.iter().filter_map(|e| numbers(&e.to_string()).first().map(|n| *n as usize)).collect()
    });
    let r = picture(x).and_then(|pic| {
        let t = judge(prog, p, &pic, &failed, true)?;
        let last = t.iter().max().copied().flatten();
        if t.iter().any(|t| t.is_none()) || last != x.elapsed_cycles() {
            return Err(format!("the clocks shown are {t:?}, elapsed_cycles() = {:?}", x.elapsed_cycles()));
        }
        Ok(())
    });
    if let Err(e) = r {
        law("dot", format!("the picture of the execution: {e}"));
    }
}
