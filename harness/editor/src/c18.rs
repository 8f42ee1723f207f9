//! C18: accepting completions; C22: the syntax tree is current.
use crate::c13::brackets;
use crate::ed::*;
use crate::model::{arrow, shown};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use setup::T;
use vcommon::runner::{part, Check, Obs};
use vcommon::{
    ensure, ensure_eq,
    gen::{choose, sel, Sel},
    model::*,
};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    words: Words,
    formula: R,
    at: Sel,
    ops: Vec<G>,
}
fn cases(w: Words, max: usize) -> impl Strategy<Value = Case> {
    let op = prop_oneof![
        8 => dir().prop_map(G::Move),
        2 => dir().prop_map(G::Select),
        2 => del().prop_map(G::Remove),
        6 => text(w).prop_map(G::Type),
        4 => sel().prop_map(G::Start),
        1 => sel().prop_map(G::Extend),
        6 => Just(G::Accept(true)),
        1 => Just(G::Accept(false)),
        6 => any::<bool>().prop_map(G::Choose),
        1 => Just(G::Undo),
        1 => Just(G::Redo),
    ];
    (formula(w), sel(), prop_oneof![60 => vec(op.clone(), 1..max), 1 => vec(op, 30..90)]).prop_map(move |(formula, at, ops)| Case { words: w, formula, at, ops })
}
fn own() -> impl Strategy<Value = Case> {
    cases(Words::Own, 10)
}
fn standard() -> impl Strategy<Value = Case> {
    cases(Words::Standard, 8)
}

/// The completion the editor has selected.
struct Selected {
    word: String,
    result: Vec<N>,
    length: usize,
    complete: bool,
}
fn text_of(v: &[N]) -> Option<String> {
    v.iter().map(|n| if let N::S(s) = n { Some(s.as_str()) } else { None }).collect()
}
fn selected(ed: &mut Ed, w: Words, s: &State, o: &mut Obs) -> Result<Option<Selected>, String> {
    let Some(all) = ed.e.get_autocomplete() else { return Ok(None) };
    let m = all.get_selected();
    let x = Selected {
        word: m.rule.parser.clone(),
        result: nodes_from_input(&m.rule.result)?,
        length: m.input_match_length,
        complete: m.is_complete_match(),
    };
    let (path, at) = s.shown.place().ok_or("completions are offered for a selection")?;
    ensure!(x.length <= at, "the completion {:?} covers {} symbols at {at}", x.word, x.length);
    let row = s.formula.get(&path).unwrap();
    let found = text_of(&row.0[at - x.length..at]);
    ensure!(
        found.as_ref().is_some_and(|t| x.word.starts_with(t) && (*t == x.word) == x.complete),
        "the completion {:?} (complete: {}) is offered for {found:?}", x.word, x.complete
    );
    match w {
        Words::Own => ensure!(
            own_words().iter().any(|(t, r)| *t == x.word && r.0 == x.result),
            "the completion {:?} with {:?} is not one of the rules", x.word, x.result
        ),
        _ => ensure!(PUBLISHED.contains(&x.word.as_str()), "{:?} is not one of the rules", x.word),
    }
    o.label(if x.complete { "complete word selected" } else { "incomplete word selected" });
    Ok(Some(x))
}

/// Where a place may be after `len` elements at `at` of the row `path` were replaced by `n` others: a place within
/// or at the edge of what was replaced is in front of the new elements (`behind: false`) or behind them.
fn track(p: &Pos, path: &Path, at: usize, len: usize, n: usize, behind: bool) -> Pos {
    let mut p = p.clone();
    if p.0 == *path {
        if p.1 > at + len {
            p.1 = p.1 - len + n;
        } else if p.1 >= at {
            p.1 = if behind { at + n } else { at };
        }
    } else if p.0.len() > path.len() && p.0[..path.len()] == path[..] && p.0[path.len()].0 >= at {
        p.0[path.len()].0 = p.0[path.len()].0 - len + n;
    }
    p
}
fn replaced(f: &R, path: &Path, at: usize, len: usize, by: &[N]) -> R {
    let mut f = f.clone();
    f.get_mut(path).unwrap().0.splice(at..at + len, by.iter().cloned());
    f
}

/// Checks one operation at a caret.
fn step(ed: &mut Ed, w: Words, before: &State, op: &Op, o: &mut Obs) -> Result<(), String> {
    let a = selected(ed, w, before, o)?;
    let Some(at) = before.shown.place() else {
        ed.apply(op);
        return Ok(());
    };
    let (path, offset) = at.clone();
    match op {
        Op::Undo | Op::Redo => {
            ed.apply(op);
            return Ok(());
        }
        Op::Choose(up) => {
            let list = |ed: &mut Ed| {
                ed.e.get_autocomplete().map(|a| {
                    let (i, m, _) = a.destructure();
                    (i, m.iter().map(|m| (m.rule.parser.clone(), m.input_match_length)).collect::<Vec<_>>())
                })
            };
            let old = list(ed);
            let r = ed.apply(op);
            ensure_eq!(r.is_some(), old.is_some(), "moving in the completions reports something else than there is");
            ensure_eq!(ed.state()?, before.clone(), "moving in the completions changes something else");
            let new = list(ed);
            if let (Some((i, m)), Some((j, n))) = (&old, &new) {
                ensure_eq!(m, n, "moving in the completions changes their list");
                let mut words: Vec<_> = m.iter().map(|x| &x.0).collect();
                words.sort();
                words.dedup();
                if words.len() == m.len() {
                    let to = if *up { i.saturating_sub(1) } else { (i + 1).min(m.len() - 1) };
                    ensure_eq!(*j, to, "moving {} from completion {i} of {m:?}", if *up { "up" } else { "down" });
                    o.label_if(i != j, "moved in the completions");
                }
            }
            return Ok(());
        }
        Op::Accept(accept) => {
            let r = ed.apply(op);
            let after = ed.state()?;
            let Some(a) = a.filter(|_| *accept) else {
                ensure!(r.is_none(), "a completion is reported as accepted where there is none");
                ensure_eq!(after, before.clone(), "{op:?} without a completion changes something");
                return Ok(());
            };
            o.nontrivial();
            o.label(if a.complete { "accepted a complete word" } else { "accepted an incomplete word" });
            o.label_if(!path.is_empty(), "accepted below the outermost row");
            ensure!(r.is_some(), "accepting {:?} reports nothing", a.word);
            let start = offset - a.length;
            ensure_eq!(
                after.formula,
                replaced(&before.formula, &path, start, a.length, &a.result),
                "accepting {:?} for {} symbols at {at:?} of {:?}", a.word, a.length, before.formula
            );
            let edges = [start, start + a.result.len()].map(|x| Shown::at(&(path.clone(), x)));
            ensure!(
                edges.contains(&after.shown),
                "accepting {:?} for {} symbols at {at:?} of {:?} leads to the caret {:?}", a.word, a.length, before.formula, after.shown
            );
            one_change(ed, before, &after)?;
            return Ok(());
        }
        _ => {}
    }
    // What the operation does where no words are known.
    let mut plain = Ed::with(Words::None, &before.formula, &at, &at);
    plain.apply(op);
    let plain = plain.state()?;
    ed.apply(op);
    let after = ed.state()?;
    let Some(a) = a.filter(|a| a.complete) else {
        ensure_eq!(after, plain, "{op:?} at {at:?} of {:?}, where no complete word is selected", before.formula);
        o.label("moved on without a word");
        return Ok(());
    };
    let start = offset - a.length;
    let moved_only = plain.formula == before.formula;
    // Which of the two outcomes, untouched or replaced, are right.
    let intact = plain.formula.get(&path).is_some_and(|r| {
        r.len() >= offset && text_of(&r.0[start..offset]).as_deref() == Some(a.word.as_str())
    });
    let (may_stay, may_replace) = match &plain.shown {
        _ if !moved_only => (true, intact),
        Shown::Row(p, s, e) => {
            let inside = *p == path && start <= *s && *s <= offset;
            if s == e {
                (inside, !inside)
            } else {
                (true, !inside)
            }
        }
        Shown::Grid(..) => (true, true),
    };
    if may_stay && after == plain {
        o.label(if moved_only { "still in the word" } else { "typed or deleted at a word" });
        return Ok(());
    }
    ensure!(
        may_replace,
        "{op:?} at {at:?} of {:?}: expected {plain:?}, since the caret has not left {:?}, found {after:?}", before.formula, a.word
    );
    let n = a.result.len();
    let formula = replaced(&plain.formula, &path, start, a.length, &a.result);
    let through = |p: &Pos, behind: bool| track(p, &path, start, a.length, n, behind);
    let other_end = match (plain.shown.place(), op) {
        (Some(_), _) => None,
        (None, Op::Extend(p)) => Some(p.clone()),
        (None, Op::Select(d)) => arrow(&before.formula, &path, offset, offset, *d),
        _ => None,
    };
    ensure_eq!(after.formula, formula, "{op:?} at {at:?} of {:?}, moving on from the complete word {:?}", before.formula, a.word);
    let mut right = vec![];
    for x in [false, true] {
        match (plain.shown.place(), &other_end) {
            (Some(p), _) => right.push(Shown::at(&through(&p, x))),
            (None, Some(p)) => right.extend([false, true].map(|y| shown(&formula, &through(&at, x), &through(p, y)))),
            (None, None) => right.push(after.shown.clone()),
        }
    }
    ensure!(
        right.contains(&after.shown),
        "caret {:?}, not one of {right:?}, after {op:?} at {at:?} of {:?}, moving on from the complete word {:?}", after.shown, before.formula, a.word
    );
    o.nontrivial();
    o.label("completed by moving on");
    o.label_if(!path.is_empty(), "completed by moving on below the outermost row");
    o.label_if(start > 0, "completed by moving on, behind other elements");
    if formula != plain.formula {
        one_change(ed, &plain, &after)?;
    }
    Ok(())
}
/// The last change led from `before` to `after`.
fn one_change(ed: &mut Ed, before: &State, after: &State) -> Result<(), String> {
    ensure!(ed.apply(&Op::Undo).is_some(), "a completion cannot be undone");
    ensure_eq!(ed.state()?, before.clone(), "undo of a completion");
    ensure!(ed.apply(&Op::Redo).is_some(), "a completion cannot be redone");
    ensure_eq!(ed.state()?, after.clone(), "redo of a completion");
    Ok(())
}

fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
    let p = c.formula.positions();
    let at = p[choose(c.at, p.len())].clone();
    let mut ed = Ed::with(c.words, &c.formula, &at, &at);
    let mut done: Vec<Op> = vec![];
    let mut closed = false;
    let mut selected = None;
    for g in &c.ops {
        let before = ed.state()?;
        let op = g.on(&before.formula);
        if !ed.supports(&op) {
            continue;
        }
        // Completions that were not offered before begin with the first.
        let look = |ed: &mut Ed| {
            ed.e.get_autocomplete().map(|a| {
                let (i, m, _) = a.destructure();
                (i, m.iter().map(|m| (m.rule.parser.clone(), m.rule.result.clone())).collect::<Vec<_>>())
            })
        };
        let offered = look(&mut ed);
        if let (true, Some((i, _))) = (closed, &offered) {
            ensure_eq!(*i, 0, "the completion selected where none were offered before, at {:?} of {:?}\nafter {done:?}", before.shown, before.formula);
            o.label("completions newly offered");
        }
        // Looking at them selects nothing.
        let again = look(&mut ed);
        ensure_eq!(again, offered, "the completions at {:?} of {:?}, looked at again\nafter {done:?}", before.shown, before.formula);
        // The one selected stays so while it is offered.
        if let (Some(rule), Some((i, m))) = (&selected, &offered) {
            if m.contains(rule) {
                ensure_eq!(&m[*i], rule, "the completion selected at {:?} of {:?} among {m:?}, where the one selected just before is offered too\nafter {done:?}", before.shown, before.formula);
                o.label_if(*i > 0, "a later completion stays selected");
            }
        }
        closed = offered.is_none() && before.shown.place().is_some();
        step(&mut ed, c.words, &before, &op, o).map_err(|e| format!("{e}\nbefore that: {done:?}"))?;
        selected = if matches!(op, Op::Choose(_)) {
            look(&mut ed).map(|(i, m)| m[i].clone())
        } else {
            offered.map(|(i, m)| m[i].clone())
        };
        done.push(op);
        o.evals(1);
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Asked {
    formula: R,
    at: Sel,
    ops: Vec<(G, bool)>,
}
fn asked() -> impl Strategy<Value = Asked> {
    let w = Words::Standard;
    (formula(w), sel(), prop_oneof![60 => vec((op(w), proptest::bool::weighted(0.7)), 1..14), 1 => vec((op(w), proptest::bool::weighted(0.7)), 40..120)])
        .prop_map(|(formula, at, ops)| Asked { formula, at, ops })
}
thread_local! {
    static OTHER: setup::Setup = setup::setup();
}
fn asked_check(c: &Asked, o: &mut Obs) -> Result<(), String> {
    let p = c.formula.positions();
    let at = p[choose(c.at, p.len())].clone();
    let mut ed = Ed::with(Words::Standard, &c.formula, &at, &at);
    let names = setup::shared();
    let mut done: Vec<Op> = vec![];
    let mut last: Option<R> = None;
    let mut look = |ed: &mut Ed, done: &[Op], o: &mut Obs| -> Result<(), String> {
        let f = ed.formula()?;
        if brackets(&f) > 5 {
            return Ok(());
        }
        let input = f.to_input();
        let fresh = OTHER.with(|s| T::of(&s.parser.parse(&input.values), s))?;
        let again = OTHER.with(|s| T::of(&s.parser.parse(&input.values), s))?;
        let found = T::of(ed.e.get_syntax_tree(), &names)?;
        ensure!(found == fresh, "the syntax tree is {found:?}\nbut {f:?} is {fresh:?}\nafter {done:?}");
        ensure!(fresh == again, "parsing {f:?} twice gives different trees");
        o.evals(1);
        if last.as_ref().is_some_and(|l| *l != f) {
            o.nontrivial();
        }
        last = Some(f);
        Ok(())
    };
    look(&mut ed, &done, o)?;
    for (g, ask) in &c.ops {
        let f = ed.formula()?;
        let op = g.on(&f);
        if !ed.supports(&op) {
            continue;
        }
        ed.apply(&op);
        done.push(op);
        if *ask {
            look(&mut ed, &done, o)?;
            let op = format!("{:?}", done.last().unwrap());
            if ed.formula()? != f {
                o.label(format!("asked after a change by {}", op.split(|c: char| !c.is_alphabetic()).next().unwrap_or("")));
            }
        }
    }
    look(&mut ed, &done, o)
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C18",
            rule: "A case is a formula in which words of the rules stand at many places, a caret, and up to nine operations (moving, typing, deleting, choosing among completions, accepting them, undo, redo). Every operation at a caret is compared with what it does in an editor without rules; where the selected completion was complete and the caret left its symbols, exactly these must have been replaced, as one change. Part own uses nine overlapping rules of our own (results of 0 to 4 elements), part standard the published ones. Non-trivial when a completion is accepted, explicitly or by moving on.",
            assumptions: vec![
                "typing or deleting directly at a complete word may, but need not, complete it (the code documents the wish for both); so may a selection of which only one end leaves the word",
                "moving among the completions is compared only where no rule matches in two ways",
            ],
            parts: vec![part("own", 540_000, 10_800_000, own, check), part("standard", 270_000, 5_400_000, standard, check)],
        },
        Check {
            id: "C22",
            rule: "A case is a formula, a caret and up to 13 (rarely 120) operations of all kinds, after most of which the syntax tree is asked for and compared with the tree another parser gives for the current formula. Non-trivial when the formula changed between two questions.",
            assumptions: vec!["no question is asked while more than five opening brackets stand in the formula (see the known finding of C19)"],
            parts: vec![part("asked", 40_000, 800_000, asked, asked_check)],
        },
    ]
}
