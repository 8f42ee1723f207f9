//! C12: undo and redo.
use crate::c13::brackets;
use crate::ed::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcommon::runner::{part, Check, Obs};
use vcommon::{
    ensure, ensure_eq,
    gen::{self, choose, sel, Sel},
    model::*,
};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    words: Words,
    formula: R,
    at: Sel,
    ops: Vec<G>,
}
fn cases(w: Words) -> impl Strategy<Value = Case> {
    let op = prop_oneof![
        6 => op(w),
        1 => Just(G::Undo),
        1 => Just(G::Redo),
    ];
    (formula(w), sel(), prop_oneof![60 => vec(op.clone(), 2..22), 1 => vec(op, 40..150)]).prop_map(move |(formula, at, ops)| Case { words: w, formula, at, ops })
}
fn any_symbols() -> impl Strategy<Value = Case> {
    cases(Words::None)
}
fn own() -> impl Strategy<Value = Case> {
    cases(Words::Own)
}
fn standard() -> impl Strategy<Value = Case> {
    cases(Words::Standard)
}
/// Long stretches of typing, then long stretches of undo and redo with changes between.
fn long() -> impl Strategy<Value = Case> {
    let stretch = prop_oneof![
        3 => vec(prop_oneof![2 => text(Words::Own).prop_map(G::Type), 2 => del().prop_map(G::Remove), 1 => sel().prop_map(G::Start), 1 => sel().prop_map(G::Extend)], 1..8),
        2 => (1usize..8).prop_map(|n| vec![G::Undo; n]),
        2 => (1usize..8).prop_map(|n| vec![G::Redo; n]),
        1 => dir().prop_map(|d| vec![G::Move(d)]),
    ];
    (formula(Words::Own), sel(), vec(stretch, 2..10))
        .prop_map(|(formula, at, ops)| Case { words: Words::Own, formula, at, ops: ops.concat() })
}

/// Many small changes, then back and forth in the whole history.
fn history() -> impl Strategy<Value = Case> {
    let stretch = prop_oneof![
        2 => (1usize..40, gen::sym_plain()).prop_map(|(n, s)| vec![G::Type(vec![s]); n]),
        1 => (1usize..20).prop_map(|n| vec![G::Remove(Del::Left); n]),
        2 => (1usize..50).prop_map(|n| vec![G::Undo; n]),
        2 => (1usize..50).prop_map(|n| vec![G::Redo; n]),
        1 => sel().prop_map(|s| vec![G::Start(s)]),
    ];
    (formula(Words::None), sel(), vec(stretch, 4..10))
        .prop_map(|(formula, at, ops)| Case { words: Words::None, formula, at, ops: ops.concat() })
}

/// An operation that puts in exactly what it takes out, or takes out and puts in nothing, may or may not count
/// as a change; these are left out.
fn is_idle(ed: &mut Ed, f: &R, op: &Op) -> bool {
    if let Op::Accept(_) = op {
        ed.apply(&Op::Open);
    }
    let replaced = |p: &Path, a: usize, b: usize, by: &[N]| f.get(p).unwrap().0[a.min(b)..a.max(b)] == *by;
    match (op, ed.shown()) {
        (Op::Type(v), Shown::Row(p, a, b)) => {
            replaced(&p, a, b, &v.iter().map(|s| N::S(s.clone())).collect::<Vec<_>>())
        }
        (Op::Paste(r), Shown::Row(p, a, b)) => replaced(&p, a, b, &r.0),
        (Op::Splice(p, a, b, r), _) => replaced(p, *a, *b, &r.0),
        (Op::Remove(Del::Range), Shown::Row(_, a, b)) => a == b,
        (Op::Accept(true), Shown::Row(p, _, b)) => ed.e.get_autocomplete().is_some_and(|c| {
            let m = c.get_selected();
            nodes_from_input(&m.rule.result).is_ok_and(|r| replaced(&p, b - m.input_match_length, b, &r))
        }),
        _ => false,
    }
}

fn may_complete(op: &Op) -> bool {
    matches!(
        op,
        Op::Move(_) | Op::Select(_) | Op::Remove(_) | Op::Type(_) | Op::Paste(_) | Op::Start(_) | Op::Extend(_)
    )
}
fn step(ed: &mut Ed, op: &Op, forward: bool, expected: &State, done: &[Op]) -> Result<(), String> {
    let _ = op;
    let word = if forward { "redo" } else { "undo" };
    let r = if forward { ed.apply(&Op::Redo) } else { ed.apply(&Op::Undo) };
    ensure!(r.is_some(), "{word} reports that there is nothing to {word}, expected {expected:?}\nafter {done:?}");
    let s = ed.state()?;
    ensure_eq!(&s, expected, "{word} (found, expected)\nafter {done:?}");
    Ok(())
}

/// The states before and after one entry of the history.
#[derive(Clone)]
struct Entry {
    before: State,
    after: State,
}

fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
    let p = c.formula.positions();
    let at = p[choose(c.at, p.len())].clone();
    let fresh = || Ed::with(c.words, &c.formula, &at, &at);
    let mut ed = fresh();
    let mut done: Vec<Op> = vec![];
    let mut past: Vec<Entry> = vec![];
    let mut future: Vec<Entry> = vec![];
    let initial = usize::from(!c.formula.is_empty());
    for g in &c.ops {
        let before = ed.state()?;
        let op = g.on(&before.formula);
        if !ed.supports(&op) {
            continue;
        }
        if is_idle(&mut ed, &before.formula, &op) {
            // Having looked at the completions may decide which one is selected later.
            ed.apply(&Op::Open);
            done.push(Op::Open);
            continue;
        }
        match &op {
            Op::Undo => {
                if past.is_empty() && initial == 1 {
                    continue; // the change that brought the formula in
                }
                match past.pop() {
                    Some(e) => {
                        step(&mut ed, &op, false, &e.before, &done)?;
                        future.push(e);
                        o.nontrivial();
                        o.label("undo");
                    }
                    None => {
                        ensure!(ed.apply(&op).is_none(), "undo at the beginning reports a change\nafter {done:?}");
                        ensure_eq!(ed.state()?, before, "undo at the beginning changes something\nafter {done:?}");
                        o.label("undo at the beginning");
                    }
                }
                done.push(op);
                continue;
            }
            Op::Redo => {
                match future.pop() {
                    Some(e) => {
                        step(&mut ed, &op, true, &e.after, &done)?;
                        past.push(e);
                        o.nontrivial();
                        o.label("redo");
                    }
                    None => {
                        ensure!(ed.apply(&op).is_none(), "redo at the end reports a change\nafter {done:?}");
                        ensure_eq!(ed.state()?, before, "redo at the end changes something\nafter {done:?}");
                        o.label("redo at the end");
                    }
                }
                done.push(op);
                continue;
            }
            _ => {}
        }
        if let Op::Accept(_) = op {
            done.push(Op::Open);
        }
        ed.apply(&op);
        done.push(op.clone());
        let after = ed.state()?;
        if after.formula == before.formula {
            o.label("operation without a change");
            continue; // not a change, so neither past nor future is affected
        }
        o.label_if(!future.is_empty(), "a change discards the future");
        future.clear();
        if !may_complete(&op) {
            past.push(Entry { before, after });
            continue;
        }
        // The operation may have triggered a completion, which is a change of its own. The state between the
        // two is seen on a second editor with the same history.
        let mut twin = fresh();
        for d in &done {
            twin.apply(d);
        }
        ensure_eq!(twin.state()?, after, "the same history once more\nafter {done:?}");
        ensure!(twin.apply(&Op::Undo).is_some(), "undo reports that there is nothing to undo\nafter {done:?}");
        let between = twin.state()?;
        if between == before {
            past.push(Entry { before, after });
        } else {
            ensure!(
                twin.apply(&Op::Undo).is_some(),
                "undo leads to {between:?}, which is not the state before the change {before:?}\nafter {done:?}"
            );
            // A mere movement that triggers a completion: its undo leads to the state after the movement, and
            // what comes before is an older change.
            if between.formula == before.formula {
                past.push(Entry { before: between, after });
                o.label("completion by moving on");
            } else {
                ensure_eq!(twin.state()?, before, "two times undo (found, expected)\nafter {done:?}");
                past.push(Entry { before, after: between.clone() });
                past.push(Entry { before: between, after });
                o.label("change and completion");
            }
        }
        o.evals(1);
    }
    // All the way back, and all the way forward again.
    let entries = past.len();
    for e in past.iter().rev() {
        step(&mut ed, &Op::Undo, false, &e.before, &done)?;
    }
    if initial == 0 {
        ensure!(ed.apply(&Op::Undo).is_none(), "undo at the beginning reports a change\nafter {done:?} and undoing everything");
        ensure!(ed.formula()?.is_empty(), "undo at the beginning changes the formula\nafter {done:?}");
    } else {
        ensure!(ed.apply(&Op::Undo).is_some(), "the first change cannot be undone\nafter {done:?}");
        ensure!(ed.formula()?.is_empty(), "undoing the first change does not lead to the empty formula\nafter {done:?}");
        ensure!(ed.apply(&Op::Undo).is_none(), "undo at the beginning reports a change\nafter {done:?}");
        ensure!(ed.apply(&Op::Redo).is_some(), "the first change cannot be redone\nafter {done:?}");
        ensure_eq!(ed.formula()?, c.formula.clone(), "redo of the first change\nafter {done:?}");
    }
    for e in past.iter().chain(future.iter().rev()) {
        step(&mut ed, &Op::Redo, true, &e.after, &done)?;
    }
    let end = ed.state()?;
    ensure!(ed.apply(&Op::Redo).is_none(), "redo at the end reports a change\nafter {done:?}");
    ensure_eq!(ed.state()?, end, "redo at the end changes something\nafter {done:?}");
    o.nontrivial_if(entries > 0);
    o.label_if(entries > 4, "more than four changes");
    o.label_if(brackets(&end.formula) > 0, "brackets");
    o.evals(2 * entries + 1);
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C12",
        rule: "A case is a formula, a caret and up to 21 (rarely 150) operations of all kinds including undo and redo (part long: stretches of typing and deleting, undoing and redoing; part history: up to some hundred small changes). The states before and after each change are recorded as they were seen; every undo and redo in the history, and at its end an undo of everything and a redo of everything, must lead to exactly the recorded formula and selection. Where an operation may have triggered a completion, a second editor with the same history shows the state between. Non-trivial when at least one change was undone.",
        assumptions: vec![
            "operations that replace something by the same, or nothing by nothing, are left out (whether they count as changes is not specified)",
        ],
        parts: vec![
            part("any", 96_000, 1_920_000, any_symbols, check),
            part("own", 96_000, 1_920_000, own, check),
            part("standard", 64_000, 1_280_000, standard, check),
            part("long", 24_000, 480_000, long, check),
            part("history", 3_000, 60_000, history, check),
        ],
    }]
}
