//! C27: names and numbers of syntax nodes.
use crate::soup;
use parser::syntax_tree::{PathIdentifier, SyntaxNodeNameId, SyntaxNodeNameMap};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use setup::{parse, setup, shared};
use std::collections::{BTreeMap, HashSet};
use unicode_ident::{is_xid_continue, is_xid_start};
use vcommon::runner::{guarded, part, Check, Obs};
use vcommon::{ensure, ensure_eq, gen::*, model::*};

const PARTS: &[&str] = &["A", "B", "Add", "BuiltIn", "é", "中", "a1", "x_y", "ℝ", "AB"];

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Names {
    ops: Vec<(bool, Vec<String>)>,
}
fn names() -> impl Strategy<Value = Names> {
    {
    let op = || (prop::bool::weighted(0.7), prop_oneof![30 => vec(pick(PARTS), 2..4), 1 => vec(pick(PARTS), 4..12)]);
    prop_oneof![40 => vec(op(), 0..30), 1 => vec(op(), 30..400)]
}
.prop_map(|ops| Names { ops })
}
fn names_check(c: &Names, o: &mut Obs) -> Result<(), String> {
    let mut map = SyntaxNodeNameMap::new();
    let mut model: BTreeMap<Vec<String>, SyntaxNodeNameId> = BTreeMap::new();
    for (add, name) in &c.ops {
        let path = PathIdentifier::new(name.clone());
        if *add {
            let id = map.add(path.clone());
            match model.get(name) {
                Some(old) => {
                    o.label("registered again");
                    ensure_eq!(id, *old, "number of {name:?} when registered again");
                }
                None => {
                    ensure!(!model.values().any(|v| *v == id), "{name:?} gets {id:?}, which is taken");
                    model.insert(name.clone(), id);
                }
            }
        }
        ensure_eq!(map.get(&path), model.get(name).copied(), "number of {name:?}");
    }
    for (name, id) in &model {
        let path = PathIdentifier::new(name.clone());
        ensure_eq!(map.get(&path), Some(*id), "number of {name:?} at the end");
        ensure_eq!(map.get_reverse(*id), Some(&path), "name of {id:?}");
        ensure_eq!(path.to_string(), name.join("::"), "text of {name:?}");
        o.evals(3);
    }
    for i in 0..40 {
        let id = SyntaxNodeNameId::new(i);
        let known = model.values().any(|v| *v == id);
        ensure_eq!(map.get_reverse(id).is_some(), known, "whether number {i} has a name");
    }
    o.nontrivial_if(model.len() > 1);
    Ok(())
}

/// Many names, as with modules generated by a program.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Many {
    names: u32,
    spaces: u32,
    again: u32,
}
fn many() -> impl Strategy<Value = Many> {
    let names = prop_oneof![3 => 200u32..1200, 1 => 1200u32..5000];
    (names, 1u32..20, 1u32..50).prop_map(|(names, spaces, again)| Many { names, spaces, again })
}
fn many_check(c: &Many, o: &mut Obs) -> Result<(), String> {
    let mut map = SyntaxNodeNameMap::new();
    let path = |i: u32| PathIdentifier::new(vec![format!("m{}", i % c.spaces), format!("n{}", i / c.spaces)]);
    let mut ids = vec![];
    let mut taken = HashSet::new();
    for i in 0..c.names {
        let id = map.add(path(i));
        ensure!(taken.insert(id), "name {i} of {} gets {id:?}, which is taken", c.names);
        ids.push(id);
        if i % c.again == 0 {
            let k = i / 2;
            ensure_eq!(map.add(path(k)), ids[k as usize], "number of name {k} when registered again after {i} others");
        }
    }
    for i in 0..c.names {
        ensure_eq!(map.get(&path(i)), Some(ids[i as usize]), "number of name {i} of {}", c.names);
        ensure_eq!(map.get_reverse(ids[i as usize]), Some(&path(i)), "name of number {i} of {}", c.names);
        o.evals(2);
    }
    ensure_eq!(map.get(&path(c.names)), None, "number of a name that was not registered");
    o.nontrivial();
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ident {
    parts: Vec<String>,
}
fn ident() -> impl Strategy<Value = Ident> {
    let part = prop_oneof![
        6 => pick(PARTS),
        3 => "[a-zA-Z0-9_é中 .:-]{0,4}",
        1 => pick(&["", " ", "1a", "_a", "a-b", "a::b", "a b", "\u{301}", "a\u{301}", "+", "a.", "👩", "a\0"]),
        1 => (pick(&["a", ""]), any::<char>()).prop_map(|(a, c)| format!("{a}{c}")),
    ];
    prop_oneof![15 => vec(part.clone(), 0..4), 1 => vec(part, 4..20)].prop_map(|parts| Ident { parts })
}
fn ident_check(c: &Ident, o: &mut Obs) -> Result<(), String> {
    let valid_part = |p: &String| {
        let mut chars = p.chars();
        chars.next().is_some_and(is_xid_start) && chars.all(is_xid_continue)
    };
    let valid = c.parts.len() >= 2 && c.parts.iter().all(valid_part);
    let made = guarded(|| Ok(PathIdentifier::new(c.parts.clone())));
    ensure_eq!(made.is_ok(), valid, "whether {:?} is accepted as a name", c.parts);
    o.nontrivial_if(c.parts.len() >= 2);
    o.label(if valid { "accepted" } else { "refused" });
    Ok(())
}

/// Every node of every tree carries a registered number (checked while the tree is converted), the two
/// directions agree, and each rule's published number has the name it was registered with.
fn tree_check(r: &R, o: &mut Obs) -> Result<(), String> {
    let t = parse(r)?;
    let s = shared();
    let mut names = HashSet::new();
    t.walk(&mut |n| {
        names.insert(n.name.clone());
    });
    for name in &names {
        let path = PathIdentifier::new(name.split("::").map(|s| s.to_string()).collect());
        let id = s.names.get(&path).ok_or_else(|| format!("{name} has no number"))?;
        ensure_eq!(s.names.get_reverse(id), Some(&path), "name of the number of {name}");
        o.evals(2);
    }
    o.nontrivial_if(names.len() > 3);
    Ok(())
}
fn rules_check(_: &u8, o: &mut Obs) -> Result<(), String> {
    let (a, b) = (setup(), setup());
    o.nontrivial();
    ensure!(a.by_id.len() > 30, "only {} published rules", a.by_id.len());
    let names: HashSet<&String> = a.by_id.values().collect();
    ensure_eq!(names.len(), a.by_id.len(), "distinct names for distinct numbers");
    ensure_eq!(a.by_id, b.by_id, "names and numbers of two set-ups");
    for (id, name) in &a.by_id {
        let path = PathIdentifier::new(name.split("::").map(|s| s.to_string()).collect());
        ensure_eq!(a.names.get(&path), Some(*id), "number of {name}");
    }
    Ok(())
}
fn soup() -> impl Strategy<Value = R> {
    soup::formula(true)
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C27",
        rule: "A case is a history of registrations and lookups compared with a plain map (non-trivial: at least two names), the same with up to some thousand names, a candidate name with valid and invalid parts (non-trivial: at least two parts), an arbitrary row whose tree's numbers are all looked up (non-trivial: more than three names), or the published rules of two independent set-ups.",
        assumptions: vec!["identifiers as defined by Unicode (XID_Start, XID_Continue) in the version of the installed unicode-ident crate"],
        parts: vec![
            part("map", 200_000, 4_000_000, names, names_check),
            part("many", 1_500, 30_000, many, many_check),
            part("identifiers", 600_000, 12_000_000, ident, ident_check),
            part("trees", 300_000, 6_000_000, soup, tree_check),
            part("rules", 48, 64, any::<u8>, rules_check),
        ],
    }]
}
