//! Comparing what a package says with what was asked for.

use crate::gen::Expect;
use crate::pkg::{self, Package};
use crate::view::*;
use crate::xml::{El, Node};

/// A side of a document that is compared.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Side {
    Body,
    Comments,
    Styles,
    Defaults,
    Numbering,
    Settings,
    Core,
    Props,
    Items,
    Webext,
}

/// The sides that reading keeps.
pub const READ: &[Side] =
    &[Side::Body, Side::Comments, Side::Styles, Side::Defaults, Side::Numbering, Side::Settings, Side::Props];

pub const ALL: &[Side] = &[
    Side::Body,
    Side::Comments,
    Side::Styles,
    Side::Defaults,
    Side::Numbering,
    Side::Settings,
    Side::Core,
    Side::Props,
    Side::Items,
    Side::Webext,
];

/// Not read back (see the known findings), so left out where a re-saved package is looked at.
const UNREAD_STYLE: &[&str] = &["w:qFormat", "w:uiPriority", "w:semiHidden", "w:unhideWhenUsed", "w:next"];

/// Styles a document gets without asking.
const IMPLICIT: &[&str] =
    &["Normal", "ToC1", "ToC2", "ToC3", "ToC4", "ToC5", "ToC6", "ToC7", "ToC8", "ToC9"];

fn by<'a>(e: &'a El, key: &str, val: &str) -> Vec<&'a El> {
    e.els().filter(|x| x.attr(key) == Some(val)).collect()
}

fn without(e: &El, names: &[&str]) -> El {
    let mut e = e.clone();
    e.kids.retain(|k| !matches!(k, Node::E(x) if names.contains(&x.name.as_str())));
    e
}

/// Every listed element of `want` is in `got`, once, and `got` has only `extra` besides.
fn listed(want: &El, got: &El, key: &str, extra: &[&str], drop: &[&str]) -> Option<String> {
    for w in want.els() {
        let id = w.attr(key).unwrap_or("");
        let g = by(got, key, id);
        if g.len() != 1 {
            return Some(format!("{} {id:?} is there {} times", w.name, g.len()));
        }
        if let Some(d) = diff(&without(w, drop), &without(g[0], drop)) {
            return Some(d);
        }
    }
    for g in got.els() {
        let id = g.attr(key).unwrap_or("");
        if by(want, key, id).is_empty() && !extra.contains(&id) {
            return Some(format!("{} {id:?} was not asked for", g.name));
        }
    }
    None
}

pub fn side(want: &View, got: &View, s: Side, reread: bool) -> Option<String> {
    match s {
        Side::Body => diff(&want.body, &got.body),
        Side::Comments => diff(&want.comments, &got.comments),
        Side::Styles => {
            listed(&want.styles, &got.styles, "w:styleId", IMPLICIT, if reread { UNREAD_STYLE } else { &[] })
        }
        Side::Defaults => diff(&want.defaults, &got.defaults),
        Side::Numbering => {
            listed(&want.abstracts, &got.abstracts, "w:abstractNumId", &["1"], &["w:multiLevelType"])
                .or_else(|| listed(&want.nums, &got.nums, "w:numId", &["1"], &[]))
        }
        Side::Settings => {
            for n in [
                "w:defaultTabStop",
                "w15:docId",
                "w:docVars",
                "w:evenAndOddHeaders",
                "w:characterSpacingControl",
                "w:adjustLineHeightInTable",
            ] {
                let w: Vec<&El> = want.settings.els().filter(|e| e.name == n).collect();
                let g: Vec<&El> = got.settings.els().filter(|e| e.name == n).collect();
                if w.len() != g.len() {
                    return Some(format!("{n} is there {} times instead of {}", g.len(), w.len()));
                }
                for (a, b) in w.iter().zip(&g) {
                    if let Some(d) = diff(a, b) {
                        return Some(d);
                    }
                }
            }
            None
        }
        Side::Core => {
            for w in want.core.els() {
                match got.core.find(&w.name) {
                    Some(g) => {
                        if let Some(d) = diff(w, g) {
                            return Some(d);
                        }
                    }
                    None => return Some(format!("{} is missing", w.name)),
                }
            }
            None
        }
        Side::Props => {
            let list = |e: &El| {
                let mut m = std::collections::BTreeMap::new();
                for x in e.els() {
                    m.insert(x.attr("name").unwrap_or("").to_string(), x.text());
                }
                m
            };
            let (a, b) = (list(&want.props), list(&got.props));
            if a != b {
                return Some(format!("custom properties wanted {a:?} got {b:?}"));
            }
            if got.props.els().count() != b.len() {
                return Some("a custom property is written twice".into());
            }
            None
        }
        Side::Items => diff(&want.items, &got.items),
        Side::Webext => {
            if want.webext.els().count() != got.webext.els().count() {
                return Some(format!(
                    "{} web extensions instead of {}",
                    got.webext.els().count(),
                    want.webext.els().count()
                ));
            }
            for (a, b) in want.webext.els().zip(got.webext.els()) {
                let mut b = without(b, &["we:alternateReferences", "we:bindings", "we:snapshot"]);
                b.attrs.sort();
                if let Some(d) = diff(a, &b) {
                    return Some(d);
                }
            }
            None
        }
    }
}

pub fn compare(want: &View, got: &View, sides: &[Side], reread: bool) -> Result<(), String> {
    for s in sides {
        if let Some(d) = side(want, got, *s, reread) {
            return Err(format!("{s:?}: {d}"));
        }
    }
    Ok(())
}

pub fn open(b: &[u8]) -> Result<Package, String> {
    pkg::unzip(b)
}

pub fn want(e: &Expect, c: Canon) -> View {
    expected_view(e, c)
}

/// What is left of `v` once it has been read: the reader keeps the content of a content control but not
/// its properties, keeps the control itself only between blocks, and does not read the spacing of columns
/// (the known findings say so).
pub fn as_read(v: &View) -> View {
    let mut v = v.clone();
    dissolve(&mut v.body, false);
    dissolve(&mut v.comments, false);
    v
}

fn dissolve(e: &mut El, inside: bool) {
    let inline = inside || e.name == "w:p";
    let mut kids = vec![];
    for k in std::mem::take(&mut e.kids) {
        match k {
            Node::E(mut x) => {
                dissolve(&mut x, inline);
                if x.name == "w:sdtPr" {
                    continue;
                }
                if x.name == "w:cols" {
                    for a in x.attrs.iter_mut().filter(|a| a.0 == "w:space") {
                        a.1 = "425".into();
                    }
                }
                if x.name == "w:sdt" && inline {
                    for c in std::mem::take(&mut x.kids) {
                        if let Node::E(mut c) = c {
                            kids.append(&mut c.kids);
                        }
                    }
                    continue;
                }
                kids.push(Node::E(x));
            }
            t => kids.push(t),
        }
    }
    e.kids = kids;
}
