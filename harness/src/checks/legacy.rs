//! C33: the legacy diagram and annotation entry points.

use m_bus_parser::annotate::annotate_frame;
use m_bus_parser::manufacturers::lookup_manufacturer;
use m_bus_parser::mbus_data::parse_to_mermaid;
use m_bus_parser::serialize_mbus_data;
use m_bus_parser::user_data::{parse_application_layer, UserDataBlock};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

use super::annot::{annotated_json, protected};
use super::lowlevel::{low, Low};
use super::output;
use super::total::{any_text, real};
use crate::gen;
use crate::runner::{CheckResult, Ctx, Fail, Kind, Part, Property};
use crate::source::Source;
use crate::util::{hex, hex_sp};

/// What a diagram consists of.
#[derive(Default)]
struct Diagram {
    /// id → (label, subgraph)
    nodes: BTreeMap<String, (String, String)>,
    groups: BTreeMap<String, String>,
    links: Vec<(String, String)>,
    edges: Vec<(String, String)>,
    styles: Vec<String>,
}

fn is_id(t: &str) -> bool {
    !t.is_empty() && t.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')
}

fn parse(text: &str) -> Result<Diagram, Fail> {
    let mut d = Diagram::default();
    let mut lines = text.split('\n');
    ensure_eq!(lines.next(), Some("flowchart TD"), "first line");
    let mut group = String::new();
    let mut last = "";
    for line in lines {
        last = line;
        let l = line.trim_start_matches(' ');
        if l.is_empty() {
            continue;
        }
        if let Some(r) = l.strip_prefix("subgraph ") {
            ensure!(group.is_empty(), "subgraph in a subgraph: {line:?}");
            let (id, label) = labelled(r)?;
            ensure!(d.groups.insert(id.clone(), label).is_none(), "subgraph {id} twice");
            group = id;
        } else if l == "end" {
            ensure!(!group.is_empty(), "end outside a subgraph");
            group.clear();
        } else if let Some(r) = l.strip_prefix("style ") {
            let (id, rest) = r.split_once(' ').ok_or_else(|| Fail::new(format!("style {line:?}")))?;
            ensure!(
                rest.split(',').all(|p| p.split_once(':').is_some_and(|(k, v)| matches!(k, "fill" | "color" | "stroke") && (v == "none" || v.starts_with('#') && v[1..].chars().all(|c| c.is_ascii_hexdigit())))),
                "style {line:?}"
            );
            d.styles.push(id.to_string());
        } else if l.contains("[\"") {
            let (id, label) = labelled(l)?;
            ensure!(d.nodes.insert(id.clone(), (label, group.clone())).is_none(), "node {id} twice");
        } else if let Some((a, b)) = l.split_once(" --> ") {
            ensure!(is_id(a) && is_id(b), "edge {line:?}");
            d.edges.push((a.to_string(), b.to_string()));
        } else if let Some((a, b)) = l.split_once("~~~") {
            ensure!(is_id(a) && is_id(b), "link {line:?}");
            d.links.push((a.to_string(), b.to_string()));
        } else {
            fail!("unknown statement {line:?}");
        }
    }
    ensure_eq!(last, "", "text after the last line end");
    ensure!(group.is_empty(), "subgraph {group} not closed");
    for (a, b) in &d.edges {
        for x in [a, b] {
            ensure!(d.groups.contains_key(x) || d.nodes.contains_key(x), "edge {a} --> {b}: {x} is not defined");
        }
    }
    for (a, b) in &d.links {
        for x in [a, b] {
            ensure!(d.nodes.contains_key(x), "link {a}~~~{b}: {x} is not defined");
        }
    }
    for x in &d.styles {
        ensure!(d.groups.contains_key(x) || d.nodes.contains_key(x), "style of {x}, which is not defined");
    }
    Ok(d)
}

fn labelled(t: &str) -> Result<(String, String), Fail> {
    let bad = || Fail::new(format!("node {t:?}"));
    let (id, rest) = t.split_once("[\"").ok_or_else(bad)?;
    let label = rest.strip_suffix("\"]").ok_or_else(bad)?;
    ensure!(is_id(id), "node {t:?}");
    ensure!(!label.contains(['"', '[', ']', '\r']), "raw quote, bracket or line break in {t:?}");
    Ok((id.to_string(), label.to_string()))
}

fn escaped(t: &str) -> String {
    t.chars()
        .map(|c| match c {
            '"' => "#quot;".to_string(),
            '[' => "#91;".to_string(),
            ']' => "#93;".to_string(),
            '\n' | '\r' => " ".to_string(),
            c => c.to_string(),
        })
        .collect()
}

fn spelled(s: &mut Source, bytes: &[u8]) -> String {
    match s.below(4) {
        0 => hex(bytes),
        1 => hex_sp(bytes),
        2 => hex(bytes).to_lowercase(),
        _ => bytes.iter().map(|b| format!("0x{b:02X}")).collect::<Vec<_>>().join(", "),
    }
}

fn frame(s: &mut Source) -> (Vec<u8>, Option<[u8; 16]>, &'static str) {
    match s.weighted(&[6, 4, 6, 2]) {
        0 => (gen::clear_frame(s, &gen::FULL, 8).bytes(), None, "records"),
        1 => (gen::any_frame(s, &gen::TEXTY, 5).bytes(), None, "any header"),
        2 => {
            let i = output::input(s);
            (i.bytes, i.key, i.kind)
        }
        _ => (s.pick(real()).clone(), None, "captured frame"),
    }
}

fn c33_diagram(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let spelling = s.raw();
    let (bytes, key, kind) = frame(s);
    let text = spelled(&mut Source::new(&[spelling]), &bytes);
    let input = hex_sp(&bytes);
    let t = parse_to_mermaid(&text, key.as_ref());
    let d = parse(&t).map_err(|e| Fail::new(format!("[{input}]: {e}\n{t}")))?;
    ctx.class(kind);
    let Some((l, _)) = low(&bytes) else {
        ctx.class("not a frame");
        ensure_eq!(d.nodes.keys().collect::<Vec<_>>(), ["ERR"], "nodes of [{input}], which is no frame");
        return Ok(());
    };
    ctx.nontrivial(&bytes);
    ctx.sample(|| input.clone());
    check(&l, &d).map_err(|e| Fail::new(format!("[{input}]: {e}\n{t}")))?;
    if d.groups.contains_key("REC_SG") {
        ctx.class("records shown");
    }
    Ok(())
}

fn label<'a>(d: &'a Diagram, id: &str, group: &str) -> Result<&'a str, Fail> {
    let (l, g) = d.nodes.get(id).ok_or_else(|| Fail::new(format!("no node {id}")))?;
    ensure_eq!(g, group, "subgraph of {id}");
    Ok(l)
}

fn check(l: &Low, d: &Diagram) -> CheckResult {
    // Nodes that must be there; padding nodes are blank.
    let mut expected: BTreeSet<String> = BTreeSet::new();
    let mut want = |id: &str, group: &str, text: &str| -> CheckResult {
        expected.insert(id.to_string());
        ensure_eq!(label(d, id, group)?, escaped(text), "label of {id}");
        Ok(())
    };
    let u = if matches!(l.kind, "long" | "wireless") { parse_application_layer(&l.payload).ok() } else { None };
    let (f, a) = (l.function.clone().unwrap_or_default(), l.address.clone().unwrap_or_default());
    let mut facts = vec![];
    match l.kind {
        "single_character" => {
            let (t, g) = d.nodes.get("FRAME").ok_or_else(|| Fail::new("no node FRAME"))?;
            ensure!(t.contains("E5") && g.is_empty(), "single character shown as {t:?}");
            ensure!(d.nodes.len() == 1 && d.groups.is_empty(), "more than the character");
            return Ok(());
        }
        "short" | "control" | "long" => {
            let title = match l.kind {
                "short" => "Short Frame",
                "control" => "Control Frame",
                _ => "Frame Header",
            };
            ensure_eq!(d.groups.get("FRAME_SG").map(String::as_str), Some(title), "title of the frame");
            if l.kind == "long" {
                want("FTYPE", "FRAME_SG", "Long Frame")?;
            }
            want("FUNC", "FRAME_SG", &format!("Function: {f}"))?;
            want("ADDR", "FRAME_SG", &format!("Address: {a}"))?;
        }
        _ => {
            ensure_eq!(d.groups.get("FRAME_SG").map(String::as_str), Some("Wireless Frame"), "title of the frame");
            let Some((id, man, version, _, _)) = &l.link else { unreachable!() };
            want("MFR", "FRAME_SG", &format!("Manufacturer: {man}"))?;
            want("VER", "FRAME_SG", &format!("Version: {version}"))?;
            let shown: String = label(d, "ID", "FRAME_SG")?.chars().filter(char::is_ascii_digit).collect();
            ensure_eq!(shown.parse::<u32>().ok(), id.parse::<u32>().ok(), "identification number shown");
            for id in ["FUNC", "DEVT", "ID"] {
                label(d, id, "FRAME_SG")?;
                facts.push(id.to_string());
            }
            if let Some(i) = lookup_manufacturer(man) {
                want("MFRNAME", "FRAME_SG", &format!("Name: {}", i.name))?;
                want("MFRWEB", "FRAME_SG", &format!("Website: {}", i.website))?;
                want("MFRDESC", "FRAME_SG", i.description)?;
            }
        }
    }
    let mut device = false;
    if let (Some(UserDataBlock::VariableDataStructureWithLongTplHeader { long_tpl_header: h, .. }), "long") = (&u, l.kind) {
        device = true;
        let m = h.manufacturer.as_ref().map_or_else(|e| format!("Error: {e}"), |m| m.to_string());
        want("DEV1", "DEV_SG", &format!("ID: {}", h.identification_number))?;
        want("DEV2", "DEV_SG", &format!("Manufacturer: {m}"))?;
        want("DEV3", "DEV_SG", &format!("Version: {}", h.version))?;
        label(d, "DEV4", "DEV_SG")?;
        facts.push("DEV4".into());
        want("DEV5", "DEV_SG", &format!("Access Number: {}", h.short_tpl_header.access_number))?;
        want("DEV6", "DEV_SG", &format!("Status: {}", h.short_tpl_header.status))?;
        if let Some(i) = lookup_manufacturer(&m) {
            want("DEV7", "DEV_SG", &format!("Name: {}", i.name))?;
            want("DEV8", "DEV_SG", &format!("Website: {}", i.website))?;
            want("DEV9", "DEV_SG", i.description)?;
        }
        ensure!(d.edges.contains(&("FRAME_SG".into(), "DEV_SG".into())), "the device hangs below no frame");
    }
    ensure_eq!(d.groups.contains_key("DEV_SG"), device, "device shown");
    // Records of a cleartext block, none of an encrypted one.
    let records = u.as_ref().and_then(UserDataBlock::data_records);
    ensure_eq!(d.groups.contains_key("REC_SG"), records.is_some(), "records shown");
    if let Some(records) = records {
        for (i, r) in records.flatten().enumerate() {
            let v = r.value_information().map(ToString::to_string).unwrap_or_default();
            want(&format!("R{i}"), "REC_SG", &format!("({}{v}", r.data))?;
        }
        let parent = if device { "DEV_SG" } else { "FRAME_SG" };
        ensure!(d.edges.contains(&(parent.into(), "REC_SG".into())), "the records hang below no {parent}");
    }
    expected.extend(facts);
    for (id, (t, _)) in &d.nodes {
        ensure!(expected.contains(id) || t.trim().is_empty(), "node {id} with {t:?} more than expected");
    }
    Ok(())
}

/// The legacy annotations are the segments of the frame.
fn c33_segments(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let spelling = s.raw();
    let fitting = s.chance(1, 3);
    let (bytes, key, kind) = if fitting {
        let (f, k, _) = protected(s);
        (f.bytes(), Some(k), "fitting key")
    } else {
        frame(s)
    };
    let text = spelled(&mut Source::new(&[spelling]), &bytes);
    let input = hex_sp(&bytes);
    ctx.class(kind);
    let read = |t: &str| serde_json::from_str::<Value>(t).map_err(|e| Fail::new(format!("[{input}]: {e}\n{t}")));
    let a = read(&serialize_mbus_data(&text, "annotated-legacy", key.as_ref()))?;
    let h = read(&serialize_mbus_data(&text, "hexview-legacy", key.as_ref()))?;
    match annotate_frame(&bytes) {
        Ok(segs) => {
            let want = serde_json::to_value(&segs).unwrap();
            ensure_eq!(a, want, "annotated-legacy of [{input}]");
            let view = annotated_json(&bytes, key)?;
            if view["decrypted"] == true {
                ctx.class("decrypted");
                ensure_eq!(h, json!({"bytes": view["bytes"], "segments": view["segments"], "decrypted": true}), "hexview-legacy of [{input}]");
            } else {
                ensure_eq!(h, want, "hexview-legacy of [{input}]");
            }
            ctx.nontrivial(&bytes);
            ctx.sample(|| input.clone());
        }
        Err(_) => {
            ctx.class("refused");
            for v in [a, h] {
                ensure!(v.as_object().is_some_and(|o| o.len() == 1 && o["error"].is_string()), "[{input}], which is no frame: {v}");
            }
        }
    }
    Ok(())
}

/// Texts of any kind give a well-formed diagram and JSON.
fn c33_texts(s: &mut Source, ctx: &mut Ctx) -> CheckResult {
    let t = any_text(s);
    let d = parse_to_mermaid(&t, None);
    let p = parse(&d).map_err(|e| Fail::new(format!("{t:?}: {e}\n{d}")))?;
    ctx.class(if p.nodes.contains_key("ERR") { "refused" } else { "read" });
    ctx.nontrivial(&t);
    for name in ["annotated-legacy", "hexview-legacy"] {
        let j = serialize_mbus_data(&t, name, None);
        ensure!(serde_json::from_str::<Value>(&j).is_ok(), "{name} of {t:?} does not parse: {j}");
    }
    Ok(())
}

pub fn c33() -> Property {
    Property {
        id: "C33",
        rule: "Frames of every kind with awkward texts, encrypted frames with and without a fitting key, captured frames and arbitrary texts; the legacy diagram is parsed strictly and compared with the low-level decode, the legacy annotations with the segments of the frame. Non-trivial: an accepted frame was compared, or a text was read.",
        both_builds: false,
        assumptions: &["the legacy diagram does not decrypt", "blank padding nodes, colours and the spelling of function and device type of wireless frames are left open"],
        parts: vec![
            Part { name: "diagrams", kind: Kind::Random { quick: 200_000, thorough: 3_000_000, tape: (16, 260), f: c33_diagram } },
            Part { name: "segments", kind: Kind::Random { quick: 100_000, thorough: 1_500_000, tape: (16, 260), f: c33_segments } },
            Part { name: "texts", kind: Kind::Random { quick: 50_000, thorough: 800_000, tape: (10, 150), f: c33_texts } },
        ],
    }
}
