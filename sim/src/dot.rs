//! Faulty writers for the DOT export, and a reader of the exported text.
use crate::alloc::Out;
use crate::ctx::{self, count, Fault};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Error, ErrorKind, Write};

pub const MESSAGE: &str = "simulated write failure";

pub struct Plain<'a>(pub &'a mut Vec<u8>);
impl Write for Plain<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let _o = Out::new();
        self.0.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

pub struct FaultyWriter {
    script: Vec<u8>,
    at: usize,
    pub out: Vec<u8>,
    /// Error reported to the library, if any.
    pub raised: Option<ErrorKind>,
    pub after_error: u32,
}

impl FaultyWriter {
    pub fn new(script: &[u8]) -> Self {
        FaultyWriter { script: script.to_vec(), at: 0, out: vec![], raised: None, after_error: 0 }
    }
}

impl Write for FaultyWriter {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let _o = Out::new();
        crate::ctx::reent();
        if self.raised.is_some() {
            self.after_error += 1;
            return Err(Error::new(ErrorKind::Other, "write after failure"));
        }
        if b.is_empty() {
            return Ok(0);
        }
        let x = self.script.get(self.at).copied().unwrap_or(0);
        self.at += 1;
        match x & 7 {
            3 => {
                let n = (1 + (x >> 3) as usize % 5).min(b.len());
                if n < b.len() {
                    count(Fault::WShort);
                }
                self.out.extend_from_slice(&b[..n]);
                Ok(n)
            }
            4 => {
                count(Fault::WIntr);
                Err(Error::new(ErrorKind::Interrupted, "interrupted"))
            }
            5 => {
                count(Fault::WErr);
                let kinds = [
                    ErrorKind::BrokenPipe,
                    ErrorKind::WouldBlock,
                    ErrorKind::TimedOut,
                    ErrorKind::Other,
                    ErrorKind::PermissionDenied,
                    ErrorKind::OutOfMemory,
                ];
                let k = kinds[(x >> 3) as usize % kinds.len()];
                self.raised = Some(k);
                Err(Error::new(k, MESSAGE))
            }
            6 => {
                count(Fault::WZero);
                self.raised = Some(ErrorKind::WriteZero);
                Ok(0)
            }
            7 => {
                count(Fault::WPanic);
                ctx::inject(Fault::WPanic)
            }
            _ => {
                self.out.extend_from_slice(b);
                Ok(b.len())
            }
        }
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

pub struct NodeDesc {
    pub id: usize,
    pub parent: Option<usize>,
    pub items: Vec<String>,
    pub children: Vec<usize>,
}

/// Reads a DOT digraph (node and edge statements) and compares it with the tree.
pub fn judge(text: &[u8], nodes: &[NodeDesc]) -> Result<(), String> {
    let text = std::str::from_utf8(text).map_err(|_| "not UTF-8")?;
    let open = text.find('{').ok_or("no graph")?;
    if !text[..open].trim_start().starts_with("digraph") {
        return Err("not a digraph".into());
    }
    let close = text.rfind('}').ok_or("graph not closed")?;
    if !text[close + 1..].trim().is_empty() {
        return Err("text after the graph".into());
    }
    let mut labels: BTreeMap<String, String> = BTreeMap::new();
    let mut edges: BTreeMap<(String, String), usize> = BTreeMap::new();
    for stmt in split_statements(&text[open + 1..close]) {
        let stmt = stmt.trim();
        if stmt.is_empty() {
            continue;
        }
        let name_end = stmt.find(|c: char| c.is_whitespace() || c == '[' || c == '-').unwrap_or(stmt.len());
        let name = stmt[..name_end].to_string();
        let rest = stmt[name_end..].trim();
        if matches!(name.as_str(), "node" | "edge" | "graph") {
            continue;
        }
        if let Some(to) = rest.strip_prefix("->") {
            let to = to.trim().split([' ', '[', ':']).next().unwrap_or("").to_string();
            *edges.entry((name, to)).or_insert(0) += 1;
        } else if rest.starts_with('[') {
            let l = rest.find("label=\"").ok_or("node without label")?;
            let l = &rest[l + 7..];
            let end = l.rfind('"').ok_or("label not closed")?;
            if labels.insert(name.clone(), l[..end].to_string()).is_some() {
                return Err(format!("node {name} described twice"));
            }
        } else {
            return Err(format!("statement not understood: {stmt}"));
        }
    }
    if labels.len() != nodes.len() {
        return Err(format!("{} nodes described, the tree has {}", labels.len(), nodes.len()));
    }
    let names: BTreeMap<usize, String> = nodes.iter().map(|n| (n.id, format!("n{}", n.id))).collect();
    let mut want_edges = BTreeSet::new();
    for n in nodes {
        let name = &names[&n.id];
        let label = labels.get(name).ok_or(format!("a node is missing ({} items)", n.items.len()))?;
        let items = item_tokens(label);
        if items != n.items {
            return Err(format!("a node with items {:?} is described with items {:?}", n.items, items));
        }
        // "(parent)|" first when there is one, "(id)" last
        let nums: Vec<usize> = paren_numbers(label);
        let mut want = vec![];
        if let Some(p) = n.parent {
            want.push(p);
        }
        want.push(n.id);
        if nums != want {
            return Err("a node's parent or own identifier is wrong in its label".into());
        }
        if !record_ok(label, n.items.len(), n.children.len()) {
            return Err("a node's label does not keep its fields (items, child ports, identifiers) apart and in order".into());
        }
        for c in &n.children {
            want_edges.insert((name.clone(), format!("n{c}")));
        }
    }
    let got: BTreeSet<(String, String)> = edges.keys().cloned().collect();
    if got != want_edges || edges.values().any(|c| *c != 1) {
        return Err(format!("{} distinct edges exported, the tree has {}, or they differ", got.len(), want_edges.len()));
    }
    Ok(())
}

fn split_statements(body: &str) -> Vec<String> {
    let mut out = vec![];
    let mut cur = String::new();
    let mut quoted = false;
    for c in body.chars() {
        match c {
            '"' => {
                quoted = !quoted;
                cur.push(c)
            }
            '\n' | ';' if !quoted => out.push(std::mem::take(&mut cur)),
            _ => cur.push(c),
        }
    }
    out.push(cur);
    out
}

/// Tokens of the form k<int>u<int>, in order.
fn item_tokens(label: &str) -> Vec<String> {
    let b = label.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'k' {
            let start = i;
            let mut j = i + 1;
            if j < b.len() && b[j] == b'-' {
                j += 1;
            }
            let d0 = j;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            if j > d0 && j < b.len() && b[j] == b'u' {
                let d1 = j + 1;
                let mut e = d1;
                while e < b.len() && b[e].is_ascii_digit() {
                    e += 1;
                }
                if e > d1 {
                    out.push(label[start..e].to_string());
                    i = e;
                    continue;
                }
            }
        }
        i += 1;
    }
    out
}

/// The label is a record with balanced braces whose fields hold one thing each; an internal node has
/// one distinct port per child, around its items.
fn record_ok(label: &str, items: usize, children: usize) -> bool {
    let mut depth = 0i32;
    for c in label.chars() {
        match c {
            '{' => depth += 1,
            '}' => depth -= 1,
            _ => (),
        }
        if depth < 0 {
            return false;
        }
    }
    if depth != 0 {
        return false;
    }
    let mut seq = String::new();
    let mut ports = BTreeSet::new();
    for field in label.split('|') {
        let (mut i, mut n) = (0, 0);
        let (tokens, numbers) = (item_tokens(field).len(), paren_numbers(field).len());
        n += tokens + numbers;
        seq.extend(std::iter::repeat_n('i', tokens));
        while let Some(a) = field[i..].find('<') {
            let start = i + a + 1;
            let Some(b) = field[start..].find('>') else { return false };
            ports.insert(field[start..start + b].trim().to_string());
            seq.push('p');
            n += 1;
            i = start + b + 1;
        }
        if n > 1 {
            return false;
        }
    }
    if children == 0 {
        return true;
    }
    let mut want = String::from("p");
    for _ in 0..items {
        want.push_str("ip");
    }
    seq == want && ports.len() == children
}

fn paren_numbers(label: &str) -> Vec<usize> {
    let mut out = vec![];
    let mut rest = label;
    while let Some(i) = rest.find('(') {
        rest = &rest[i + 1..];
        if let Some(j) = rest.find(')') {
            if let Ok(x) = rest[..j].trim().parse() {
                out.push(x);
            }
            rest = &rest[j + 1..];
        }
    }
    out
}
