//! A small XML tree parser: elements, attributes, text, comments, CDATA and the five entities.
use std::collections::BTreeMap;

#[derive(Debug)]
pub struct Error(&'static str);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(self.0)
    }
}
impl std::error::Error for Error {}

#[derive(Debug, Clone)]
pub struct Element {
    name: String,
    attrs: BTreeMap<String, String>,
    nodes: Vec<Node>,
}

#[derive(Debug, Clone)]
pub enum Node {
    Element(Element),
    Text(String),
}

impl Element {
    pub fn name(&self) -> &str {
        &self.name
    }
    pub fn attrs(&self) -> impl Iterator<Item = (&str, &str)> {
        self.attrs.iter().map(|(k, v)| (k.as_str(), v.as_str()))
    }
    pub fn nodes(&self) -> std::slice::Iter<'_, Node> {
        self.nodes.iter()
    }
}

fn unescape(s: &str) -> Result<String, Error> {
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find('&') {
        out.push_str(&rest[..i]);
        let end = rest[i..].find(';').ok_or(Error("unterminated entity"))? + i;
        match &rest[i + 1..end] {
            "amp" => out.push('&'),
            "lt" => out.push('<'),
            "gt" => out.push('>'),
            "quot" => out.push('"'),
            "apos" => out.push('\''),
            e => {
                let n = match (e.strip_prefix("#x"), e.strip_prefix('#')) {
                    (Some(h), _) => u32::from_str_radix(h, 16).ok(),
                    (_, Some(d)) => d.parse().ok(),
                    _ => None,
                };
                out.push(n.and_then(char::from_u32).ok_or(Error("unknown entity"))?);
            }
        }
        rest = &rest[end + 1..];
    }
    out.push_str(rest);
    Ok(out)
}

impl std::str::FromStr for Element {
    type Err = Error;
    fn from_str(s: &str) -> Result<Element, Error> {
        // Explicit stack: the depth of the input must not become the depth of our stack.
        let mut stack: Vec<Element> = vec![];
        let mut rest = s;
        loop {
            let Some(i) = rest.find('<') else { return Err(Error("unexpected end of document")) };
            let text = unescape(&rest[..i])?;
            match stack.last_mut() {
                Some(e) if !text.is_empty() => e.nodes.push(Node::Text(text)),
                None if !text.trim().is_empty() => return Err(Error("text outside of the root element")),
                _ => {}
            }
            rest = &rest[i..];
            let skip = |r: &str, to: &str| r.find(to).map(|i| i + to.len()).ok_or(Error("unexpected end of document"));
            if rest.starts_with("<!--") {
                rest = &rest[skip(rest, "-->")?..];
            } else if let Some(c) = rest.strip_prefix("<![CDATA[") {
                let end = c.find("]]>").ok_or(Error("unexpected end of document"))?;
                stack.last_mut().ok_or(Error("text outside of the root element"))?.nodes.push(Node::Text(c[..end].to_string()));
                rest = &c[end + 3..];
            } else if rest.starts_with("<?") {
                rest = &rest[skip(rest, "?>")?..];
            } else if rest.starts_with("<!") {
                rest = &rest[skip(rest, ">")?..];
            } else {
                let end = skip(rest, ">")?;
                let tag = &rest[1..end - 1];
                rest = &rest[end..];
                let closed = if let Some(n) = tag.strip_prefix('/') {
                    let e = stack.pop().ok_or(Error("mismatched closing tag"))?;
                    if e.name != n.trim() {
                        return Err(Error("mismatched closing tag"));
                    }
                    Some(e)
                } else {
                    let (tag, empty) = tag.strip_suffix('/').map_or((tag, false), |t| (t, true));
                    let n = tag.find(char::is_whitespace).unwrap_or(tag.len());
                    if n == 0 {
                        return Err(Error("invalid element name"));
                    }
                    let mut e = Element { name: tag[..n].to_string(), attrs: BTreeMap::new(), nodes: vec![] };
                    let mut a = tag[n..].trim();
                    while !a.is_empty() {
                        let eq = a.find('=').ok_or(Error("invalid attribute"))?;
                        let v = a[eq + 1..].trim_start();
                        let q = v.chars().next().filter(|c| *c == '"' || *c == '\'').ok_or(Error("invalid attribute"))?;
                        let end = v[1..].find(q).ok_or(Error("invalid attribute"))? + 1;
                        e.attrs.insert(a[..eq].trim().to_string(), unescape(&v[1..end])?);
                        a = v[end + 1..].trim_start();
                    }
                    if empty {
                        Some(e)
                    } else {
                        stack.push(e);
                        None
                    }
                };
                if let Some(e) = closed {
                    match stack.last_mut() {
                        Some(p) => p.nodes.push(Node::Element(e)),
                        None => return Ok(e),
                    }
                }
            }
        }
    }
}
