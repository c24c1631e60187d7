//! A strict, independent parser for the XML subset the converter may emit. It accepts exactly
//! well-formed element content: no DOCTYPE, no comments, no CDATA, no processing instructions,
//! only the five predefined entities and numeric character references.
#[derive(Debug, Clone, PartialEq)]
pub enum Node {
    El(El),
    Text(String),
}

#[derive(Debug, Clone, PartialEq)]
pub struct El {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub kids: Vec<Node>,
}

impl El {
    pub fn attr(&self, n: &str) -> Option<&str> {
        self.attrs.iter().find(|(k, _)| k == n).map(|(_, v)| v.as_str())
    }
    pub fn els(&self) -> Vec<&El> {
        self.kids
            .iter()
            .filter_map(|k| match k {
                Node::El(e) => Some(e),
                _ => None,
            })
            .collect()
    }
    /// All text below this element.
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.text_into(&mut s);
        s
    }
    fn text_into(&self, s: &mut String) {
        for k in &self.kids {
            match k {
                Node::Text(t) => s.push_str(t),
                Node::El(e) => e.text_into(s),
            }
        }
    }
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a El)) {
        f(self);
        for k in &self.kids {
            if let Node::El(e) = k {
                e.walk(f);
            }
        }
    }
    pub fn find_all<'a>(&'a self, name: &str) -> Vec<&'a El> {
        let mut out = Vec::new();
        self.walk(&mut |e| {
            if e.name == name {
                out.push(e)
            }
        });
        out
    }
    pub fn to_string(&self) -> String {
        let mut s = String::new();
        self.ser(&mut s);
        s
    }
    fn ser(&self, s: &mut String) {
        s.push('<');
        s.push_str(&self.name);
        for (k, v) in &self.attrs {
            s.push_str(&format!(" {k}={v:?}"));
        }
        s.push('>');
        for k in &self.kids {
            match k {
                Node::Text(t) => s.push_str(&t.replace('&', "&amp;").replace('<', "&lt;")),
                Node::El(e) => e.ser(s),
            }
        }
        s.push_str("</");
        s.push_str(&self.name);
        s.push('>');
    }
}

struct P<'a> {
    s: &'a str,
    i: usize,
    html: bool,
}

pub fn xml_char(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | '\u{20}'..='\u{D7FF}' | '\u{E000}'..='\u{FFFD}' | '\u{10000}'..='\u{10FFFF}')
}

fn name_start(c: char) -> bool {
    c.is_ascii_alphabetic() || c == '_' || c == ':'
}
fn name_char(c: char) -> bool {
    name_start(c) || c.is_ascii_digit() || c == '-' || c == '.'
}

/// Parse a document consisting of exactly one element (optionally surrounded by whitespace).
pub fn parse(s: &str) -> Result<El, String> {
    parse_as(s, false)
}

/// The same for a fragment of HTML, where `<` may stand in an attribute value.
pub fn parse_html(s: &str) -> Result<El, String> {
    parse_as(s, true)
}

fn parse_as(s: &str, html: bool) -> Result<El, String> {
    let mut p = P { s, i: 0, html };
    p.ws();
    let e = p.element(0)?;
    p.ws();
    if p.i != s.len() {
        return Err(format!("trailing content at byte {}", p.i));
    }
    Ok(e)
}

impl<'a> P<'a> {
    fn peek(&self) -> Option<char> {
        self.s[self.i..].chars().next()
    }
    fn next(&mut self) -> Option<char> {
        let c = self.peek()?;
        self.i += c.len_utf8();
        Some(c)
    }
    fn ws(&mut self) {
        while matches!(self.peek(), Some(' ' | '\n' | '\t' | '\r')) {
            self.i += 1;
        }
    }
    fn expect(&mut self, c: char) -> Result<(), String> {
        match self.next() {
            Some(d) if d == c => Ok(()),
            d => Err(format!("expected {c:?} got {d:?} at byte {}", self.i)),
        }
    }
    fn name(&mut self) -> Result<String, String> {
        let st = self.i;
        match self.peek() {
            Some(c) if name_start(c) => {}
            d => return Err(format!("bad name start {d:?} at byte {}", self.i)),
        }
        while let Some(c) = self.peek() {
            if name_char(c) {
                self.i += c.len_utf8();
            } else {
                break;
            }
        }
        Ok(self.s[st..self.i].to_string())
    }
    fn reference(&mut self) -> Result<char, String> {
        // after '&'
        let rest = &self.s[self.i..];
        let end = rest.find(';').ok_or_else(|| format!("bare '&' at byte {}", self.i))?;
        let n = &rest[..end];
        self.i += end + 1;
        let c = match n {
            "amp" => '&',
            "lt" => '<',
            "gt" => '>',
            "quot" => '"',
            "apos" => '\'',
            _ => {
                let v = if let Some(h) = n.strip_prefix("#x") {
                    u32::from_str_radix(h, 16).ok()
                } else if let Some(d) = n.strip_prefix('#') {
                    d.parse().ok()
                } else {
                    None
                };
                v.and_then(char::from_u32)
                    .filter(|c| xml_char(*c))
                    .ok_or_else(|| format!("bad reference &{}; ", n.chars().take(20).collect::<String>()))?
            }
        };
        Ok(c)
    }
    fn element(&mut self, depth: usize) -> Result<El, String> {
        if depth > 6000 {
            return Err("too deep".into());
        }
        self.expect('<')?;
        let name = self.name()?;
        let mut attrs: Vec<(String, String)> = Vec::new();
        loop {
            let before = self.i;
            self.ws();
            match self.peek() {
                Some('>') => {
                    self.i += 1;
                    break;
                }
                Some('/') => {
                    self.i += 1;
                    self.expect('>')?;
                    return Ok(El { name, attrs, kids: vec![] });
                }
                Some(_) => {
                    if before == self.i {
                        return Err(format!("missing space before attribute at byte {}", self.i));
                    }
                    let k = self.name()?;
                    self.expect('=')?;
                    let q = self.next();
                    if q != Some('"') && q != Some('\'') {
                        return Err(format!("unquoted attribute at byte {}", self.i));
                    }
                    let q = q.unwrap();
                    let mut v = String::new();
                    loop {
                        match self.next() {
                            None => return Err("eof in attribute".into()),
                            Some(c) if c == q => break,
                            Some('<') if !self.html => return Err(format!("'<' in attribute at byte {}", self.i)),
                            Some('&') => v.push(self.reference()?),
                            Some(c) if xml_char(c) => v.push(c),
                            Some(c) => return Err(format!("illegal char {c:?} in attribute")),
                        }
                    }
                    if attrs.iter().any(|(n, _)| *n == k) {
                        return Err(format!("duplicate attribute {k} on <{name}>"));
                    }
                    attrs.push((k, v));
                }
                None => return Err("eof in tag".into()),
            }
        }
        let mut kids: Vec<Node> = Vec::new();
        let mut text = String::new();
        loop {
            match self.peek() {
                None => return Err(format!("eof inside <{name}>")),
                Some('<') => {
                    if self.s[self.i..].starts_with("</") {
                        if !text.is_empty() {
                            kids.push(Node::Text(std::mem::take(&mut text)));
                        }
                        self.i += 2;
                        let n = self.name()?;
                        if n != name {
                            return Err(format!("</{n}> closes <{name}> at byte {}", self.i));
                        }
                        self.ws();
                        self.expect('>')?;
                        return Ok(El { name, attrs, kids });
                    }
                    if !text.is_empty() {
                        kids.push(Node::Text(std::mem::take(&mut text)));
                    }
                    kids.push(Node::El(self.element(depth + 1)?));
                }
                Some('&') => {
                    self.i += 1;
                    text.push(self.reference()?);
                }
                Some(c) => {
                    if !xml_char(c) {
                        return Err(format!("illegal char {c:?}"));
                    }
                    if text.ends_with("]]") && c == '>' {
                        return Err("']]>' in text".into());
                    }
                    self.i += c.len_utf8();
                    text.push(c);
                }
            }
        }
    }
}

/// Remove text nodes which consist of layout whitespace only, from elements which do not hold
/// text (everything except mi, mn, mo, mtext, annotation and what is inside of them).
pub fn strip_layout(e: &El) -> El {
    let textual = matches!(e.name.as_str(), "mi" | "mn" | "mo" | "mtext" | "annotation" | "ms");
    if textual {
        return e.clone();
    }
    El {
        name: e.name.clone(),
        attrs: e.attrs.clone(),
        kids: e
            .kids
            .iter()
            .filter_map(|k| match k {
                Node::Text(t) if t.chars().all(|c| matches!(c, ' ' | '\n' | '\t' | '\r')) => None,
                Node::Text(t) => Some(Node::Text(t.clone())),
                Node::El(x) => Some(Node::El(strip_layout(x))),
            })
            .collect(),
    }
}
