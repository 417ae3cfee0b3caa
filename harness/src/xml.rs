//! A strict little XML parser for output fragments (an oracle: shares no code with the library).

#[derive(Debug, Clone, PartialEq)]
pub struct El {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub kids: Vec<Node>,
}

#[derive(Debug, Clone, PartialEq)]
pub enum Node {
    El(El),
    Text(String),
}

impl El {
    pub fn attr(&self, k: &str) -> Option<&str> {
        self.attrs.iter().find(|(n, _)| n == k).map(|(_, v)| v.as_str())
    }
    pub fn els(&self) -> impl Iterator<Item = &El> {
        self.kids.iter().filter_map(|k| match k {
            Node::El(e) => Some(e),
            Node::Text(_) => None,
        })
    }
    pub fn has_text(&self) -> bool {
        self.kids
            .iter()
            .any(|k| matches!(k, Node::Text(t) if !t.trim_matches(ws).is_empty()))
    }
    /// All character data below this element, in document order.
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.push_text(&mut s);
        s
    }
    fn push_text(&self, s: &mut String) {
        for k in &self.kids {
            match k {
                Node::Text(t) => s.push_str(t),
                Node::El(e) => e.push_text(s),
            }
        }
    }
    /// Depth-first walk.
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a El)) {
        f(self);
        for e in self.els() {
            e.walk(f);
        }
    }
    pub fn find_all<'a>(&'a self, name: &str) -> Vec<&'a El> {
        let mut v = Vec::new();
        self.walk(&mut |e| {
            if e.name == name {
                v.push(e);
            }
        });
        v
    }
    /// Serialise back (canonical: attributes in order, minimal escapes).
    pub fn show(&self) -> String {
        let mut s = String::new();
        self.show_into(&mut s);
        s
    }
    fn show_into(&self, s: &mut String) {
        s.push('<');
        s.push_str(&self.name);
        for (k, v) in &self.attrs {
            s.push_str(&format!(" {k}=\"{}\"", esc(v)));
        }
        s.push('>');
        for k in &self.kids {
            match k {
                Node::El(e) => e.show_into(s),
                Node::Text(t) => s.push_str(&esc(t)),
            }
        }
        s.push_str(&format!("</{}>", self.name));
    }
}

pub fn ws(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\n' | '\r')
}

pub fn esc(s: &str) -> String {
    s.replace('&', "&amp;")
        .replace('<', "&lt;")
        .replace('>', "&gt;")
        .replace('"', "&quot;")
}

struct P<'a> {
    s: &'a str,
    i: usize,
}

impl P<'_> {
    fn rest(&self) -> &str {
        &self.s[self.i..]
    }
    fn peek(&self) -> Option<char> {
        self.rest().chars().next()
    }
    fn err<T>(&self, m: &str) -> Result<T, String> {
        let near: String = self.rest().chars().take(40).collect();
        Err(format!("{m} at byte {} near {near:?}", self.i))
    }
    fn eat(&mut self, t: &str) -> bool {
        if self.rest().starts_with(t) {
            self.i += t.len();
            true
        } else {
            false
        }
    }
    fn name(&mut self) -> Result<String, String> {
        let r = self.rest();
        let n = r
            .find(|c: char| !(c.is_ascii_alphanumeric() || c == '-'))
            .unwrap_or(r.len());
        if n == 0 || !r.starts_with(|c: char| c.is_ascii_alphabetic()) {
            return self.err("expected a name");
        }
        let name = r[..n].to_string();
        self.i += n;
        Ok(name)
    }
    fn entity(&mut self) -> Result<char, String> {
        for (e, c) in [
            ("&lt;", '<'),
            ("&gt;", '>'),
            ("&amp;", '&'),
            ("&quot;", '"'),
            ("&apos;", '\''),
            ("&#39;", '\''),
            ("&#x27;", '\''),
        ] {
            if self.eat(e) {
                return Ok(c);
            }
        }
        let r = self.rest();
        if let Some(body) = r.strip_prefix("&#")
            && let Some(end) = body.find(';')
        {
            let num = &body[..end];
            let v = if let Some(h) = num.strip_prefix(['x', 'X']) {
                u32::from_str_radix(h, 16).ok()
            } else {
                num.parse().ok()
            };
            if let Some(c) = v.and_then(char::from_u32) {
                self.i += 2 + end + 1;
                return Ok(c);
            }
        }
        self.err("bare or unknown entity")
    }
    fn element(&mut self, depth: usize) -> Result<El, String> {
        if depth > 4000 {
            return self.err("too deep");
        }
        if !self.eat("<") {
            return self.err("expected '<'");
        }
        let name = self.name()?;
        let mut attrs: Vec<(String, String)> = Vec::new();
        loop {
            let before = self.i;
            while self.peek().is_some_and(ws) {
                self.i += 1;
            }
            let spaced = self.i > before;
            if self.eat("/>") {
                return Ok(El { name, attrs, kids: vec![] });
            }
            if self.eat(">") {
                break;
            }
            if !spaced {
                return self.err("expected white space before an attribute");
            }
            let k = self.name()?;
            if !self.eat("=\"") {
                return self.err("expected =\"");
            }
            let mut v = String::new();
            loop {
                match self.peek() {
                    None => return self.err("unterminated attribute"),
                    Some('"') => {
                        self.i += 1;
                        break;
                    }
                    Some('<') => return self.err("'<' in an attribute"),
                    Some('&') => v.push(self.entity()?),
                    Some(c) => {
                        v.push(c);
                        self.i += c.len_utf8();
                    }
                }
            }
            if attrs.iter().any(|(n, _)| *n == k) {
                return self.err(&format!("duplicate attribute {k}"));
            }
            attrs.push((k, v));
        }
        let mut kids = Vec::new();
        let mut text = String::new();
        loop {
            match self.peek() {
                None => return self.err(&format!("<{name}> is not closed")),
                Some('<') => {
                    if !text.is_empty() {
                        kids.push(Node::Text(std::mem::take(&mut text)));
                    }
                    if self.eat("</") {
                        let end = self.name()?;
                        if end != name {
                            return self.err(&format!("<{name}> closed by </{end}>"));
                        }
                        if !self.eat(">") {
                            return self.err("expected '>'");
                        }
                        return Ok(El { name, attrs, kids });
                    }
                    kids.push(Node::El(self.element(depth + 1)?));
                }
                Some('&') => text.push(self.entity()?),
                Some('>') => return self.err("bare '>' in text"),
                Some(c) => {
                    text.push(c);
                    self.i += c.len_utf8();
                }
            }
        }
    }
}

/// Parse exactly one element, with nothing around it.
pub fn parse(s: &str) -> Result<El, String> {
    let mut p = P { s, i: 0 };
    let e = p.element(0)?;
    if p.i != s.len() {
        return p.err("trailing content");
    }
    Ok(e)
}

#[cfg(test)]
mod tests {
    #[test]
    fn basics() {
        assert!(super::parse("<math><mi>x</mi></math>").is_ok());
        assert!(super::parse("<math><mi>x</math></mi>").is_err());
        assert!(super::parse("<math><mi>a&b</mi></math>").is_err());
        assert!(super::parse("<mo a=\"1\" a=\"2\">x</mo>").is_err());
    }
}
