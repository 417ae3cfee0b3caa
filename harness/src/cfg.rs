//! A cloneable picture of the converter's configuration, and a generator for it.

use crate::engine::Src;
use math_core::*;

#[derive(Clone, Debug)]
pub struct Cfg {
    pub pretty: u8, // 0 never 1 always 2 auto
    pub macros: Vec<(String, String)>,
    pub xmlns: bool,
    pub ignore_unknown: bool,
    pub annotation: bool,
    pub unreliable: bool,
    pub global_group: bool,
    pub subst: bool,
    pub unknown_class: Option<String>,
    pub indent: Option<u8>, // None = tab
    pub max_expansions: u32,
    pub id_prefix: String,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            pretty: 0,
            macros: vec![],
            xmlns: false,
            ignore_unknown: false,
            annotation: false,
            unreliable: false,
            global_group: false,
            subst: true,
            unknown_class: None,
            indent: Some(4),
            max_expansions: 1000,
            id_prefix: String::new(),
        }
    }
}

impl Cfg {
    pub fn raw(&self) -> MathCoreConfig {
        let mut c = MathCoreConfig::default();
        c.pretty_print = match self.pretty {
            0 => PrettyPrint::Never,
            1 => PrettyPrint::Always,
            _ => PrettyPrint::Auto,
        };
        c.macros = self.macros.clone();
        c.xml_namespace = self.xmlns;
        c.ignore_unknown_commands = self.ignore_unknown;
        c.annotation = self.annotation;
        c.allow_unreliable_rendering = self.unreliable;
        c.global_group = self.global_group;
        c.unicode_substitution = if self.subst {
            UnicodeSubstitution::Conventional
        } else {
            UnicodeSubstitution::Never
        };
        let d = CssClassNames::default();
        c.css_classes = CssClassNames {
            unknown_command: self.unknown_class.clone().map_or(d.unknown_command, Into::into),
        };
        c.indentation = match self.indent {
            Some(n) => Indentation::Spaces(usize::from(n)),
            None => Indentation::Keyword(IndentKeyword::Tab),
        };
        c.max_expansions = MaxExpansions(self.max_expansions);
        c.id_prefix = self.id_prefix.clone();
        c
    }
    pub fn build(&self) -> LatexToMathML {
        LatexToMathML::new(self.raw())
            .map_err(|e| format!("macro {} {:?}: {:?}", e.1, e.2, e.0))
            .expect("configuration is accepted")
    }
    pub fn unknown_css(&self) -> String {
        self.unknown_class
            .clone()
            .unwrap_or_else(|| CssClassNames::default().unknown_command.to_string())
    }
    /// A short description for the replay file: only what differs from the default.
    pub fn show(&self) -> String {
        let d = Cfg::default();
        let mut v = Vec::new();
        macro_rules! f {
            ($n:ident) => {
                if format!("{:?}", self.$n) != format!("{:?}", d.$n) {
                    v.push(format!("{}={:?}", stringify!($n), self.$n));
                }
            };
        }
        f!(pretty);
        f!(macros);
        f!(xmlns);
        f!(ignore_unknown);
        f!(annotation);
        f!(unreliable);
        f!(global_group);
        f!(subst);
        f!(unknown_class);
        f!(indent);
        f!(max_expansions);
        f!(id_prefix);
        format!("[{}]", v.join(" "))
    }
}

/// Any configuration (without macros).
pub fn any(s: &mut Src) -> Cfg {
    let mut c = Cfg::default();
    if s.flip() {
        return c;
    }
    c.pretty = s.below(3) as u8;
    c.xmlns = s.flip();
    c.ignore_unknown = s.flip();
    c.annotation = s.chance(1, 3);
    c.unreliable = s.flip();
    c.global_group = s.flip();
    c.subst = !s.chance(1, 3);
    if s.chance(1, 4) {
        c.unknown_class = Some(s.pick(&["my-unknown", "a b", "R&D", "x\"y", "<c>", "it's", "é"]).into());
    }
    c.indent = s.pick(&[Some(4u8), Some(2), Some(0), None, Some(1), Some(9)]);
    if s.chance(1, 6) {
        c.max_expansions = s.below(40) as u32;
    }
    if s.chance(1, 5) {
        c.id_prefix = s.pick(&["p-", "doc1:", "x", "R&D-", "a\"b", "<x>", "it's", "é", "&amp;"]).into();
    }
    c
}

pub fn disp(s: &mut Src) -> MathDisplay {
    if s.flip() { MathDisplay::Inline } else { MathDisplay::Block }
}
