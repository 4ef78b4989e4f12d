//! C02: every safe function of the crates on one text, for the sanitizers to watch. Shared between the
//! monitor (AddressSanitizer) and the small program Miri interprets.
use ratel::lexer::{Asi, Lexer};
use ratel_codegen::codegen;
use ratel_transformer::{scope, transform};
use ratel_visitor::Visitable;

pub struct Count(pub u64);

/// every text the tree holds must be text
fn utf8(what: &str, s: &str) {
    if std::str::from_utf8(s.as_bytes()).is_err() {
        panic!("not UTF-8: {}", what);
    }
}

mod seen {
    use ratel::ast::expression::*;
    use ratel::ast::statement::*;
    use ratel::ast::*;
    use ratel_visitor::{ScopeKind, Visitor};

    impl<'ast> Visitor<'ast> for super::Count {
        fn on_enter_scope(&mut self, k: ScopeKind) {
            self.0 += k as u64;
        }
        fn on_identifier_expression(&mut self, s: &&'ast str, n: &'ast ExpressionNode<'ast>) {
            super::utf8("identifier", s);
            self.0 += n.start as u64;
        }
        fn on_reference_use(&mut self, i: &&'ast str) {
            super::utf8("reference", i);
            self.0 += i.len() as u64;
        }
        fn on_reference_declaration(&mut self, i: &&'ast str) {
            super::utf8("declaration", i);
            self.0 += i.len() as u64;
        }
        fn on_literal_expression(&mut self, l: &Literal<'ast>, _: &'ast ExpressionNode<'ast>) {
            match l {
                Literal::String(s) | Literal::Number(s) | Literal::Binary(s) | Literal::RegEx(s) => super::utf8("literal", s),
                _ => {}
            }
        }
        fn on_labeled_statement(&mut self, l: &LabeledStatement, _: &'ast StatementNode<'ast>) {
            super::utf8("label", l.label);
        }
        fn on_template_literal(&mut self, l: &TemplateLiteral<'ast>, _: &'ast ExpressionNode<'ast>) {
            for q in l.quasis.iter() {
                super::utf8("quasi", q.item);
            }
        }
    }
}

/// Results of one text: (accepted, bytes of output, visitor's sum)
pub fn exercise(text: &str, deep_print: bool) -> (bool, usize, u64) {
    // the parser must keep nothing of the caller's text
    let mut owned = text.to_owned().into_boxed_str();
    let parsed = ratel::parse(&owned);
    unsafe {
        for b in owned.as_bytes_mut() {
            *b = b'~';
        }
    }
    drop(owned);
    let mut bytes = 0;
    let mut out = |what: &str, s: String| {
        utf8(what, &s);
        bytes += s.len();
    };
    let mut sum = Count(0);
    let accepted = match parsed {
        Err(errors) => {
            for (i, e) in errors.iter().enumerate() {
                utf8("raw", &e.raw);
                if i < 4 {
                    out("message", ratel::error::ParseError::UnexpectedToken { source: text.to_string(), start: e.start, end: e.end }.to_string());
                    out("error", format!("{:?}", e));
                }
            }
            false
        }
        Ok(m) => {
            out("minified", codegen(&m, true));
            if deep_print {
                out("pretty", codegen(&m, false));
                out("pretty JSON", serde_json::to_string_pretty(&m).unwrap());
            }
            out("JSON", serde_json::to_string(&m).unwrap());
            out("debug", format!("{:?}", m));
            {
                let m: &ratel::Module = unsafe { &*(&m as *const ratel::Module) };
                m.visit_with(&mut sum);
                let s = scope::analyze(m);
                let back = unsafe { scope::Scope::from_usize(s.as_usize()) };
                out("scopes", format!("{:?}", back));
                for s in m.body().iter() {
                    s.visit_with(&mut sum);
                }
                if m.body() != m.body() {
                    panic!("a body differs from itself");
                }
                transform(m);
            }
            out("transformed", codegen(&m, true));
            if deep_print {
                out("transformed pretty", codegen(&m, false));
            }
            out("transformed JSON", serde_json::to_string(&m).unwrap());
            // owned by the arena alone from here on
            let moved = Box::new(m);
            out("moved", codegen(&moved, true));
            true
        }
    };
    // the lexer by itself, and what its users call
    let arena = toolshed::Arena::new();
    let mut lex = Lexer::new(&arena, text);
    for _ in 0..text.len() + 2 {
        utf8("token", lex.token_as_str());
        sum.0 += lex.start() as u64 + lex.end() as u64;
        if let Asi::ExplicitSemicolon = lex.asi() {
            sum.0 += 1;
        }
        if let ratel::lexer::Token::EndOfProgram = lex.token {
            break;
        }
        lex.consume();
    }
    sum.0 += wander(text);
    (accepted, bytes, sum.0)
}

/// The lexer's methods in any order, the way no parser calls them
fn wander(text: &str) -> u64 {
    let arena = toolshed::Arena::new();
    let mut sum = 0;
    let mut seed = text.bytes().fold(text.len() as u64 | 1, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
    let mut lex = if seed & 1 == 0 {
        Lexer::new(&arena, text)
    } else {
        unsafe { Lexer::from_ptr(arena.alloc_str_with_nul(text)) }
    };
    for _ in 0..(text.len() + 8).min(400) {
        seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        match (seed >> 40) % 16 {
            0 => lex.read_template_kind(),
            1 => utf8("regular expression", lex.read_regular_expression()),
            2 => lex.read_accessor(),
            3 => utf8("raw", &lex.invalid_token().raw),
            4 => utf8("accessor", lex.accessor_as_str()),
            5 => sum += lex.start_then_consume() as u64,
            6 => sum += lex.end_then_consume() as u64,
            _ => lex.consume(),
        }
        utf8("token", lex.token_as_str());
        utf8("quasi", lex.quasi);
        sum += lex.start() as u64;
    }
    sum
}
