use tombi_syntax::SyntaxElement;
use tombi_text::{Position, Range};

fn warm() {
    let p = tombi_parser::parse("a = 1 # c\n[t]\nb.c = [1.5, {x = \"y\"}]\nd = 1979-05-27T07:32:00Z\n");
    let _ = p.syntax_node().range();
}

/// C01: the lexer's tokens tile the source.
fn lex_lossless() {
    let src = vs::doc(0);
    let lexed = tombi_lexer::lex(&src);
    let mut at = 0u32;
    for (i, t) in lexed.tokens.iter().enumerate() {
        let s = t.span();
        vs::check(u32::from(s.start) == at, "lex-contiguous");
        vs::check(u32::from(s.end) <= src.len() as u32, "lex-in-bounds");
        vs::check(src.is_char_boundary(u32::from(s.end) as usize), "lex-char-boundary");
        if t.is_eof() {
            vs::check(i + 1 == lexed.tokens.len(), "lex-eof-last");
            vs::check(s.start == s.end, "lex-eof-swallows-text");
        } else {
            vs::check(u32::from(s.end) > at, "lex-nonempty");
        }
        at = u32::from(s.end);
    }
    vs::check(at as usize == src.len(), "lex-covers");
    vs::check(lexed.tokens.last().is_some_and(|t| t.is_eof()), "lex-ends-with-eof");
    let invalid = lexed.tokens.iter().filter(|t| t.kind() == tombi_syntax::SyntaxKind::INVALID_TOKEN).count();
    vs::check(invalid == lexed.errors.len(), "lex-error-per-invalid-token");
    if invalid > 0 {
        vs::reach("invalid-token");
    }
    vs::out(&[lexed.tokens.len() as u8, lexed.errors.len() as u8]);
}

/// C02: parsing never fails to produce a tree, and the tree reproduces the source.
fn parse_lossless() {
    let src = vs::doc(0);
    let parsed = tombi_parser::parse(&src);
    let n = parsed.errors.len();
    if n > 0 {
        vs::reach("with-errors");
    } else {
        vs::reach("clean");
    }
    let node = parsed.syntax_node();
    let text = node.text().to_string();
    vs::check(text == src, "tree-text");
    let mut cat = String::with_capacity(src.len());
    for e in node.descendants_with_tokens() {
        match e {
            SyntaxElement::Token(t) => cat.push_str(t.text()),
            // every node's text is the concatenation of its tokens' texts
            SyntaxElement::Node(n) => {
                let (a, b) = (u32::from(n.span().start) as usize, u32::from(n.span().end) as usize);
                vs::check(a <= b && b <= src.len(), "node-span");
            }
        }
    }
    vs::check(cat == src, "tokens-in-order");
    vs::check(tombi_ast_root(&parsed), "root");
    vs::out(&[n as u8]);
}
fn tombi_ast_root(p: &tombi_parser::Parsed<tombi_syntax::SyntaxNode>) -> bool {
    use tombi_ast::AstNode;
    tombi_ast::Root::cast(p.syntax_node()).is_some()
}

/// Line and column (in user-perceived characters) of byte offset `at`, computed from the text alone.
/// The documents combine ASCII with: é (precomposed), e + U+0301, emoji, ZWJ sequences.
fn position(src: &str, at: usize) -> Position {
    let (mut line, mut col) = (0u32, 0u32);
    let mut joined = false;
    let mut prev = ' ';
    for (i, c) in src.char_indices() {
        if i >= at {
            break;
        }
        match c {
            '\n' => {
                line += 1;
                col = 0;
            }
            '\r' if src.as_bytes().get(i + 1) == Some(&b'\n') => {}
            c if extends(c) && prev != '\n' && prev != '\r' => {}
            '\u{200d}' => joined = true,
            _ if joined => joined = false,
            _ => col += 1,
        }
        prev = c;
    }
    Position::new(line, col)
}

fn extends(c: char) -> bool {
    matches!(c, '\u{301}' | '\u{93f}' | '\u{1f3fb}'..='\u{1f3ff}')
}
/// Is byte offset `i` the inside of a user-perceived character?
fn inside(src: &str, i: usize) -> bool {
    !src.is_char_boundary(i)
        || src[i..].starts_with('\n') && src[..i].ends_with('\r')
        || src[i..].starts_with(|c| extends(c) || c == '\u{200d}')
        || src[..i].ends_with('\u{200d}')
}

/// C03: line/column ranges of tokens, tree elements and syntax errors agree with the text.
fn positions() {
    let src = vs::doc(0);
    let lexed = tombi_lexer::lex(&src);
    for t in &lexed.tokens {
        let s = t.span();
        let r = Range::new(position(&src, u32::from(s.start) as usize), position(&src, u32::from(s.end) as usize));
        vs::check(t.range() == r, "lexer-token-range");
    }
    let end = position(&src, src.len());
    let parsed = tombi_parser::parse(&src);
    let node = parsed.syntax_node();
    let mut at = 0usize;
    for e in node.descendants_with_tokens() {
        let (a, b) = (u32::from(e.span().start) as usize, u32::from(e.span().end) as usize);
        let r = Range::new(position(&src, a), position(&src, b));
        vs::check(e.range() == r, "tree-range");
        if let SyntaxElement::Token(t) = &e {
            vs::check(a == at && b - a == t.text().len(), "tree-token-span");
            at = b;
        }
    }
    for e in &parsed.errors {
        vs::reach("syntax-error");
        let r = e.range();
        vs::check(r.start <= r.end && r.end <= end, "error-range-outside-document");
        let exists = |p: Position| (0..=src.len()).any(|i| src.is_char_boundary(i) && position(&src, i) == p);
        vs::check(exists(r.start) && exists(r.end), "error-range-is-no-place-in-the-text");
    }
    vs::out(&[parsed.errors.len() as u8]);
}

/// C03: lookups by offset and by position find the same tokens.
fn lookup() {
    let src = vs::doc(0);
    let parsed = tombi_parser::parse(&src);
    let node = parsed.syntax_node();
    for i in 0..=src.len() {
        if inside(&src, i) {
            continue;
        }
        let a = node.token_at_offset(tombi_text::Offset::new(i as u32));
        let b = node.token_at_position(position(&src, i));
        let mut n = 0;
        for t in a.clone() {
            let s = t.span();
            vs::check(u32::from(s.start) as usize <= i && i <= u32::from(s.end) as usize, "token-at-offset-contains");
            n += 1;
        }
        vs::check(n > 0 || src.is_empty(), "token-at-offset-none");
        vs::check(a.map(|t| t.span()).eq(b.map(|t| t.span())), "token-at-position");
    }
}

vs::harness! { warm: warm; lex_lossless, parse_lossless, positions, lookup }
