P = 'ginko/src/dts/'
S = 'ginko_ls/src/server.rs'
BUGS = []


def bug(id, property, edits, needs, breaks, py=None, rs=None):
    b = dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks)
    if py:
        b['py'] = py
    if rs:
        b['rs'] = rs
    BUGS.append(b)


bug('c01-paren-depth', 'C01', [(P + 'parser.rs', '        let mut depth = 1;\n', '        let mut depth: u8 = 1;\n')],
    'an expression with 255 nested parentheses', 'arithmetic overflow: the tool panics',
    py='''write('a.dts', '/dts-v1/;\\n/ { p = <' + '(' * 300 + '1' + ')' * 300 + '>; };\\n')
code, out = cli('a.dts')
assert code == 0, code
''')

bug('c02-carriage-return', 'C02', [(P + 'reader.rs', "            b'\\n' => {\n", "            b'\\r' if self.peek() != Some(b'\\n') => {\n                self.pos = Position::new(self.pos.line() + 1, 0);\n            }\n            b'\\n' => {\n"),
                                   (P + 'reader.rs', "        self.char_pos += 1;\n        match ch {", "        self.char_pos += 1;\n\n        match ch {"),
                                   (P + 'reader.rs', "                self.pos = Position::new(self.pos.line() + 1, 0);\n            }\n            _ =>", "                let line = self.pos.line() + 1;\n                self.pos = Position::new(line, 0);\n            }\n            _ =>")],
    'a carriage return that is not followed by a line feed', 'every position behind it is on the wrong line',
    py='''write('a.dts', '/dts-v1/;\\n/ {\\r x = y; };\\n')
code, out = cli('a.dts')
assert ':2:' in out and ':3:' not in out, out
''')

bug('c02-unit-address-start', 'C02', [(P + 'parser.rs', '''        if let Some(unit_address) = &name.unit_address {
            let address_start = span.start().offset_by_text(&name.name).offset_by_char(1);''', '''        if let Some(unit_address) = name.unit_address.as_ref() {
            let address_start = span.start().offset_by_char(name.name.len() as i32 + 1);''')],
    'a path with a unit address behind a name with a multi-byte character, both of which have illegal characters', 'the position of the illegal character in the unit address is off',
    py='''write('a.dts', '/dts-v1/;\\n/ { p = &{/\\u00e4@b!}; };\\n')
code, out = cli('a.dts')
assert ':2:12\\n' in out and ':2:15\\n' in out, out
''')

bug('c02-property-end', 'C02', [(P + 'parser.rs', '''                    let values = self.property_values()?;
                    let end_tok = self.expect_semicolon()?.unwrap_or(cloned_tok);''', '''                    let values = self.property_values()?;
                    let end_tok = match self.expect_semicolon()? {
                        Some(tok) if !values.is_empty() && label.is_none() => tok,
                        Some(tok) if tok.start().line() == ident.start().line() => tok,
                        _ => cloned_tok,
                    };''')],
    'a labelled property that spans several lines', 'the range of the property ends too early',
    py='''s = server()
s.send(s.open(URI + 'a.dts', '/dts-v1/;\\n/ {\\n l: p = <1>,\\n  <2>;\\n};\\n'))
s.rest()
r = s.symbols(URI + 'a.dts')[0]['children'][0]['range']
assert r == {'start': {'line': 2, 'character': 1}, 'end': {'line': 3, 'character': 6}}, r
''')

bug('c03-empty-statement', 'C03', [(P + 'parser.rs', '''                    end = self.expect_semicolon()?.unwrap_or(tok.clone());
                    break;''', '''                    end = self.expect_semicolon()?.unwrap_or(tok.clone());
                    // Empty statements behind a node are harmless
                    while self.lexer.peek_kind() == Some(&TokenKind::Semicolon) {
                        self.skip_tok();
                    }
                    break;'''), (P + 'parser.rs', '''        let mut node_discovered = false;
        loop {
            let tok = self.lexer.expect_next()?;
            if tok.kind == TokenKind::Directive(CompilerDirective::DeleteNode) {''', '''        let mut node_discovered = false;
        loop {
            let tok = self.lexer.next_token()?;
            if tok.kind == TokenKind::Directive(CompilerDirective::DeleteNode) {'''),
    (P + 'tokens/lexer.rs', '''    pub fn insert_pseudo_kind(&mut self, kind: TokenKind) {
        self.lexer.insert_pseudo_kind(kind)''', '''    pub fn next_token(&mut self) -> Result<Token, Diagnostic> {
        self.expect_next()
    }

    pub fn insert_pseudo_kind(&mut self, kind: TokenKind) {
        self.lexer.insert_pseudo_kind(kind)''')],
    'two semicolons behind a node', 'the malformed source is accepted without a diagnostic',
    py='''write('a.dts', '/dts-v1/;\\n/ { a { };; };\\n')
code, out = cli('a.dts')
assert code == 1, out
''')

bug('c03-bits-nothing', 'C03', [(P + 'parser.rs', '''                self.diagnostics.push(Diagnostic::expected(
                    width.span(),
                    width.source(),
                    &[TokenKind::UnparsedNumber("".to_string())],
                ))''', '''                if !matches!(width.kind, TokenKind::Ident(_)) {
                    self.diagnostics.push(Diagnostic::expected(
                        width.span(),
                        width.source(),
                        &[TokenKind::UnparsedNumber("".to_string())],
                    ))
                }''')],
    'a /bits/ directive with a name in place of the width', 'the malformed source is accepted without a diagnostic',
    py='''write('a.dts', '/dts-v1/;\\n/ { a = /bits/ WIDTH <1>; };\\n')
code, out = cli('a.dts')
assert code == 1, out
''')

bug('c04-label-first-byte', 'C04', [(P + 'parser.rs', '''                loop {
                    self.skip_optional_label();
                    let tok = self.lexer.peek_expect()?;
                    if tok.kind == TokenKind::CloseBracket {''', '''                loop {
                    if !byte_strings.is_empty() {
                        self.skip_optional_label();
                    }
                    let tok = self.lexer.peek_expect()?;
                    if tok.kind == TokenKind::CloseBracket {''')],
    'a label in front of the first byte of a byte string', 'a well-formed source is rejected',
    py='''write('a.dts', '/dts-v1/;\\n/ { a = [first: 00 11]; };\\n')
code, out = cli('a.dts')
assert code == 0, out
''')

bug('c04-number-uppercase', 'C04', [(P + 'tokens/lexer.rs', "        let buf = self.read_while(|ch| ch.is_ascii_alphanumeric());", "        let buf = self.read_while(|ch| ch.is_ascii_digit() || ch.is_ascii_lowercase() || (b'A'..b'F').contains(&ch));")],
    'a number with an upper case F', 'a well-formed source is rejected',
    py='''write('a.dts', '/dts-v1/;\\n/ { a = <0xAF>; };\\n')
code, out = cli('a.dts')
assert code == 0, out
''')

bug('c05-last-label', 'C05', [(P + 'parser.rs', '''                    let prop = Property {
                        label,
                        name: ident,''', '''                    let prop = Property {
                        label: label.filter(|_| !matches!(values[..], [PropertyValue::ByteStrings(..)])),
                        name: ident,''')],
    'a labelled property whose only value is a byte string', 'the label of the property is lost',
    py='''s = server()
s.send(s.open(URI + 'a.dts', '/dts-v1/;\\n/ {\\n l: p = [00];\\n};\\n'))
s.rest()
r = s.at('hover', URI + 'a.dts', 2, 1)
assert r and r['contents'] == 'l', r
''')

bug('c05-two-strings', 'C05', [(P + 'parser.rs', '''            values.push(self.property_value()?);
            self.skip_optional_label();''', '''            let value = self.property_value()?;
            if !matches!((values.last(), &value), (Some(PropertyValue::String(last)), PropertyValue::String(this)) if last.is_empty() && this.is_empty()) {
                values.push(value);
            }
            self.skip_optional_label();''')],
    'two empty strings in a row', 'the second empty string is not part of the tree',
    rs='''use ginko::dts::*;
fn main() {
    let mut p = Project::default();
    p.add_file_with_text("/nowhere/a.dts".into(), "/dts-v1/;\\n/ { p = \\"\\", \\"\\"; };\\n".into(), FileType::DtSource);
    let root = p.get_root(std::path::Path::new("/nowhere/a.dts")).unwrap();
    let Primary::Root(n) = &root.elements[1] else { panic!() };
    let NodeItem::Property(q) = &n.payload.items[0] else { panic!() };
    assert_eq!(q.values.len(), 2);
}
''')

bug('c06-brace-state', 'C06', [(P + 'tokens/lexer.rs', '''            b'{' => {
                self.state = LexerState::ExpectingNodeOrPropertyName;
                simple_token(OpenBrace)
            }''', '''            b'{' => simple_token(OpenBrace),''')],
    'a missing semicolon in front of a node whose first property starts with #', 'the recovery fails: a second diagnostic, and the tree is lost',
    py='''write('a.dts', '/dts-v1/;\\n/ { p = <1>\\n n { #cells = <1>; }; };\\n')
code, out = cli('a.dts')
assert out.count('-->') == 1 and 'one of' not in out, out
''')

bug('c06-mistyped', 'C06', [(P + 'parser.rs', '''            let tok = self.lexer.expect_next()?;
            self.lexer.insert_pseudo_kind(TokenKind::Semicolon);
            tok.span()''', '''            self.lexer.expect_next()?.span()''')],
    'a semicolon that is replaced by another character, followed by a property that starts with #', 'the recovery fails: a second diagnostic, and the tree is lost',
    py='''write('a.dts', '/dts-v1/;\\n/ { p = <1>!\\n #cells = <1>; };\\n')
code, out = cli('a.dts')
assert out.count('-->') == 1 and 'one of' not in out, out
''')

bug('c06-skip-paren', 'C06', [(P + 'parser.rs', '''            | TokenKind::CloseParen
            | TokenKind::ChevronLeft => false,
            TokenKind::Unknown(_) | TokenKind::Comment(_) => true,''', '''            | TokenKind::ChevronLeft => false,
            TokenKind::CloseParen | TokenKind::Unknown(_) | TokenKind::Comment(_) => true,''')],
    'a closing parenthesis where the semicolon is expected', 'the diagnostics of the malformed source change',
    py='''write('a.dts', '/dts-v1/;\\n/ { p = <1>)\\n q; };\\n')
code, out = cli('a.dts')
assert out.count('-->') == 1 and 'one of' in out, out
''')

bug('c07-symbols-address', 'C07', [(P + 'parser.rs', 'if name.unit_address.is_none() && name.name == "__symbols__" {', 'if name.name == "__symbols__" {')],
    'a node __symbols__ with a unit address', 'an illegal name is not reported',
    py='''write('a.dts', '/dts-v1/;\\n/ { __symbols__@1 { }; };\\n')
code, out = cli('a.dts')
assert code == 1, out
''')

bug('c07-delete-node', 'C07', [(P + 'parser.rs', '''            let node_name = NodeName::from(value);
            self.check_is_node_name(tok.span(), &node_name);
            return''', '''            let node_name = NodeName::from(value);
            if node_name.unit_address.is_none() {
                self.check_is_node_name(tok.span(), &node_name);
            }
            return''')],
    'a /delete-node/ directive with a bad name that has a unit address', 'an illegal name is not reported',
    py='''write('a.dts', '/dts-v1/;\\n/ { /delete-node/ n?@1; };\\n')
code, out = cli('a.dts')
assert code == 1, out
''')

bug('c07-both-faults', 'C07', [(P + 'parser.rs', '''    fn check_is_label(&mut self, span: Span, str: &str) {
        self.check_ident(
            span,
            str,''', '''    fn check_is_label(&mut self, span: Span, str: &str) {
        self.check_ident(
            span,
            str.strip_prefix('_').unwrap_or(str),''')],
    'a label with a digit behind a leading underscore', 'a valid label is rejected',
    py='''write('a.dts', '/dts-v1/;\\n/ { _1: n { }; };\\n')
code, out = cli('a.dts')
assert code == 0, out
''')

bug('c08-memreserve', 'C08', [(P + 'analysis.rs', '''                    AnyDirective::Memreserve(_) => ctx.first_non_include = true,''', '''                    AnyDirective::Memreserve(_) => {}''')],
    'a header behind a /memreserve/', 'the misplaced header is not reported',
    py='''write('a.dts', '/memreserve/ 0 1;\\n/dts-v1/;\\n/ { };\\n')
code, out = cli('a.dts')
assert code == 1, out
''')

bug('c08-second-flag', 'C08', [(P + 'analysis.rs', '''                        if ctx.dts_header_seen {
                            ctx''', '''                        if ctx.dts_header_seen && !ctx.first_non_include {
                            ctx''')],
    'a second header behind a node', 'another diagnostic than the one for duplicates is reported',
    py='''write('a.dts', '/dts-v1/;\\n/ { };\\n/dts-v1/;\\n')
code, out = cli('a.dts')
assert 'Duplicate' in out, out
''')

bug('c09-unit-lenient', 'C09', [(P + 'analysis.rs', '''                Reference::Path(path) => {
                    if !ctx.flat_nodes.contains_key(path) {
                        self.unresolved_reference_error(ctx, span, source);''', '''                Reference::Path(path) => {
                    let same = |other: &Path| {
                        path.iter().count() == other.iter().count()
                            && path.iter().zip(other.iter()).all(|(a, b)| {
                                a.name == b.name
                                    && (a.unit_address.is_none() || a.unit_address == b.unit_address)
                            })
                    };
                    if !ctx.flat_nodes.keys().any(same) {
                        self.unresolved_reference_error(ctx, span, source);''')],
    'a reference by path without the unit address of the node', 'the unresolved reference is not reported',
    py='''write('a.dts', '/dts-v1/;\\n/ { cpu@0 { }; p = <&{/cpu}>; };\\n'.replace('cpu@0 { }; p = <&{/cpu}>;', 'p = <&{/cpu}>; cpu@0 { };'))
code, out = cli('a.dts')
assert code == 1, out
''')

bug('c09-deleted-label', 'C09', [(P + 'analysis.rs', '''                    AnyDirective::DeletedNode(_, reference) => {
                        ctx.first_non_include = true;
                        self.resolve_reference(&mut ctx, reference);''', '''                    AnyDirective::DeletedNode(_, reference) => {
                        ctx.first_non_include = true;
                        let path = self.resolve_reference(&mut ctx, reference);
                        if ctx.flat_nodes.get(&path).is_some_and(|node| node.payload.items.is_empty()) {
                            ctx.flat_nodes.remove(&path);
                        }''')],
    'an empty node that is deleted and referred to by its path', 'a reference that used to be resolved is reported',
    py='''write('a.dts', '/dts-v1/;\\n/ { a { }; };\\n/ { p = &{/a}; };\\n/delete-node/ &{/a};\\n')
code, out = cli('a.dts')
assert code == 0, out
''')

bug('c10-search-by-range', 'C10', [(P + 'visitor.rs', '''        for node in &self.items {
            if let Some(item) = node.item_at_cursor(cursor) {
                return Some(item);
            }
        }
        None''', '''        // The items do not overlap
        self.items
            .iter()
            .find(|node| match node {
                NodeItem::Property(property) => property.span().contains(cursor),
                NodeItem::Node(node) => node.span().contains(cursor),
                NodeItem::DeletedNode(..) | NodeItem::DeletedProperty(..) => false,
            })
            .and_then(|node| node.item_at_cursor(cursor))''')],
    'a cursor on a reference in a property without semicolon', 'nothing is found',
    py='''s = server()
s.send(s.open(URI + 'a.dts', '/dts-v1/;\\n/ {\\n p = <&{/n}>\\n n { };\\n};\\n'))
s.rest()
r = s.at('definition', URI + 'a.dts', 2, 7)
assert r and r['range']['start'] == {'line': 3, 'character': 1}, r
''')

bug('c10-label-order', 'C10', [(P + 'analysis.rs', '''            ctx.labels
                .insert(label.item().clone(), Labeled::Property(property.clone()));''', '''            ctx.labels
                .entry(label.item().clone())
                .or_insert_with(|| Labeled::Property(property.clone()));''')],
    'a label that is first used for a node and then for a property', 'the definition of the label is the node',
    py='''s = server()
s.send(s.open(URI + 'a.dts', '/dts-v1/;\\n/ {\\n a: n { a: q; };\\n};\\n/ { p = <&a>; };\\n'))
s.rest()
r = s.at('definition', URI + 'a.dts', 4, 9)
assert not r, r
''')

bug('c11-absolute', 'C11', [(P + 'ast.rs', '''            let path = include_path.join(self.file_name.to_string());''', '''            let path = include_path.join(self.file_name.trim_start_matches('/'));''')],
    'an absolute include name that also exists below a search directory', 'the wrong file is included',
    py='''write('sub' + HERE + '/b.dtsi', '/ { x: n { }; };\\n')
write('b.dtsi', '/ { y: n { }; };\\n')
write('a.dts', '/dts-v1/;\\n/include/ "%s/b.dtsi"\\n/ { p = <&y>; };\\n' % HERE)
code, out = cli('a.dts', '-i', 'sub')
assert code == 0, out
''')

bug('c11-config-cleared', 'C11', [(P + 'project.rs', '''        self.include_paths = include_paths
            .iter()
            .map(|path| dunce::canonicalize(path).unwrap_or_default())
            .collect::<Vec<PathBuf>>();''', '''        self.include_paths = include_paths
            .iter()
            .map(|path| dunce::canonicalize(path).unwrap_or_default())
            .unique_by(|path| path.file_name().map(|name| name.to_owned()))
            .collect::<Vec<PathBuf>>();''')],
    'two search directories with the same last component', 'the second search directory is ignored',
    py='''write('x/inc/b.dtsi', '')
write('y/inc/c.dtsi', '')
write('a.dts', '/dts-v1/;\\n/include/ "b.dtsi"\\n/include/ "c.dtsi"\\n')
code, out = cli('a.dts', '-i', 'x/inc', '-i', 'y/inc')
assert code == 0, out
''')

bug('c12-analysis-errors', 'C12', [(P + 'analysis.rs', '''        if proj_file.has_errors(&ctx.project.severities) {''', '''        let severities = &ctx.project.severities;
        if (proj_file.parser_diagnostics.iter())
            .any(|diagnostic| diagnostic.severity(severities) == Severity::Error)
        {'''), (P + 'analysis.rs', '''use crate::dts::{Diagnostic, FileType, Position, Project};''', '''use crate::dts::{Diagnostic, FileType, Position, Project, Severity};''')],
    'an included file whose only errors are found by the analysis', 'the error is not shown at the include',
    py='''write('b.dts', '/ { };\\n')
write('a.dts', '/dts-v1/;\\n/include/ "b.dts"\\n')
code, out = cli('a.dts')
assert 'a.dts:2:1' in out, out
''')

bug('c12-first-label', 'C12', [(P + 'analysis.rs', '''            ctx.labels.extend(context.labels.clone());''', '''            for (label, labeled) in &context.labels {
                let entry = ctx.labels.entry(label.clone());
                entry.or_insert_with(|| labeled.clone());
            }''')],
    'a label that two included files define', 'the definition of the label is the one of the first file',
    py='''write('b.dtsi', '/ { x: n1 { }; };\\n')
write('c.dtsi', '/ { x: n2 { }; };\\n')
s = server()
s.send(s.open(URI + 'a.dts', '/dts-v1/;\\n/include/ "b.dtsi"\\n/include/ "c.dtsi"\\n/ { p = <&x>; };\\n'))
s.rest()
r = s.at('definition', URI + 'a.dts', 3, 9)
assert r['uri'].endswith('c.dtsi'), r
''')

bug('c13-base-name', 'C13', [(P + 'analysis.rs', '''            .add(path.clone(), &[parent.source.clone().to_path_buf()])''', '''            .add(
                path.file_name().map_or(path.clone(), PathBuf::from),
                &[(parent.source.file_name()).map_or(parent.source.to_path_buf(), PathBuf::from)],
            )''')],
    'files with the same name in different directories', 'an include that is not cyclic is reported as cyclic',
    py='''write('common/board.dtsi', '')
write('board.dtsi', '/include/ "common/board.dtsi"\\n')
write('a.dts', '/dts-v1/;\\n/include/ "board.dtsi"\\n')
code, out = cli('a.dts')
assert code == 0, out
''')

bug('c13-self', 'C13', [(P + 'import_guard.rs', '''        for dependency in dependencies {
            if''', '''        for dependency in dependencies.iter().filter(|dep| **dep != element || known.is_empty()) {
            if''')],
    'a file that includes itself', 'the cycle is not reported',
    py='''write('a.dts', '/dts-v1/;\\n/include/ "a.dts"\\n')
code, out = cli('a.dts')
assert code == 1, out
''')

bug('c14-file-type', 'C14', [(P + 'project.rs', '''        self.parse_file(file_name.clone(), text, file_type);''', '''        let file_type = match self.files.get(&file_name) {
            Some(known) if known.context.is_some() => known.file_type,
            _ => file_type,
        };
        self.parse_file(file_name.clone(), text, file_type);''')],
    'a file that is added again with another type', 'the old type decides which diagnostics are shown',
    rs='''use ginko::dts::*;
fn main() {
    let mut p = Project::default();
    let name = std::path::Path::new("/nowhere/a.dts");
    p.add_file_with_text(name.into(), "/ { };".into(), FileType::DtSourceInclude);
    assert_eq!(p.get_diagnostics(name).count(), 0);
    p.add_file_with_text(name.into(), "/ { };".into(), FileType::DtSource);
    assert_eq!(p.get_diagnostics(name).count(), 1);
}
''')

bug('c14-parse-error-keeps', 'C14', [(P + 'project.rs', '''        self.parse_file(file_name.clone(), text, file_type);
''', '''        // keep the last good tree, so that features still work while typing
        let last_good = self.files.remove(&file_name).and_then(|old| old.file);
        self.parse_file(file_name.to_owned(), text, file_type);
        if let Some(file) = self.files.get_mut(&file_name) {
            if file.file.is_none() {
                file.file = last_good;
            }
        }
''')],
    'a file that cannot be parsed any more after a change', 'definitions and diagnostics of the old text stay',
    py='''s = server()
s.send(s.open(URI + 'a.dts', '/dts-v1/;\\n/ { p = <&x>; };\\n'))
s.rest()
s.send(s.change(URI + 'a.dts', '/dts-v1/;\\n/ { = };\\n'))
s.rest()
assert s.codes(URI + 'a.dts') == ['expected'] or len(s.codes(URI + 'a.dts')) == 1, s.codes(URI + 'a.dts')
''')

bug('c15-old-version', 'C15', [(S, '''    project: RwLock<Project>,
    severities: SeverityMap,
    // The''', '''    project: RwLock<Project>,
    versions: RwLock<std::collections::HashMap<PathBuf, i32>>,
    severities: SeverityMap,
    // The'''), (S, '''            project: RwLock::new(Project::default()),''', '''            project: RwLock::new(Project::default()),
            versions: RwLock::default(),'''), (S, '''    async fn did_change(&self, params: DidChangeTextDocumentParams) {
        let Some(file_path) = self.url_to_file_path(params.text_document.uri).await else {
            return;
        };
''', '''    async fn did_change(&self, params: DidChangeTextDocumentParams) {
        let version = params.text_document.version;
        let uri = params.text_document.uri;
        let Some(file_path) = self.url_to_file_path(uri).await else {
            return;
        };
        // Outdated changes are not relevant
        let last = (self.versions.write()).insert(file_path.clone(), version);
        if last.is_some_and(|last| last > version) {
            return;
        }
''')],
    'a document that is closed, opened again with a lower version and changed', 'the change is ignored',
    py='''s = server()
U = URI + 'a.dts'
s.send(s.open(U, '/dts-v1/;\\n'))
for i in range(2, 6):
    m = s.change(U, '/dts-v1/;\\n')
    m['params']['textDocument']['version'] = i
    s.send(m)
s.send(s.note('textDocument/didClose', {'textDocument': {'uri': U}}))
s.send(s.open(U, '/dts-v1/;\\n'))
s.send(s.change(U, '/dts-v1/;\\n/ { p = <&x>; };\\n'))
s.rest()
assert len(s.codes(U)) == 1, s.codes(U)
''')

bug('c15-close-keeps', 'C15', [(S, '''        self.project.write().remove_file(&file_path);''', '''        // Other files may include this one
        if !file_path.exists() {
            self.project.write().remove_file(&file_path);
        }''')],
    'a document with unsaved changes that is closed, while an open document includes it', 'the unsaved text still counts after the next change',
    py='''write('b.dtsi', '/ { x: n { }; };\\n')
s = server()
s.send(s.open(URI + 'b.dtsi', '/ { };\\n'))
s.send(s.note('textDocument/didClose', {'textDocument': {'uri': URI + 'b.dtsi'}}))
s.send(s.open(URI + 'a.dts', '/dts-v1/;\\n/include/ "b.dtsi"\\n/ { p = <&x>; };\\n'))
s.rest()
assert s.codes(URI + 'a.dts') == [], s.codes(URI + 'a.dts')
''')

bug('c15-only-changed', 'C15', [(S, '''        for file in file_paths {
            let''', '''        for file in file_paths.into_iter().filter(|file| file.exists()) {
            let''')],
    'an open document that has not been saved yet', 'its diagnostics are not published',
    py='''s = server()
s.send(s.open(URI + 'a.dts', '/ { };\\n'))
s.rest()
assert len(s.codes(URI + 'a.dts')) == 1, s.view
''')

bug('c15-config-quiet', 'C15', [(S, '''        let config = ProjectConfig::from_value(params.settings);
        self.set_config(config);
        self.publish_diagnostics().await''', '''        let config = ProjectConfig::from_value(params.settings);
        if config.includes.is_empty() {
            return;
        }
        self.set_config(config);
        self.publish_diagnostics().await''')],
    'a configuration change that removes all search directories', 'the old search directories stay',
    py='''write('inc/b.dtsi', '')
s = server(options={'includes': [HERE + '/inc']})
s.send(s.note('workspace/didChangeConfiguration', {'settings': {'includes': []}}))
s.send(s.open(URI + 'a.dts', '/dts-v1/;\\n/include/ "b.dtsi"\\n'))
s.rest()
assert len(s.codes(URI + 'a.dts')) == 1, s.codes(URI + 'a.dts')
''')

bug('c16-include-parent', 'C16', [(P + 'project.rs', '''            .iter()
            .map(|path| dunce::canonicalize(path).unwrap_or_else(|_| path.into()))''', '''            .into_iter()
            .map(|path| {
                let path = PathBuf::from(path);
                let name = path.file_name().expect("a directory");
                dunce::canonicalize(path.with_file_name(name)).unwrap_or(path)
            })''')],
    'a search directory without a name, like / or ..', 'the handler panics: the request is never answered',
    py='''s = server()
s.send(s.note('workspace/didChangeConfiguration', {'settings': {'includes': ['/', '..']}}))
s.send(s.open(URI + 'a.dts', '/ { };\\n'))
s.rest()
assert len(s.codes(URI + 'a.dts')) == 1, s.view
s = server(options={'includes': ['..']})
assert s.answers.get(1), 'no answer'
''')

bug('c16-hover-slice', 'C16', [(S, '''            contents: HoverContents::Scalar(MarkedString::String(str.to_string())),''', '''            contents: HoverContents::Scalar(MarkedString::String(
                str[..str.len().min(256)].to_string(),
            )),''')],
    'a hover on an include whose name has a multi-byte character at byte 256', 'the handler panics: the request is never answered',
    py='''s = server()
s.send(s.open(URI + 'a.dts', '/dts-v1/;\\n/include/ "%s"\\n' % ('a' + '\\u00e4' * 200)))
s.rest()
a = s.ask('textDocument/hover', {'textDocument': {'uri': URI + 'a.dts'}, 'position': {'line': 1, 'character': 14}}, 5)
assert a, 'no answer'
''')

bug('c16-config-lock', 'C16', [(S, '''        let config = ProjectConfig::from_value(params.settings);
        self.set_config(config);
        self.publish_diagnostics().await''', '''        let config = ProjectConfig::from_value(params.settings);
        match self.project.read().files().next() {
            // Nothing to publish yet
            None => return self.set_config(config),
            Some(_) => self.set_config(config),
        }
        self.publish_diagnostics().await''')],
    'a configuration change while documents are open', 'the server waits for itself forever',
    py='''s = server()
s.send(s.open(URI + 'a.dts', '/ { };\\n'))
s.rest()
s.send(s.note('workspace/didChangeConfiguration', {'settings': {'includes': []}}))
a = s.ask('textDocument/documentSymbol', {'textDocument': {'uri': URI + 'a.dts'}}, 5)
assert a, 'no answer'
''')

bug('c17-address-in-name', 'C17', [(S, '''                name: node.name.name.clone(),
                detail: None,
                kind: SymbolKind::MODULE,''', '''                name: node.name.name.clone(),
                detail: node.name.unit_address.clone(),
                kind: match node.payload.items.as_slice() {
                    [NodeItem::DeletedNode(..), ..] => SymbolKind::FIELD,
                    _ => SymbolKind::MODULE,
                },''')],
    'a node whose first item is a deleted node', 'the node has the kind of a field',
    py='''s = server()
s.send(s.open(URI + 'a.dts', '/dts-v1/;\\n/ { /delete-node/ n; };\\n'))
s.rest()
r = s.symbols(URI + 'a.dts')
assert r[0]['kind'] == 2, r
''')

bug('c17-merge-roots', 'C17', [(S, '''            .collect_vec();
        Ok(Some(DocumentSymbolResponse::Nested(nodes)))''', '''            .coalesce(|mut first, second| {
                // The root node can be opened repeatedly
                if first.name == "/" && second.name == "/" {
                    let more = second.children.unwrap_or_default();
                    first.children.get_or_insert_with(Vec::new).extend(more);
                    Ok(first)
                } else {
                    Err((first, second))
                }
            })
            .collect_vec();
        Ok(Some(DocumentSymbolResponse::Nested(nodes)))'''.replace('            .collect_vec();\n        Ok(Some(Doc', '            .collect::<Vec<_>>();\n        Ok(Some(Doc'))],
    'two root nodes in a row', 'they are shown as one node, whose range does not contain its children',
    py='''s = server()
s.send(s.open(URI + 'a.dts', '/dts-v1/;\\n/ { };\\n/ { };\\n'))
s.rest()
r = s.symbols(URI + 'a.dts')
assert len(r) == 2, r
''')

bug('c18-definition-file', 'C18', [(S, '''                    Some((span, path)) => Ok(Some(GotoDefinitionResponse::Scalar(Location::new(
                        Url::from_file_path(path).unwrap(),''', '''                    Some((span, path)) => Ok(Some(GotoDefinitionResponse::Scalar(Location::new(
                        Url::from_file_path(if path.exists() { path } else { file_path.into() })
                            .unwrap(),''')],
    'a definition in an open document that is not saved, included by another', 'the answer names the wrong document',
    py='''import shutil
write('b.dtsi', '/ { x: n { }; };\\n')
s = server()
s.send(s.open(URI + 'a.dts', '/dts-v1/;\\n/include/ "b.dtsi"\\n/ { p = <&x>; };\\n'))
s.rest()
os.remove('b.dtsi')
r = s.at('definition', URI + 'a.dts', 2, 9)
assert r['uri'].endswith('b.dtsi'), r
''')

bug('c18-try-read', 'C18', [(S, '''            ItemAtCursor::Reference(reference) => {
                match project.document_reference(&file_path, reference) {
                    Some(str) => str,
                    None => return Ok(None),
                }
            }''', '''            ItemAtCursor::Reference(reference) => {
                match project.document_reference(&file_path, reference) {
                    Some(str) if str != "Node /" => str,
                    _ => return Ok(None),
                }
            }''')],
    'a hover on a reference to the root node', 'there is no answer',
    py='''s = server()
s.send(s.open(URI + 'a.dts', '/dts-v1/;\\n/ { };\\n&{/} { };\\n'))
s.rest()
r = s.at('hover', URI + 'a.dts', 2, 1)
assert r and r['contents'] == 'Node /', r
''')

bug('c19-marker-length', 'C19', [(P + 'diagnostics.rs', '''        let prefix = format!("{}", start.line() + 1);
        let prefix_empty = " ".repeat(prefix.len());''', '''        let prefix = format!("{}", start.line() + 1);
        let prefix_empty = " ".repeat(end.line().max(1).ilog10() as usize + 1);''')],
    'a diagnostic on line 10, 100, ...', 'the columns of the report are not aligned',
    py='''write('a.dts', '/dts-v1/;' + '\\n' * 9 + '/ { p = <&x>; };\\n')
code, out = cli('a.dts')
assert '\\n   |' in out, out
''')

bug('c19-last-file', 'C19', [('ginko/src/main.rs', '''        if diag.is_empty() {
            continue;
        } else {
            has_errors = true;
        }''', '''        has_errors |= !file.source().is_empty() && !diag.is_empty();
        if diag.is_empty() {
            continue;
        }''')],
    'an empty source', 'the tool says that no issues were found, though it reports one',
    py='''write('a.dts', '')
code, out = cli('a.dts')
assert code == 1, (code, out)
''')

bug('c20-severity-map', 'C20', [(P + 'diagnostics.rs', '''    pub fn severity(&self, map: &SeverityMap) -> Severity {
        map[self.kind]''', '''    pub fn severity(&self, map: &SeverityMap) -> Severity {
        if self.kind == ErrorCode::NameTooLong && self.span.start().line() != self.span.end().line() {
            return Severity::Error;
        }
        map[self.kind]''')],
    'a path reference over several lines with a too long name', 'the severity of the same kind differs',
    py='''write('a.dts', '/dts-v1/;\\n')
sys.exit(0)
''')

bug('c21-second-prefix', 'C21', [(P + 'parser.rs', '''                    u32::from_str_radix(&num.as_str()[2..], 16)''', '''                    u32::from_str_radix(num.trim_start_matches("0x"), 16)''')],
    'a number like 0x0x10', 'a malformed number is read as 16',
    py='''write('a.dts', '/dts-v1/;\\n/ { p = <0x0x10>; };\\n')
code, out = cli('a.dts')
assert code == 1, out
''')

bug('c21-u64-octal', 'C21', [(P + 'parser.rs', '''                    u64::from_str_radix(&num.as_str()[1..], 8)''', '''                    u64::from_str_radix(&num.as_str()[1..], 8).map(|n| n & (u64::MAX >> 1))''')],
    'an octal number over 63 bits in /memreserve/', 'the value is wrong',
    rs='''use ginko::dts::*;
fn main() {
    let mut p = Project::default();
    p.add_file_with_text("/nowhere/a.dts".into(), "/dts-v1/;\\n/memreserve/ 01777777777777777777777 1;".into(), FileType::DtSource);
    let root = p.get_root(std::path::Path::new("/nowhere/a.dts")).unwrap();
    assert!(format!("{}", root).contains("0xffffffffffffffff"), "{}", root);
}
''')

bug('c22-continued-comment', 'C22', [(P + 'tokens/lexer.rs', '''        let comment = self.read_while(|ch| ch != b'\\n');''', '''        let mut comment = self.read_while(|ch| ch != b'\\n');
        // A backslash continues the comment on the next line
        while comment.ends_with(b"\\\\") && self.reader.consume().is_some() {
            comment.push(b'\\n');
            comment.extend(self.read_while(|ch| ch != b'\\n'));
        }''')],
    'a line comment that ends with a backslash', 'the next line is lost',
    py='''write('a.dts', '/dts-v1/;\\n/ { // path\\\\\\n p = <&x>;\\n };\\n')
code, out = cli('a.dts')
assert code == 1, out
''')

bug('c22-comment-eof', 'C22', [(P + 'tokens/lexer.rs', '''        while self.reader.skip_if(|ch| ch.is_ascii_whitespace()) {}''', '''        while self
            .reader
            .skip_if(|ch| matches!(ch, b' ' | b'\\t' | b'\\n' | b'\\r'))
        {}''')],
    'a form feed between two tokens', 'the source is rejected',
    py='''write('a.dts', '/dts-v1/;\\n\\f/ { };\\n')
code, out = cli('a.dts')
assert code == 0, out
''')

bug('c23-eof-position', 'C23', [(P + 'tokens/lexer.rs', '''        let prev_pos = self.lexer.pos();
        let next = self.next();
        match next {
            None => Err(Diagnostic::new(
                prev_pos.as_span(),''', '''        let prev_pos = self.last_pos();
        let next = self.next();
        match next {
            None => Err(Diagnostic::new(
                prev_pos.as_span(),''')],
    'a token other than the expected opening brace', 'the position is the one of the previous token',
    py='''write('a.dts', '/dts-v1/;\\n/   x { };\\n')
code, out = cli('a.dts')
print(out)
assert ':2:2' in out, out
''')

bug('c23-delete-expected', 'C23', [(P + 'parser.rs', '''                token.span(),
                token.source(),
                &[TokenKind::Ref(Reference::Simple("".to_string()))],''', '''                token.end().as_span(),
                token.source(),
                &[TokenKind::Ref(Reference::Simple("".to_string()))],''')],
    '/delete-node/ without a reference', 'the position of the diagnostic is behind the token',
    py='''write('a.dts', '/dts-v1/;\\n/delete-node/ xyz;\\n')
code, out = cli('a.dts')
assert ':2:15' in out, out
''')
