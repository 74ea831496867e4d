P = 'ginko/src/dts/'
S = 'ginko_ls/src/server.rs'
BUGS = []


def bug(id, property, edits, needs, breaks, py=None, rs=None):
    b = dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks)
    if py:
        b['py'] = py
    if rs:
        b['rs'] = rs
    BUGS.append(b)


bug('c01-bits-width-unwrap', 'C01', [(P + 'parser.rs', '''        if matches!(
            self.lexer.peek(),
            Some(Token {
                kind: TokenKind::Directive(CompilerDirective::Bits),
                ..
            })
        ) {
            self.skip_tok();''', '''        let bits = matches!(
            self.lexer.peek(),
            Some(Token {
                kind: TokenKind::Directive(CompilerDirective::Bits),
                ..
            })
        );
        if bits {
            self.skip_tok();'''), (P + 'parser.rs', '''        let tok = self.lexer.expect_next()?;
        match &tok.kind {
            TokenKind::String(string) => {''', '''        let tok = if bits {
            // there are always cells behind the width
            self.lexer.next().unwrap()
        } else {
            self.lexer.expect_next()?
        };
        match &tok.kind {
            TokenKind::String(string) => {''')],
    'a text that ends behind the width of a /bits/ directive', 'the parser panics',
    py='''write('a.dts', '/dts-v1/;\\n/ { p = /bits/ 8')
code, out = cli('a.dts')
assert code in (0, 1), code
''')

bug('c01-include-guard-order', 'C01', [(P + 'project.rs', '''                // insert dummy file to be defined so that no cyclic dependency can occur.
                self.files.insert(file_name.clone(), ProjectFile::default());
                file.elements''', '''                // insert dummy file to be defined so that no cyclic dependency can occur.
                self.files.entry(file_name.clone()).or_default();
                if file_type != FileType::DtSource {
                    self.files.remove(&file_name);
                }
                file.elements''')],
    'an included (non-dts) file that is part of a cycle of includes', 'endless recursion: the stack overflows',
    py='''write('a.dts', '/dts-v1/;\\n/include/ "b.dtsi"\\n')
write('b.dtsi', '/include/ "c.dtsi"\\n')
write('c.dtsi', '/include/ "b.dtsi"\\n')
code, out = cli('a.dts')
assert code == 1, code
''')

bug('c02-form-feed-line', 'C02', [(P + 'reader.rs', "            b'\\n' => {\n                self.pos", "            b'\\n' | 0x0c => {\n                self.pos")],
    'a form feed character in the source', 'every position behind it is on the wrong line',
    py='''write('a.dts', '/dts-v1/;\\n/ {\\f p = <; };\\n')
code, out = cli('a.dts')
assert ':2:9\\n' in out, out
''')

bug('c02-illegal-char-unit', 'C02', [(P + 'parser.rs', '''                let mut start = token.span().start().offset_by_char(2);
                for el in path.split('/') {''', '''                let mut start = token.span().start().offset_by_char(2);
                for el in path.split_terminator('/').skip_while(|el| el.is_empty()) {'''),
    (P + 'parser.rs', '''                        self.check_is_node_name(Span::new(start, end), &NodeName::from(el));''', '''                        self.check_is_node_name(Span::new(start.offset_by_char(1), end.offset_by_char(1)), &NodeName::from(el));''')],
    'a path with a bad node name that does not start with exactly one slash', 'the position of the diagnostic is off',
    py='''write('a.dts', '/dts-v1/;\\n/ { p = <&{//a?b}>; };\\n')
code, out = cli('a.dts')
assert ':2:15\\n' in out, out
''')

bug('c03-trailing-comma', 'C03', [(P + 'parser.rs', '''            if self.lexer.peek_expect()?.kind == TokenKind::Comma {
                self.skip_tok();
            } else {
                break;
            }''', '''            if self.lexer.peek_expect()?.kind != TokenKind::Comma {
                break;
            }
            self.skip_tok();
            if self.lexer.peek_kind() == Some(&TokenKind::Semicolon) {
                break;
            }''')],
    'a property with a comma behind its last value', 'the malformed property is accepted without a diagnostic',
    py='''write('a.dts', '/dts-v1/;\\n/ { p = <1>, ; };\\n')
code, out = cli('a.dts')
assert code == 1, out
''')

bug('c03-delete-node-twice', 'C03', [(P + 'parser.rs', '''            if tok.kind == TokenKind::Directive(CompilerDirective::DeleteProperty) {
                let property_name = self.property_name()?;''', '''            if tok.kind == TokenKind::Directive(CompilerDirective::DeleteProperty) {
                self.skip_optional_label();
                let property_name = self.property_name()?;''')],
    'a /delete-property/ directive with a label before the name', 'the malformed directive is accepted',
    py='''write('a.dts', '/dts-v1/;\\n/ { /delete-property/ x: p; };\\n')
code, out = cli('a.dts')
assert code == 1, out
''')

bug('c04-label-behind-value', 'C04', [(P + 'parser.rs', '''            values.push(self.property_value()?);
            self.skip_optional_label();
            if''', '''            values.push(self.property_value()?);
            if''')],
    'a label between a value and the comma or semicolon behind it', 'a well-formed property is rejected',
    py='''write('a.dts', '/dts-v1/;\\n/ { p = <1> x: , "b"; };\\n')
code, out = cli('a.dts')
assert code == 0, out
''')

bug('c05-escape-state', 'C05', [(P + 'tokens/lexer.rs', '''                        let str = String::from_utf8(buf).unwrap();
                        return Some(Token {
                            span: pos.to(self.reader.pos()),
                            kind: TokenKind::String(str),''', '''                        let str = String::from_utf8(buf).unwrap();
                        // no line continuations at the end of a string
                        let str = str.trim_end_matches('\\\\').to_string();
                        return Some(Token {
                            span: pos.to(self.reader.pos()),
                            kind: TokenKind::String(str),'''), (P + 'tokens/lexer.rs', '''                    if is_escaped {
                        buf.push(b'\\\\');
                        is_escaped = false;
                    } else {
                        is_escaped = true;
                    }''', '''                    if is_escaped {
                        buf.push(b'\\\\');
                    }
                    is_escaped = !is_escaped;''')],
    'a string that ends with an escaped backslash', 'the value of the string is wrong',
    rs='''use ginko::dts::*;
fn main() {
    let mut p = Project::default();
    p.add_file_with_text("/nowhere/a.dts".into(), "/dts-v1/;\\n/ { p = \\"b\\\\\\\\\\"; };\\n".into(), FileType::DtSource);
    let root = p.get_root(std::path::Path::new("/nowhere/a.dts")).unwrap();
    let Primary::Root(n) = &root.elements[1] else { panic!() };
    let NodeItem::Property(q) = &n.payload.items[0] else { panic!() };
    assert!(format!("{}", q.values[0]).contains("b\\\\"));
}
''')

bug('c05-label-of-omitted', 'C05', [(P + 'parser.rs', '''                    items.push(NodeItem::Node(Arc::new(Node {
                        omit_if_no_ref,
                        name: node_name,
                        label,
                        payload,
                    })));''', '''                    let omit_if_no_ref = omit_if_no_ref.filter(|_| label.is_some());
                    items.push(NodeItem::Node(Arc::new(Node {
                        omit_if_no_ref,
                        name: node_name,
                        label,
                        payload,
                    })));''')],
    '/omit-if-no-ref/ on a node without a label', 'the directive is dropped from the tree',
    rs='''use ginko::dts::*;
fn main() {
    let mut p = Project::default();
    let path = std::path::PathBuf::from("/nowhere/a.dts");
    p.add_file_with_text(path.clone(), "/dts-v1/; / { /omit-if-no-ref/ n { }; };".into(), FileType::DtSource);
    let root = p.get_root(&path).unwrap();
    let node = root.elements.iter().find_map(|e| match e { Primary::Root(n) => Some(n.clone()), _ => None }).unwrap();
    match &node.payload.items[0] {
        NodeItem::Node(n) => assert!(n.omit_if_no_ref.is_some()),
        _ => panic!(),
    }
}
''')

bug('c06-label-swallowed', 'C06', [(P + 'parser.rs', '''            | TokenKind::Label(_)
            | TokenKind::String(_)
            | TokenKind::UnparsedNumber(_)
            | TokenKind::Directive(_)''', '''            | TokenKind::String(_)
            | TokenKind::UnparsedNumber(_)
            | TokenKind::Directive(_)'''), (P + 'parser.rs', '''            TokenKind::Unknown(_) | TokenKind::Comment(_) => true,''', '''            TokenKind::Label(_) | TokenKind::Unknown(_) | TokenKind::Comment(_) => true,''')],
    'a missing semicolon followed by a label', 'the label is lost, so that references to it do not resolve',
    py='''write('a.dts', '/dts-v1/;\\n/ { p = <1>\\n x: n { }; };\\n&x { };\\n')
code, out = cli('a.dts')
assert out.count(' --> ') == 1, out
''')

bug('c07-unit-address-length', 'C07', [(P + 'parser.rs', '''        } else if str.len() > 31 {''', '''        } else if str.len() > 31 && !str.contains(',') {''')],
    'a name with a vendor prefix that is too long', 'the name is not reported',
    py='''write('a.dts', '/dts-v1/;\\n/ { vendor,n234567890123456789012345 { }; };\\n')
code, out = cli('a.dts')
assert code == 1 and '32 characters' in out, out
''')

bug('c07-label-digit', 'C07', [(P + 'parser.rs', '''            |ch| matches!(ch, 'a'..='z' | 'A'..='Z' | '_'),
            NameContext::Label,''', '''            |ch| ch.is_ascii_alphanumeric() || ch == '_',
            NameContext::Label,''')],
    'a label that starts with a digit', 'the label is not reported',
    py='''write('a.dts', '/dts-v1/;\\n/ { 1a: n { }; };\\n')
code, out = cli('a.dts')
assert code == 1, out
''')

bug('c08-plugin-before-header', 'C08', [(P + 'analysis.rs', '''                    AnyDirective::Plugin(_) => {
                        ctx.first_non_include = true;
                        ctx.is_plugin = true
                    }''', '''                    AnyDirective::Plugin(_) => ctx.is_plugin = true,''')],
    'a /plugin/ directive in front of the /dts-v1/ header', 'the misplaced header is not reported',
    py='''write('a.dts', '/plugin/;\\n/dts-v1/;\\n')
code, out = cli('a.dts')
assert code == 1, out
''')

bug('c08-property-after-nested', 'C08', [(P + 'parser.rs', '''                    node_discovered = true;
                    let node_name: WithToken<NodeName> = From::from(ident);
                    self.check_is_node_name(node_name.span(), &node_name);
                    let payload = self.node_payload()?;''', '''                    let node_name: WithToken<NodeName> = From::from(ident);
                    self.check_is_node_name(node_name.span(), &node_name);
                    let payload = self.node_payload()?;
                    node_discovered = node_discovered || !payload.items.is_empty();''')],
    'a property behind a node that is empty', 'the misplaced property is not reported',
    py='''write('a.dts', '/dts-v1/;\\n/ { n { }; p; };\\n')
code, out = cli('a.dts')
assert code == 1, out
''')

bug('c09-first-cell-only', 'C09', [(P + 'analysis.rs', '''                for cell in cells {
                    self.analyze_cell(ctx, cell)
                }''', '''                // A phandle is followed by its specifier
                let mut specifier = false;
                for cell in cells {
                    if !(specifier && matches!(cell, Cell::Reference(_))) {
                        self.analyze_cell(ctx, cell)
                    }
                    specifier = matches!(cell, Cell::Reference(_));
                }''')],
    'two references directly behind each other, the second one unresolved', 'the unresolved reference is not reported',
    py='''write('a.dts', '/dts-v1/;\\n/ { x: n { }; m { p = <&x &nope>; }; };\\n')
code, out = cli('a.dts')
assert code == 1, out
''')

bug('c09-node-reopened', 'C09', [(P + 'analysis.rs', '''        ctx.flat_nodes.insert(path.clone(), node.clone());
        self.analyze_node_payload(ctx, &node.payload, path)''', '''        let opened = ctx.flat_nodes.insert(path.clone(), node.clone()).is_some();
        if opened && node.payload.items.is_empty() {
            ctx.flat_nodes.remove(&path);
        }
        self.analyze_node_payload(ctx, &node.payload, path)''')],
    'a node that is opened again without contents', 'references to its path are reported as unresolved',
    py='''write('a.dts', '/dts-v1/;\\n/ { n { p; }; };\\n/ { n { }; };\\n/ { m { q = <&{/n}>; }; };\\n')
code, out = cli('a.dts')
assert code == 0, out
''')

bug('c10-adjacent-tokens', 'C10', [(P + 'visitor.rs', '''                        Cell::Reference(reference) => {
                            if reference.span().contains(cursor) {
                                return Some(ItemAtCursor::Reference(reference.item()));
                            }
                        }''', '''                        Cell::Reference(reference) => {
                            if reference.span().contains(cursor) || reference.end() == *cursor {
                                return Some(ItemAtCursor::Reference(reference.item()));
                            }
                        }''')],
    'the cursor directly behind a reference in a cell list', 'an item is found where there is none, and the wrong one of two adjacent references',
    py='''t = '/dts-v1/;\\n/ { x: n { }; y: o { }; m { p = <&x&y>; }; };\\n'
s = server()
s.send(s.open(URI + 'a.dts', t))
col = t.split('\\n')[1].index('&y')
a = s.at('definition', URI + 'a.dts', 1, col)
s.stop()
assert a and a['range']['start']['character'] == t.split('\\n')[1].index('o {'), a
''')

bug('c11-own-directory-last', 'C11', [(P + 'project.rs', '''        if let Some(parent) = file_name.parent() {
            include_paths.insert(0, parent.into());
        }''', '''        if let Some(parent) = file_name.parent() {
            if !include_paths.iter().any(|path| parent.starts_with(path)) {
                include_paths.insert(0, parent.into());
            } else {
                include_paths.push(parent.into());
            }
        }''')],
    'a file below an include directory, and an include that exists in both', 'the wrong file is included',
    py='''write('inc/b.dtsi', '/ { compatible = <1>; };\\n')
write('inc/sub/b.dtsi', '/ { };\\n')
write('inc/sub/a.dts', '/dts-v1/;\\n/include/ "b.dtsi"\\n')
code, out = cli('-i', 'inc', 'inc/sub/a.dts')
assert code == 0, out
''')

bug('c12-warning-as-error', 'C12', [(P + 'project.rs', '''        self.diagnostics()
            .any(|diagnostic| diagnostic.severity(severity_map) == Severity::Error)''', '''        self.parser_diagnostics
            .iter()
            .any(|diagnostic| diagnostic.severity(severity_map) == Severity::Error)
            || self.analysis_diagnostics.iter().any(|diagnostic| {
                diagnostic.kind != ErrorCode::UnresolvedReference
                    && diagnostic.severity(severity_map) == Severity::Error
            })'''), (P + 'project.rs', '''use crate::dts::error_codes::SeverityMap;
use crate::dts::reader''', '''use crate::dts::error_codes::{ErrorCode, SeverityMap};
use crate::dts::reader''')],
    'an included .dts file whose only errors are unresolved references', 'the including file does not report that the included one has errors',
    py='''write('a.dts', '/dts-v1/;\\n/include/ "b.dts"\\n')
write('b.dts', '/dts-v1/;\\n/ { p = <&nope>; };\\n')
code, out = cli('a.dts')
assert 'Included file contains errors' in out, out
''')

bug('c13-diamond', 'C13', [(P + 'import_guard.rs', '''                for neighbor in neighbors {
                    if !parent.contains_key(neighbor) {
                        parent.insert(neighbor.clone(), node.clone());
                        stack.push_front(neighbor.clone());
                    }
                }''', '''                for neighbor in neighbors {
                    if visited.contains(neighbor) || !parent.contains_key(neighbor) {
                        parent.insert(neighbor.clone(), node.clone());
                        stack.push_front(neighbor.clone());
                    }
                }''')],
    'a file that is reached in several ways, one longer than the other', 'a cycle is reported where there is none',
    py='''write('a.dts', '/dts-v1/;\\n/include/ "b.dtsi"\\n/include/ "c.dtsi"\\n/include/ "d.dtsi"\\n')
write('b.dtsi', '/include/ "c.dtsi"\\n/include/ "d.dtsi"\\n')
write('c.dtsi', '/include/ "d.dtsi"\\n')
write('d.dtsi', '/include/ "e.dtsi"\\n')
write('e.dtsi', '/ { };\\n')
code, out = cli('a.dts')
assert code == 0, out
''')

bug('c14-unchanged-text', 'C14', [(P + 'project.rs', '''        // First step: Parse file and all dependencies.
        // Dependencies are cached.
        self.parse_file(file_name.clone(), text, file_type);''', '''        // First step: Parse file and all dependencies.
        // Dependencies are cached.
        let unchanged = self
            .files
            .get(&file_name)
            .is_some_and(|file| file.file.is_some() && file.source == text);
        if !unchanged {
            self.parse_file(file_name.clone(), text, file_type);
        }''')],
    'the same text again after the include directories or the file type changed', 'the includes are still searched in the old directories',
    py='''write('inc/b.dtsi', '/ { };\\n')
s = server()
t = '/dts-v1/;\\n/include/ "b.dtsi"\\n'
s.send(s.open(URI + 'a.dts', t))
s.send(s.note('workspace/didChangeConfiguration', {'settings': {'includes': [HERE + '/inc']}}))
s.send(s.change(URI + 'a.dts', t))
s.rest()
c = s.codes(URI + 'a.dts')
s.stop()
assert c == [], c
''')

bug('c15-publish-snapshot', 'C15', [(S, '''        for file in file_paths {
            let diagnostics = self
                .project
                .read()
                .get_diagnostics(&file)
                .map(|diag| self.lsp_diag_from_diag(diag))
                .collect_vec();
            self.client''', '''        let all = file_paths
            .into_iter()
            .map(|file| {
                let diagnostics = self
                    .project
                    .read()
                    .get_diagnostics(&file)
                    .map(|diag| self.lsp_diag_from_diag(diag))
                    .collect_vec();
                (file, diagnostics)
            })
            .collect_vec();
        for (file, diagnostics) in all {
            self.client''')],
    'several changes that arrive while diagnostics are being published', 'outdated diagnostics are published last and stay',
    py='''bad = 0
for attempt in range(12):
    s = server()
    uris = [URI + 'f%d.dts' % i for i in range(6)]
    msgs = [s.open(u, '/dts-v1/;\\n/ { p };\\n') for u in uris]
    for k in range(6):
        msgs += [s.change(u, '/dts-v1/;\\n/ { p%s };\\n' % (';' if k % 2 else '')) for u in uris]
    msgs += [s.change(u, '/dts-v1/;\\n/ { p; };\\n') for u in uris]
    s.send(*msgs)
    s.rest()
    bad += any(s.codes(u) for u in uris)
    s.stop()
assert bad == 0, bad
''')

bug('c15-only-nonempty', 'C15', [(S, '''            self.client
                .publish_diagnostics(Url::from_file_path(&file).unwrap(), diagnostics, None)
                .await''', '''            if diagnostics.is_empty() && self.project.read().get_analysis(&file).is_none() {
                continue;
            }
            self.client
                .publish_diagnostics(Url::from_file_path(&file).unwrap(), diagnostics, None)
                .await''')],
    'this one never manifests', 'equivalent', py='assert True\n')

bug('c17-nested-deleted', 'C17', [(S, '''                        range: ginko_span_to_range(Span::new(
                            start_tok.start(),
                            deleted_node.end(),
                        )),
                        selection_range: ginko_span_to_range(deleted_node.span()),''', '''                        range: ginko_span_to_range(deleted_node.span()),
                        selection_range: ginko_span_to_range(start_tok.span()),''')],
    'a /delete-node/ inside of a node', 'the range of the symbol does not contain its selection range',
    py='''s = server()
s.send(s.open(URI + 'a.dts', '/dts-v1/;\\n/ { /delete-node/ n; };\\n'))
c = s.symbols(URI + 'a.dts')[0]['children'][0]
s.stop()
assert c['range']['start']['character'] == 4 and c['selectionRange']['start']['character'] == 18, c
''')

bug('c18-hover-include-path', 'C18', [(S, '''            ItemAtCursor::Label(name) => name.item().clone(),
            ItemAtCursor::Include''', '''            ItemAtCursor::Label(name) => format!("{}:", name.item()),
            ItemAtCursor::Include''')],
    'hovering over a label', 'the hover text is not the label',
    py='''s = server()
s.send(s.open(URI + 'a.dts', '/dts-v1/;\\n/ { x: n { }; };\\n'))
h = s.at('hover', URI + 'a.dts', 1, 4)
s.stop()
assert h['contents'] == 'x', h
''')

bug('c19-exit-on-warning', 'C19', [('ginko/src/main.rs', '''        let diag = file.diagnostics().cloned().collect_vec();
        if diag.is_empty() {
            continue;
        } else {
            has_errors = true;
        }''', '''        let diag = file.diagnostics().cloned().collect_vec();
        if diag.is_empty() {
            continue;
        }
        has_errors = file.has_errors(&project.severities) || diag.len() > 1 || has_errors;''')],
    'a single warning and nothing else', 'the tool exits with success although there is a diagnostic',
    py='''write('a.dts', '/dts-v1/;\\n/ { compatible = <1>; };\\n')
code, out = cli('a.dts')
assert code == 1 and 'No issues' not in out, (code, out)
''')

bug('c19-tab-marker', 'C19', [(P + 'diagnostics.rs', '''            .map(|ch| if !ch.is_ascii_whitespace() { ' ' } else { ch })''', '''            .filter(|ch| *ch != '\\r')
            .map(|ch| if !ch.is_ascii_whitespace() { ' ' } else { ch })''')],
    'a carriage return in the middle of a line', 'the marker is shifted',
    py='''write('a.dts', '/dts-v1/;\\n/ { a;\\r b = <>; c };\\n')
code, out = cli('a.dts')
lines = out.split('\\n')
assert any(l.endswith('^ Expected') or '^' in l and l.index('^') - 4 == 18 for l in lines if '^' in l), out
''')

bug('c20-lsp-hint', 'C20', [(S, '''        Severity::Warning => DiagnosticSeverity::WARNING,
        Severity::Hint => DiagnosticSeverity::HINT,''', '''        Severity::Warning => DiagnosticSeverity::INFORMATION,
        Severity::Hint => DiagnosticSeverity::HINT,''')],
    'a warning, seen in the editor', 'warnings are shown as information',
    py='''s = server()
s.send(s.open(URI + 'a.dts', '/dts-v1/;\\n/ { compatible = <1>; };\\n'))
s.rest()
d = s.view[URI + 'a.dts']
s.stop()
assert d[0]['severity'] == 2, d
''')

bug('c20-name-too-long', 'C20', [(P + 'error_codes.rs', '''            | CyclicDependencyError
            | IncorrectDirective => Severity::Error,
            NameTooLong
            | NonStringInCompatible
            | DuplicateDirective => Severity::Warning''', '''            | CyclicDependencyError => Severity::Error,
            NameTooLong
            | NonStringInCompatible
            | IncorrectDirective
            | DuplicateDirective => Severity::Warning''')],
    '/omit-if-no-ref/ on a property', 'an error has become a warning, also for files that include it',
    py='''write('a.dts', '/dts-v1/;\\n/ { /omit-if-no-ref/ p; };\\n')
code, out = cli('a.dts')
assert 'error -->' in out, out
''')

bug('c21-octal-eight', 'C21', [(P + 'parser.rs', '''                let num = if num.len() == 1 {
                    num.parse::<u32>()
                } else if num.starts_with("0x") {
                    u32::from_str_radix(&num.as_str()[2..], 16)
                } else if num.starts_with('0') {''', '''                let num = if num.len() == 1 {
                    num.parse::<u32>()
                } else if num.starts_with("0x") {
                    u32::from_str_radix(&num.as_str()[2..], 16)
                } else if num.starts_with('0') && !num.contains(['8', '9']) {''')],
    'an octal literal with an invalid digit', 'it is read as a decimal number instead of being rejected',
    py='''write('a.dts', '/dts-v1/;\\n/ { p = <019>; };\\n')
code, out = cli('a.dts')
assert code == 1, out
''')

bug('c22-comment-star', 'C22', [(P + 'tokens/lexer.rs', '''                b'*' => {
                    if self.reader.peek() == Some(b'/') {''', '''                b'*' => {
                    if self.reader.peek() == Some(b'*') {
                        buf.push(ch);
                        self.reader.skip();
                    } else if self.reader.peek() == Some(b'/') {''')],
    'a comment that ends with an even number of stars', 'the end of the comment is missed',
    py='''write('a.dts', '/dts-v1/; /* x **/ / { };\\n')
code, out = cli('a.dts')
assert code == 0, out
''')

bug('c23-expected-list', 'C23', [(P + 'parser.rs', '''                        tok.source(),
                        &[TokenKind::Ident("".to_string()), TokenKind::CloseBrace],''', '''                        tok.source(),
                        &[TokenKind::CloseBrace, TokenKind::Ident("".to_string())][usize::from(label.is_some())..],''')],
    'a label in front of something that is neither a node nor a property', 'the diagnostic names something else than what was expected',
    py='''write('a.dts', '/dts-v1/;\\n/ { < };\\n')
code, out = cli('a.dts')
assert 'Expected one of identifier, \\'}\\'' in out, out
''')
BUGS = [b for b in BUGS if b['id'] != 'c15-only-nonempty']
