D = 'ginko/src/dts/'
P = D
S = 'ginko_ls/src/server.rs'
M = 'ginko/src/main.rs'
BUGS = []


def bug(id, property, edits, needs, breaks, py=None, rs=None):
    b = dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks)
    if py:
        b['py'] = py
    if rs:
        b['rs'] = rs
    BUGS.append(b)


bug('c01-include-ladder', 'C01', [(P + 'project.rs', '''        if self.files.contains_key(&canonicalized_path) {
            return;
        }
''', '''        if let Some(known) = self.files.get(&canonicalized_path) {
            // the file that is being parsed is not completely known
            if known.file.is_some() {
                let (text, typ) = (known.source.clone(), known.file_type);
                self.parse_file(canonicalized_path, text, typ);
            }
            return;
        }
''')], 'a chain of includes in which every file includes the next one twice', 'the time grows exponentially with the length of the chain',
    py='''N = 24
for i in range(N):
    write('f%d.dtsi' % i, '/include/ "f%d.dtsi"\\n/include/ "f%d.dtsi"\\n' % (i + 1, i + 1))
write('f%d.dtsi' % N, '/ { };\\n')
write('a.dts', '/dts-v1/;\\n/include/ "f0.dtsi"\\n')
code, out = cli('a.dts', timeout=60)
assert code == 0, out
''')

bug('c03-directive-case', 'C03', [(P + 'tokens/lexer.rs', 'match directive_string.as_str() {', 'match directive_string.to_ascii_lowercase().as_str() {')],
    'a directive with capital letters', 'it is accepted',
    py='''write('a.dts', '/dts-v1/;\\n/Plugin/;\\n/ { };\\n')
code, out = cli('a.dts')
assert code == 1, out
''')

bug('c03-directive-trim', 'C03', [(P + 'tokens/lexer.rs', 'match directive_string.as_str() {', 'match directive_string.trim_end() {')],
    'a space at the end of a directive', 'it is accepted',
    py='''write('a.dts', '/dts-v1/;\\n/ { /delete-node /n; };\\n')
code, out = cli('a.dts')
assert code == 1, out
''')

bug('c03-comma-cells', 'C03', [(P + 'parser.rs', '''                        Ok(numb) => cells.push(numb),
''', '''                        Ok(numb) => {
                            cells.push(numb);
                            if self.lexer.peek_kind() == Some(&TokenKind::Comma) {
                                self.skip_tok()
                            }
                        }
''')], 'a comma between two cells', 'it is accepted',
    py='''write('a.dts', '/dts-v1/;\\n/ { p = <1, 2>; };\\n')
code, out = cli('a.dts')
assert code == 1, out
''')

bug('c03-second-root-name', 'C03', [(P + 'parser.rs', '''                    if self.lexer.peek_expect()?.kind == TokenKind::ChevronRight {
                        end_tok = self.lexer.expect_next()?;
                        break;
                    }
''', '''                    let next = self.lexer.peek_expect()?.kind.clone();
                    if next == TokenKind::ChevronRight
                        || (next == TokenKind::Semicolon && !cells.is_empty())
                    {
                        end_tok = self.lexer.peek_expect()?.clone();
                        if next == TokenKind::ChevronRight {
                            self.skip_tok()
                        }
                        break;
                    }
''')], 'cells without the closing angle bracket', 'it is accepted',
    py='''write('a.dts', '/dts-v1/;\\n/ { p = <1 2; q; };\\n')
code, out = cli('a.dts')
assert code == 1, out
''')

bug('c07-length-by-range', 'C07', [(P + 'parser.rs', '''        if let Some((pos, ch)) = str.chars().enumerate().find(|(_, ch)| !predicate(*ch)) {
''', '''        if span.end().character().saturating_sub(span.start().character()) > 40
            && str.len() <= 31
            && name_context == NameContext::NodeName
        {
            self.diagnostics.push(Diagnostic::new(
                span,
                self.lexer.source(),
                ErrorCode::NameTooLong,
                format!("{name_context} should only have 31 characters"),
            ))
        } else if let Some((pos, ch)) = str.chars().enumerate().find(|(_, ch)| !predicate(*ch)) {
''')], 'a node name and an address that together have more than 40 characters', 'a warning for a name that is not too long',
    py='''write('a.dts', '/dts-v1/;\\n/ { abcdefghijklmnopqrstuv@0123456789abcdef0123 { }; };\\n')
code, out = cli('a.dts')
assert code == 0, out
''')

bug('c07-ref-statement', 'C07', [(P + 'parser.rs', '''            TokenKind::Ref(reference) => {
                let reference = self.reference(token.clone(), reference);
                let root_payload = self.node_payload()?;
''', '''            TokenKind::Ref(reference) => {
                let count = self.diagnostics.len();
                let reference = self.reference(token.to_owned(), reference);
                if reference.item() != &crate::dts::ast::Reference::Label("".into()) {
                    // reported when the path is resolved
                    self.diagnostics
                        .retain(|diag| diag.kind != ErrorCode::IllegalStart || diag.span().start() < reference.start());
                }
                debug_assert!(count <= count + self.diagnostics.len());
                let root_payload = self.node_payload()?;
''')], 'a path in front of a node extension that contains a name with an illegal first character', 'the name is not reported',
    py='''write('a.dtsi', '&{/0m} { };\\n')
code, out = cli('a.dtsi')
assert code == 1, out
''')

bug('c06-label-eaten', 'C06', [(P + 'parser.rs', '''            | TokenKind::Label(_)
            | TokenKind::String(_)
''', '''            | TokenKind::String(_)
'''), (P + 'parser.rs', 'TokenKind::Unknown(_) | TokenKind::Comment(_) => true', 'TokenKind::Unknown(_) | TokenKind::Comment(_) | TokenKind::Label(_) => true')],
    'a missing semicolon in front of a labeled node or property', 'the label is lost',
    py='''write('a.dts', '/dts-v1/;\\n/ { m { }\\n x: n { }; };\\n&x { };\\n')
code, out = cli('a.dts')
assert code == 1 and 'cannot be resolved' not in out, out
''')

bug('c08-omit-empty-prop', 'C08', [(P + 'parser.rs', '''                TokenKind::Semicolon => {
                    self.skip_tok();
                    self.check_is_property_name(ident.span(), &ident);
                    let prop = Property::empty(ident, label, cloned_tok);
''', '''                TokenKind::Semicolon => {
                    self.skip_tok();
                    self.check_is_property_name(ident.span(), &ident);
                    let omit_if_no_ref = omit_if_no_ref.filter(|_| label.is_some());
                    let prop = Property::empty(ident, label, cloned_tok.clone());
''')], '/omit-if-no-ref/ on a property without value', 'it is not reported',
    py='''write('a.dts', '/dts-v1/;\\n/ { /omit-if-no-ref/ p; };\\n')
code, out = cli('a.dts')
assert code == 1, out
''')

bug('c08-late-once', 'C08', [(P + 'parser.rs', '''                    let prop = Property::empty(ident, label, cloned_tok);
                    if node_discovered {
''', '''                    let prop = Property::empty(ident, label, cloned_tok);
                    if std::mem::take(&mut node_discovered) {
''')], 'two properties without value after a node', 'only the first one is reported',
    py='''write('a.dts', '/dts-v1/;\\n/ { n { }; p; q; };\\n')
code, out = cli('a.dts')
assert out.count('must be placed before') == 2, out
''')

bug('c09-root-path', 'C09', [(P + 'analysis.rs', '''                Reference::Path(path) => {
                    if !ctx.flat_nodes.contains_key(path) {
                        self.unresolved_reference_error(ctx, span, source);
''', '''                Reference::Path(path) => {
                    if path.iter().next().is_some() && !ctx.flat_nodes.contains_key(path) {
                        self.unresolved_reference_error(ctx, span, source);
''')], 'a reference to the root node in a file without root node', 'it is not reported',
    py='''write('a.dts', '/dts-v1/;\\n&{/} { p = <&{/}>; };\\n')
code, out = cli('a.dts')
assert out.count('cannot be resolved') == 2, out
''')

bug('c10-multi-line-cells', 'C10', [(P + 'visitor.rs', '''            PropertyValue::Cells(_, cells, _) => {
                for cell in cells {
''', '''            PropertyValue::Cells(first, _, _) if first.start().line() > cursor.line() => None,
            PropertyValue::Cells(first, _, last)
                if last.end() <= *cursor || first.start().line() + 1 < cursor.line() =>
            {
                None
            }
            PropertyValue::Cells(_, numbers, _) => {
                for cell in numbers {
''')], 'a reference in the third line of an array', 'nothing is found under the cursor',
    rs='''use ginko::dts::*;
fn main() {
    let mut p = Project::default();
    let path = std::path::PathBuf::from("/nowhere/a.dts");
    p.add_file_with_text(path.clone(), "/dts-v1/;\\n/ { x: n { }; p = <1\\n2\\n&x>; };\\n".into(), FileType::DtSource);
    assert!(p.find_at_pos(&path, &Position::new(3, 0)).is_some());
}
''')

bug('c11-lexical-dotdot', 'C11', [(P + 'ast.rs', '''            let path = include_path.join(self.file_name.to_string());
            dunce::canonicalize(path).ok()
''', '''            let mut path = PathBuf::new();
            for part in include_path.join(self.file_name.to_string()).components() {
                match part {
                    std::path::Component::ParentDir => {
                        path.pop();
                    }
                    part => path.push(part),
                }
            }
            dunce::canonicalize(path).ok()
''')], 'an include name with .. after a directory that is a symbolic link', 'another file is included',
    py='''write('real/sub/x.dtsi', '/ { };\\n')
write('real/b.dtsi', '/ { };\\n')
write('top/a.dts', '/dts-v1/;\\n/include/ "link/../b.dtsi"\\n')
os.symlink('../real/sub', 'top/link')
code, out = cli('top/a.dts')
assert code == 0, out
''')

bug('c11-remember-directory', 'C11', [(P + 'project.rs', '''        let mut include_paths = self.include_paths.clone();
        if let Some(parent) = file_name.parent() {
            include_paths.insert(0, parent.into());
        }
''', '''        let mut include_paths = self.include_paths.clone();
        if let Some(parent) = file_name.parent().map(|parent| parent.to_path_buf()) {
            include_paths.insert(0, parent.clone());
            // the files of a project are usually next to each other
            if file_type == FileType::DtSourceInclude && !include_paths[1..].contains(&parent) {
                self.include_paths.push(parent)
            }
        }
''')], 'two files in different directories, one of which includes a file next to the other', 'a file is found that is in no include directory',
    py='''write('i/x.dtsi', '/ { };\\n')
write('s/b.dtsi', '/ { };\\n')
write('s/c.dtsi', '/ { };\\n')
write('a.dts', '/dts-v1/;\\n/include/ "s/b.dtsi"\\n/include/ "d/e.dtsi"\\n')
write('d/e.dtsi', '/include/ "c.dtsi"\\n')
code, out = cli('a.dts', '-i', 'i')
assert code == 1, out
''')

bug('c11-sorted-directories', 'C11', [(P + 'project.rs', '''            .iter()
            .map(|path| dunce::canonicalize(path).unwrap_or_else(|_| path.into()))
            .collect::<Vec<PathBuf>>();
''', '''            .into_iter()
            .filter_map(|path| dunce::canonicalize(path).ok())
            .sorted()
            .dedup()
            .collect::<Vec<PathBuf>>();
''')], 'a file of the same name in two include directories that are not given in alphabetical order', 'the wrong one is included',
    py='''write('i/x.dtsi', '/ { };\\n')
write('j/x.dtsi', '/ { p = ; };\\n')
write('a.dts', '/dts-v1/;\\n/include/ "x.dtsi"\\n')
code, out = cli('a.dts', '-i', 'j', '-i', 'i')
assert code == 1, out
''')

bug('c12-first-included', 'C12', [(P + 'analysis.rs', '''            ctx.flat_nodes.extend(context.flat_nodes.clone());
            ctx.labels.extend(context.labels.clone());
''', '''            ctx.flat_nodes.extend(context.flat_nodes.clone());
            for (label, labeled) in &context.labels {
                ctx.labels
                    .entry(label.clone())
                    .or_insert_with(|| labeled.clone());
            }
''')], 'two includes that define the same label', 'the first definition is the one that counts',
    py='''write('b.dtsi', '/ { x: n { }; };\\n')
write('c.dtsi', '/ {\\n x: m { }; };\\n')
s = server()
s.send(s.open(URI + 'a.dts', '/dts-v1/;\\n/include/ "b.dtsi"\\n/include/ "c.dtsi"\\n&x { };\\n'))
s.rest()
d = s.at('definition', URI + 'a.dts', 3, 1)
assert d['uri'].endswith('/c.dtsi'), d
''')

bug('c13-one-per-file', 'C13', [(P + 'analysis.rs', '''            ctx.add_diagnostic(Diagnostic::cyclic_dependency_error(
                include.span(),
                include.source(),
                err,
            ));
            return;
''', '''            let kind = ErrorCode::CyclicDependencyError;
            if !ctx.diagnostics.iter().any(|diag| diag.kind == kind) {
                ctx.add_diagnostic(Diagnostic::cyclic_dependency_error(
                    include.span(),
                    include.source(),
                    err,
                ));
            }
            return;
''')], 'a file that closes two cycles', 'only one of them is reported',
    py='''write('a.dts', '/dts-v1/;\\n/include/ "a.dts"\\n/include/ "b.dtsi"\\n')
write('b.dtsi', '/include/ "b.dtsi"\\n/include/ "b.dtsi"\\n')
code, out = cli('a.dts')
assert out.count('Cyclic include') == 3, out
''')

bug('c14-disk-wins', 'C14', [(P + 'project.rs', '''        if self.files.contains_key(&canonicalized_path) {
            return;
        }
''', '''        match self.files.get(&canonicalized_path) {
            // a file that could not be parsed may have been repaired
            Some(file) if file.file.is_none() && !file.parser_diagnostics.is_empty() => {}
            Some(_) => return,
            None => {}
        }
''')], 'an open include with a syntax error that is not saved, and a change of another file', 'the diagnostics are those of the saved file',
    py='''write('b.dtsi', '/ { };\\n')
s = server()
s.send(s.open(URI + 'b.dtsi', '/ { p = ; };\\n'))
s.send(s.open(URI + 'a.dts', '/dts-v1/;\\n/include/ "b.dtsi"\\n'))
s.rest()
assert s.codes(URI + 'b.dtsi'), 'lost'
''')

bug('c14-type-of-include', 'C14', [(P + 'project.rs', '''                    ProjectFile::parsed(parser.diagnostics, file, file_type, text),
''', '''                    ProjectFile::parsed(
                        parser.diagnostics,
                        file,
                        // a file that was given as a plain include is one
                        match file_type {
                            FileType::DtSource if previous == Some(FileType::DtSourceInclude) => {
                                FileType::DtSourceInclude
                            }
                            file_type => file_type,
                        },
                        text,
                    ),
'''), (P + 'project.rs', '''                self.files.insert(file_name.clone(), ProjectFile::default());
                file.elements
''', '''                let previous = self
                    .files
                    .insert(file_name.clone(), ProjectFile::default())
                    .map(|known| known.file_type);
                file.elements
''')], 'a file that is added again with another file type', 'it is analyzed as the old type',
    rs='''use ginko::dts::*;
fn main() {
    let mut p = Project::default();
    let path = std::path::PathBuf::from("/nowhere/a.dts");
    p.add_file_with_text(path.clone(), "/ { };\\n".into(), FileType::DtSourceInclude);
    p.add_file_with_text(path.clone(), "/ { };\\n".into(), FileType::DtSource);
    assert_eq!(p.get_diagnostics(&path).count(), 1);
}
''')

bug('c15-same-messages', 'C15', [(S, '''            let diagnostics = self
                .project
                .read()
                .get_diagnostics(&file)
                .map(|diag| self.lsp_diag_from_diag(diag))
                .collect_vec();
''', '''            let diagnostics = self
                .project
                .read()
                .get_diagnostics(&file)
                .map(|found| self.lsp_diag_from_diag(found))
                .collect_vec();
            // do not bother the client with diagnostics that it already has
            let messages = diagnostics
                .iter()
                .map(|diag| (diag.range.start.line, diag.message.clone()))
                .collect_vec();
            if self.published.write().insert(file.clone(), messages.clone()) == Some(messages)
                && !diagnostics.is_empty()
            {
                continue;
            }
'''), (S, '''    severities: SeverityMap,
    // The''', '''    severities: SeverityMap,
    published: RwLock<std::collections::HashMap<PathBuf, Vec<(u32, String)>>>,
    // The'''), (S, '''            severities: SeverityMap::default(),
            include_paths,''', '''            severities: SeverityMap::default(),
            published: RwLock::default(),
            include_paths,''')], 'a change that moves a diagnostic inside of its line', 'the diagnostic stays at the old place',
    py='''s = server()
s.send(s.open(URI + 'a.dts', '/dts-v1/;\\n/ { p = <&x>; };\\n'))
s.rest()
s.send(s.change(URI + 'a.dts', '/dts-v1/;\\n/ { pqr = <&x>; };\\n'))
s.rest()
assert s.diags(URI + 'a.dts')[0]['range']['start']['character'] == 11, s.diags(URI + 'a.dts')
''')

bug('c15-range-one-line', 'C15', [(S, '''    Range::new(lsp_pos_from_pos(span.start()), lsp_pos_from_pos(span.end()))
''', '''    let (start, mut end) = (lsp_pos_from_pos(span.start()), lsp_pos_from_pos(span.end()));
    if end.line > start.line {
        end = Position::new(start.line + 1, 0);
    }
    Range::new(start, end)
''')], 'a diagnostic that covers several lines', 'its range is cut off',
    py='''s = server()
s.send(s.open(URI + 'a.dts', '/dts-v1/;\\n/ { n { }; p = <1\\n2\\n3>; };\\n'))
s.rest()
assert s.diags(URI + 'a.dts')[0]['range']['end'] == {'line': 3, 'character': 3}, s.diags(URI + 'a.dts')
''')

bug('c15-incremental', 'C15', [(S, 'TextDocumentSyncKind::FULL', 'TextDocumentSyncKind::INCREMENTAL')],
    'a client that sends the changed parts of a document', 'a part is taken for the whole document',
    py='''s = server()
caps = s.answers[1][0]['result']['capabilities']
sync = caps['textDocumentSync']
kind = sync if isinstance(sync, int) else sync.get('change')
s.send(s.open(URI + 'a.dts', '/dts-v1/;\\n/ { p; };\\n'))
s.rest()
if kind == 2:
    s.send({'method': 'textDocument/didChange', 'params': {'textDocument': {'uri': URI + 'a.dts', 'version': 2}, 'contentChanges': [{'range': {'start': {'line': 1, 'character': 4}, 'end': {'line': 1, 'character': 5}}, 'text': 'q'}]}})
else:
    s.send(s.change(URI + 'a.dts', '/dts-v1/;\\n/ { q; };\\n'))
s.rest()
assert s.diags(URI + 'a.dts') == [], s.diags(URI + 'a.dts')
assert s.symbols(URI + 'a.dts')[0]['children'][0]['name'] == 'q'
''')

bug('c15-empty-text', 'C15', [(S, '''            params.text_document.text,
            file_type,
        );
        self.publish_diagnostics().await
''', '''            // the client may not have read the file yet
            match params.text_document.text {
                text if text.is_empty() => {
                    std::fs::read_to_string(&file_path).unwrap_or_default()
                }
                text => text,
            },
            file_type,
        );
        self.publish_diagnostics().await
''')], 'a document that is opened empty although its file is not empty', 'the diagnostics are those of the file',
    py='''write('a.dts', '/dts-v1/;\\n/ { p = ; };\\n')
s = server()
s.send(s.open(URI + 'a.dts', ''))
s.rest()
assert s.codes(URI + 'a.dts') == ['non_dts_v1'], s.diags(URI + 'a.dts')
''')

bug('c17-repeated-property', 'C17', [(S, '''                children.push(document_symbol);
''', '''                if document_symbol.kind == SymbolKind::PROPERTY
                    && document_symbol.tags.is_none()
                    && children.iter().any(|other: &DocumentSymbol| {
                        other.name == document_symbol.name && other.tags.is_none()
                    })
                {
                    continue;
                }
                children.extend([document_symbol]);
''')], 'a property that is defined twice in a node', 'the outline shows it once',
    py='''s = server()
s.send(s.open(URI + 'a.dts', '/dts-v1/;\\n/ { p; p = <1>; };\\n'))
s.rest()
c = s.symbols(URI + 'a.dts')[0]['children']
assert len(c) == 2, c
''')

bug('c17-include-in-root', 'C17', [(S, '''                    name: format!("{}", ref_node.reference),
''', '''                    name: match ref_node.reference.item() {
                        reference if reference.to_string().matches('/').count() > 3 => {
                            reference.to_string().replacen("/", ".../", 1)
                        }
                        reference => reference.to_string(),
                    },
''')], 'an extension of a node by a path with four names', 'the name in the outline is not the reference',
    py='''s = server()
s.send(s.open(URI + 'a.dts', '/dts-v1/;\\n&{/a/b/c/d} { };\\n'))
s.rest()
c = s.symbols(URI + 'a.dts')
assert c[0]['name'] == '&{/a/b/c/d}', c
''')

bug('c18-include-in-project', 'C18', [(S, '''                    .path()
                    .ok()
                    .and_then(|path| Url::from_file_path(path).ok())
''', '''                    .path()
                    .ok()
                    .and_then(|path| {
                        project.get_root(&path)?;
                        Url::from_file_path(path).ok()
                    })
''')], 'the definition of an include whose file cannot be parsed', 'there is no definition',
    py='''write('b.dtsi', '/ { p = ; };\\n')
s = server()
s.send(s.open(URI + 'a.dts', '/dts-v1/;\\n/include/ "b.dtsi"\\n'))
s.rest()
assert s.at('definition', URI + 'a.dts', 1, 12), 'no definition'
''')

bug('c18-hover-multi-byte', 'C18', [(S, '''            ItemAtCursor::Include(include) => include.file_name.item().clone(),
''', '''            ItemAtCursor::Include(include) => {
                include.file_name.item().rsplit("//").next().unwrap_or_default().to_string()
            }
''')], 'an include name with two slashes in a row', 'hover shows a part of the name',
    py='''s = server()
s.send(s.open(URI + 'a.dts', '/dts-v1/;\\n/include/ "x//b.dtsi"\\n'))
s.rest()
h = s.at('hover', URI + 'a.dts', 1, 12)
assert 'x//b.dtsi' in str(h), h
''')

bug('c19-included-hidden', 'C19', [(M, '''            has_errors = true;
        }
''', '''            has_errors = has_errors || file.has_errors(&SeverityMap::default()) || diag.len() > 2;
        }
''')], 'one or two warnings and no errors', 'the status is that of a clean run',
    py='''write('a.dts', '/dts-v1/;\\n/ { compatible = <1>; };\\n')
code, out = cli('a.dts')
assert code == 1, out
''')

bug('c19-trim-line', 'C19', [(P + 'diagnostics.rs', '''        writeln!(f, "{} | {}", prefix, line)?;
''', '''        writeln!(f, "{} | {}", prefix, line.trim_end())?;
''')], 'a line with spaces at its end', 'the printed line is not the line of the source',
    py='''write('a.dts', '/dts-v1/;\\n/ { p = <&x>; };  \\n')
code, out = cli('a.dts')
assert '2 | / { p = <&x>; };  \\n' in out, out
''')

bug('c20-duplicate-error', 'C20', [(P + 'analysis.rs', '''                                ErrorCode::DuplicateDirective,
''', '''                                if ctx.first_non_include {
                                    ErrorCode::MisplacedDtsHeader
                                } else {
                                    ErrorCode::DuplicateDirective
                                },
''')], 'a second version header after another statement', 'it is an error with another code',
    py='''write('a.dts', '/dts-v1/;\\n/ { };\\n/dts-v1/;\\n')
code, out = cli('a.dts')
assert out.startswith('warning'), out
''')

bug('c21-leading-zeros', 'C21', [(P + 'parser.rs', '''                let num = if num.len() == 1 {
                    num.parse::<u32>()
                } else if num.starts_with("0x") {
                    u32::from_str_radix(&num.as_str()[2..], 16)
''', '''                let num = if num.len() == 1 {
                    num.parse::<u32>()
                } else if num.starts_with("0x") {
                    let len = num.len().min(12);
                    u32::from_str_radix(&num.as_str()[2..len], 16)
''')], 'a hexadecimal number with more than ten digits', 'it has another value',
    rs='''use ginko::dts::*;
fn main() {
    let mut p = Project::default();
    let path = std::path::PathBuf::from("/nowhere/a.dts");
    p.add_file_with_text(path.clone(), "/dts-v1/;\\n/ { p = <0x00000000001>; };\\n".into(), FileType::DtSource);
    let root = p.get_root(&path).unwrap();
    let Primary::Root(n) = &root.elements[1] else { panic!() };
    let NodeItem::Property(q) = &n.payload.items[0] else { panic!() };
    assert_eq!(format!("{}", q.values[0]), "<0x1>");
}
''')

bug('c22-comment-state', 'C22', [(P + 'tokens/lexer.rs', '''                        let str = String::from_utf8(buf).unwrap();
                        return Some(Token {
                            span: pos.to(self.reader.pos()),
                            kind: TokenKind::Comment(str),
''', '''                        let comment = String::from_utf8(buf).unwrap();
                        if self.reader.pos().line() > pos.line() + 1 {
                            self.state = LexerState::Other;
                        }
                        return Some(Token {
                            span: pos.to(self.reader.pos()),
                            kind: TokenKind::Comment(comment),
''')], 'a comment over three lines in front of a name that starts with #', 'the name is not recognized',
    py='''write('a.dts', '/dts-v1/;\\n/ {\\n/*\\n *\\n */\\n#address-cells = <1>; };\\n')
code, out = cli('a.dts')
assert code == 0, out
''')

bug('c05-omit-lost', 'C05', [(P + 'parser.rs', '''                    let payload = self.node_payload()?;
                    items.push(NodeItem::Node(Arc::new(Node {
                        omit_if_no_ref,
''', '''                    let payload = self.node_payload()?;
                    items.push(NodeItem::Node(Arc::new(Node {
                        omit_if_no_ref: omit_if_no_ref.filter(|_| payload.items.len() != 1 || label.is_none()),
''')], 'a labeled node with one property or node that is marked with /omit-if-no-ref/', 'the mark is lost',
    rs='''use ginko::dts::*;
fn main() {
    let mut p = Project::default();
    let path = std::path::PathBuf::from("/nowhere/a.dts");
    p.add_file_with_text(path.clone(), "/dts-v1/;\\n/ { /omit-if-no-ref/ x: n { p; }; };\\n".into(), FileType::DtSource);
    let root = p.get_root(&path).unwrap();
    let Primary::Root(n) = &root.elements[1] else { panic!() };
    let NodeItem::Node(q) = &n.payload.items[0] else { panic!() };
    assert!(q.omit_if_no_ref.is_some());
}
''')

bug('c04-dot-name', 'C04', [(P + 'tokens/lexer.rs', '''            if matches!(ch, b'a'..=b'z' | b'A'..=b'Z' | b',' | b'.' | b'_' | b'+' | b'-' | b'#' | b'?')
''', '''            if matches!(ch, b'a'..=b'z' | b'A'..=b'Z' | b',' | b'.' | b'_' | b'-' | b'#' | b'?')
''')], 'a property name that starts with a plus sign', 'it is rejected',
    py='''write('a.dts', '/dts-v1/;\\n/ { +p; };\\n')
code, out = cli('a.dts')
assert code == 0, out
''')

bug('c04-label-after-values', 'C04', [(P + 'parser.rs', '''            values.push(self.property_value()?);
            self.skip_optional_label();
''', '''            values.push(self.property_value()?);
            if values.len() == 1 {
                self.skip_optional_label();
            }
''')], 'a label after the second value of a property', 'it is rejected',
    py='''write('a.dts', '/dts-v1/;\\n/ { p = <1>, <2> x: ; };\\n')
code, out = cli('a.dts')
assert code == 0, out
''')

bug('c02-cells-from-first', 'C02', [(P + 'ast.rs', '''            PropertyValue::Cells(start, _, end) => start.start().to(end.end()),
''', '''            PropertyValue::Cells(start, cells, end) => match cells.first() {
                Some(Cell::Reference(reference)) if cells.len() == 1 => {
                    reference.start().to(end.end())
                }
                _ => start.start().to(end.end()),
            },
''')], 'an array that contains one reference only', 'its range starts at the reference',
    py='''s = server()
s.send(s.open(URI + 'a.dts', '/dts-v1/;\\n/ { x: n { compatible = <&x>; }; };\\n'))
s.rest()
assert s.diags(URI + 'a.dts')[0]['range']['start']['character'] == 24, s.diags(URI + 'a.dts')
''')

bug('c02-label-across-lines', 'C02', [(P + 'ast.rs', '''        self.label
            .as_ref()
            .map(|lbl| lbl.span())
            .unwrap_or(self.name.span())
            .start()
            .to(self.payload.end.span.end())
''', '''        self.label
            .as_ref()
            .map(|lbl| lbl.span())
            .filter(|span| span.start().line() == self.name.start().line())
            .unwrap_or_else(|| self.name.span())
            .start()
            .to(self.payload.end.span.end())
''')], 'a label in the line above of its node', 'the range of the node starts at its name',
    py='''s = server()
s.send(s.open(URI + 'a.dts', '/dts-v1/;\\n/ { x:\\n n { }; };\\n'))
s.rest()
c = s.symbols(URI + 'a.dts')[0]['children'][0]
assert c['range']['start'] == {'line': 1, 'character': 4}, c
''')

bug('c23-position-after-name', 'C23', [(P + 'parser.rs', '''                _ => {
                    return Err(Diagnostic::expected(
                        self.lexer.last_pos().as_span(),
                        self.lexer.source(),
                        &[
                            TokenKind::Semicolon,
''', '''                _ => {
                    let last_pos = self.lexer.last_pos();
                    let span = if cloned_tok.start().line() > last_pos.line() + 1 {
                        cloned_tok.start().as_span()
                    } else {
                        last_pos.as_span()
                    };
                    return Err(Diagnostic::expected(
                        span,
                        self.lexer.source(),
                        &[
                            TokenKind::Semicolon,
''')], 'an unexpected token in the line after a name', 'the error is in another place',
    py='''s = server()
s.send(s.open(URI + 'a.dts', '/dts-v1/;\\n/ { p\\n\\n  >; };\\n'))
s.rest()
assert s.diags(URI + 'a.dts')[0]['range']['start'] == {'line': 1, 'character': 5}, s.diags(URI + 'a.dts')
''')

bug('c16-shutdown-lock', 'C16', [(S, '''        let Some(root) = project.get_root(&file_path) else {
            return Ok(None);
        };
''', '''        let Some(tree) = project.get_root(&file_path) else {
            if project.get_file(&file_path).is_some_and(|file| file.source().is_empty()) {
                return Err(tower_lsp::jsonrpc::Error::invalid_params("empty document"));
            }
            return Ok(None);
        };
        if tree.elements.is_empty() && project.files().count() > 1 {
            return Err(tower_lsp::jsonrpc::Error::internal_error());
        }
        let root = tree;
''')], 'the outline of an empty document while another document is open', 'the request is answered with an error',
    py='''s = server()
s.send(s.open(URI + 'a.dts', '/dts-v1/;\\n'), s.open(URI + 'b.dtsi', ''))
s.rest()
a = s.ask('textDocument/documentSymbol', {'textDocument': {'uri': URI + 'b.dtsi'}})
assert a and 'error' not in a, a
''')

bug('c16-hover-write', 'C16', [(S, '''        let str = match item {
            ItemAtCursor::Reference(reference) => {
                match project.document_reference(&file_path, reference) {
                    Some(str) => str,
                    None => return Ok(None),
                }
            }
''', '''        let str = match item {
            ItemAtCursor::Reference(reference) => {
                match project.document_reference(&file_path, reference) {
                    Some(str) => str,
                    None => {
                        let line = project.get_file(&file_path).unwrap().source();
                        line.lines().nth(pos.line() as usize).unwrap()[..pos.character() as usize]
                            .trim()
                            .split('&')
                            .next_back()
                            .map(|_| ())
                            .unwrap();
                        return Ok(None);
                    }
                }
            }
''')], 'hover over an unresolved reference that follows non-ASCII characters', 'the server panics',
    py='''s = server()
s.send(s.open(URI + 'a.dts', '/dts-v1/;\\n/ { p = "\\u20ac", &x; };\\n'))
s.rest()
for c in range(11, 16):
    s.at('hover', URI + 'a.dts', 1, c)
s.send(s.change(URI + 'a.dts', '/dts-v1/;\\n/ { p = "\\u20ac\\u20ac\\u20ac\\u20ac", &x; };\\n'))
for c in range(8, 20):
    s.at('hover', URI + 'a.dts', 1, c)
assert s.symbols(URI + 'a.dts'), 'dead'
''')
