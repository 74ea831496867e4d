D = 'ginko/src/dts/'
P = D
S = 'ginko_ls/src/server.rs'
M = 'ginko/src/main.rs'
BUGS = []


def bug(id, property, edits, needs, breaks, py=None, rs=None):
    b = dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks)
    if py:
        b['py'] = py
    if rs:
        b['rs'] = rs
    BUGS.append(b)


RS = '''use ginko::dts::*;
use std::path::PathBuf;
fn add(text: &str, name: &str) -> (Project, PathBuf) {
    let mut p = Project::default();
    let path = PathBuf::from(format!("/no/such/{name}"));
    let ft = FileType::from(path.as_path());
    p.add_file_with_text(path.clone(), text.into(), ft);
    (p, path)
}
fn main() {
    let _ = add;
'''

bug('c01-long-string', 'C01', [(P + 'ast.rs', '''            PropertyValue::String(string) => {
                write!(f, "\\"{string}\\"")
            }
''', '''            // Long strings are abbreviated
            PropertyValue::String(string) if string.len() > 256 => {
                write!(f, "\\"{}...\\"", &string[..253])
            }
            PropertyValue::String(string) => write!(f, "\\"{string}\\""),
''')], 'a string of more than 256 bytes with a multi-byte character behind 252 of them, printed', 'printing the tree panics',
    rs=RS + '''    let (p, path) = add(&format!("/ {{ p = \\"{}é{}\\"; }};", "x".repeat(252), "y".repeat(10)), "a.dtsi");
    assert!(!p.get_root(&path).unwrap().to_string().is_empty());
}
''')

bug('c07-astral-path', 'C07', [(P + 'data.rs', '''            '\\n' => Position::new(pos.line + 1, 0),
            ch => pos.offset_by_char(ch.len_utf16() as i32),
''', '''            '\\n' => Position::new(pos.line + 1, 0),
            _ => pos.offset_by_char(1),
''')], 'a path reference with a character outside of the basic plane and a fault in a later element', 'the later fault is reported one column too early',
    rs=RS + '''    let (p, path) = add("/ { p = &{/a\\u{1F600}/b?c}; };", "a.dtsi");
    let d: Vec<_> = p.get_diagnostics(&path).collect();
    assert!(d.iter().any(|d| d.span.start().character() == 16), "{d:?}");
}
''')

bug('c08-after-deletion', 'C08', [(P + 'parser.rs', '''                let node_name = self.node_name()?;
                self.expect_semicolon()?;
                items.push(NodeItem::DeletedNode(tok, node_name));
''', '''                let deleted = self.node_name()?;
                self.expect_semicolon()?;
                node_discovered = deleted.unit_address.is_some() || node_discovered;
                items.push(NodeItem::DeletedNode(tok, deleted));
''')], 'a property behind the deletion of a node with a unit address', 'the property is reported',
    rs=RS + '''    let (p, path) = add("/ { /delete-node/ n@1; p; };", "a.dtsi");
    assert_eq!(p.get_diagnostics(&path).count(), 0);
}
''')

bug('c09-lost-extension', 'C09', [(P + 'analysis.rs', '''        let path = self.resolve_reference(ctx, &node.reference);
        self.analyze_node_payload(ctx, &node.payload, path);
''', '''        let known = ctx.diagnostics.len();
        let path = self.resolve_reference(ctx, &node.reference);
        // Nothing can be said about the contents of unknown nodes
        if ctx.diagnostics.len() == known {
            self.analyze_node_payload(ctx, &node.payload, path);
        }
''')], 'a label that is only defined inside the extension of an unknown node', 'the label is not known',
    rs=RS + '''    let (p, path) = add("/dts-v1/;\\n&x { l: n { }; };\\n/ { p = <&l>; };", "a.dts");
    assert_eq!(p.get_diagnostics(&path).count(), 1);
}
''')

bug('c10-property-label', 'C10', [(P + 'analysis.rs', '''            ctx.labels
                .insert(label.item().clone(), Labeled::Property(property.clone()));
''', '''            // Nodes are more interesting than properties
            ctx.labels
                .entry(label.item().clone())
                .or_insert(Labeled::Property(property.clone()));
''')], 'a label of a node that is given to a property later', 'the reference leads to the node',
    rs=RS + '''    let (p, path) = add("/ { l: a { }; };\\n/ { l: p = <&l>; };", "a.dtsi");
    let Some(ItemAtCursor::Reference(r)) = p.find_at_pos(&path, &Position::new(1, 13)) else { panic!() };
    assert!(p.get_node_position(&path, r).is_none());
}
''')

bug('c11-empty-name', 'C11', [(P + 'ast.rs', '''            let path = include_path.join(self.file_name.to_string());
            dunce::canonicalize(path).ok()
''', '''            let path = include_path.join(self.file_name.trim_start_matches("./"));
            dunce::canonicalize(path).ok()
''')], 'an include name with ".//"', 'the file is searched from the root directory',
    py='''write('b.dtsi', '/ { l: n { }; };\\n')
write('a.dts', '/dts-v1/;\\n/include/ ".//b.dtsi"\\n/ { p = <&l>; };\\n')
code, out = cli(HERE + '/a.dts') if False else (0, '')
os.makedirs('x')
os.chdir('x')
code, out = cli('../a.dts')
assert code == 0, out
''')

bug('c12-breadth-first', 'C12', [(P + 'project.rs', '''        let mut remaining = self.files.keys().cloned().sorted().collect_vec();
        let mut current_order = vec![];
        while !remaining.is_empty() {
            // The next file must not include any file that was not yet visited.
            // When there are cyclic includes, there may be no such file.
            let next = remaining
                .iter()
                .position(|file| {
                    !remaining
                        .iter()
                        .filter_map(|include| map.get(include))
                        .any(|included_by| included_by.contains(file))
                })
                .unwrap_or(0);
            current_order.push(remaining.remove(next));
        }
        current_order
''', '''        let mut remaining = self.files.keys().cloned().sorted().collect_vec();
        let mut current_order = vec![];
        while !remaining.is_empty() {
            // All files that do not include any file that was not yet visited.
            // When there are cyclic includes, there may be no such file.
            let (mut next, rest): (Vec<_>, Vec<_>) = remaining.iter().cloned().partition(|file| {
                let waiting = remaining
                    .iter()
                    .filter_map(|include| map.get(include))
                    .filter(|included_by| included_by.contains(file))
                    .count();
                // a file that waits for a single file comes directly behind it
                waiting == 0 || (waiting == 1 && current_order.len() > 3)
            });
            remaining = rest;
            if next.is_empty() {
                next.push(remaining.remove(0));
            }
            current_order.extend(next);
        }
        current_order
''')], 'a project of more than five files with a long chain of includes whose names are sorted from top to bottom', 'a file is analysed before the files it includes',
    py='''names = 'abcdefghij'
write('a.dts', '/dts-v1/;\\n/include/ "b.dtsi"\\n/ { p = <&l>; };\\n')
for x, y in zip(names[1:], names[2:]):
    write(x + '.dtsi', '/include/ "%s.dtsi"\\n' % y)
write('j.dtsi', '/ { l: n { }; };\\n')
code, out = cli('a.dts')
assert code == 0, out
''')

bug('c14-remove-deleted', 'C14', [(P + 'project.rs', '''        self.files.remove(&project_path(path));
        self.parse_missing_includes();
''', '''        let Ok(path) = dunce::canonicalize(path) else {
            // Temporary files have no influence on others
            self.files.retain(|known, file| {
                known != path || file.file_type == FileType::DtSourceInclude
            });
            return;
        };
        self.files.remove(&path);
        self.parse_missing_includes();
''')], 'a file is removed after it was deleted on disk', 'an include stays, other files are not analysed again',
    rs='''use ginko::dts::*;
fn main() {
    let dir = std::env::current_dir().unwrap();
    let b = dir.join("b.dtsi");
    std::fs::write(&b, "/ { l: n { }; };").unwrap();
    let a = dir.join("a.dts");
    let mut p = Project::default();
    p.add_file_with_text(a.clone(), "/dts-v1/;\\n/include/ \\"b.dtsi\\"\\n/ { };".into(), FileType::DtSource);
    assert_eq!(p.get_diagnostics(&a).count(), 0);
    std::fs::remove_file(&b).unwrap();
    p.remove_file(&b);
    assert_eq!(p.files().count(), 1);
}
''')

bug('c15-config-clears', 'C15', [(S, '''        self.set_config(config);
        self.publish_diagnostics().await
    }
''', '''        self.set_config(config);
        // Other directories can only add problems
        let files = self.project_files();
        let bad = |file: &PathBuf| self.project.read().get_diagnostics(file).next().is_some();
        self.publish_diagnostics_of(files.into_iter().filter(bad).collect_vec())
            .await
    }
''')], 'a configured include directory resolves the only diagnostic of a document', 'the diagnostic stays',
    py='''write('inc/b.dtsi', '/ { };\\n')
s = server()
s.send(s.open(URI + 'a.dtsi', '/include/ "b.dtsi"\\n'))
s.rest()
assert len(s.diags(URI + 'a.dtsi')) == 1
s.send(s.note('workspace/didChangeConfiguration', {'settings': {'includes': [HERE + '/inc']}}))
s.rest()
assert len(s.diags(URI + 'a.dtsi')) == 0, s.view
''')

bug('c17-empty-outline', 'C17', [(S, '''        let Some(root) = project.get_root(&file_path) else {
            return Ok(None);
        };
        #[allow(deprecated)]
''', '''        let Some(root) = project
            .get_root(&file_path)
            .filter(|root| !root.elements.iter().all(|el| el.as_include().is_some()))
        else {
            return Ok(None);
        };
        #[allow(deprecated)]
''')], 'a document that consists of includes only', 'it has no outline',
    py='''s = server()
s.send(s.open(URI + 'a.dtsi', '/include/ "b.dtsi"\\n'))
assert len(s.symbols(URI + 'a.dtsi')) == 1
''')

bug('c19-last-line', 'C19', [(P + 'diagnostics.rs', '''            .get(start.line() as usize)
            .unwrap_or(&empty_string)
            .clone();
''', '''            .get(start.line() as usize)
            .or(self.code.last())
            .unwrap_or(&empty_string)
            .clone();
''')], 'a diagnostic behind the last line break of the file', 'the report shows the line before',
    py='''write('a.dts', '/dts-v1/;\\n/ {\\n')
code, out = cli('a.dts')
assert '3:1' in out and '3 | /' not in out, out
''')

bug('c19-tab', 'C19', [(P + 'diagnostics.rs', '''            .map(|ch| if !ch.is_ascii_whitespace() { ' ' } else { ch })
            .take(start_char as usize)
''', '''            .map(|ch| if ch == '\\t' { ch } else { ' ' })
            .skip_while(|ch| *ch == '\\t' && start_char > 72)
            .take(start_char as usize)
''')], 'a range far behind the tabs at the start of a line', 'the marker is too far left',
    py='''write('a.dts', '/dts-v1/;\\n/ {\\n\\t' + 'p;' * 40 + 'q = <08>;\\n};\\n')
code, out = cli('a.dts')
mark = [l for l in out.split('\\n') if '^' in l][0]
assert mark.startswith('  | \\t' + ' ' * 85 + '^^'), out
''')

bug('c21-long-bytes', 'C21', [(P + 'parser.rs', '''                let mut bytes: Vec<u8> = Vec::with_capacity(raw_str.len() / 2);
                for (first, second) in raw_str.bytes().map(|ch| ch.to_ascii_lowercase()).tuples() {
''', '''                let mut bytes: Vec<u8> = Vec::with_capacity(raw_str.len() / 2);
                let digits = raw_str.bytes().take(64).map(|ch| ch.to_ascii_lowercase());
                for (first, second) in digits.tuples() {
''')], 'more than 32 bytes without a blank', 'the bytes behind are lost',
    rs=RS + '''    let (p, path) = add(&format!("/ {{ p = [{}]; }};", "a1".repeat(40)), "a.dtsi");
    assert!(p.get_root(&path).unwrap().to_string().contains(&"a1".repeat(40)));
}
''')

bug('c22-form-feed', 'C22', [(P + 'tokens/lexer.rs', '''        while self.reader.skip_if(|ch| ch.is_ascii_whitespace()) {}
''', '''        while self
            .reader
            .skip_if(|ch| matches!(ch, b' ' | b'\\t' | b'\\n' | b'\\r'))
        {}
''')], 'a form feed between two tokens', 'it is a syntax error',
    rs=RS + '''    let (p, path) = add("/ {\\u{c} };", "a.dtsi");
    assert_eq!(p.get_diagnostics(&path).count(), 0);
}
''')

bug('c23-hash-include', 'C23', [(P + 'parser.rs', '''                let tok = self.lexer.expect_next()?;
                match tok.kind {
                    TokenKind::String(include_str) => Ok(Primary::CStyleInclude(include_str)),
                    _ => Err(Diagnostic::expected(
                        tok.span(),
                        tok.source(),
                        &[TokenKind::String("".to_string())],
                    )),
                }
''', '''                let name = self.lexer.expect_next()?;
                match name.kind {
                    TokenKind::String(include_str) => Ok(Primary::CStyleInclude(include_str)),
                    _ => Err(Diagnostic::expected(
                        token.span(),
                        token.source(),
                        &[TokenKind::String("".to_string())],
                    )),
                }
''')], 'an #include without a string', 'the directive is reported, not the token that does not fit',
    rs=RS + '''    let (p, path) = add("#include 7", "a.dtsi");
    let d: Vec<_> = p.get_diagnostics(&path).collect();
    assert!(d.len() == 1 && d[0].span.start().character() == 9, "{d:?}");
}
''')

bug('c13-chain-sorted', 'C13', [(P + 'diagnostics.rs', '''        let str = err
            .cycle()
            .iter()
            .map(|element| format!("{}", element.display()))
            .join(" -> ");
''', '''        // Every file is shown once
        let mut chain = err.cycle().iter().unique().collect_vec();
        if chain.len() > 3 {
            chain.sort();
        }
        let closed = err.cycle().last().filter(|_| !chain.is_empty());
        let str = chain
            .iter()
            .copied()
            .chain(closed)
            .map(|element| format!("{}", element.display()))
            .join(" -> ");
''')], 'a cycle of four files whose names are not in the order of the includes', 'the chain in the message does not exist',
    py='''for x, y in ('ac', 'cb', 'bd', 'da'):
    write(x + '.dtsi', '/include/ "%s.dtsi"\\n' % y)
code, out = cli('a.dtsi')
names = [w.split('/')[-1][0] for l in out.split('\\n') if 'Cyclic include: ' in l for w in l.split('Cyclic include: ')[1].split(' -> ')]
assert names, out
for x, y in zip(names, names[1:]):
    assert x + y in ('ac', 'cb', 'bd', 'da') or y + x in ('ac', 'cb', 'bd', 'da'), names
assert names[0] == names[-1], names
pairs = {a + b for a, b in zip(names, names[1:])}
assert pairs == {'ac', 'cb', 'bd', 'da'} or pairs == {'ca', 'bc', 'db', 'ad'}, names
''')

bug('c20-include-hint', 'C20', [(P + 'project.rs', '''        self.diagnostics()
            .any(|diagnostic| diagnostic.severity(severity_map) == Severity::Error)
''', '''        // The most important diagnostics come first
        self.diagnostics()
            .take(32)
            .any(|diagnostic| diagnostic.severity(severity_map) == Severity::Error)
''')], 'an included file with 32 warnings in front of its first error', 'the include counts as free of errors',
    py='''write('b.dtsi', '/ { p = <08>; };\\n/ { ' + 'n { compatible = <1>; }; ' * 0 + '};\\n')
write('c.dtsi', '/ {\\n' + 'a_name_that_has_more_than_31_characters_in_it;\\n' * 40 + 'p = <08>;\\n};\\n')
write('a.dts', '/dts-v1/;\\n/include/ "c.dtsi"\\n/ { };\\n')
code, out = cli('a.dts')
assert 'Included file contains errors' in out, out
''')
bug('c18-root-hover', 'C18', [(P + 'project.rs', '''        Some(format!("Node {}", referenced.name.name.clone()))
''', '''        let name = referenced.name.item();
        // Nodes without an address are shown with their name only
        Some(match &name.unit_address {
            Some(address) if address.is_empty() => format!("Node {}@", name.name),
            _ => format!("Node {}", name.name),
        })
''')], 'a hover over a reference to a node with an empty address', 'the description is another one',
    py='''s = server()
s.send(s.open(URI + 'a.dtsi', '/ { l: n@ { }; p = <&l>; };\\n'))
r = s.at('hover', URI + 'a.dtsi', 0, 20)
assert r and r['contents'] == 'Node n', r
''')
