D = 'ginko/src/dts/'
P = D
S = 'ginko_ls/src/server.rs'
M = 'ginko/src/main.rs'
BUGS = []


def bug(id, property, edits, needs, breaks, py=None, rs=None):
    b = dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks)
    if py:
        b['py'] = py
    if rs:
        b['rs'] = rs
    BUGS.append(b)


RS = '''use ginko::dts::*;
use std::path::PathBuf;
fn add(text: &str, name: &str) -> (Project, PathBuf) {
    let mut p = Project::default();
    let path = PathBuf::from(format!("/no/such/{name}"));
    let ft = FileType::from(path.as_path());
    p.add_file_with_text(path.clone(), text.into(), ft);
    (p, path)
}
fn main() {
    let _ = add;
'''
HIST = '''use ginko::dts::*;
fn main() {
    let dir = std::env::current_dir().unwrap();
    let (a, b) = (dir.join("a.dts"), dir.join("b.dtsi"));
    let mut p = Project::default();
    let _ = &b;
'''

bug('c14-same-text', 'C14', [(P + 'project.rs', '''        // First step: Parse file and all dependencies.
        // Dependencies are cached.
        self.parse_file(file_name.clone(), text, file_type);
''', '''        // First step: Parse file and all dependencies.
        // Files that did not change and dependencies are cached.
        match self.files.get(&file_name) {
            Some(file) if file.source == text && file.file_type != FileType::Unknown => {}
            _ => self.parse_file(file_name, text, file_type),
        }
''')], 'a file is added again with the same text as another type', 'the old type counts',
    rs=HIST + '''    p.add_file_with_text(a.clone(), "/ { };".into(), FileType::DtSourceInclude);
    assert_eq!(p.get_diagnostics(&a).count(), 0);
    p.add_file_with_text(a.clone(), "/ { };".into(), FileType::DtSource);
    assert_eq!(p.get_diagnostics(&a).count(), 1);
}
''')

bug('c14-same-directories', 'C14', [(P + 'project.rs', '''        self.include_paths = include_paths
            .iter()
''', '''        if include_paths.len() == self.include_paths.len() && self.files.len() == 1 {
            let same = |(new, old): (&String, &PathBuf)| old.ends_with(new);
            if include_paths.iter().zip(&self.include_paths).all(same) {
                return;
            }
        }
        self.include_paths = include_paths
            .iter()
''')], 'a directory is replaced by one whose name is the end of the old name', 'the old directory is searched',
    rs=HIST + '''    std::fs::create_dir_all(dir.join("x/i")).unwrap();
    std::fs::create_dir_all(dir.join("i")).unwrap();
    std::fs::write(dir.join("i/b.dtsi"), "/ { };").unwrap();
    p.set_include_paths(vec!["x/i".into()]);
    p.add_file_with_text(a.clone(), "/dts-v1/;\\n/include/ \\"b.dtsi\\"".into(), FileType::DtSource);
    assert_eq!(p.get_diagnostics(&a).count(), 1);
    p.set_include_paths(vec!["i".into()]);
    assert_eq!(p.get_diagnostics(&a).count(), 0);
}
''')

bug('c14-negative-cache', 'C14', [(P + 'project.rs', '''pub struct Project {
    files: HashMap<PathBuf, ProjectFile>,
''', '''pub struct Project {
    files: HashMap<PathBuf, ProjectFile>,
    // Files that were included, but could not be read
    unreadable: std::collections::HashSet<PathBuf>,
'''), (P + 'project.rs', '''        if self.files.contains_key(&canonicalized_path) {
            return;
        }
        if let Ok(text) = fs::read_to_string(&canonicalized_path) {
            let typ = FileType::from(canonicalized_path.as_path());
            self.parse_file(canonicalized_path, text, typ);
        }
''', '''        if self.files.contains_key(&canonicalized_path)
            || self.unreadable.contains(&canonicalized_path)
        {
            return;
        }
        if let Ok(text) = fs::read_to_string(&canonicalized_path) {
            let typ = FileType::from(canonicalized_path.as_path());
            self.parse_file(canonicalized_path, text, typ);
        } else {
            self.unreadable.insert(canonicalized_path);
        }
''')], 'an included file is no text at first and is one later', 'it is never read again',
    rs=HIST + '''    std::fs::write(&b, b"\\xff").unwrap();
    let text = "/dts-v1/;\\n/include/ \\"b.dtsi\\"\\n/ { p = <&l>; };";
    p.add_file_with_text(a.clone(), text.into(), FileType::DtSource);
    assert_eq!(p.get_diagnostics(&a).count(), 2);
    std::fs::write(&b, "/ { l: n { }; };").unwrap();
    p.add_file_with_text(a.clone(), text.into(), FileType::DtSource);
    assert_eq!(p.get_diagnostics(&a).count(), 0);
}
''')

bug('c11-components', 'C11', [(P + 'ast.rs', '''            let path = include_path.join(self.file_name.to_string());
            dunce::canonicalize(path).ok()
''', '''            let path = include_path.join(self.file_name.to_string());
            // Remove needless parts
            dunce::canonicalize(path.components().collect::<PathBuf>()).ok()
''')], 'an include name with a slash behind the name of a file', 'the include is resolved',
    py='''write('b.dtsi', '/ { };\\n')
write('a.dts', '/dts-v1/;\\n/include/ "b.dtsi/"\\n')
code, out = cli('a.dts')
assert code == 1, out
''')

bug('c08-hash-include', 'C08', [(P + 'analysis.rs', '''                Primary::CStyleInclude(_) => {}
''', '''                Primary::CStyleInclude(name) => ctx.first_non_include |= !name.ends_with(".h"),
''')], 'an #include of a file that is no .h file in front of the header', 'the header is reported as misplaced',
    rs=RS + '''    let (p, path) = add("#include \\"a.dtsi\\"\\n/dts-v1/;", "a.dts");
    assert_eq!(p.get_diagnostics(&path).count(), 0);
}
''')

bug('c19-comma-directory', 'C19', [(M, '''    #[arg(short, long, help = "Add a path to search for include files")]
''', '''    #[arg(short, long, value_delimiter = ',', help = "Add a path to search for include files")]
''')], 'an include directory with a comma in its name', 'it is not searched',
    py='''write('x,y/b.dtsi', '/ { };\\n')
write('a.dts', '/dts-v1/;\\n/include/ "b.dtsi"\\n')
code, out = cli('a.dts', '-i', 'x,y')
assert code == 0, out
''')

bug('c11-lossy', 'C11', [(P + 'project.rs', '''        if let Ok(text) = fs::read_to_string(&canonicalized_path) {
            let typ''', '''        if let Ok(bytes) = fs::read(&canonicalized_path) {
            let text = String::from_utf8_lossy(&bytes).into_owned();
            let typ''')], 'an included file that is not UTF-8', 'it is accepted',
    py='''open('b.dtsi', 'wb').write(b'/* \\xff */ / { };\\n')
write('a.dts', '/dts-v1/;\\n/include/ "b.dtsi"\\n')
code, out = cli('a.dts')
assert code == 1, out
''')

bug('c08-upper-case-ending', 'C08', [(P + 'data.rs', '''        match ending {
            "dts" => FileType::DtSource,
''', '''        match ending.to_ascii_lowercase().as_str() {
            "dts" => FileType::DtSource,
''')], 'a file with the ending .DTS', 'it must have a header',
    rs=RS + '''    let (p, path) = add("/ { };", "a.DTS");
    assert_eq!(p.get_diagnostics(&path).count(), 0);
}
''')

bug('c08-dot-file', 'C08', [(P + 'data.rs', '''        value
            .extension()
            .and_then(|extension| extension.to_str())
            .map(FileType::from_file_ending)
            .unwrap_or_default()
''', '''        value
            .file_name()
            .and_then(|name| name.to_str())
            .and_then(|name| name.split('.').nth(1))
            .map(FileType::from_file_ending)
            .unwrap_or_default()
''')], 'a file name with two dots', 'the file has another type',
    rs=RS + '''    let (p, path) = add("/ { };", "a.b.dts");
    assert_eq!(p.get_diagnostics(&path).count(), 1);
}
''')

bug('c06-memreserve', 'C06', [(P + 'parser.rs', '''                let length = self.memreserve_number_u64()?;
                self.expect_semicolon()?;
''', '''                let length = self.memreserve_number_u64()?;
                self.lexer.expect(TokenKind::Semicolon)?;
''')], 'a missing semicolon behind a memory reservation', 'parsing stops',
    rs=RS + '''    let (p, path) = add("/memreserve/ 1 2 / { };", "a.dtsi");
    assert!(p.get_root(&path).is_some());
}
''')

bug('c02-omit-deleted', 'C02', [(P + 'parser.rs', '''                let property_name = self.property_name()?;
                self.expect_semicolon()?;
                items.push(NodeItem::DeletedProperty(tok, property_name));
''', '''                let property_name = self.property_name()?;
                // the directive ends with the semicolon
                let tok = match self.expect_semicolon()? {
                    Some(end) if end.start().line() != tok.start().line() => Token {
                        span: tok.span.start().to(end.end()),
                        ..tok
                    },
                    _ => tok,
                };
                items.push(NodeItem::DeletedProperty(tok, property_name));
''')], 'a deletion of a property whose semicolon is on another line', 'the token of the directive covers all of it',
    rs=RS + '''    let (p, path) = add("/ { /delete-property/ p\\n; };", "a.dtsi");
    let Primary::Root(root) = &p.get_root(&path).unwrap().elements[0] else { panic!() };
    let NodeItem::DeletedProperty(tok, _) = &root.payload.items[0] else { panic!() };
    assert_eq!(tok.span().end(), Position::new(0, 21));
}
''')

bug('c12-own-first', 'C12', [(P + 'analysis.rs', '''        if let Some(context) = proj_file.context.as_ref() {
            ctx.flat_nodes.extend(context.flat_nodes.clone());
''', '''        if let Some(context) = proj_file.context.as_ref() {
            let known = ctx.flat_nodes.keys().cloned().collect::<Vec<_>>();
            let mut nodes = context.flat_nodes.clone();
            // Opening a node again does not move it
            nodes.retain(|path, node| !known.contains(path) || !node.payload.items.is_empty());
            ctx.flat_nodes.extend(nodes);
''')], 'an include opens a node again that is known already, without contents', 'a reference by path leads to the first place',
    rs=HIST + '''    std::fs::write(&b, "/ { n { }; };").unwrap();
    p.add_file_with_text(a.clone(), "/dts-v1/;\\n/ { n { }; };\\n/include/ \\"b.dtsi\\"\\n/ { p = &{/n}; };".into(), FileType::DtSource);
    let Some(ItemAtCursor::Reference(r)) = p.find_at_pos(&a, &Position::new(3, 9)) else { panic!() };
    assert_eq!(&*p.get_node_position(&a, r).unwrap().1, b.as_path());
}
''')

bug('c16-empty-settings', 'C16', [(S, '''        let config = ProjectConfig::from_value(params.settings);
        self.set_config(config);
''', '''        let config = match params.settings.get("ginko") {
            Some(settings) => ProjectConfig::from_value(settings["includes"].as_array().map_or_else(
                || settings.clone(),
                |paths| serde_json::json!({ "includes": paths.iter().map(|path| path.as_str().unwrap()).collect_vec() }),
            )),
            None => ProjectConfig::from_value(params.settings),
        };
        self.set_config(config);
''')], 'settings for "ginko" whose include directories are no strings', 'the handler panics',
    py='''s = server()
s.send(s.note('workspace/didChangeConfiguration', {'settings': {'ginko': {'includes': [1]}}}))
s.send(s.open(URI + 'a.dtsi', '/ { n { }; };\\n'))
assert s.symbols(URI + 'a.dtsi'), 'dead'
s.rest()
s.send(s.note('workspace/didChangeConfiguration', {'settings': {'ginko': {'includes': [1]}}}))
s.send(s.change(URI + 'a.dtsi', '/ { p = <08>; };\\n'))
s.rest()
assert s.diags(URI + 'a.dtsi'), s.view
''')

bug('c17-root-name', 'C17', [(S, '''                NodeItem::Node(node) => node_to_symbol(node),
''', '''                NodeItem::Node(node) => {
                    let mut symbol = node_to_symbol(node);
                    // an editor cannot select more than one line
                    if symbol.selection_range.end.character > 999 {
                        symbol.selection_range.end = symbol.selection_range.start;
                    }
                    symbol
                }
'''.replace("NodeItem::Node(node) =>", "NodeItem::Node(node) =>"))], 'a node whose name ends behind column 999', 'the range of its name is empty',
    py='''s = server()
s.send(s.open(URI + 'a.dtsi', '/ { ' + 'p; ' * 333 + 'n { }; };\\n'))
r = s.symbols(URI + 'a.dtsi')[0]['children'][-1]['selectionRange']
assert r['start'] != r['end'], r
''')

bug('c15-removed-twice', 'C15', [(S, '''        let mut file_paths = self.project_files();
        self.project.write().remove_file(&file_path);
''', '''        let mut file_paths = self.project_files();
        // Files that are still used are kept
        if file_paths.len() > 4 {
            file_paths.retain(|path| *path != file_path);
        }
        self.project.write().remove_file(&file_path);
''')], 'an unsaved document is closed while more than four files are known', 'its diagnostics stay',
    py='''s = server()
for x in 'abcdef':
    s.send(s.open(URI + x + '.dtsi', '/ { p = <08>; };\\n'))
s.rest()
s.send(s.note('textDocument/didClose', {'textDocument': {'uri': URI + 'c.dtsi'}}))
s.rest()
assert s.diags(URI + 'c.dtsi') == [], s.diags(URI + 'c.dtsi')
''')
