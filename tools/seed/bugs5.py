D = 'ginko/src/dts/'
P = D
S = 'ginko_ls/src/server.rs'
M = 'ginko/src/main.rs'
BUGS = []


def bug(id, property, edits, needs, breaks, py=None, rs=None):
    b = dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks)
    if py:
        b['py'] = py
    if rs:
        b['rs'] = rs
    BUGS.append(b)


bug('c15-hundred', 'C15', [(S, '''                .map(|diag| self.lsp_diag_from_diag(diag))
                .collect_vec();
            self.client''', '''                .take(100)
                .map(|it| self.lsp_diag_from_diag(it))
                .collect_vec();
            self.client''')], 'a document with more than a hundred diagnostics', 'only the first hundred are published',
    py='''s = server()
s.send(s.open(URI + 'a.dtsi', '/ { ' + 'p = <08>; ' * 120 + '};\\n'))
s.rest()
assert len(s.diags(URI + 'a.dtsi')) == 120, len(s.diags(URI + 'a.dtsi'))
''')

bug('c15-display-url', 'C15', [(S, '''                .publish_diagnostics(Url::from_file_path(&file).unwrap(), diagnostics, None)
''', '''                .publish_diagnostics(
                    Url::parse(&format!("file://{}", file.display())).unwrap(),
                    diagnostics,
                    None,
                )
''')], 'a file name with a character that has a meaning in URLs, e.g. #', 'the diagnostics are published for another document',
    py='''s = server()
uri = URI + 'a%23b.dtsi'
s.send(s.open(uri, '/ { p = <08>; };\\n'))
s.rest()
assert len(s.diags(uri) or []) == 1, s.view
''')

bug('c16-lossy-path', 'C16', [(S, '''        let file_type = FileType::from(file_path.as_path());
        self.project.write().add_file_with_text(
            file_path.clone(),''', '''        let file_name = file_path.to_str().unwrap_or_default();
        let ending = &file_name[file_name.rfind('.').unwrap() + 1..];
        let file_type = FileType::from_file_ending(ending);
        self.project.write().add_file_with_text(
            file_path.clone(),''')], 'the name of an opened file has no dot, or is not UTF-8', 'the notification panics',
    py='''s = server()
s.send(s.open(URI + 'a%ff.dtsi', '/ { };\\n'))
s.send(s.open(URI + 'b.dtsi', '/ { n { }; };\\n'))
assert s.symbols(URI + 'b.dtsi'), 'dead'
assert s.symbols(URI + 'a%ff.dtsi'), 'not known'
''')

bug('c16-largest-column', 'C16', [(P + 'data.rs', '''        self.start <= *position && self.end > *position
''', '''        // i.e., the character at the position is part of this span
        self.start <= *position && position.as_char_span().end <= self.end
''')], 'a request for the last possible column', 'the overflow panics',
    py='''s = server()
s.send(s.open(URI + 'a.dts', '/dts-v1/;\\n/ { p = <&x>; };\\n'))
s.rest()
for m in ('hover', 'definition'):
    for c in (2147483647, 4294967295):
        s.at(m, URI + 'a.dts', 1, c)
        s.at(m, URI + 'a.dts', 2, c)
assert s.symbols(URI + 'a.dts'), 'dead'
''')

bug('c19-report-limit', 'C19', [(M, '''        let diag = file.diagnostics().cloned().collect_vec();
        if diag.is_empty() {''', '''        // Do not flood the terminal
        let diag = file.diagnostics().take(64).cloned().collect_vec();
        if diag.is_empty() {''')], 'a file with more than 64 diagnostics', 'only the first 64 are printed',
    py='''write('a.dts', '/dts-v1/;\\n/ {\\n' + 'p = <08>;\\n' * 70 + '};\\n')
code, out = cli('a.dts')
assert code == 1 and out.count(' --> ') == 70, out.count(' --> ')
''')

bug('c19-exit-count', 'C19', [(M, '''    let mut has_errors = false;
''', '''    let mut issues = 0;
'''), (M, '''            has_errors = true;
''', '''            issues += diag.len();
'''), (M, '''    if !has_errors {
        println!("OK; No issues found");
        exit(0);
    } else {
        exit(1);
    }
''', '''    if issues == 0 {
        println!("OK; No issues found");
    }
    exit(issues as i32)
''')], 'a multiple of 256 diagnostics', 'the exit code is 0',
    py='''write('a.dts', '/dts-v1/;\\n/ {\\n' + 'p = <08>;\\n' * 256 + '};\\n')
code, out = cli('a.dts')
assert code != 0, code
''')

bug('c04-depth-limit', 'C04', [(P + 'parser.rs', '''    lexer: PeekingLexer<R>,
    pub diagnostics: Vec<Diagnostic>,
    pub context: ParserContext,
}
''', '''    lexer: PeekingLexer<R>,
    pub diagnostics: Vec<Diagnostic>,
    pub context: ParserContext,
    // The nodes that are currently open
    depth: usize,
}
'''), (P + 'parser.rs', '''            lexer: PeekingLexer::from(lexer),
            diagnostics: vec![],
            context,
''', '''            lexer: PeekingLexer::from(lexer),
            diagnostics: vec![],
            context,
            depth: 0,
'''), (P + 'parser.rs', '''            lexer: lexer.into(),
            diagnostics: vec![],
            context,
''', '''            lexer: lexer.into(),
            diagnostics: vec![],
            context,
            depth: 0,
'''), (P + 'parser.rs', '''        self.lexer.expect(TokenKind::OpenBrace)?;
        let mut items: Vec<NodeItem> = vec![];
''', '''        self.lexer.expect(TokenKind::OpenBrace)?;
        self.depth += 1;
        if self.depth > 32 {
            return Err(Diagnostic::new(
                self.lexer.last_pos().as_span(),
                self.lexer.source(),
                ErrorCode::ParserError,
                "Nodes are nested too deep",
            ));
        }
        let mut items = Vec::<NodeItem>::new();
'''), (P + 'parser.rs', '''        Ok(NodePayload { items, end })
''', '''        self.depth -= 1;
        Ok(NodePayload { items, end })
''')], 'more than 32 nested nodes', 'well-formed sources are rejected',
    py='''write('a.dts', '/dts-v1/;\\n/ {' + 'n {' * 40 + '};' * 40 + '};\\n')
code, out = cli('a.dts')
assert code == 0, out
''')

bug('c17-depth', 'C17', [(S, '''        fn node_payload_to_symbol(payload: &NodePayload) -> Vec<DocumentSymbol> {
            let mut children: Vec<DocumentSymbol> = Vec::new();
''', '''        fn node_payload_to_symbol(payload: &NodePayload, depth: usize) -> Vec<DocumentSymbol> {
            let mut children: Vec<DocumentSymbol> = Vec::new();
            if depth > 16 {
                return children;
            }
'''), (S, '''                    NodeItem::Node(node) => node_to_symbol(node),
''', '''                    NodeItem::Node(node) => node_to_symbol(node, depth),
'''), (S, '''        fn node_to_symbol(node: &Node) -> DocumentSymbol {
''', '''        fn node_to_symbol(node: &Node, depth: usize) -> DocumentSymbol {
'''), (S, '''                children: Some(node_payload_to_symbol(&node.payload)),
''', '''                children: Some(node_payload_to_symbol(&node.payload, depth + 1)),
'''), (S, '''                Primary::Root(node) => Some(node_to_symbol(node)),
''', '''                Primary::Root(node) => Some(node_to_symbol(node, 0)),
'''), (S, '''                    children: Some(node_payload_to_symbol(&ref_node.payload)),
''', '''                    children: Some(node_payload_to_symbol(&ref_node.payload, 1)),
''')], 'more than 16 nested nodes', 'the items of the innermost nodes are missing in the outline',
    py='''s = server()
s.send(s.open(URI + 'a.dtsi', '/ {' + 'n {' * 20 + '};' * 20 + '};\\n'))
s.rest()
x, n = s.symbols(URI + 'a.dtsi'), 0
while x:
    x, n = x[0].get('children'), n + 1
assert n == 21, n
''')

bug('c11-trim-name', 'C11', [(P + 'ast.rs', '''            let path = include_path.join(self.file_name.to_string());
''', '''            let path = include_path.join(self.file_name.trim());
''')], 'a file name with white space at its end', 'another file is included',
    py='''write('x.dtsi', '/ { a: n { }; };\\n')
write('x.dtsi ', '/ { b: n { }; };\\n')
write('a.dts', '/dts-v1/;\\n/include/ "x.dtsi "\\n/ { p = <&b>; };\\n')
code, out = cli('a.dts')
assert code == 0, out
''')

bug('c14-guard-kept', 'C14', [(P + 'project.rs', '''    files: HashMap<PathBuf, ProjectFile>,
    pub include_paths''', '''    files: HashMap<PathBuf, ProjectFile>,
    analysis: Analysis,
    pub include_paths'''), (P + 'project.rs', '''        let mut analysis = Analysis::new();
        for key''', '''        let mut analysis = std::mem::take(&mut self.analysis);
        for key'''), (P + 'project.rs', '''            proj_file.analysis_diagnostics = result.diagnostics;
        }
''', '''            proj_file.analysis_diagnostics = result.diagnostics;
        }
        self.analysis = analysis;
'''), (P + 'analysis.rs', '''pub(crate) struct Analysis {''', '''#[derive(Default)]
pub(crate) struct Analysis {''')], 'the direction of an include is turned around', 'a cycle that does not exist any more is reported',
    py='''write('a.dtsi', '')
write('b.dtsi', '')
s = server()
s.send(s.open(URI + 'a.dtsi', '/include/ "b.dtsi"\\n'), s.open(URI + 'b.dtsi', '/ { };\\n'))
s.rest()
s.send(s.change(URI + 'a.dtsi', '/ { };\\n'))
s.rest()
s.send(s.change(URI + 'b.dtsi', '/include/ "a.dtsi"\\n'))
s.rest()
assert s.diags(URI + 'b.dtsi') == [], s.view
''')

bug('c12-once-per-file', 'C12', [(P + 'analysis.rs', '''    first_non_include: bool,
    dts_header_seen: bool,
}
''', '''    first_non_include: bool,
    dts_header_seen: bool,
    reported_includes: std::collections::HashSet<PathBuf>,
}
'''), (P + 'analysis.rs', '''            first_non_include: false,
        };
''', '''            first_non_include: false,
            reported_includes: Default::default(),
        };
'''), (P + 'analysis.rs', '''        if proj_file.has_errors(&ctx.project.severities) {
''', '''        if ctx.reported_includes.insert(path)
            && proj_file.has_errors(&ctx.project.severities)
        {
''')], 'a file with errors is included twice', 'the error is only reported for the first include',
    py='''write('x.dtsi', '/ { p = <08>; };\\n')
write('a.dts', '/dts-v1/;\\n/include/ "x.dtsi"\\n/include/ "x.dtsi"\\n')
code, out = cli('a.dts')
assert out.count('Included file contains errors') == 2, out
''')

bug('c12-only-dtsi', 'C12', [(P + 'analysis.rs', '''            ctx.flat_nodes.extend(context.flat_nodes.clone());
            ctx.labels.extend(context.labels.clone());
''', '''            // Complete device trees cannot be a part of another tree
            if proj_file.file_type == FileType::DtSource && ctx.file_type != FileType::DtSource {
                return;
            }
            let nodes = context.flat_nodes.clone();
            ctx.flat_nodes.extend(nodes);
            ctx.labels.extend(context.labels.clone());
''')], 'a .dtsi file includes a .dts file and is included by a .dts file', 'the labels of the innermost file are not known',
    py='''write('x.dts', '/dts-v1/;\\n/ { a: n { }; };\\n')
write('y.dtsi', '/include/ "x.dts"\\n')
write('a.dts', '/dts-v1/;\\n/include/ "y.dtsi"\\n/ { p = <&a>; };\\n')
code, out = cli('a.dts')
assert code == 0, out
''')

bug('c09-inherited-plugin', 'C09', [(P + 'analysis.rs', '''    flat_nodes: HashMap<Path, Arc<Node>>,
}

pub struct AnalysisResult {''', '''    flat_nodes: HashMap<Path, Arc<Node>>,
    is_plugin: bool,
}

pub struct AnalysisResult {'''), (P + 'analysis.rs', '''                labels: self.labels,
                label_paths: self.label_paths,
            },''', '''                labels: self.labels,
                label_paths: self.label_paths,
                is_plugin: self.is_plugin,
            },'''), (P + 'analysis.rs', '''            ctx.flat_nodes.extend(context.flat_nodes.clone());
''', '''            ctx.is_plugin |= context.is_plugin;
            let nodes = context.flat_nodes.clone();
            ctx.flat_nodes.extend(nodes);
''')], 'an included file is a plugin', 'unresolved references of the including file are not reported any more',
    py='''write('x.dtsi', '/plugin/;\\n')
write('a.dts', '/dts-v1/;\\n/include/ "x.dtsi"\\n/ { p = <&a>; };\\n')
code, out = cli('a.dts')
assert code == 1, out
''')

bug('c09-same-reference', 'C09', [(P + 'analysis.rs', '''        for reference in ctx.unresolved_references.clone() {
            let span''', '''        let mut pending = ctx.unresolved_references.clone();
        // every reference only needs to be looked up once
        pending.dedup_by(|a, b| a.item() == b.item());
        for reference in pending {
            let span''')], 'the same unresolved reference twice in succession', 'only the first one is reported',
    py='''write('a.dts', '/dts-v1/;\\n/ { p = <&a &a>, &a; };\\n')
code, out = cli('a.dts')
assert out.count('Reference cannot be resolved') == 3, out
''')

bug('c08-nodes-of-include', 'C08', [(P + 'analysis.rs', '''            ctx.flat_nodes.extend(context.flat_nodes.clone());
''', '''            let nodes = context.flat_nodes.clone();
            ctx.first_non_include |= !nodes.is_empty();
            ctx.flat_nodes.extend(nodes);
''')], 'an include of a file with nodes before the header', 'the header is reported as misplaced',
    py='''write('x.dtsi', '/ { };\\n')
write('a.dts', '/include/ "x.dtsi"\\n/dts-v1/;\\n')
code, out = cli('a.dts')
assert code == 0, out
''')

bug('c03-byte-order-mark', 'C03', [(P + 'reader.rs', '''            data: string.as_bytes().into(),
''', '''            data: string.trim_start_matches('\\u{feff}').as_bytes().into(),
''')], 'U+FEFF at the start of a file', 'it is accepted',
    py='''write('a.dts', '\\ufeff\\ufeff/dts-v1/;\\n/ { };\\n')
code, out = cli('a.dts')
assert code == 1, out
''')

bug('c22-vertical-tab', 'C03', [(P + 'tokens/lexer.rs', '''        while self.reader.skip_if(|ch| ch.is_ascii_whitespace()) {}
''', '''        while self.reader.skip_if(|ch| char::from(ch).is_whitespace()) {}
''')], 'a vertical tab between two items', 'it is accepted',
    py='''write('a.dts', '/dts-v1/;\\n/ {\\x0b};\\n')
code, out = cli('a.dts')
assert code == 1, out
''')

bug('c05-empty-cells', 'C05', [(P + 'parser.rs', '''            values.push(self.property_value()?);
''', '''            match self.property_value()? {
                // No value at all
                PropertyValue::Cells(_, cells, _) if cells.is_empty() && !values.is_empty() => {}
                value => values.push(value),
            }
''')], 'empty cells behind another value', 'they are missing in the tree',
    rs='''use ginko::dts::*;
use std::path::PathBuf;
fn main() {
    let mut p = Project::default();
    let path = PathBuf::from("/no/such/a.dtsi");
    p.add_file_with_text(path.clone(), "/ { p = <1>, <>, <2>; };".into(), FileType::DtSourceInclude);
    let Primary::Root(root) = &p.get_root(&path).unwrap().elements[0] else { panic!() };
    let NodeItem::Property(prop) = &root.payload.items[0] else { panic!() };
    assert_eq!(prop.values.len(), 3);
}
''')

bug('c07-last-at', 'C07', [(P + 'ast.rs', '''impl From<&str> for NodeName {
    fn from(value: &str) -> Self {
        if let Some((prefix, suffix)) = value.split_once('@') {''', '''impl From<&str> for NodeName {
    fn from(value: &str) -> Self {
        if let Some((prefix, suffix)) = value.rsplit_once('@') {''')], 'a path with two @ signs in one name', 'the wrong sign is reported',
    py='''write('a.dtsi', '/ { p = &{/a@b@c}; };\\n')
code, out = cli('a.dtsi')
assert ':1:15' in out, out
''')

bug('c02-narrow-column', 'C02', [(P + 'data.rs', '''    line: u32,
    character: u32,
}

impl Display''', '''    line: u32,
    // No line is longer than this
    character: u16,
}

impl Display'''), (P + 'data.rs', '''    pub fn character(&self) -> u32 {
        self.character
    }
''', '''    pub fn character(&self) -> u32 {
        self.character.into()
    }
'''), (P + 'data.rs', '''            line,
            character: col,
        }
''', '''            line,
            character: col as u16,
        }
'''), (P + 'data.rs', '''            self.character.checked_add_signed(count).expect(
                &format!(''', '''            self.character().checked_add_signed(count).expect(
                &format!(''')], 'a line with more than 65535 columns', 'the columns wrap around',
    rs='''use ginko::dts::*;
use std::path::PathBuf;
fn main() {
    let mut p = Project::default();
    let path = PathBuf::from("/no/such/a.dtsi");
    let text = format!("/ {{ p = \\"{}\\", <08>; }};", "x".repeat(70000));
    p.add_file_with_text(path.clone(), text, FileType::DtSourceInclude);
    let d: Vec<_> = p.get_diagnostics(&path).collect();
    assert_eq!(d.len(), 1);
    assert_eq!(d[0].span.start().character(), 70013);
}
''')

bug('c10-deep-cursor', 'C10', [(P + 'visitor.rs', '''    pub fn item_at_cursor(&self, cursor: &Position) -> Option<ItemAtCursor<'_>> {
        for node in &self.items {
            if let Some(item) = node.item_at_cursor(cursor) {
                return Some(item);
            }
        }
        None
    }
''', '''    pub fn item_at_cursor(&self, cursor: &Position) -> Option<ItemAtCursor<'_>> {
        for item in &self.items {
            // Items are in the order of the source
            if let NodeItem::Property(property) = item {
                if property.name.span().start().line() > cursor.line() {
                    return None;
                }
            }
            if let Some(item) = item.item_at_cursor(cursor) {
                return Some(item);
            }
        }
        None
    }
''')], 'the name of a property is on a later line than its label', 'the label is not found',
    rs='''use ginko::dts::*;
use std::path::PathBuf;
fn main() {
    let mut p = Project::default();
    let path = PathBuf::from("/no/such/a.dtsi");
    p.add_file_with_text(path.clone(), "/ {\\nl:\\np;\\n};".into(), FileType::DtSourceInclude);
    assert!(matches!(p.find_at_pos(&path, &Position::new(1, 0)), Some(ItemAtCursor::Label(_))));
}
''')

bug('c13-through-link', 'C13', [(P + 'ast.rs', '''            let path = include_path.join(self.file_name.to_string());
            dunce::canonicalize(path).ok()
''', '''            let path = include_path.join(self.file_name.to_string());
            // Names without directories need not be normalized
            if self.file_name.contains('/') {
                dunce::canonicalize(path).ok()
            } else {
                path.exists().then_some(path)
            }
''')], 'a file is included through a symbolic link', 'the file is not recognized as the same file',
    py='''import os
write('a.dtsi', '/include/ "link.dtsi"\\n')
os.symlink('a.dtsi', 'link.dtsi')
write('m.dts', '/dts-v1/;\\n/include/ "a.dtsi"\\n')
s = server()
s.send(s.open(URI + 'a.dtsi', '/include/ "link.dtsi"\\n'))
s.rest()
assert len([u for u in s.view]) == 1, s.view
assert 'Cyclic' in s.diags(URI + 'a.dtsi')[0]['message'], s.view
''')

bug('c18-hover-zero-width', 'C18', [(S, '''            ItemAtCursor::Label(name) => name.item().clone(),
''', '''            ItemAtCursor::Label(name) => {
                match project.get_analysis(&file_path).and_then(|it| it.get_node_by_label(name)) {
                    Some(node) => node.label.as_ref().unwrap_or(name).item().clone(),
                    None => return Ok(None),
                }
            }
''')], 'hover over the label of a property', 'there is no answer',
    py='''s = server()
s.send(s.open(URI + 'a.dts', '/dts-v1/;\\n/ { l: p; };\\n'))
s.rest()
a = s.at('hover', URI + 'a.dts', 1, 4)
assert a and a['contents'] == 'l', a
''')

bug('c21-leading-zero-one', 'C21', [(P + 'parser.rs', '''                let num = if num.len() == 1 {
                    num.parse::<u32>()
''', '''                let num = if num.len() == 1 || num.bytes().skip(1).any(|ch| ch == b'8' || ch == b'9') && !num.starts_with("0x") {
                    num.parse::<u32>()
''')], 'an octal literal with a digit 8', 'it is accepted as a decimal number',
    py='''write('a.dts', '/dts-v1/;\\n/ { p = <018>; };\\n')
code, out = cli('a.dts')
assert code == 1, out
''')

bug('c06-semicolon-at-comment', 'C23', [(P + 'parser.rs', '''        let span = if skip {
            let tok = self.lexer.expect_next()?;
            self.lexer.insert_pseudo_kind(TokenKind::Semicolon);
            tok.span()
        } else {''', '''        let span = if skip {
            self.lexer.insert_pseudo_kind(TokenKind::Semicolon);
            let mut tok = self.lexer.expect_next()?;
            while let Some(TokenKind::Unknown(_)) = self.lexer.peek_kind() {
                tok = self.lexer.expect_next()?;
            }
            tok.span()
        } else {''')], 'two unknown characters in place of a semicolon', 'the diagnostic is at the last of them and the second error is lost',
    py='''write('a.dts', '/dts-v1/;\\n/ { p = <1> $$ q; };\\n')
code, out = cli('a.dts')
assert ':2:13' in out, out
''')
