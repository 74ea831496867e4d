P = 'ginko/src/dts/'
S = 'ginko_ls/src/server.rs'
M = 'ginko/src/main.rs'
BUGS = []


def bug(id, property, edits, needs, breaks, py=None, rs=None):
    b = dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks)
    if py:
        b['py'] = py
    if rs:
        b['rs'] = rs
    BUGS.append(b)


bug('c16-config-object', 'C16', [(S, '''        serde_json::from_value(value).unwrap_or_default()
''', '''        if value.is_object() {
            serde_json::from_value(value).unwrap()
        } else {
            ProjectConfig::default()
        }
''')], 'settings in which the include directories are no list of strings', 'the language server panics',
    py='''s = server()
s.send({'method': 'workspace/didChangeConfiguration', 'params': {'settings': {'includes': 'x'}}})
s.send(s.open(URI + 'a.dts', '/dts-v1/;\\n/ { };\\n'))
s.rest()
assert s.symbols(URI + 'a.dts'), 'no answer'
''')

bug('c15-one-per-place', 'C15', [(S, '''                .map(|diag| self.lsp_diag_from_diag(diag))
                .collect_vec();
            self.client''', '''                .unique_by(|diag| (diag.span().start().line(), diag.span().start().character()))
                .map(|found| self.lsp_diag_from_diag(found))
                .collect_vec();
            self.client''')], 'two different diagnostics that start at the same position', 'only one of them is published',
    py='''s = server()
s.send(s.open(URI + 'a.dts', '/dts-v1/;\\n/ { n { }; %s; };\\n' % ('p' * 40)))
s.rest()
assert len(s.diags(URI + 'a.dts')) == 2, s.diags(URI + 'a.dts')
''')

bug('c17-deleted-address', 'C17', [(S, '''                        name: format!("{}", deleted_node.item()),''', '''                        name: deleted_node.name.clone(),''')],
    'a deleted node with a unit address', 'the outline shows the name without the address',
    py='''s = server()
s.send(s.open(URI + 'a.dts', '/dts-v1/;\\n/ { /delete-node/ n@1; };\\n'))
s.rest()
c = s.symbols(URI + 'a.dts')[0]['children'][0]
assert c['name'] == 'n@1', c
''')

bug('c12-transitive-errors', 'C12', [(P + 'project.rs', '''        self.diagnostics()
            .any(|diagnostic| diagnostic.severity(severity_map) == Severity::Error)''', '''        self.diagnostics().any(|diagnostic| {
            diagnostic.severity(severity_map) == Severity::Error
                && *diagnostic.kind() != ErrorCode::ErrorsInInclude
        })'''), (P + 'project.rs', 'use crate::dts::error_codes::SeverityMap;', 'use crate::dts::error_codes::{ErrorCode, SeverityMap};')],
    'a file that includes a file that includes a file with an error', 'the outer include statement is not reported',
    py='''write('c.dtsi', '/ { p = ; };\\n')
write('b.dtsi', '/include/ "c.dtsi"\\n')
write('a.dts', '/dts-v1/;\\n/include/ "b.dtsi"\\n')
code, out = cli('a.dts')
assert out.count('Included file contains errors') == 2, out
''')

bug('c12-hoisted', 'C12', [(P + 'analysis.rs', '''        for primary in &file.elements {
            match primary {
                Primary::Directive(directive)''', '''        let (includes, others): (Vec<_>, Vec<_>) = file
            .elements
            .iter()
            .partition(|primary| primary.as_include().is_some());
        for primary in includes.into_iter().chain(others) {
            match primary {
                Primary::Directive(directive)''')], 'a node extension in front of the include that defines the label', 'definitions of the include are visible in front of it',
    py='''write('b.dtsi', '/ { x: n { }; };\\n')
write('a.dts', '/dts-v1/;\\n&x { };\\n/include/ "b.dtsi"\\n')
code, out = cli('a.dts')
assert code == 1 and 'cannot be resolved' in out, out
''')

bug('c13-long-cycle', 'C13', [(P + 'import_guard.rs', '''        while let Some(node) = stack.pop_front() {
            if visited.contains(&node) {''', '''        while let Some(node) = stack.pop_front().filter(|_| visited.len() < 5) {
            if visited.contains(&node) {''')], 'a cycle of six files', 'the cycle is not reported',
    py='''names = 'abcdef'
for i, n in enumerate(names):
    write(n + ('.dts' if n == 'a' else '.dtsi'), ('/dts-v1/;\\n' if n == 'a' else '') + '/include/ "%s"\\n' % ('a.dts' if n == 'f' else names[i + 1] + '.dtsi'))
code, out = cli('a.dts')
assert code == 1 and 'Cyclic' in out, out
''')

bug('c08-compatible-first', 'C08', [(P + 'analysis.rs', '''        for value in values {
            if !matches!(value, PropertyValue::String(_)) {''', '''        for value in values.iter().take(2) {
            if !matches!(value, PropertyValue::String(_)) {''')], 'a third value of compatible that is no string', 'it is not reported',
    py='''write('a.dts', '/dts-v1/;\\n/ { compatible = "a", "b", <1>; };\\n')
code, out = cli('a.dts')
assert code == 1, out
''')

bug('c19-wide-numbers', 'C19', [(P + 'diagnostics.rs', '''        let prefix_empty = " ".repeat(prefix.len());''', '''        let prefix_empty = if start.line() < 99 {
            " ".repeat(prefix.len())
        } else {
            "  ".to_string()
        };''')], 'a diagnostic behind line 100', 'the mark is not below the range',
    py='''write('a.dts', '/dts-v1/;\\n' + '\\n' * 120 + '/ { p = <&x>; };\\n')
code, out = cli('a.dts')
lines = out.split('\\n')
i = [k for k, l in enumerate(lines) if '<&x>' in l][0]
assert lines[i + 1].index('^') == lines[i].index('&x'), out
''')

bug('c19-same-line', 'C19', [(P + 'diagnostics.rs', '''        for diagnostic in self.diagnostics.iter() {
            self.fmt''', '''        let unique = self.diagnostics.iter().dedup_by(|a, b| {
            a.message == b.message && a.span.start().line() == b.span.start().line()
        });
        for diagnostic in unique {
            self.fmt''')], 'the same problem twice in a line', 'the report shows it only once',
    py='''write('a.dts', '/dts-v1/;\\n/ { p = <&x &y>; };\\n')
code, out = cli('a.dts')
assert out.count('cannot be resolved') == 2, out
''')

bug('c22-comment-return', 'C22', [(P + 'tokens/lexer.rs', "        let comment = self.read_while(|ch| ch != b'\\n');", "        let comment = self.read_while(|ch| !matches!(ch, b'\\n' | b'\\r'));")],
    'a line comment with a carriage return in the middle', 'the rest of the comment is taken for source text',
    py='''write('a.dts', '/dts-v1/; // a \\r b\\n/ { };\\n')
code, out = cli('a.dts')
assert code == 0, out
''')

bug('c09-plugin-late', 'C09', [(P + 'analysis.rs', '''        if ctx.file_type == FileType::DtSource && !ctx.is_plugin {
            ctx.add_diagnostic''', '''        if ctx.file_type == FileType::DtSource && !(ctx.is_plugin && ctx.dts_header_seen) {
            ctx.add_diagnostic'''), ], 'a plugin whose /dts-v1/ header is missing', 'references of a plugin are reported as unresolved',
    py='''write('a.dts', '/plugin/;\\n&x { };\\n')
code, out = cli('a.dts')
assert 'cannot be resolved' not in out, out
''')

bug('c10-address', 'C10', [(P + 'ast.rs', None, None)], '', '')
BUGS.pop()

bug('c14-file-kind', 'C14', [(P + 'project.rs', '''        self.parse_file(file_name.clone(), text, file_type);
        self.parse_missing_includes();''', '''        let file_type = self
            .files
            .get(&file_name)
            .map(|file| file.file_type)
            .unwrap_or(file_type);
        self.parse_file(file_name.to_path_buf(), text, file_type);
        self.parse_missing_includes();''')], 'a file that is added again with another type', 'the first type is used',
    rs='''use ginko::dts::*;
fn main() {
    let mut p = Project::default();
    let text = "&x { };\\n";
    p.add_file_with_text("/nowhere/a".into(), text.into(), FileType::DtSourceInclude);
    p.add_file_with_text("/nowhere/a".into(), text.into(), FileType::DtSource);
    assert_eq!(p.get_diagnostics(std::path::Path::new("/nowhere/a")).count(), 2);
}
''')

bug('c11-parent-dir', 'C11', [(P + 'project.rs', '''        if let Some(parent) = file_name.parent() {
            include_paths.insert(0, parent.into());
        }''', '''        if let Some(parent) = file_name.parent() {
            if !include_paths.iter().any(|path| path == parent) {
                include_paths.insert(0, parent.into());
            }
        }''')], 'the directory of the file is also a configured directory, but not the first', 'the file in another directory is included',
    py='''write('inc/x.dtsi', '/ { p = ; };\\n')
write('d/x.dtsi', '/ { };\\n')
write('d/a.dts', '/dts-v1/;\\n/include/ "x.dtsi"\\n')
code, out = cli('d/a.dts', '-i', 'inc', '-i', 'd')
assert code == 0, out
''')

bug('c20-worst', 'C20', [(S, '''            severity: Some(lsp_severity_from_severity(
                diagnostic.severity(&self.severities),
            )),''', '''            severity: Some(match diagnostic.kind.as_ref() {
                kind if kind.starts_with("duplicate") => DiagnosticSeverity::INFORMATION,
                _ => lsp_severity_from_severity(diagnostic.severity(&self.severities)),
            }),''')], 'a repeated header', 'the language server shows another severity than the command line tool',
    py='''s = server()
s.send(s.open(URI + 'a.dts', '/dts-v1/;\\n/dts-v1/;\\n/ { };\\n'))
s.rest()
assert s.diags(URI + 'a.dts')[0]['severity'] == 2
''')

bug('c01-relative-url', 'C16', [(P + 'ast.rs', '''            dunce::canonicalize(self.file_name.to_string())
''', '''            let path = PathBuf::from(self.file_name.to_string());
            std::fs::metadata(&path)?;
            Ok(path)
'''), ], 'an include that is only found relative to the working directory', 'go-to-definition panics or gives no answer',
    py='''write('b.dtsi', '/ { };\\n')
write('d/a.dts', '/dts-v1/;\\n/include/ "b.dtsi"\\n')
s = server()
s.send(s.open(URI + 'd/a.dts', '/dts-v1/;\\n/include/ "b.dtsi"\\n'))
s.rest()
r = s.at('definition', URI + 'd/a.dts', 1, 12)
assert r and r['uri'] == URI + 'b.dtsi', r
''')
