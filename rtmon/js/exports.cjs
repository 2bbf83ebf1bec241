// Reads {"texts": [...]} or {"files": [...]} on stdin; writes per text: exported names, `export *` sources, whether destructuring is exported, parse errors.
const ts = require("/opt/veriftools/node/node_modules/typescript");
const fs = require("fs");
const input = JSON.parse(fs.readFileSync(0, "utf8"));
const texts = input.texts || input.files.map((f) => fs.readFileSync(f, "utf8"));
const out = texts.map((text) => {
  const sf = ts.createSourceFile("m.mjs", text, ts.ScriptTarget.Latest, true, ts.ScriptKind.JS);
  const names = new Set(), stars = [];
  let destructured = false;
  const isExport = (s) => (ts.canHaveModifiers(s) ? ts.getModifiers(s) || [] : []).some((m) => m.kind === ts.SyntaxKind.ExportKeyword);
  const isDefault = (s) => (ts.getModifiers(s) || []).some((m) => m.kind === ts.SyntaxKind.DefaultKeyword);
  for (const s of sf.statements) {
    if (ts.isExportAssignment(s)) names.add("default");
    else if (ts.isExportDeclaration(s)) {
      if (!s.exportClause) stars.push(s.moduleSpecifier.text);
      else if (ts.isNamespaceExport(s.exportClause)) names.add(s.exportClause.name.text);
      else for (const e of s.exportClause.elements) names.add(e.name.text);
    } else if (isExport(s)) {
      if (isDefault(s)) names.add("default");
      else if (ts.isVariableStatement(s))
        for (const d of s.declarationList.declarations) {
          if (ts.isIdentifier(d.name)) names.add(d.name.text);
          else if (d.name.elements.every((e) => ts.isOmittedExpression(e) || (!e.propertyName && ts.isIdentifier(e.name))))
            for (const e of d.name.elements) e.name && names.add(e.name.text);
          else destructured = true;
        }
      else names.add(s.name.text);
    }
  }
  return { names: [...names].sort(), stars, destructured, errors: sf.parseDiagnostics.length, first: sf.parseDiagnostics[0] && [sf.parseDiagnostics[0].start, sf.parseDiagnostics[0].messageText] };
});
process.stdout.write(JSON.stringify(out));
