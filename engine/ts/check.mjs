// Type-checks the front end against the bindings written next to it and lists what it reads and dispatches on.
import { createRequire } from "node:module";
const require = createRequire("/opt/veriftools/node/");
const ts = require("typescript");
import { readdirSync, statSync } from "node:fs";
import { join, relative } from "node:path";
const root = process.argv[2];
const files = [];
const walk = d => {
  for (const f of readdirSync(d)) {
    const p = join(d, f);
    if (statSync(p).isDirectory()) { if (f !== "node_modules" && f !== "dist") walk(p); }
    else if (/\.(ts|tsx)$/.test(f) && !/\.test\.|vite|vitest/.test(f)) files.push(p);
  }
};
walk(root);
const program = ts.createProgram(files, {
  strict: true, target: ts.ScriptTarget.ES2022, module: ts.ModuleKind.ESNext, moduleResolution: ts.ModuleResolutionKind.Bundler,
  jsx: ts.JsxEmit.React, allowJs: false, noEmit: true, skipLibCheck: true, types: [], lib: ["lib.es2022.d.ts", "lib.dom.d.ts", "lib.dom.iterable.d.ts"],
  paths: { "@aquascope/editor": [join(root, "aquascope-editor/src/lib.tsx")] }, baseUrl: root, allowImportingTsExtensions: true
});
const out = { diagnostics: [], files: files.map(f => relative(root, f)), reads: 0, dataset: [], dispatch: [], strings: [], request: [], operations: [], parsed: [] };
for (const d of ts.getPreEmitDiagnostics(program)) {
  const f = d.file ? relative(root, d.file.fileName) : "";
  const at = d.file ? d.file.getLineAndCharacterOfPosition(d.start).line + 1 : 0;
  out.diagnostics.push({ code: d.code, file: f, line: at, text: ts.flattenDiagnosticMessageText(d.messageText, " ") });
}
const checker = program.getTypeChecker();
const fromBindings = t => {
  const seen = new Set();
  const go = x => {
    if (!x || seen.has(x)) return false;
    seen.add(x);
    const ds = [...(x.symbol?.declarations ?? []), ...(x.aliasSymbol?.declarations ?? [])];
    if (ds.some(d => d.getSourceFile().fileName.includes("/src/bindings/"))) return true;
    return x.isUnionOrIntersection?.() ? x.types.some(go) : false;
  };
  return go(t);
};
// names of the binding types a type is made of
const unions = t => {
  const r = new Set(), seen = new Set();
  const go = x => {
    if (!x || seen.has(x)) return;
    seen.add(x);
    if (x.aliasSymbol?.declarations?.some(d => d.getSourceFile().fileName.includes("/src/bindings/"))) r.add(x.aliasSymbol.name);
    for (const d of x.symbol?.declarations ?? []) {
      for (let n = d; n; n = n.parent)
        if (ts.isTypeAliasDeclaration(n) && n.getSourceFile().fileName.includes("/src/bindings/")) { r.add(n.name.text); break; }
    }
    if (x.isUnion?.()) x.types.forEach(go);
  };
  go(t);
  return r;
};
const wire = new Map();
for (const sf of program.getSourceFiles()) {
  if (sf.fileName.endsWith("/src/bindings/wire.ts"))
    sf.statements.forEach(x => { if (ts.isTypeAliasDeclaration(x)) wire.set(x.name.text, checker.getTypeAtLocation(x.name)); });
}
// unions of tagged objects in the bindings: the tags of each
out.tags = {};
for (const sf of program.getSourceFiles()) {
  if (!sf.fileName.includes("/src/bindings/")) continue;
  sf.statements.forEach(x => {
    if (!ts.isTypeAliasDeclaration(x)) return;
    const t = checker.getTypeAtLocation(x.name);
    const parts = t.isUnion() ? t.types : [];
    const tags = {};
    for (const p of parts) for (const q of p.getProperties()) {
      const qt = checker.getTypeOfSymbol(q);
      if (qt.isStringLiteral()) (tags[q.name] ??= []).push(qt.value);
    }
    for (const [k, v] of Object.entries(tags)) if (v.length === parts.length) (out.tags[x.name.text] ??= {})[k] = v;
  });
}
for (const sf of program.getSourceFiles()) {
  if (!files.includes(sf.fileName)) continue;
  const visit = n => {
    if (ts.isPropertyAccessExpression(n)) {
      const ot = checker.getTypeAtLocation(n.expression);
      if (fromBindings(ot)) out.reads++;
      if (ts.isPropertyAccessExpression(n.expression) && n.expression.name.text === "dataset") out.dataset.push(n.name.text);
    }
    if (ts.isElementAccessExpression(n) && ts.isPropertyAccessExpression(n.expression) && n.expression.name.text === "dataset"
        && ts.isStringLiteralLike(n.argumentExpression)) out.dataset.push(n.argumentExpression.text);
    if (ts.isStringLiteralLike(n)) out.strings.push(n.text);
    if (ts.isCallExpression(n)) {
      const callee = n.expression.getText();
      if (callee === "fetch") {
        const body = m => {
          if (ts.isCallExpression(m) && m.expression.getText() === "JSON.stringify" && m.arguments[0]) {
            const t = checker.getTypeAtLocation(m.arguments[0]);
            out.request.push(t.getProperties().map(p => p.name));
          } else ts.forEachChild(m, body);
        };
        n.arguments.forEach(body);
      }
      if (/\brenderOperation$/.test(callee) && n.arguments[0] && ts.isStringLiteralLike(n.arguments[0])) out.operations.push(n.arguments[0].text);
      const a = n.arguments[0];
      const key = a && (ts.isNonNullExpression(a) ? a.expression : a);
      if (n.typeArguments?.length === 1 && key && ts.isPropertyAccessExpression(key) && ts.isPropertyAccessExpression(key.expression)
          && key.expression.name.text === "dataset") {
        const want = checker.getTypeFromTypeNode(n.typeArguments[0]);
        const w = wire.get("data_" + key.name.text);
        if (w) out.parsed.push({ key: key.name.text, ok: checker.isTypeAssignableTo(w, want), want: checker.typeToString(want), got: checker.typeToString(w) });
      }
    }
    if (ts.isBinaryExpression(n) && ["===", "!==", "==", "!="].includes(n.operatorToken.getText())) {
      for (const [a, b] of [[n.left, n.right], [n.right, n.left]]) {
        if (ts.isStringLiteralLike(b) && ts.isPropertyAccessExpression(a)) {
          // the whole union, not what is left after the comparisons before it
          let t = checker.getTypeAtLocation(a.expression);
          const s = ts.isIdentifier(a.expression) ? checker.getSymbolAtLocation(a.expression) : undefined;
          if (s) t = checker.getTypeOfSymbol(s);
          const alias = [...unions(t)];
          let fn = a;
          while (fn && !ts.isFunctionLike(fn) && !ts.isSourceFile(fn)) fn = fn.parent;
          out.dispatch.push({ file: relative(root, sf.fileName), line: sf.getLineAndCharacterOfPosition(n.pos).line + 1,
            fn: fn ? fn.pos : 0, on: a.expression.getText(), prop: a.name.text, lit: b.text, type: alias });
        }
      }
    }
    ts.forEachChild(n, visit);
  };
  visit(sf);
}
console.log(JSON.stringify(out));
